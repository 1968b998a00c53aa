"""What a check covered, from the records of its runs."""
from collections import Counter

SECONDS = {"quick": 60, "thorough": 840}
LONGER = {"C06": 90}  # seconds of a quick check that needs more of them

RULES = {}
REAL = ["decomon (all of /repo/src, imported from the working tree)", "keras", "tensorflow or torch", "numpy", "h5py",
        "the file system (in a scratch directory)", "python threads (C06)"]
STUB = ["thread scheduler (C06: who runs is decided by the seed)", "numpy.random draws of refine_box (seeded or extreme)",
        "failing variable assignment, optimizer step, checkpoint read/write (wrappers that raise at the n-th call)",
        "id() as seen by decomon (C07: identities of dead objects are given again)"]


def make(prop, tier, seed, runs, n_obs, n_keys, wall, violations, known, harness):
    ok = [r for r in runs if r["outcome"] == "ok"]
    faults, sites, ops, probes = Counter(), Counter(), Counter(), Counter()
    tot = Counter()
    for r in runs:
        st = r["stats"]
        for k, v in st["faults"].items():
            faults[k] += v
        for k, v in st["sites"].items():
            sites[k] += v
        for o in r["ran"]:
            ops[o] += 1
        for k, v in st.get("probes", {}).items():
            probes[k] += v
        for k in ("ops", "checks", "sound_points", "skipped", "fresh", "sim_events", "switches"):
            tot[k] += st.get(k, 0)
    distinct = {r["digest"] for r in ok if r["stats"]["ops"] - r["stats"]["skipped"] >= 3}
    shapes = {(r["backend"], tuple(r["ran"])) for r in ok}
    inter = set()
    for r in runs:
        inter.update(r["stats"].get("interleavings", []))
    samples = []
    for r in runs:
        if "plan" in r and len(samples) < 2:
            samples.append({"backend": r["backend"], "seed": r["seed"], "plan": r["plan"]["ops"]})
    if not samples:
        samples = [{"backend": r["backend"], "seed": r["seed"], "ran": r["ran"]} for r in ok[:2]]
    h = max(wall, 1e-9) / 3600
    cov = {
        "evaluations": len(runs),
        "distinct_nontrivial": len(distinct),
        "rule": "one case is one simulated run: a seed draws networks, conversions, an operation sequence and its faults; a run"
                " counts as distinct and non-trivial if at least 3 of its operations ran and the digest of everything it did"
                " and observed (operations, fault positions, bounds as bytes) differs from that of every other run",
        "samples": samples,
        "runs_per_hour": round(len(runs) / h),
        "seeds_per_hour": round(len({(r["backend"], r["seed"]) for r in runs}) / h),
        "simulated_time": "none: decomon has no clock, timer or timeout; progress is measured in operations and line events",
        "operations": sum(ops.values()),
        "operations_by_kind": dict(ops.most_common()),
        "operations_skipped": tot["skipped"],
        "invariant_checks": tot["checks"],
        "domain_points_evaluated": tot["sound_points"],
        "fresh_reference_conversions": tot["fresh"],
        "line_events_in_faulted_or_scheduled_calls": tot["sim_events"],
        "faults": dict(faults.most_common()),
        "distinct_fault_sites": len(sites),
        "fault_sites_by_file": dict(Counter(s.rsplit(":", 1)[0] for s in sites.elements()).most_common()),
        "distinct_operation_sequences": len(shapes),
        "thread_switches": tot["switches"],
        "distinct_interleavings": len(inter),
        "cross_process_observations": n_obs,
        "cross_process_questions": n_keys,
        "rare_conditions": dict(probes.most_common()),
        "runs_by_backend": dict(Counter(r["backend"] for r in runs)),
        "hash_seeds": sorted({r["hashseed"] for r in runs}),
        "max_soundness_excess": max([r["stats"]["max_over"] for r in ok if "max_over" in r["stats"]] or [None], key=lambda v: -1 if v is None else v),
        "max_equality_gap": max([r["stats"]["max_eq"] for r in ok if "max_eq" in r["stats"]] or [None], key=lambda v: -1 if v is None else v),
        "real_components": REAL,
        "stub_components": STUB,
        "known_findings_met": known,
        "harness_errors": len(harness),
    }
    return {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "networks small enough for sampling to reach corners; soundness tolerance 5e-5, equality tolerance 2e-5 (relative to the largest value); 1e-5 times finer in the runs in double precision (about 30 %)",
            "soundness is judged on sampled points of each domain (corners towards the worst case of the stated bounds included)",
            "the twin network, rebuilt by the simulator from the specification, predicts what the source network predicts",
        ],
        "wall_s": round(wall, 2), "violations": violations,
    }
