#!/usr/bin/env python3
"""Runs the simulation of one property: check.py PROP [--tier quick|thorough] [--replay FILE] [--seconds N]

Exit 0: the property held on every run. Exit 1 after a line VIOLATION property=<id> replay=<path>.
Exit 2: the check itself failed (nothing decided).
"""
import argparse
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
KNOWN = os.path.join(VERIF, "known-findings.txt")
BACKENDS = ["tensorflow", "torch"]
LANES = {"tensorflow": 3, "torch": 5}  # processes by backend (a run costs about three times more with tensorflow)
HASHSEEDS = [0, 1, 12345, 777, 31337]


def env_for(hashseed, backend):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONHOME", "PYTHONPATH")}
    home = "/opt/vp/keras_home"
    e.update(
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(hashseed), MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="",
        TF_CPP_MIN_LOG_LEVEL="3", TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1", OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", KERAS_BACKEND=backend, TF_ENABLE_ONEDNN_OPTS="0",
    )
    if os.path.isdir(home):
        e["KERAS_HOME"] = home
    return e


def worker(args, hashseed, backend, tmp, tag):
    err = open(os.path.join(tmp, f"{tag}.err"), "w")
    e = env_for(hashseed, backend)
    e["TMPDIR"] = tmp
    return subprocess.Popen([PY, os.path.join(HERE, "worker.py")] + [str(a) for a in args], stdout=err, stderr=err,
                            stdin=subprocess.DEVNULL, env=e, cwd=tmp)


def lines_of(path):
    out = []
    try:
        with open(path) as f:
            for l in f:
                if l.endswith("\n"):
                    out.append(json.loads(l))
    except FileNotFoundError:
        pass
    return out


def run_worker(args, hashseed, backend, tmp, tag, timeout):
    p = worker(args, hashseed, backend, tmp, tag)
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    return lines_of(args[-1])


def vclass(what):
    return re.sub(r"[-+0-9.e\[\]]+", "#", str(what))[:70]


class Check:
    def __init__(self, prop, tier, seed, seconds):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.seconds = seconds
        self.t0 = time.monotonic()
        self.tmp = tempfile.mkdtemp(prefix=f"dsim_{prop}_")
        os.chmod(self.tmp, 0o755)
        self.runs = []
        self.obs = {}
        self.replays = os.path.join(VERIF, "replays")
        self.bad = None

    # ------------------------------------------------------------------ exploration
    def explore(self):
        rounds = 0
        slots = []  # backend, hashseed, lane
        for b in BACKENDS:
            for lane in range(LANES[b]):
                slots.append((b, HASHSEEDS[lane], lane))
        base = random.Random(f"{self.prop}/{self.seed}").randrange(1 << 30)
        deadline = time.monotonic() + self.seconds
        per = 10**9 if self.tier == "quick" else 60
        nxt = {s: base + s[2] for s in slots}
        active = {}
        crashed = 0
        hard = time.monotonic() + self.seconds + 240
        while True:
            left = deadline - time.monotonic()
            for s in slots:
                if s not in active and left > 3 and self.bad is None and not (self.tier == "quick" and s in self.started):
                    out = os.path.join(self.tmp, f"run_{s[0]}_{s[2]}_{rounds}.jsonl")
                    rounds += 1
                    p = worker(["run", self.prop, s[0], self.tier, nxt[s], LANES[s[0]], left, per, out], s[1], s[0], self.tmp, f"run{rounds}")
                    active[s] = [p, out, 0, nxt[s]]
                    self.started.add(s)
            if not active:
                break
            time.sleep(0.2)
            for s, a in list(active.items()):
                alive = a[0].poll() is None
                recs = lines_of(a[1])
                for r in recs[a[2]:]:
                    if "seed" in r:
                        self.take(s, a, r)
                        nxt[s] = r["seed"] + LANES[s[0]]
                a[2] = len(recs)
                if not alive:
                    del active[s]
                    if not any("end" in r for r in recs) and self.bad is None:
                        crashed += 1
                        err = open(os.path.join(self.tmp, [x for x in os.listdir(self.tmp) if x.endswith(".err")][0])).read()
                        self.harness.append(f"worker {s} ended with {a[0].returncode}: {err[-800:]}")
            if self.bad is not None or time.monotonic() > hard:
                for a in active.values():
                    a[0].kill()
                    a[0].wait()
                if self.bad is None and active:
                    self.harness.append(f"{len(active)} workers did not stop")
                break
            if crashed > 3:
                break
        for a in active.values():
            if a[0].poll() is None:
                a[0].kill()
                a[0].wait()

    started = None

    def take(self, slot, a, r):
        r["backend"], r["hashseed"], r["first"] = slot[0], slot[1], a[3]
        if r["outcome"] == "harness":
            self.harness.append(f"seed {r['seed']} {slot[0]} hash {slot[1]}: {r['what'][:300]}\n{(r.get('tb') or '')[-1500:]}")
        elif r["outcome"] == "violation" and self.bad is None:
            self.bad = {"kind": "run", "rec": r}
        for key, val in r.pop("observations", []):
            # the same question asked in other runs, other processes, under other hash seeds
            key = f"{slot[0]}/{key}"
            me = {"backend": slot[0], "hashseed": slot[1], "seed": r["seed"], "val": val}
            if key not in self.obs:
                self.obs[key] = me
            elif not close(self.obs[key]["val"], val) and self.bad is None:
                self.bad = {"kind": "pair", "key": key, "a": self.obs[key], "b": me,
                            "what": f"the same conversion and query ({key}) gave different bounds in two process histories"}
            self.n_obs += 1
        self.runs.append(r)

    # ------------------------------------------------------------------ reporting
    def settle(self):
        """Confirm, minimise and write the replay file of the violation. Returns its path."""
        os.makedirs(self.replays, exist_ok=True)
        if self.bad["kind"] == "pair":
            a, b = self.bad["a"], self.bad["b"]
            rep = {"property": self.prop, "kind": "pair", "key": self.bad["key"].split("/", 1)[1], "what": self.bad["what"],
                   "runs": [{"hashseed": x["hashseed"], "plans": [dict(generate=True, prop=self.prop, backend=x["backend"],
                             seed=x["seed"], tier=self.tier)]} for x in (a, b)]}
            path = self.write(rep)
            ok, what = replay(path, self.tmp)
            return path, what or self.bad["what"], ok
        r = self.bad["rec"]
        rep = {"property": self.prop, "kind": "run", "backend": r["backend"], "hashseed": r["hashseed"], "seed": r["seed"],
               "what": r["what"], "plans": [r["plan"]]}
        path = self.write(rep)
        ok, what = replay(path, self.tmp)
        if not ok:
            # what happened before in that process matters
            prev = list(range(r["first"], r["seed"], LANES[r["backend"]]))
            for n in sorted({1, 4, len(prev)}):
                if not prev or n > len(prev):
                    continue
                rep["plans"] = [dict(generate=True, prop=self.prop, backend=r["backend"], seed=x, tier=self.tier)
                                for x in prev[-n:]] + [r["plan"]]
                path = self.write(rep)
                ok, what = replay(path, self.tmp, timeout=250)
                if ok:
                    break
            return path, what or r["what"], ok
        out = os.path.join(self.tmp, "min.jsonl")
        budget = 60 if self.tier == "quick" else 300
        recs = run_worker(["minimise", path, budget, out], r["hashseed"], r["backend"], self.tmp, "min", budget + 90)
        best = [x for x in recs if x.get("reproduced")]
        if best:
            small = dict(rep, plans=[dict(r["plan"], ops=best[-1]["ops"])], minimised_from=len(r["plan"]["ops"]))
            p2 = self.write(small, "-min")
            ok2, what2 = replay(p2, self.tmp)
            if ok2:
                os.remove(path)
                return p2, what2, True
            os.remove(p2)
        return path, what, True

    def write(self, rep, tag=""):
        h = hashlib.sha256(json.dumps(rep["what"]).encode()).hexdigest()[:8]
        path = os.path.join(self.replays, f"{self.prop}-{rep.get('seed', 'pair')}-{h}{tag}.json")
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        return path

    def evidence(self, violations, known):
        import evidence

        wall = time.monotonic() - self.t0
        ev = evidence.make(self.prop, self.tier, self.seed, self.runs, self.n_obs, len(self.obs), wall, violations, known,
                           self.harness)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        return ev

    n_obs = 0


def close(a, b, tol=2e-5):
    """Nested lists of numbers."""
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def replay(path, tmp, timeout=180):
    """Replays a file in fresh processes. Returns (violated, what)."""
    rep = json.load(open(path))
    if rep["kind"] == "pair":
        vals = []
        for i, run in enumerate(rep["runs"]):
            p = os.path.join(tmp, f"pair{i}.json")
            json.dump({"plans": run["plans"]}, open(p, "w"))
            out = os.path.join(tmp, f"pair{i}.jsonl")
            recs = run_worker(["replay", p, out], run["hashseed"], run["plans"][-1]["backend"], tmp, f"pair{i}", timeout)
            if not recs:
                return False, None
            vals.append(dict((k, v) for k, v in recs[-1]["observations"]).get(rep["key"]))
        return not close(vals[0], vals[1]), rep["what"]
    out = os.path.join(tmp, f"replay_{os.path.basename(path)}l")
    if os.path.exists(out):
        os.remove(out)
    recs = run_worker(["replay", path, out], rep["hashseed"], rep["backend"], tmp, "replay", timeout)
    if recs and recs[-1]["outcome"] == "violation":
        return True, recs[-1]["what"]
    return False, (recs[-1].get("what") if recs else None)


def known_findings(prop):
    """Open findings: lines `finding: property=<id> match=<regular expression> :: <what fails>`."""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, HERE)
    import evidence

    if a.replay:
        tmp = tempfile.mkdtemp(prefix="dsim_replay_")
        try:
            bad, what = replay(os.path.abspath(a.replay), tmp, timeout=600)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print(f"VIOLATION property={a.prop} replay={a.replay}\n  {what}" if bad else f"no violation ({what})")
        return 1 if bad else 0
    seconds = a.seconds or (a.tier == "quick" and evidence.LONGER.get(a.prop)) or evidence.SECONDS[a.tier]
    c = Check(a.prop, a.tier, seed, seconds)
    c.harness, c.started = [], set()
    rc = 0
    try:
        print(f"property {a.prop} tier {a.tier} VERIF_SEED={seed}", flush=True)
        known_hits = []
        c.explore()
        if c.bad is not None:
            path, what, confirmed = c.settle()
            known = [k for k in known_findings(a.prop) if k[0].search(str(what))]
            if known:
                known_hits = known
            else:
                c.evidence(1, [])
                print(f"VIOLATION property={a.prop} replay={path}")
                print(f"  {str(what)[:600]}")
                print(f"  replay in a fresh process: {'reproduced' if confirmed else 'NOT reproduced'}")
                return 1
        ev = c.evidence(0, [k[1] for k in known_hits])
        for k in known_findings(a.prop):
            print(f"KNOWN-FINDING: property={a.prop} {k[1]}")
        n = len([r for r in c.runs if r["outcome"] == "ok"])
        print(f"{n} runs, {ev['coverage']['distinct_nontrivial']} distinct, {ev['coverage']['operations']} operations, "
              f"faults {sum(ev['coverage']['faults'].values())}, {round(time.monotonic() - c.t0)} s")
        if c.harness:
            for h in c.harness[:3]:
                print("HARNESS ERROR", h[:2000])
            rc = 2
        elif n < 16:
            print("too few runs to conclude")
            rc = 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
