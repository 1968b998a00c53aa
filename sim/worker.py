"""One simulation process: runs seeds of a property, or replays / minimises plans.

  worker.py run PROP BACKEND TIER FIRST STRIDE DEADLINE_S MAX_RUNS OUT
  worker.py replay FILE OUT          (each plan of the file, in order; the last one decides)
  worker.py minimise FILE SECONDS OUT
"""
import copy
import json
import os
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner


def violation_class(r):
    return re.sub(r"[-+0-9.e\[\]]+", "#", str(r.get("what")))[:70] if r["outcome"] == "violation" else None


def emit(f, d):
    f.write(json.dumps(d, default=repr) + "\n")
    f.flush()


def cmd_run(prop, backend, tier, first, stride, seconds, max_runs, out):
    t_end = time.monotonic() + float(seconds)
    keras = runner.boot(backend)
    seed, n = int(first), 0
    with open(out, "w") as f:
        emit(f, {"ready": True})
        while n < int(max_runs) and time.monotonic() < t_end:
            plan = runner.make_plan(prop, backend, seed, tier)
            t = time.monotonic()
            r = runner.execute(plan, keras)
            rec = {"seed": seed, "s": round(time.monotonic() - t, 3), "outcome": r["outcome"], "digest": r["digest"],
                   "stats": r["stats"], "ran": r["ran"], "observations": r["observations"]}
            if n == 0:
                rec["plan"] = plan
            if r["outcome"] != "ok":
                rec.update(what=r["what"], info=r.get("info"), op_index=r["op_index"], op=r.get("op"), tb=r.get("tb"),
                           plan=r.get("plan", plan))
                emit(f, rec)
                break
            emit(f, rec)
            seed += int(stride)
            n += 1
        emit(f, {"end": True})


def cmd_replay(path, out):
    rep = json.load(open(path))
    plans = rep["plans"]
    keras = runner.boot(plans[-1]["backend"])
    with open(out, "w") as f:
        for i, p in enumerate(plans):
            if p.get("generate"):
                p = runner.make_plan(p["prop"], p["backend"], p["seed"], p["tier"])
            r = runner.execute(p, keras)
            if i == len(plans) - 1:
                emit(f, {k: r.get(k) for k in ("outcome", "what", "info", "op_index", "op", "digest", "tb", "observations")})


def size(plan):
    return len(json.dumps(plan["ops"]))


def cmd_minimise(path, seconds, out):
    rep = json.load(open(path))
    plan = rep["plans"][-1]
    keras = runner.boot(plan["backend"])
    t_end = time.monotonic() + float(seconds)
    f = open(out, "w")
    want = [None]
    tries = [0]

    def fails(ops):
        if time.monotonic() > t_end:
            return None
        tries[0] += 1
        p = dict(plan, ops=ops)
        r = runner.execute(copy.deepcopy(p), keras)
        c = violation_class(r)
        if c is not None and (want[0] is None or c == want[0]):
            return r
        return None

    ops = plan["ops"]
    r = fails(ops)
    if r is None:
        emit(f, {"reproduced": False})
        return
    want[0] = violation_class(r)
    ops = ops[: r["op_index"] + 1]
    best = r
    emit(f, {"reproduced": True, "ops": ops})

    def attempt(cand):
        nonlocal ops, best
        r = fails(cand)
        if r is not None:
            ops = cand[: r["op_index"] + 1]
            best = r
            emit(f, {"reproduced": True, "ops": ops, "tries": tries[0]})
            return True
        return False

    # drop operations, in chunks then one by one
    chunk = max(1, len(ops) // 2)
    while chunk >= 1 and time.monotonic() < t_end:
        i = 0
        while i < len(ops) and time.monotonic() < t_end:
            if not attempt(ops[:i] + ops[i + chunk:]):
                i += chunk
        chunk //= 2
    # drop faults and optional parts
    for i in range(len(ops)):
        for key in ("fault", "domref", "default_domain", "aborts", "gcs", "elsewhere"):
            if i < len(ops) and key in ops[i]:
                o = dict(ops[i])
                o.pop(key)
                attempt(ops[:i] + [o] + ops[i + 1:])
        if i < len(ops) and "query" in ops[i]:
            for key in ("sub", "bs", "target", "multi", "layout"):
                if key in ops[i]["query"]:
                    q = {k: v for k, v in ops[i]["query"].items() if k != key}
                    attempt(ops[:i] + [dict(ops[i], query=q)] + ops[i + 1:])
        if i < len(ops) and ops[i]["op"] == "net":
            sp = ops[i]["spec"]
            for key, val in (("nest", None), ("names", "auto")):
                if sp.get(key) not in (None, "auto"):
                    s2 = {k: v for k, v in sp.items() if k != key}
                    if val:
                        s2[key] = val
                    attempt(ops[:i] + [dict(ops[i], spec=s2)] + ops[i + 1:])
        # concurrent schedules: explicit switches, then fewer and fewer
        if i < len(ops) and ops[i]["op"] == "concurrent":
            sched = best.get("schedules", {}).get(str(i))
            if sched is not None and "switches" not in ops[i]["sched"]:
                attempt(ops[:i] + [dict(ops[i], sched={"switches": sched})] + ops[i + 1:])
            if i < len(ops) and "switches" in ops[i]["sched"]:
                c = max(1, len(ops[i]["sched"]["switches"]) // 2)
                while c >= 1 and time.monotonic() < t_end:
                    j = 0
                    while i < len(ops) and j < len(ops[i]["sched"]["switches"]) and time.monotonic() < t_end:
                        sw = ops[i]["sched"]["switches"]
                        if not attempt(ops[:i] + [dict(ops[i], sched={"switches": sw[:j] + sw[j + c:]})] + ops[i + 1:]):
                            j += c
                    c //= 2
            while i < len(ops) and len(ops[i]["tasks"]) > 2:
                for j in range(len(ops[i]["tasks"])):
                    if attempt(ops[:i] + [dict(ops[i], tasks=ops[i]["tasks"][:j] + ops[i]["tasks"][j + 1:])] + ops[i + 1:]):
                        break
                else:
                    break
    emit(f, {"reproduced": True, "ops": ops, "tries": tries[0], "done": True})
    f.close()


if __name__ == "__main__":
    {"run": cmd_run, "replay": cmd_replay, "minimise": cmd_minimise}[sys.argv[1]](*sys.argv[2:])
    sys.stdout.flush()
    import elsewhere

    elsewhere._stop()
    os._exit(0)
