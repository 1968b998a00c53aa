"""Properties C06 to C12: plans, operations and invariants."""
import gc
import hashlib
import os

import numpy as np

import faults
import nets
import queries
from engine import BM, EQ_TOL, FORWARD, METHODS, HarnessError, Net, Violation, World, ft, scale_of
from props import (Probed, abort, can_derive, conv_op, eager, freeze_op, gen_conf, gen_dom, gen_via, judge_adv, judge_bounds, noise_ops,
                   reached_adv, settings_op, slope_vars, tunable, tune, weights_op)
from rng import Rng, derive


def model_state(world, model):
    """Everything of a model that a query must leave as it is."""
    conv = world.keras.ops.convert_to_numpy
    dom = getattr(model, "perturbation_domain", None)
    return {
        "weights": [np.array(conv(v)) for v in model.weights],
        "trainability": ([bool(l.trainable) for l in model.layers], [bool(v.trainable) for v in model.weights],
                         len(model.trainable_weights), bool(model.trainable)),
        "layer names": [l.name for l in model.layers],
        "sub-layers and variables": nets.inventory(model) if not hasattr(model, "perturbation_domain") else len(model.variables),
        "domain": {k: v for k, v in vars(dom).items() if isinstance(v, (int, float, str, bool, type(None)))} if dom is not None else None,
        "flags": {k: getattr(model, k, None) for k in ("ibp", "affine", "finetune", "shared", "backward_bounds")},
    }


def same_state(what, a, b, skip=()):
    for k in a:
        if k in skip:
            continue
        if k == "weights":
            ok = len(a[k]) == len(b[k]) and all(np.array_equal(x, y) for x, y in zip(a[k], b[k]))
        else:
            ok = a[k] == b[k]
        if not ok:
            raise Violation(f"{what}: the {k} of the model changed", before=repr(a[k])[:300], now=repr(b[k])[:300])


# ================================================================== C06
def gen_sched(rng, front=0.0):
    s = {"seed": rng.seed31()}
    r = rng.random()
    if rng.chance(front):  # the lines of one of the functions that callers call
        s["p"], s["focus"] = rng.pick([0.1, 0.3, 0.6]), [rng.random(), rng.random(), True]
        return s
    if r < 0.3:
        s["p"], s["focus"] = rng.pick([0.1, 0.3, 0.6]), [rng.random(), rng.random(), rng.chance(0.4)]
    elif r < 0.55:
        s["fracs"] = sorted(round(rng.random(), 4) for _ in range(rng.randint(1, 4)))
    elif r < 0.8:
        s["p"], s["novel"] = rng.pick([0.05, 0.15, 0.4]), 1
    else:
        s["p"] = rng.pick([0.003, 0.01, 0.05, 0.3])
    return s


def plan_C06(rng, tier):
    ops = []
    n_nets = rng.randint(1, 3)
    specs = {}
    for k in range(n_nets):
        specs[k] = nets.gen_spec(rng, tail=0.1, small=True, forward_only=rng.chance(0.15))
        ops.append({"op": "net", "k": k, "spec": specs[k]})
    m = 0
    info = {}
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(n_nets)
        op = conv_op(rng, k, m, specs[k], finetune=0.15, shared=0.85)
        ops.append(op)
        info[m] = op
        m += 1
    for _ in range(rng.randint(2, 3 if tier == "quick" else 6)):
        if rng.chance(0.25):
            ops.append(weights_op(rng, rng.randrange(n_nets), specs[0], fault_p=0, hows=["set", "nudge"]))
        tasks = []
        free = [k for k in range(n_nets)]
        twins = rng.chance(0.5)
        if twins:  # the same question to the same model, about different data
            mm = rng.randrange(m)
            q = queries.gen_query(rng, info[mm]["dom"]["t"], nets.n_labels(specs[info[mm]["k"]]), n_max=3, own=True)
            q["random"] = False
            if q.get("sub"):
                q["sub"] = min(q["sub"], 3)
            tasks = [{"t": "q", "m": mm, "query": dict(q, seed=rng.seed31())} for _ in range(rng.pick([2, 2, 3]))]
        for _ in range(0 if twins else rng.randint(2, 4)):
            r = rng.random()
            if r < 0.62 or not free:
                mm = 0 if rng.chance(0.5) else rng.randrange(m)
                t = info[mm]["dom"]["t"]
                if rng.chance(0.2):
                    tasks.append({"t": "raw", "m": mm, "seed": rng.seed31(), "n": rng.randint(1, 3)})
                    continue
                q = queries.gen_query(rng, t, nets.n_labels(specs[info[mm]["k"]]), n_max=3, own=True)
                q["random"] = False
                if q.get("sub"):
                    q["sub"] = min(q["sub"], 4)
                tasks.append({"t": "q", "m": mm, "query": q})
                while len(tasks) < 4 and rng.chance(0.4):  # the same question about other data
                    tasks.append({"t": "q", "m": mm, "query": dict(q, seed=rng.seed31())})
            else:
                k = free.pop(rng.randrange(len(free)))
                if rng.chance(0.4) and not nets.forward_only(specs[k]) and not nets.no_crown(specs[k]):
                    q = queries.gen_query(rng, "box", nets.n_labels(specs[k]), n_max=2)
                    q["random"] = False
                    tasks.append({"t": "net", "k": k, "query": q})
                else:
                    tasks.append({"t": "conv", "k": k, "conf": gen_conf(rng, specs[k], finetune=0.15, shared=0.85), "seed": rng.seed31()})
        op = {"op": "concurrent", "tasks": tasks, "sched": gen_sched(rng, 0.4 if twins else 0.0)}
        if rng.chance(0.35):
            i = rng.randrange(len(tasks))
            op["aborts"] = [[i, round(rng.random(), 4), rng.pick(["mem", "int"])]]
        ops.append(op)
        for _ in range(rng.randint(2, 6) if twins else rng.randint(0, 2) if all(t["t"] in ("q", "raw") for t in tasks) else 0):
            ops.append({"op": "concurrent", "tasks": tasks, "sched": gen_sched(rng, 0.4 if twins else 0.0)})  # the same calls in another order
    return ops


class C06(World):
    _alone = (None, None)  # the last calls made alone, and what they gave

    def task(self, t):
        if t["t"] in ("q", "raw"):
            bm = self.bms.get(t["m"])
            if bm is None:
                return None
            if t["t"] == "raw":
                data = self.data_for(bm.dom, bm.net.spec["dim"], t["seed"], t["n"])
                return lambda: [np.asarray(o, "float64") for o in self.raw_outputs(bm.model, bm.dom, data)]
            args = queries.make_args(self, t["query"], bm.dom, bm.net.spec["dim"], nets.out_dim(bm.net.spec))
            return lambda: queries.as_arrays(queries.call(self, t["query"], bm.model, bm.dom, args))
        net = self.nets.get(t["k"])
        if net is None:
            return None
        if t["t"] == "net":
            args = queries.make_args(self, t["query"], {"t": "box"}, net.spec["dim"], nets.out_dim(net.spec))
            return lambda: queries.as_arrays(queries.call(self, t["query"], net.model, {"t": "box"}, args))
        conf = t["conf"]
        data = self.data_for(conf["dom"], net.spec["dim"], t["seed"], 2)

        def conv():
            m = self.clone(net.model, method=conf["method"], slope=conf["slope"], shared=conf["shared"],
                           **ft(conf), perturbation_domain=self.domain_obj(conf["dom"]))
            return [np.asarray(o, "float64") for o in self.raw_outputs(m, conf["dom"], data)]

        return conv

    def label(self, t):
        if t["t"] in ("q", "net"):
            return f"query {t['query']['q']}" + (" on a network" if t["t"] == "net" else f" on a {self.bms[t['m']].conf['method']} model")
        return f"conversion ({t['conf']['method']})" if t["t"] == "conv" else f"bounds of a {self.bms[t['m']].conf['method']} model"

    def states(self):
        return ({m: model_state(self, b.model) for m, b in self.bms.items()}, {k: model_state(self, n.model) for k, n in self.nets.items()})

    def op_concurrent(self, op):
        todo = [(j, t, self.task(t)) for j, t in enumerate(op["tasks"])]
        todo = [x for x in todo if x[2] is not None]
        if len(todo) < 2:
            return "skip"
        last = self._alone if self._alone[0] == [op["tasks"], self.cur - 1] else (None, None)
        self._alone = (None, None)
        if last[0] is None:
            alone, counts, counters = [], [], []
            for _, t, fn in todo:
                c = faults.Counter()
                with faults.lines(c):
                    _, r = self.lib(f"{self.label(t)}, alone", fn)
                alone.append(r)
                counts.append(c.count)
                counters.append(c)
                self.note(*r)
        else:  # the previous operation made the same calls
            alone, counts, counters = last[1]
        before = self.states()
        total = sum(counts)
        sched = dict(op["sched"])
        if "fracs" in sched:
            sched["points"] = [max(1, int(f * total)) for f in sched.pop("fracs")]
        if "focus" in sched:
            a, b, front = sched["focus"]
            if front:  # the functions that callers call
                fns = {c for x in counters for c in x.codes if c.co_filename.endswith("wrapper.py")}
                fns = sorted(fns, key=lambda c: (c.co_firstlineno, c.co_name))
                sched["focus"] = {fns[int(a * len(fns))]} if fns else faults.pick_function(counters, a, b)
            else:
                sched["focus"] = faults.pick_function(counters, a, b)
        aborts = {}
        for j, frac, exc in op.get("aborts", []):
            i = next((i for i, x in enumerate(todo) if x[0] == j), None)
            if i is not None:
                aborts[i] = [max(1, int(frac * counts[i])), exc]
        s = faults.Scheduler([x[2] for x in todo], sched, aborts)
        try:
            results = s.run()
        except faults.Stalled as e:
            raise Violation("concurrent calls never return" if s.deadlock or s.stalls else str(e), deadlock=s.deadlock, stalls=s.stalls)
        st = self.stats
        st["sim_events"] += s.steps
        st["switches"] = st.get("switches", 0) + len(s.switches)
        st.setdefault("interleavings", []).append(hashlib.sha256(repr((s.switches, s.sites)).encode()).hexdigest()[:16])
        pr = st.setdefault("probes", {})
        for name, v in (("waits for a lock", s.waits), ("stalls", s.stalls), ("aborted threads", len(s.fired))):
            if v:
                pr[name] = pr.get(name, 0) + v
        for w in s.fired.values():
            self.fault_count("thread-abort", w)
        self.schedules[str(self.cur)] = s.switches
        if s.deadlock:
            raise Violation("concurrent calls wait for each other")
        for i, ((_, t, fn), want, got) in enumerate(zip(todo, alone, results)):
            if i in s.fired:
                continue
            if got[0] == "err":
                e = got[1]
                if isinstance(e, Violation):
                    raise e
                raise Violation(f"{self.label(t)} failed because other calls ran at the same time: {type(e).__name__}: {str(e)[:200]}")
            self.assert_close(f"{self.label(t)}, with other calls running at the same time: not what it returns alone",
                              got[1], want, kind="results")
            self.stats["checks"] += 1
        after = self.states()
        for a, b, w in zip(before, after, ("bounds model", "network")):
            for k in a:
                same_state(f"after concurrent calls, {w} {k}", a[k], b[k])
        # and everything still works
        for i, (_, t, fn) in enumerate(todo):
            if i in s.fired or i == 0:
                _, r = self.lib(f"{self.label(t)}, after concurrent calls", fn)
                self.assert_close(f"{self.label(t)}, asked again after concurrent calls", r, alone[i], kind="results")
        self._alone = ([op["tasks"], self.cur], (alone, counts, counters))


# ================================================================== C07
N_SUBJECTS = 40


def subject(backend, i):
    """A conversion and a question about it, the same in every process."""
    rng = Rng("subject", backend, i)
    for _ in range(12):
        spec = nets.gen_spec(rng, tail=0.1, forward_only=rng.chance(0.2), small=rng.chance(0.5), conv_p=0.55)
        conf = gen_conf(rng, spec, finetune=0.2, shared=0.8)
        # some of them are convolutions that a mutation can change without changing any shape
        if i % 4 or nets.dilatable(spec) and "crown" in conf["method"]:
            break
    spec["names"] = rng.pick(["auto", "custom"])
    q = None
    if conf["dom"]["t"] == "box":
        q = queries.gen_query(rng, "box", nets.n_labels(spec), n_max=2)
        q["random"] = False
    return {"i": i, "spec": spec, "conf": conf, "seed": rng.seed31(), "query": q}


def plan_C07(rng, tier):
    backend = "any"
    ops = []
    subs = [subject(backend, rng.randrange(N_SUBJECTS)) for _ in range(rng.pick([1, 1, 2]))]
    for j, s in enumerate(subs):
        ops.append({"op": "reference", "j": j, **s})
    n_nets = rng.randint(1, 2)
    specs = {k: nets.gen_spec(rng, tail=0.1, small=True, forward_only=rng.chance(0.2)) for k in range(n_nets)}
    # networks that look like the subject are the ones likely to be mistaken for it
    for k in specs:
        if rng.chance(0.5):
            specs[k] = nets.mutate(rng.pick(subs)["spec"], rng)
        ops.append({"op": "net", "k": k, "spec": specs[k]})
    m = 0
    for _ in range(rng.randint(5, 9 if tier == "quick" else 18)):
        r = rng.random()
        k = rng.randrange(n_nets)
        if r < 0.34:
            op = conv_op(rng, k, m % 4, specs[k], finetune=0.2, shared=0.8)
            f = rng.random()
            if f < 0.4:
                op["fault"] = abort(rng)
            elif f < 0.6:
                op["fault"] = {"k": "gclines", "at": sorted(max(1, int(10 ** rng.uniform(0, 4.2))) for _ in range(rng.randint(1, 6)))}
            ops.append(op)
            m += 1
        elif r < 0.39:
            ops.append({"op": "drop", "m": rng.randrange(4)})
        elif r < 0.45:
            ops.append({"op": "dropnet", "k": k})
            ops.append({"op": "gc"})
            specs[k] = nets.gen_spec(rng, tail=0.1, small=True, forward_only=rng.chance(0.2)) if rng.chance(0.3) else nets.mutate(rng.pick(subs)["spec"], rng)
            ops.append({"op": "net", "k": k, "spec": specs[k]})
        elif r < 0.49:
            ops.append({"op": "clear"})
        elif r < 0.52:
            ops.append({"op": "gc"})
        elif r < 0.55:
            ops.append(settings_op(rng))
        elif r < 0.66:
            j = rng.randrange(len(subs))
            ops.append({"op": "impostor", "j": j, "spec": nets.mutate(subs[j]["spec"], rng), "seed": rng.seed31()})
            if rng.chance(0.7):
                ops.append(again_op(rng, len(subs)))
                ops[-1]["j"] = j
        elif r < 0.7:
            op = {"op": "badconvert", "k": k, "how": rng.pick(["layer", "method", "domain"])}
            ops.append(op)
        elif r < 0.74:
            ops.append({"op": "wquery", "k": k, "query": queries.gen_query(rng, "box", nets.n_labels(specs[k]), n_max=2)})
            if rng.chance(0.5):
                ops[-1]["fault"] = abort(rng)
        else:
            ops.append(again_op(rng, len(subs)))
    ops.append(again_op(rng, len(subs)))
    return ops


def again_op(rng, n):
    op = {"op": "again", "j": rng.randrange(n), "names": rng.pick(["same", "auto", "custom", "clash", "other"]),
          "fresh": rng.chance(0.6), "twice": rng.chance(0.2)}
    if rng.chance(0.3):
        op["fault"] = {"k": "gclines", "at": sorted(max(1, int(10 ** rng.uniform(0, 4.2))) for _ in range(rng.randint(1, 6)))}
    elif rng.chance(0.25):
        op["fault"] = abort(rng)
    return op


class C07(World):
    def __init__(self, *a):
        super().__init__(*a)
        self.subjects = {}
        self.vids = faults.VirtualIds()
        self.ctx = self.vids.installed()
        self.ctx.__enter__()

    def close(self):
        self.ctx.__exit__(None, None, None)
        if self.vids.reused:
            self.stats.setdefault("probes", {})["identities given again"] = self.vids.reused

    def answer(self, s, net, fault=None, what="conversion"):
        conf = s["conf"]
        dom = conf["dom"]
        st, model = self.lib(f"{what} ({conf['method']})", lambda: self.clone(
            net.model, method=conf["method"], slope=conf["slope"], shared=conf["shared"], **ft(conf),
            perturbation_domain=self.domain_obj(dom)), fault)
        if st != "ok":
            return None
        bm = BM(model, net, conf, dom)
        bm.snapshot = self.net_weights(net)
        data = self.data_for(dom, net.spec["dim"], s["seed"], 2)
        _, ul = self.bounds(bm, data)
        self.last = bm, data
        out = [np.asarray(ul[0]), np.asarray(ul[1])]
        if s["query"] is not None:
            args = queries.make_args(self, s["query"], dom, net.spec["dim"], nets.out_dim(net.spec))
            _, r = self.lib(f"{what}: query {s['query']['q']}", lambda: queries.call(self, s["query"], model, dom, args))
            out += queries.as_arrays(r)
        return out

    def op_reference(self, op):
        net = Net(op["spec"], nets.build(self.keras, op["spec"]))
        out = self.answer(op, net, what="first conversion")
        self.subjects[op["j"]] = (op, net, out)
        self.note(*out)
        self.observations.append([f"subject {op['i']} {self.fx}", np.concatenate([np.ravel(o) for o in out]).tolist()])

    def op_again(self, op):
        s = self.subjects.get(op["j"])
        if s is None:
            return "skip"
        sub, net, want = s
        if op["fresh"]:
            spec = dict(sub["spec"])
            salt = ""
            if op["names"] == "other":
                spec["names"], salt = "custom", "_other"
            elif op["names"] != "same":
                spec["names"] = op["names"]
            net = Net(spec, nets.build(self.keras, spec, salt=salt))
        self.stats["checks"] += 1
        for _ in range(2 if op["twice"] else 1):
            got = self.answer(sub, net, op.get("fault"), what="conversion after other work")
            if got is None:  # aborted: now without fault
                got = self.answer(sub, net, what="conversion after an aborted one")
            self.assert_close(f"{sub['conf']['method']} bounds after other work in the process: not those of the first conversion", got, want)

    def op_impostor(self, op):
        """A network that looks like the one of a subject is converted the same way, then both are forgotten."""
        s = self.subjects.get(op["j"])
        if s is None:
            return "skip"
        conf = s[0]["conf"]
        net = Net(op["spec"], nets.build(self.keras, op["spec"]))
        _, model = self.lib(f"conversion of a similar network ({conf['method']})", lambda: self.clone(
            net.model, method=conf["method"], slope=conf["slope"], shared=conf["shared"], **ft(conf),
            perturbation_domain=self.domain_obj(conf["dom"])))
        bm = BM(model, net, conf, conf["dom"])
        bm.snapshot = self.net_weights(net)
        self.check_bm(bm, op["seed"], f"conversion of a similar network ({conf['method']})", fresh=False, n=2)
        self.last = None
        del bm, model, net
        gc.collect()
        self.fault_count("gc")

    def op_badconvert(self, op):
        """Conversions that the library must refuse."""
        net = self.nets.get(op["k"])
        if net is None:
            return "skip"
        L = self.keras.layers
        try:
            if op["how"] == "layer":
                x = self.keras.Input((3,))
                self.clone(self.keras.Model(x, L.Dense(2)(L.LeakyReLU()(L.Dense(3, activation="elu")(x)))))
            elif op["how"] == "method":
                self.clone(net.model, method="no-such-method")
            else:
                self.clone(net.model, method="crown", perturbation_domain=self.BallDomain(eps=0.1, p=np.inf))
        except Exception:  # noqa
            self.fault_count("refused-conversion")

    def op_wquery(self, op):
        net = self.nets.get(op["k"])
        if net is None or nets.forward_only(net.spec) or nets.no_crown(net.spec) or nets.n_labels(net.spec) < 2 and (
                "adv" in op["query"]["q"] or "check" in op["query"]["q"]):
            return "skip"
        dom = {"t": "box"}
        args = queries.make_args(self, op["query"], dom, net.spec["dim"], nets.out_dim(net.spec))
        with faults.random_draws("seeded", op["query"]["seed"]):
            self.lib(f"query {op['query']['q']} on the network", lambda: queries.call(self, op["query"], net.model, dom, args), op.get("fault"))

    def op_convert(self, op):
        r = World.op_convert(self, op)
        bm = self.bms.get(op["m"])
        if bm is not None and r is None:
            self.check_bm(bm, 5, f"conversion after other work ({bm.conf['method']})", fresh=False, n=2)
        return r


# ================================================================== C08
def linearise(spec):
    for n in spec["nodes"]:
        if n.get("act") not in (None, "softmax"):
            n["act"] = None
        if n["t"] == "act" and (n["f"] != "softmax" or n is not spec["nodes"][-1]):
            n["f"] = "linear"
    return spec


def plan_C08(rng, tier):
    ops = []
    spec = nets.gen_spec(rng, tail=0.08, small=rng.chance(0.6), forward_only=rng.chance(0.2), out_min=2, smooth=rng.chance(0.45))
    if rng.chance(0.25):
        spec = linearise(spec)
    ops.append({"op": "net", "k": 0, "spec": spec})
    m = 0
    info = {}
    for _ in range(rng.pick([1, 1, 2])):
        op = conv_op(rng, 0, m, spec, ball=0.2, finetune=0.1)
        if op["dom"]["t"] == "box" and "out" not in spec and rng.chance(0.15):
            op["bb"] = True
        ops.append(op)
        info[m] = op
        m += 1
    for _ in range(rng.randint(3, 5 if tier == "quick" else 10)):
        if rng.chance(0.12):
            ops.append(weights_op(rng, 0, spec, fault_p=0, hows=["set", "nudge"]))
        if rng.chance(0.12) and not info[m - 1].get("bb"):
            ops.append({"op": "keras_predict", "m": m - 1, "seed": rng.seed31(), "n": rng.randint(2, 7),
                        "bs": [rng.randint(1, 8) for _ in range(rng.randint(1, 3))]})
            continue
        mm = rng.randrange(m)
        t = info[mm]["dom"]["t"]
        on_net = t == "box" and rng.chance(0.12) and not nets.forward_only(spec) and not nets.no_crown(spec)
        kinds = {"box": ["range", "upper", "lower", "adv", "adv", "check", "refine_upper", "refine_lower", "refine_adv", "refine_check"],
                 "ball": ["noise_range", "noise_upper", "noise_lower", "noise_adv"]}[t]
        bb = info[mm].get("bb") and not on_net
        if bb:
            kinds = ["adv"]
        q = queries.gen_query(rng, t, nets.n_labels(spec), kinds=kinds, n_max=6, split=False, layouts=True)
        q["sub"] = 0
        variants = []
        for _ in range(rng.randint(1, 3)):
            v = {"bs": rng.pick([-1, 1, 2, 3, 4, 5, 7, 30])}
            if rng.chance(0.5):
                v["order"] = rng.seed31()
            if rng.chance(0.35):
                v["dup"] = rng.randint(1, 3)
            if rng.chance(0.35):
                v["company"] = [rng.seed31(), rng.randint(1, 3)]
            if q["q"] in ("range", "upper", "lower", "adv") and rng.chance(0.5):
                v["sub"] = rng.randint(2, 17)
            if q["q"].startswith("refine"):
                v["sub"] = rng.randint(1, 9)
                v["random"] = rng.chance(0.6)
                v["draws"] = rng.pick(["seeded", "seeded", "first", "last", "extreme"])
            variants.append(v)
        op = {"op": "split", "m": mm, "query": q, "variants": variants}
        if on_net:
            op["on_net"] = True
        if rng.chance(0.12):
            op["fault"] = abort(rng, 3.7)
        ops.append(op)
    return ops


def split_tol(spec):
    """Batches of different sizes round differently; curved activations over narrow boxes amplify it (chords of narrow
    intervals, choice between chord and tangent), those of relu do not."""
    return 0.05 if nets.smooth(spec) else 3e-4


class C08(World):
    def corners(self, dom, data):
        pts = self.points_in(dom, data, 23, n=40)
        if dom["t"] == "box" and data[0].shape[1] <= 5:
            lo, hi = data
            d = lo.shape[1]
            bits = ((np.arange(2**d)[:, None] >> np.arange(d)) & 1).astype(bool)
            pts = np.concatenate([pts, np.where(bits[None], hi[:, None], lo[:, None])], 1)
        return pts

    def ask(self, model, q, dom, spec, idx, data, labels, v, fault=None):
        """One call of the library on the boxes idx."""
        sub_data = tuple(a[idx] for a in data) if dom["t"] == "box" else data[idx]
        qq = {k: x for k, x in q.items() if k not in ("bs", "sub", "random")}
        if v.get("bs") is not None:
            qq["bs"] = v["bs"]
        if v.get("sub"):
            qq["sub"] = v["sub"]
            qq["random"] = v.get("random", False)
        args = queries.make_args(self, qq, dom, spec["dim"], nets.out_dim(spec), data=sub_data)
        if labels is not None:
            args["source_labels"] = queries.encode(labels[0][idx], q.get("ints"))
            if labels[1] is not None:
                args["target_labels"] = queries.encode(labels[1][idx], q.get("ints"))
        with faults.random_draws(v.get("draws", "seeded"), q["seed"]):
            st, r = self.lib(f"query {q['q']}", lambda: queries.call(self, qq, model, dom, args), fault)
        if st != "ok":
            return None
        res = queries.as_arrays(r)
        for a in res:
            if len(a) != len(idx):
                raise Violation(f"query {q['q']}: {len(a)} answers for {len(idx)} boxes")
        return [a.reshape(len(idx), -1) for a in res]

    def op_split(self, op):
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        q, spec, dom = op["query"], bm.net.spec, bm.dom
        n_out = nets.out_dim(spec)
        n = q["n"]
        model = bm.net.model if op.get("on_net") else bm.model
        extra = 3
        full = self.data_for(dom, spec["dim"], q["seed"], n + extra)
        labels = None
        if "adv" in q["q"] or "check" in q["q"]:
            labels = queries.labels_for(q, n + extra, n_out)
        pts = self.corners(dom, full)
        y = self.twin_predict(spec, self.bm_truth(bm) if not op.get("on_net") else self.net_weights(bm.net), pts.reshape(-1, pts.shape[2]), bm.net)
        y = y.reshape(pts.shape[0], pts.shape[1], -1)
        base = {}
        what = f"query {q['q']} on " + ("a network" if op.get("on_net") else f"a {bm.conf['method']} model")
        kind = q["q"].replace("refine_", "").replace("noise_", "")

        def judge(idx, res, how):
            self.stats["checks"] += 1
            self.stats["sound_points"] += len(idx) * pts.shape[1]
            w = what + how
            if kind == "adv":
                a = {"source_labels": labels[0][idx]}
                if labels[1] is not None:
                    a["target_labels"] = labels[1][idx]
                judge_adv(w, self, q, a, y[idx], res[0])
            elif kind == "check":
                # what is reached for sure cannot be more than what can be reached at most
                top = self.ask(model, dict(q, q="adv"), dom, spec, idx, full, labels, {"bs": -1})[0]
                ex = (res[0] - top).max()
                if not np.all(np.isfinite(res[0])) or ex > 5e-5 * self.tight * scale_of(top, np.minimum(np.abs(res[0]), 1e3)):
                    raise Violation(f"{w}: announces more than what can be reached", excess=float(ex), got=res[0].tolist(), at_most=top.tolist())
                if dom["t"] == "box" and spec["dim"] <= 5 and "sub-boxes" not in how and not bm.model.backward_bounds:
                    # a difference of affine functions is the largest in a corner, and the network reaches at least it there
                    a = {"source_labels": labels[0][idx]}
                    if labels[1] is not None:
                        a["target_labels"] = labels[1][idx]
                    v = reached_adv(q, a, y[idx])
                    ex = np.where(np.isfinite(v), res[0].reshape(-1) - np.where(np.isfinite(v), v, 0.0), -1.0).max()
                    if ex > 5e-5 * self.tight * scale_of(np.where(np.isfinite(v), v, 0.0), np.minimum(np.abs(res[0]), 1e3), y):
                        raise Violation(f"{w}: announces more than what is reached in the corners", excess=float(ex), got=res[0].tolist(), reached=v.tolist())
            else:
                judge_bounds(w, y[idx], res[0] if kind in ("range", "upper") else None, res[-1] if kind in ("range", "lower") else None, self.tight)

        def one_by_one(v, i):
            key = (v.get("sub", 0), i)
            if key not in base:
                base[key] = self.ask(model, q, dom, spec, np.array([i]), full, labels, {"sub": v.get("sub", 0), "bs": -1})
                judge(np.array([i]), base[key], ", asked alone" + (f" with {v['sub']} sub-boxes" if v.get("sub") else ""))
                self.note(*base[key])
                if kind in ("range", "upper", "lower") and not v.get("sub") and not op.get("on_net") and not q["q"].startswith("refine"):
                    # about a whole domain: what the model itself states
                    _, ul = self.bounds(bm, tuple(a[[i]] for a in full) if dom["t"] == "box" else full[[i]])
                    self.assert_close(f"{what}: not the bounds that the model states", base[key],
                                      {"range": ul, "upper": ul[:1], "lower": ul[1:]}[kind], kind="answers")
            return base[key]

        for v in op["variants"]:
            idx = np.arange(n)
            if v.get("dup"):
                idx = np.concatenate([idx, idx[: v["dup"]]])
            if v.get("company"):
                s, c = v["company"]
                idx = np.concatenate([np.arange(n, n + min(c, extra)), idx]) if s % 2 else np.concatenate([idx, np.arange(n, n + min(c, extra))])
            if v.get("order"):
                idx = np.random.default_rng(v["order"]).permutation(idx)
            res = self.ask(model, q, dom, spec, idx, full, labels, v, op.get("fault"))
            if res is None:
                res = self.ask(model, q, dom, spec, idx, full, labels, v)
            how = f", {len(idx)} boxes in batches of {v['bs']}" + (f" with {v['sub']} sub-boxes" if v.get("sub") else "")
            how += " drawn at random" if v.get("random") else ""
            judge(idx, res, how)
            self.note(*res)
            if v.get("random"):
                continue
            if q["q"].startswith("refine") and not v.get("sub"):
                continue
            want = [one_by_one(v, int(i)) for i in idx]
            for j in range(len(res)):
                self.assert_close(f"{what}: not the same answers one box at a time", [res[j]], [np.concatenate([w[j] for w in want])], kind="answers", tol=split_tol(bm.net.spec))

    def op_keras_predict(self, op):
        bm = self.bms.get(op["m"])
        if bm is None or (self.keras.backend.backend() == "tensorflow" and bm.conf["method"] not in FORWARD):
            return "skip"
        data = self.data_for(bm.dom, bm.net.spec["dim"], op["seed"], op["n"])
        z = np.concatenate([data[0][:, None], data[1][:, None]], 1) if bm.dom["t"] == "box" else data
        _, (u, l) = self.bounds(bm, data)
        for bs in op["bs"]:
            st, out = self.lib("predict", lambda: bm.model.predict(z, batch_size=bs, verbose=0))
            u2, l2, _, _ = self.read_bounds(bm.model, bm.dom, data, out)
            self.assert_close(f"predict() of a {bm.conf['method']} model in batches of {bs}, and the model on the whole", (u2, l2), (u, l), tol=split_tol(bm.net.spec))
        self.assert_sound("predict()", u, l, bm.net.spec, self.bm_truth(bm), bm.dom, data, 5, cache=bm.net)


# ================================================================== C09
def plan_C09(rng, tier):
    ops = []
    n_nets = rng.pick([1, 1, 2])
    specs = {}
    for k in range(n_nets):
        specs[k] = nets.gen_spec(rng, tail=0.1, small=rng.chance(0.7), forward_only=rng.chance(0.2))
        ops.append({"op": "net", "k": k, "spec": specs[k]})
    m = 0
    info = {}
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(n_nets)
        op = conv_op(rng, k, m, specs[k], ball=0.35, finetune=0.25, shared=0.8)
        ops.append(op)
        info[m] = op
        m += 1
        if rng.chance(0.3):
            ops.append({"op": "freeze_bm", "m": m - 1, "what": rng.pick(["freeze_weights", "freeze_alpha"])})
    asked = 0
    for _ in range(rng.randint(6, 9 if tier == "quick" else 20)):
        r = rng.random()
        if r < 0.55 or asked == 0:
            mm = rng.randrange(m)
            k = info[mm]["k"]
            on_net = rng.chance(0.12) and not nets.forward_only(specs[k]) and not nets.no_crown(specs[k])
            t = rng.pick(["box", "box", "ball"]) if on_net else info[mm]["dom"]["t"]
            q = queries.gen_query(rng, t, nets.n_labels(specs[k]), n_max=4, layouts=True, own=not on_net)
            if q.get("sub"):
                q["sub"] = min(q["sub"], 4)
            op = {"op": "ask", "j": asked, "m": mm, "query": q, "scribble": rng.chance(0.3)}
            if t == "ball":
                op["dom"] = gen_dom(rng, 1.0)
            if on_net:
                op["on_net"] = True
            asked += 1
        elif r < 0.82:
            op = {"op": "repeat", "j": rng.randrange(asked)}
        elif r < 0.9:
            op = {"op": "rawask", "m": rng.randrange(m), "seed": rng.seed31(), "n": rng.randint(1, 3)}
        elif r < 0.95:
            op = weights_op(rng, rng.randrange(n_nets), specs[0], fault_p=0, hows=["set", "nudge"])
        else:
            op = noise_ops(rng, 0)
        if op["op"] in ("ask", "repeat", "rawask") and rng.chance(0.3):
            op["fault"] = abort(rng, 3.8)
        ops.append(op)
    for j in range(asked):
        if rng.chance(0.5):
            ops.append({"op": "repeat", "j": j})
    return ops


class C09(World):
    def __init__(self, *a):
        super().__init__(*a)
        self.asked = {}
        self.epoch = {}

    def everything(self):
        return ({m: model_state(self, b.model) for m, b in self.bms.items()}, {k: model_state(self, n.model) for k, n in self.nets.items()})

    def do(self, op, ask, fault):
        """One query with everything around it compared."""
        bm = self.bms[ask["m"]]
        q = ask["query"]
        if ask.get("on_net"):
            dom = ask.get("dom", {"t": "box"})
        else:
            dom = bm.dom if bm.dom["t"] == "box" or "own" in q else ask["dom"]
        model = bm.net.model if ask.get("on_net") else bm.model
        args = queries.make_args(self, q, dom, bm.net.spec["dim"], nets.out_dim(bm.net.spec))
        copies = {k: np.array(v, copy=True) for k, v in args.items()}

        def meta_of(v):
            return (v.dtype, v.shape, v.strides, v.flags.writeable) if isinstance(v, np.ndarray) else repr(v)

        meta = {k: meta_of(v) for k, v in args.items()}
        what = f"query {q['q']} on " + ("a network" if ask.get("on_net") else f"a {bm.conf['method']} model")
        before = self.everything()
        with faults.random_draws("seeded", q["seed"]):
            st, r = self.lib(what, lambda: queries.call(self, q, model, dom, args), fault)
        after = self.everything()
        what += " (aborted)" if st != "ok" else ""
        for k in args:
            v = args[k]
            if not np.array_equal(v, copies[k]) or meta[k] != meta_of(v):
                raise Violation(f"{what} modified its argument {k}", before=copies[k].tolist(), now=np.asarray(v).tolist())
        for a, b, w in zip(before, after, ("bounds model", "network")):
            for k in a:
                own = w == "bounds model" and k == ask["m"] and dom["t"] == "ball" and "own" not in q and not ask.get("on_net")
                same_state(f"{what}: {w} {k}", a[k], b[k], skip=("domain",) if own else ())
                if own and st == "ok":
                    d = b[k]["domain"]
                    if abs(d["eps"] - dom["eps"]) > 1e-9 or d["p"] != (np.inf if dom["p"] == "inf" else dom["p"]):
                        raise Violation(f"{what}: the domain is not the one of the query", asked=dom, now=repr(d))
        self.stats["checks"] += 1
        self.unchanged(what)
        if dom["t"] == "ball" and not ask.get("on_net"):
            bm.dom = dict(dom) if st == "ok" else {"t": "ball", "eps": float(bm.model.perturbation_domain.eps),
                                                   "p": "inf" if bm.model.perturbation_domain.p == np.inf else bm.model.perturbation_domain.p}
        if st != "ok":
            return None
        arrays = list(r) if isinstance(r, (tuple, list)) else [r]
        answer = [np.array(a, dtype="float64") for a in arrays]
        for a in answer:
            self.note(a)
        if ask.get("scribble"):
            # the arrays are the caller's now
            for a in arrays:
                if a.flags.writeable:
                    a[...] = -77.0
        self.kept += [(a, np.array(a), what) for a in arrays]
        return answer

    def unchanged(self, what):
        for a, c, w in self.kept:
            if not np.array_equal(a, c, equal_nan=True):
                raise Violation(f"{what} changed an array returned before by {w}")

    def ask_again(self, ask, op):
        bm = self.bms[ask["m"]]
        got = self.do(op, ask, op.get("fault"))
        if got is None:
            got = self.do(op, ask, None)
        key = (ask["j"], self.epoch.get(id(bm.net), 0), repr(bm.dom) if "own" in ask["query"] else None)
        want = self.asked.get(key)
        if want is None:
            self.asked[key] = got
        else:
            self.assert_close(f"query {ask['query']['q']} asked again on a {bm.conf['method']} model", got, want, tol=2e-6, kind="answers")

    def op_ask(self, op):
        if op["m"] not in self.bms:
            return "skip"
        self.plans_asked = getattr(self, "plans_asked", {})
        self.plans_asked[op["j"]] = op
        self.ask_again(op, op)

    def op_repeat(self, op):
        ask = getattr(self, "plans_asked", {}).get(op["j"])
        if ask is None:
            return "skip"
        self.ask_again(ask, op)

    def op_rawask(self, op):
        """The bounds model called directly."""
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        data = self.data_for(bm.dom, bm.net.spec["dim"], op["seed"], op["n"])
        z = np.concatenate([data[0][:, None], data[1][:, None]], 1) if bm.dom["t"] == "box" else data
        c = z.copy()
        before = self.everything()
        st, out = self.lib("bounds model", lambda: bm.model.predict_on_single_batch_np(z), op.get("fault"))
        after = self.everything()
        if not np.array_equal(z, c):
            raise Violation("calling a bounds model modified its input")
        for a, b, w in zip(before, after, ("bounds model", "network")):
            for k in a:
                same_state(f"calling a bounds model: {w} {k}", a[k], b[k])
        self.unchanged("calling a bounds model")
        if st == "ok":
            self.kept += [(a, np.array(a), "a bounds model") for a in out]
            self.note(*out)

    def op_weights(self, op):
        World.op_weights(self, op)
        net = self.nets.get(op["k"])
        self.epoch[id(net)] = self.epoch.get(id(net), 0) + 1

    def final(self):
        self.unchanged("the run")


# ================================================================== C10
def plan_C10(rng, tier):
    ops = []
    n_nets = rng.pick([1, 1, 1, 2])
    specs = {}
    for k in range(n_nets):
        specs[k] = nets.gen_spec(rng, tail=0.1, small=rng.chance(0.6), bn=rng.chance(0.5), forward_only=rng.chance(0.2))
        ops.append({"op": "net", "k": k, "spec": specs[k]})
    m = 0
    info = {}
    saved = False
    for _ in range(rng.randint(7, 11 if tier == "quick" else 20)):
        r = rng.random()
        k = rng.randrange(n_nets)
        if m < 2 or (r < 0.15 and m < 4):
            op = conv_op(rng, k, m, specs[k], ball=0.15, finetune=0.25, shared=0.3)
            if rng.chance(0.15):
                op["fault"] = abort(rng)
            ops.append(op)
            info[m] = op
            m += 1
        elif r < 0.5:
            ops.append(weights_op(rng, k, specs[k], fault_p=0.15))
        elif r < 0.62:
            ops.append({"op": "trainbm", "m": rng.randrange(m), "seed": rng.seed31(), "steps": rng.randint(1, 2)})
            if rng.chance(0.25):
                ops[-1]["fault"] = rng.pick([{"k": "assign", "at": rng.randint(1, 8)}, {"k": "optimizer", "at": rng.randint(1, 2)}])
        elif r < 0.7:
            ops.append({"op": "setbm", "m": rng.randrange(m), "seed": rng.seed31()})
        elif r < 0.75:
            ops.append({"op": "save", "k": k, "f": k})
            saved = True
        elif r < 0.82 and saved:
            ops.append({"op": "load", "k": k, "f": k})
        elif r < 0.88:
            ops.append({"op": "drop", "m": rng.randrange(m)})
            ops.append({"op": "gc"})
        elif r < 0.92:
            ops.append({"op": "freeze_bm", "m": rng.randrange(m), "what": rng.pick(["freeze_weights", "unfreeze_weights"])})
        else:
            ops.append(noise_ops(rng, k))
    return ops


class C10(Probed):
    """Every bounds model has a probe; those of unshared models move only with their own training."""

    moving = None

    def op_convert(self, op):
        r = World.op_convert(self, op)
        bm = self.bms.get(op["m"])
        if bm is not None and r is None:
            self.kinds(bm)
        return r

    def kinds(self, bm):
        """Index of the network's variable that each variable of the model is, or is the copy of."""
        now = self.net_weights(bm.net)
        ids = {id(v): i for i, v in enumerate(bm.net.model.weights)}
        bm.kinds = []
        for v in bm.model.weights:
            i = ids.get(id(v))
            if i is not None and not bm.conf["shared"] and str(v.dtype).startswith("float"):
                raise Violation(f"an unshared {bm.conf['method']} model holds a variable of the network itself")
            if i is None:
                a = np.array(self.keras.ops.convert_to_numpy(v))
                i = next((j for j, w in enumerate(now) if w.shape == a.shape and np.array_equal(w, a)), None)
                if i is not None and bm.conf["shared"] and not np.all(a == a.flat[0] if a.size else True):
                    raise Violation(f"a shared {bm.conf['method']} model holds a copy of a variable of the network")
            bm.kinds.append(i)

    def op_setbm(self, op):
        """New values for the weights that the bounds model holds."""
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        rng = np.random.default_rng(op["seed"])
        self.move(bm, lambda: [v.assign(nets.random_value(bm.net.model.weights[i], rng)) for v, i in zip(bm.model.weights, bm.kinds)
                               if i is not None and "seed" not in bm.net.model.weights[i].name], None, "assigning the weights of")

    def op_trainbm(self, op):
        bm = self.bms.get(op["m"])
        if bm is None or nets.has(bm.net.spec, "bn", "dropout"):
            return "skip"
        data = self.data_for(bm.dom, bm.net.spec["dim"], op["seed"], 3)
        z = np.concatenate([data[0][:, None], data[1][:, None]], 1) if bm.dom["t"] == "box" else data
        keras = self.keras
        outs = bm.model(z)
        rng = np.random.default_rng(op["seed"])
        ys = [np.array(keras.ops.convert_to_numpy(o)) for o in outs]
        ys = [y + rng.normal(0.5, 0.3, y.shape).astype(self.fx) for y in ys]
        if not bm.model.trainable_weights or self.untrainable(bm.net.spec):
            return "skip"

        def go():
            bm.model.compile(optimizer=keras.optimizers.SGD(learning_rate=0.01), loss=["mse"] * len(ys), run_eagerly=True)
            for _ in range(op["steps"]):
                bm.model.train_on_batch(z, ys)

        return self.move(bm, go, op.get("fault"), "training")

    def move(self, bm, fn, fault, verb):
        conv = self.keras.ops.convert_to_numpy
        self.moving = bm  # what is changed, even if it is thrown away afterwards
        before = {k: self.net_weights(n) for k, n in self.nets.items()}
        vals = [np.array(conv(v)) for v in bm.model.weights]
        try:
            st, _ = self.lib(f"{verb} a bounds model", fn, fault)
        except Violation as v:
            if "No gradients" not in v.what and "does not require grad" not in v.what:
                raise
            return "skip"  # nothing in it to train for that loss
        for k, n in self.nets.items():
            now = self.net_weights(n)
            if n is not bm.net or not bm.conf["shared"]:
                if not all(np.array_equal(a, b) for a, b in zip(before[k], now)):
                    raise Violation(f"{verb} {'an unshared' if n is bm.net else 'a'} {bm.conf['method']} model moved "
                                    + ("its network" if n is bm.net else "another network"))
        if not bm.conf["shared"]:
            # the snapshot is now what the model holds
            snap = [np.array(w) for w in bm.snapshot]
            seen = {}
            for v, i in zip(bm.model.weights, bm.kinds):
                if i is None:
                    continue
                a = np.array(conv(v))
                if i in seen and not np.array_equal(seen[i], a):
                    raise Violation(f"{verb} an unshared {bm.conf['method']} model: two copies of a weight of the network differ")
                seen[i] = snap[i] = a
            bm.snapshot = snap
        moved = any(not np.array_equal(a, np.array(conv(v))) for a, v in zip(vals, bm.model.weights))
        bm.tuned = bm.tuned or moved and any(i is None for i in bm.kinds)
        bad = [a for v in bm.model.weights for a in [np.array(conv(v))] if not np.all(np.isfinite(a)) or np.abs(a).max(initial=0) > 1e3]
        if bad:
            self.bms = {k: b for k, b in self.bms.items() if b is not bm}
            if bm.conf["shared"]:
                self.sanitize(bm.net.model, 3)
        if bm.conf["shared"]:
            # same weights on both sides
            for v, i in zip(bm.model.weights, bm.kinds):
                if i is not None and not np.array_equal(np.array(conv(v)), np.array(conv(bm.net.model.weights[i]))):
                    raise Violation(f"{verb} a shared model: it and the network hold different weights")
        return None if st == "ok" else "fault"

    def after(self, op):
        kind = op["op"]
        own = op.get("m") if kind in ("convert", "trainbm", "setbm") else None
        moved_net = None
        if kind in ("weights", "load"):
            moved_net = self.nets.get(op["k"])
        elif kind in ("trainbm", "setbm") and self.moving is not None and self.moving.conf["shared"]:
            moved_net = self.moving.net
        self.moving = None
        for m in list(self.bms):
            bm = self.bms[m]
            if m == own or (bm.conf["shared"] and bm.net is moved_net):
                self.set_probe(m, what=f"after {kind}")
            else:
                self.match_probe(m, f"after {kind}" + (" of the network" if moved_net is bm.net else ""))


# ================================================================== C11
KINDS = ["concat", "concat", "ce", "asym", "radius", "radius"]


def plan_C11(rng, tier):
    ops = []
    spec = nets.gen_spec(rng, small=rng.chance(0.7), bn=rng.chance(0.4), forward_only=rng.chance(0.2), out_min=2)
    if rng.chance(0.15):
        spec = linearise(spec)
    ops.append({"op": "net", "k": 0, "spec": spec})
    m = d = 0
    info = {}
    for _ in range(rng.pick([1, 1, 2])):
        op = conv_op(rng, 0, m, spec, ball=0.35, finetune=0.35, shared=0.8)
        ops.append(op)
        info[m] = op
        m += 1
    last = None
    for _ in range(rng.randint(8, 12 if tier == "quick" else 24)):
        r = rng.random()
        mm = rng.randrange(m)
        if d == 0 or (r < 0.2 and d < 6):
            # the radius needs affine bounds over a box
            kinds = [k for k in KINDS if k != "radius" or info[mm]["dom"]["t"] == "box" and info[mm]["method"] in (
                "forward-affine", "forward-hybrid", "crown-forward-affine", "crown-forward-hybrid")
                and info[mm].get("final", [0, True])[1]]
            op = {"op": "derive", "d": d, "m": mm, "what": rng.pick(kinds)}
            d += 1
            last = None
        elif r < 0.5:
            op = {"op": "eval", "d": rng.randrange(d), "seed": rng.seed31(), "n": rng.randint(1, 3)}
            if rng.chance(0.3):
                op["via"] = "predict"
        elif r < 0.6:
            op = weights_op(rng, 0, spec, fault_p=0.1, hows=["set", "nudge", "train"])
        elif r < 0.68:
            op = {"op": "slopes", "m": mm, "seed": rng.seed31()}
        elif r < 0.78:
            op = {"op": "setdomain", "m": mm, "dom": gen_dom(rng, 1.0)}
            if rng.chance(0.3):
                op["through"] = rng.randrange(d)
        elif r < 0.88:
            op = {"op": "trainderived", "d": rng.randrange(d), "seed": rng.seed31(), "steps": rng.randint(1, 2),
                  "loss": rng.pick(["upper", "lower", "adv"]), "frozen": rng.chance(0.5)}
            if rng.chance(0.25):
                op["fault"] = rng.pick([{"k": "assign", "at": rng.randint(1, 6)}, {"k": "optimizer", "at": rng.randint(1, 2)}, abort(rng, 4.0)])
        elif r < 0.92:
            op = {"op": "reset", "m": mm}
        elif r < 0.96:
            op = {"op": "query", "m": mm, "seed": rng.seed31()}
        else:
            op = noise_ops(rng, 0)
        if op["op"] in ("derive", "eval", "query") and rng.chance(0.12):
            op["fault"] = abort(rng, 3.6)
        ops.append(op)
    for j in range(d):
        ops.append({"op": "eval", "d": j, "seed": rng.seed31(), "n": 2})
    return ops


def lse(u):
    m = u.max(-1, keepdims=True)
    return np.log(np.exp(u - m).sum(-1, keepdims=True)) + m


class C11(Probed):
    def op_derive(self, op):
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        from decomon.metrics import loss as L

        what = op["what"]
        before = model_state(self, bm.model)

        def go():
            r = {}
            if what == "concat":
                r["model"] = L.get_model(bm.model)
                r["upper"], r["lower"] = L.get_upper_loss(bm.model), L.get_lower_loss(bm.model)
                r["adv"] = L.get_adv_loss(bm.model)
                r["adv_sigmoid"] = L.get_adv_loss(bm.model, sigmoid=True)
                r["adv_clip"] = L.get_adv_loss(bm.model, clip_value=-0.25)
                r["adv_softmax"] = L.get_adv_loss(bm.model, softmax=True)
            elif what == "ce":
                r["model"] = L.build_crossentropy_model(bm.model)
            elif what == "asym":
                r["model"] = L.build_asymptotic_crossentropy_model(bm.model)
            else:
                r["model"] = L.build_radius_robust_model(bm.model)
            return r

        if what == "concat" and bm.conf["method"] == "crown" and bm.model.ibp and bm.model.affine:
            return "skip"
        st, r = self.lib(f"deriving a model ({what}) from a {bm.conf['method']} model", go, op.get("fault"))
        same_state(f"deriving a model ({what})", before, model_state(self, bm.model))
        if st != "ok":
            return "fault"
        r["m"], r["what"], r["bm"] = op["m"], what, bm
        self.derived[op["d"]] = r

    def get_derived(self, op, key="d"):
        r = self.derived.get(op[key])
        if r is None or self.bms.get(r["m"]) is not r["bm"]:
            return None
        return r

    def tensor(self, a):
        return self.keras.ops.convert_to_tensor(np.asarray(a, self.fx))

    def np(self, t):
        return np.array(self.keras.ops.convert_to_numpy(t), dtype="float64")

    def op_eval(self, op):
        r = self.get_derived(op)
        if r is None:
            return "skip"
        bm = r["bm"]
        spec, what = bm.net.spec, r["what"]
        dim, n_out = spec["dim"], nets.out_dim(spec)
        data = self.data_for(bm.dom, dim, op["seed"], op["n"])
        z = np.concatenate([data[0][:, None], data[1][:, None]], 1) if bm.dom["t"] == "box" else data
        name = f"{what} model of a {bm.conf['method']} model"
        before = model_state(self, bm.model)
        predict = op.get("via") == "predict" and what in ("concat", "ce") and bm.conf["method"] in FORWARD
        st, y = self.lib(name, lambda: self.tensor(r["model"].predict(z, verbose=0)) if predict else r["model"](z), op.get("fault"))
        same_state(f"evaluating a {name}", before, model_state(self, bm.model))
        if st != "ok":
            y = r["model"](z)
        y = y[0] if isinstance(y, (list, tuple)) else y
        self.stats["checks"] += 1
        # what the bounds model says now
        _, (u, l) = self.bounds(bm, data)
        u_i, l_i, u_a, l_a = bm.parts
        N = len(z)
        pts = self.points_in(bm.dom, data, derive(op["seed"], "pts"), dirs=bm.dirs)
        k, dd = pts.shape[1], pts.shape[2]
        ws = self.bm_truth(bm)
        reached = self.twin_predict(spec, ws, pts.reshape(-1, dd), bm.net).reshape(N, k, n_out)
        sc = scale_of(u, l, *[p for p in (u_i, u_a, l_i, l_a) if p is not None])
        rng = np.random.default_rng(op["seed"])

        def equal(label, got, want, tol=EQ_TOL, s=sc):
            self.stats["max_eq"] = max(self.stats.get("max_eq", 0.0), float(np.abs(got - want).max() / s))
            if got.shape != want.shape or not np.all(np.isfinite(got)) or np.abs(got - want).max() > tol * self.tight * s:
                raise Violation(f"{label} of a {bm.conf['method']} model is not the one of its current bounds",
                                got=got.tolist(), want=want.tolist(), scale=s)

        def above(label, got, low, s=sc):
            if not np.all(np.isfinite(got)) or (low - got).max() > 5e-5 * self.tight * s:
                raise Violation(f"{label} of a {bm.conf['method']} model states more than what holds for the network",
                                got=got.tolist(), reached=low.tolist(), scale=s)

        if what == "concat":
            ref = rng.normal(size=(N, n_out)).astype(self.fx)
            for side in ("upper", "lower"):
                st, v = self.lib(f"{side} loss", lambda: r[side](self.tensor(ref), y))
                got = self.np(v).reshape(1)
                scores = []
                for uu, ll in ((u_i, l_i), (u_a, l_a)):
                    if uu is not None:
                        scores.append((uu - ref if side == "upper" else ref - ll).max(-1))
                equal(f"{side} loss", got, np.min(scores, 0).mean().reshape(1))
                low = (reached.max(1) - ref).max(-1) if side == "upper" else (ref - reached.min(1)).max(-1)
                above(f"{side} loss", got, low.mean().reshape(1))
            if n_out > 1:
                lab = rng.integers(0, n_out, N)
                s = np.eye(n_out)[lab]
                marg = np.array([max((reached[i][:, j] - reached[i][:, lab[i]]).max() for j in range(n_out) if j != lab[i]) for i in range(N)])
                st, v = self.lib("adversarial loss", lambda: r["adv"](self.tensor(s), y))
                got = self.np(v).reshape(1)
                want = [np.array([max(uu[i, j] - ll[i, lab[i]] for j in range(n_out) if j != lab[i]) for i in range(N)])
                        for uu, ll in ((u_i, l_i),) if uu is not None]
                if u_a is not None:
                    want.append(self.affine_margin(bm, data, lab))
                want = np.min(want, 0)
                equal("adversarial loss", got, want.mean().reshape(1))
                above("adversarial loss", got, marg.mean().reshape(1))
                st, v = self.lib("adversarial loss (sigmoid)", lambda: r["adv_sigmoid"](self.tensor(s), y))
                equal("adversarial loss (sigmoid)", self.np(v).reshape(1), (1 / (1 + np.exp(-np.clip(want, -80, 80)))).mean().reshape(1))
                st, v = self.lib("adversarial loss (clipped)", lambda: r["adv_clip"](self.tensor(s), y))
                equal("adversarial loss (clipped)", self.np(v).reshape(1), np.maximum(want, -0.25).mean().reshape(1))
                if sc < 20:
                    st, v = self.lib("adversarial loss (softmax)", lambda: r["adv_softmax"](self.tensor(s), y))
                    e = np.exp(reached - reached.max(-1, keepdims=True))
                    e /= e.sum(-1, keepdims=True)
                    sm = np.array([max((e[i][:, j] - e[i][:, lab[i]]).max() for j in range(n_out) if j != lab[i]) for i in range(N)])
                    above("adversarial loss (softmax)", self.np(v).reshape(1), sm.mean().reshape(1))
        elif what == "ce":
            got = self.np(y).reshape(N, -1)
            want = [-ll + lse(uu) for uu, ll in ((u_i, l_i), (u_a, l_a), (u, l)) if uu is not None]
            i = int(np.argmin([np.abs(got - w).max() if got.shape == w.shape else np.inf for w in want]))
            equal("cross-entropy", got, want[i])
            above("cross-entropy", got, (-reached + lse(reached)).max(1))
        elif what == "asym":
            got = self.np(y).reshape(N, -1)

            def asym(uu, ll):
                out = np.zeros((N, n_out))
                for i in range(n_out):
                    o = [j for j in range(n_out) if j != i]
                    out[:, i] = (uu[:, o] - ll[:, [i]]).max(-1)
                return np.maximum(out, -1)

            want = [asym(uu, ll) for uu, ll in ((u_i, l_i), (u_a, l_a), (u, l)) if uu is not None]
            i = int(np.argmin([np.abs(got - w).max() if got.shape == w.shape else np.inf for w in want]))
            equal("asymptotic cross-entropy", got, want[i])
            marg = np.stack([np.stack([reached[:, :, j] - reached[:, :, i] for j in range(n_out) if j != i], -1).max((1, 2)) for i in range(n_out)], -1)
            above("asymptotic cross-entropy", got, np.maximum(marg, -1))
        else:
            v = self.np(y).reshape(N, -1)
            if v.shape != (N, n_out) or not np.all(np.isfinite(v)):
                raise Violation(f"robustness radius of a {bm.conf['method']} model: wrong answer", got=v.tolist())
            lo, hi = (a.astype("float64") for a in data)
            c, rad = (lo + hi) / 2, (hi - lo) / 2
            w_u, b_u, w_l, b_l = self.affine_parts(bm, data)
            for i in range(n_out):
                # the margins at the certified fraction of the radius
                t = np.clip(1.0 - v[:, i], 0.0, 1.0)
                for j in range(n_out):
                    if j == i:
                        continue
                    w, b = w_u[:, :, j] - w_l[:, :, i], b_u[:, j] - b_l[:, i]
                    mid = (w * c).sum(1) + b
                    wid = np.abs(w * rad).sum(1)
                    worst = np.where(v[:, i] <= 1.0, mid + t * wid, -np.inf)
                    if (worst > 1e-4 * sc).any():
                        raise Violation(f"robustness radius of a {bm.conf['method']} model is not the one of its current bounds",
                                        v=v[:, i].tolist(), margin=worst.tolist(), scale=sc)
                # not smaller than what the bounds give
                best = np.min([np.where((mid := ((w_u[:, :, j] - w_l[:, :, i]) * c).sum(1) + b_u[:, j] - b_l[:, i]) <= 0,
                                        -mid / np.maximum(np.abs((w_u[:, :, j] - w_l[:, :, i]) * rad).sum(1), 1e-7), 0.0)
                               for j in range(n_out) if j != i], 0)
                slack = np.clip(best, 0, 1) - np.where(v[:, i] <= 1, t, 0)
                if (slack > 1e-2).any() and sc < 50:
                    wid = np.max([np.abs((w_u[:, :, j] - w_l[:, :, i]) * rad).sum(1) for j in range(n_out) if j != i], 0)
                    if ((slack > 1e-2) & (wid > 1e-2)).any():
                        raise Violation(f"robustness radius of a {bm.conf['method']} model is smaller than what its current bounds give",
                                        v=v[:, i].tolist(), want=(1 - best).tolist())
                # and for the network
                sub = c[:, None] + (pts.astype("float64") - c[:, None]) * (t * (1 - 1e-3))[:, None, None]
                yy = self.twin_predict(spec, ws, sub.reshape(-1, dd), bm.net).reshape(N, k, n_out)
                marg = np.stack([yy[:, :, j] - yy[:, :, i] for j in range(n_out) if j != i], -1).max((1, 2))
                marg = np.where(v[:, i] <= 1.0, marg, -np.inf)
                if (marg > 1e-4 * sc).any():
                    raise Violation(f"robustness radius of a {bm.conf['method']} model: the network changes its answer within it",
                                    v=v[:, i].tolist(), margin=marg.tolist())
            self.note(v)
            return
        self.note(self.np(y))

    def affine_parts(self, bm, data):
        out = [np.asarray(o, "float64") for o in self.raw_outputs(bm.model, bm.dom, data)]
        if bm.model.ibp:
            _, _, wu, bu, _, wl, bl = out[:7]
        else:
            _, wu, bu, wl, bl = out[:5]
        N, d = (data[0] if bm.dom["t"] == "box" else data).shape
        return wu.reshape(N, d, -1), bu.reshape(N, -1), wl.reshape(N, d, -1), bl.reshape(N, -1)

    def affine_margin(self, bm, data, lab):
        w_u, b_u, w_l, b_l = self.affine_parts(bm, data)
        N, d, n_out = w_u.shape
        res = np.full(N, -np.inf)
        for i in range(N):
            for j in range(n_out):
                if j == lab[i]:
                    continue
                w, b = w_u[i, :, j] - w_l[i, :, lab[i]], b_u[i, j] - b_l[i, lab[i]]
                if bm.dom["t"] == "box":
                    lo, hi = data[0][i].astype("float64"), data[1][i].astype("float64")
                    v = (np.maximum(w, 0) * hi + np.minimum(w, 0) * lo).sum() + b
                else:
                    p = bm.dom["p"]
                    q = 1 if p in ("inf", np.inf) else np.inf if p == 1 else p / (p - 1.0)
                    v = (w * data[i].astype("float64")).sum() + b + bm.dom["eps"] * np.linalg.norm(w, ord=q)
                res[i] = max(res[i], v)
        return res

    def op_slopes(self, op):
        bm = self.bms.get(op["m"])
        if bm is None or not tunable(bm) or not bm.conf["shared"]:
            return "skip"
        rng = np.random.default_rng(op["seed"])
        for v in slope_vars(bm):
            a = rng.random(tuple(v.shape)).astype(self.fx)
            c = getattr(v, "constraint", None)
            if c is not None:
                a = np.array(self.keras.ops.convert_to_numpy(c(self.keras.ops.convert_to_tensor(a))))
            v.assign(a)
        bm.tuned = True

    def op_reset(self, op):
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        self.lib("reset_finetuning", lambda: bm.model.reset_finetuning())
        bm.tuned = False

    def op_setdomain(self, op):
        bm = self.bms.get(op["m"])
        if bm is None or bm.dom["t"] != "ball":
            return "skip"
        model = bm.model
        if op.get("through") is not None:
            r = self.derived.get(op["through"])
            if r is None or r["bm"] is not bm:
                return "skip"
            model = r["model"]
        self.lib("set_domain", lambda: model.set_domain(self.domain_obj(op["dom"])))
        bm.dom = dict(op["dom"])

    def op_trainderived(self, op):
        r = self.get_derived(op)
        if r is None:
            return "skip"
        bm = r["bm"]
        if nets.has(bm.net.spec, "bn", "dropout") or not bm.conf["shared"]:
            return "skip"
        keras = self.keras
        n_out = nets.out_dim(bm.net.spec)
        data = self.data_for(bm.dom, bm.net.spec["dim"], op["seed"], 2)
        z = np.concatenate([data[0][:, None], data[1][:, None]], 1) if bm.dom["t"] == "box" else data
        rng = np.random.default_rng(op["seed"])
        ref = np.eye(n_out)[rng.integers(0, n_out, 2)].astype(self.fx)
        loss = r[op["loss"]] if r["what"] == "concat" else (lambda yt, yp: keras.ops.mean(yt * yp))
        slopes = {id(v) for v in slope_vars(bm)}
        frozen = op["frozen"]
        if frozen and (not tunable(bm) or not can_derive(bm)) or self.untrainable(bm.net.spec):
            return "skip"
        nb = self.net_weights(bm.net)

        def go():
            if frozen:
                bm.model.freeze_weights()
            try:
                r["model"].compile(optimizer=keras.optimizers.SGD(learning_rate=0.05), loss=loss, run_eagerly=True)
                for _ in range(op["steps"]):
                    r["model"].train_on_batch(z, ref)
            finally:
                if frozen:
                    bm.model.unfreeze_weights()

        try:
            st, _ = self.lib(f"training the {r['what']} model of a {bm.conf['method']} model", go, op.get("fault"))
        except Violation as v:
            if "No gradients" in v.what or "does not require grad" in v.what:
                st = "ok"
            else:
                raise
        if st == "fault" and op["fault"]["k"] == "abort":
            bm.model.unfreeze_weights()
        na = self.net_weights(bm.net)
        if frozen and not all(np.array_equal(a, b) for a, b in zip(nb, na)):
            raise Violation("training a derived model moved the frozen weights of the network")
        bm.tuned = bm.tuned or bool(slopes)
        for b in self.bms.values():
            if b.net is bm.net and b is not bm and not b.conf["shared"]:
                pass
        if not all(np.all(np.isfinite(a)) and np.abs(a).max(initial=0) < 50 for a in na):
            self.sanitize(bm.net.model, 3)
        for v in slope_vars(bm):
            a = self.np(v)
            if not np.all(np.isfinite(a)):
                v.assign(np.full(a.shape, 0.5, self.fx))
        return None if st == "ok" else "fault"

    def after(self, op):
        kind = op["op"]
        own = op.get("m") if kind in ("convert", "slopes", "setdomain", "reset") else None
        moved = kind in ("weights", "trainderived")
        for m in list(self.bms):
            bm = self.bms[m]
            if m == own or moved and bm.conf["shared"]:
                self.set_probe(m, what=f"after {kind}")
            else:
                self.match_probe(m, f"after {kind}")


# ================================================================== C12
def plan_C12(rng, tier):
    ops = []
    n_nets = rng.pick([1, 1, 2])
    specs, confs = {}, {}
    tuned = rng.chance(0.3)
    if tuned:
        n_nets = 1
    for k in range(n_nets):
        specs[k] = nets.gen_spec(rng, tail=0.1, small=rng.chance(0.6), bn=rng.chance(0.6), forward_only=not tuned and rng.chance(0.2))
    m = 0
    for k in range(n_nets):
        for _ in range(rng.pick([1, 1, 2])):
            confs[m] = conv_op(rng, k, m, specs[k], ball=0.2, finetune=0.6, shared=0.7)
            if tuned:
                confs[m]["finetune"] = True
            m += 1

    def restart():
        op = {"op": "restart", "gc": rng.chance(0.7)}
        if rng.chance(0.45):
            op["elsewhere"] = True
        return op

    def start(first):
        out = []
        for k in range(n_nets):
            sp = specs[k] if first else dict(specs[k], wseed=rng.seed31())
            out.append({"op": "net", "k": k, "spec": sp})
        order = list(range(m))
        if not first and rng.chance(0.5):
            order.reverse()
        for i in order:
            out.append(dict(confs[i]))
            if rng.chance(0.25):
                out.append(noise_ops(rng, 0))
        return out

    ops += start(True)
    files = []
    if tuned:
        # slopes that were tuned, saved, and loaded in another process by a model that was never asked anything
        mm = rng.randrange(m)
        ops += [{"op": "slopes", "m": mm, "seed": rng.seed31()}] + ([freeze_op(rng, mm)] if rng.chance(0.35) else []) + [
                {"op": "savew", "m": mm, "f": 0},
                restart()] + start(False) + [{"op": "loadw", "m": mm, "f": 0}]
        files.append((0, mm, None))
    for _ in range(rng.randint(1, 2 if tier == "quick" else 5)):
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            mm = rng.randrange(m)
            if r < 0.4:
                ops.append(weights_op(rng, confs[mm]["k"], specs[confs[mm]["k"]], fault_p=0.1))
            elif r < 0.72:
                ops.append({"op": "slopes", "m": mm, "seed": rng.seed31()})
            elif r < 0.84:
                ops.append(freeze_op(rng, mm))
            else:
                ops.append({"op": "setbm", "m": mm, "seed": rng.seed31()})
        for _ in range(rng.randint(1, 3)):
            f = rng.randint(0, 2)
            if rng.chance(0.7):
                op = {"op": "savew", "m": rng.randrange(m), "f": f}
            else:
                op = {"op": "savew", "k": rng.randrange(n_nets), "f": f}
            if "m" in op and rng.chance(0.25):
                op["how"] = "list"
            if rng.chance(0.15):
                op["fault"] = rng.pick([{"k": "h5write", "at": rng.randint(1, 12)}, abort(rng, 3.0)])
            ops.append(op)
            files.append((f, op.get("m"), op.get("k")))
        if rng.chance(0.2):
            ops.append({"op": "damage", "f": rng.randint(0, 2), "how": rng.pick(["short", "torn", "flip", "lost"]), "seed": rng.seed31()})
        if rng.chance(0.8):
            ops.append(restart())
            ops += start(False)
        for _ in range(rng.randint(1, 3)):
            f, mm, k = rng.pick(files)
            if mm is None and k is not None and rng.chance(0.9):
                op = {"op": "loadw", "k": k, "f": f}
            else:
                op = {"op": "loadw", "m": mm if mm is not None and rng.chance(0.9) else rng.randrange(m), "f": f}
            r = rng.random()
            if r < 0.3:
                op["fault"] = {"k": rng.pick(["h5read", "assign"]), "at": rng.randint(1, 14)}
                ops.append(op)
                if rng.chance(0.6):
                    op = {k: v for k, v in op.items() if k != "fault"}  # and again
                    ops.append(op)
            else:
                ops.append(op)
    return ops


class C12(World):
    op_setbm = C10.op_setbm
    move = C10.move
    kinds = C10.kinds

    def op_convert(self, op):
        r = World.op_convert(self, op)
        bm = self.bms.get(op["m"])
        if bm is not None and r is None:
            C10.kinds(self, bm)
        return r

    def op_slopes(self, op):
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        vs = [v for v, i in zip(bm.model.weights, bm.kinds) if i is None and str(v.dtype).startswith("float")]
        if not vs or not bm.conf["finetune"]:
            return "skip"
        rng = np.random.default_rng(op["seed"])
        for v in vs:
            a = rng.random(tuple(v.shape)).astype(self.fx)
            c = getattr(v, "constraint", None)
            if c is not None:
                a = np.array(self.keras.ops.convert_to_numpy(c(self.keras.ops.convert_to_tensor(a))))
            v.assign(a)
        bm.tuned = True

    def op_restart(self, op):
        """What a new process starts with: files only."""
        self.bms, self.nets, self.derived = {}, {}, {}
        self.keras.backend.clear_session()
        if op["gc"]:
            gc.collect()
        self.fault_count("restart in another process" if op.get("elsewhere") else "restart")

    def go_down(self):
        """What there is for the next process, and what the reference model knows of it."""
        return self.files

    def come_up(self, state):
        self.files = state

    def values(self, model):
        return [np.array(self.keras.ops.convert_to_numpy(v)) for v in model.weights]

    def op_savew(self, op):
        owner = self.bms.get(op["m"]) if "m" in op else self.nets.get(op["k"])
        if owner is None:
            return "skip"
        path = os.path.join(self.tmp, f"f{op['f']}.weights.h5")
        if os.path.exists(path):
            os.remove(path)
        before = self.values(owner.model)
        if op.get("how") == "list":

            def save():
                values = owner.model.get_weights()
                with open(path, "wb") as f:
                    np.savez(f, *values)
        else:

            def save():
                owner.model.save_weights(path)

        st, _ = self.lib("save_weights", save, op.get("fault"))
        for a, b in zip(before, self.values(owner.model)):
            if not np.array_equal(a, b):
                raise Violation("saving weights changed them")
        rec = {"path": path, "kind": "bm" if "m" in op else "net", "ok": st == "ok" and not self.swallowed, "w": before, "how": op.get("how"), "spec": dict(owner.net.spec if "m" in op else owner.spec)}
        if "m" in op:
            rec["conf"], rec["dom"], rec["tuned"] = dict(owner.conf), dict(owner.dom), owner.tuned
            data = self.probes_for(owner.dom, owner.net.spec["dim"], 77)
            rec["bounds"] = self.bounds(owner, data)[1]
            self.note(*rec["bounds"])
        else:
            rec["bounds"] = {}
            for m, bm in self.bms.items():
                if bm.net is owner and bm.conf["shared"] and not bm.tuned:
                    data = self.probes_for(bm.dom, bm.net.spec["dim"], 77)
                    rec["bounds"][m] = (dict(bm.conf), dict(bm.dom), self.bounds(bm, data)[1])
        self.files[op["f"]] = rec

    def same_net(self, a, b):
        return {k: v for k, v in a.items() if k != "wseed"} == {k: v for k, v in b.items() if k != "wseed"}

    def op_loadw(self, op):
        owner = self.bms.get(op["m"]) if "m" in op else self.nets.get(op["k"])
        f = self.files.get(op["f"])
        if owner is None or f is None or f["kind"] != ("bm" if "m" in op else "net") or not os.path.exists(f["path"]):
            return "skip"
        spec = owner.net.spec if "m" in op else owner.spec
        net = owner.net if "m" in op else owner
        intact = f["ok"] and self.same_net(f["spec"], spec)
        if "m" in op:
            intact = intact and f["conf"] == owner.conf and f["dom"] == owner.dom
        fault = op.get("fault")
        what = f"load_weights of a {'bounds model' if 'm' in op else 'network'}"
        try:
            if f["how"] == "list":

                def load():
                    with open(f["path"], "rb") as g:
                        z = np.load(g)
                        values = [z[f"arr_{i}"] for i in range(len(z.files))]
                    owner.model.set_weights(values)
            else:

                def load():
                    owner.model.load_weights(f["path"])

            st, _ = self.lib(what, load, fault)
        except Violation:
            if intact:
                raise
            st = "refused"  # a damaged file, or the file of another model: any error will do
        if st != "ok":
            self.stats.setdefault("probes", {})["loads that failed"] = self.stats.get("probes", {}).get("loads that failed", 0) + 1
        good = st == "ok" and intact
        self.settle(owner if "m" in op else None, net, good)
        if good and "m" in op:
            owner.tuned = f["tuned"]
            data = self.probes_for(owner.dom, spec["dim"], 77)
            _, ul = self.bounds(owner, data)
            self.assert_close(f"{what} ({owner.conf['method']}): bounds are not those of when it was saved", ul, f["bounds"], tol=2e-6)
        elif good:
            for m, (conf, dom, want) in f["bounds"].items():
                bm = self.bms.get(m)
                if bm is not None and bm.net is owner and bm.conf == conf and bm.dom == dom and not bm.tuned:
                    data = self.probes_for(dom, spec["dim"], 77)
                    _, ul = self.bounds(bm, data)
                    self.assert_close(f"{what}: bounds of its {conf['method']} model are not those of when it was saved", ul, want, tol=2e-6)
        for m, bm in self.bms.items():
            if bm.net is net:
                self.check_bm(bm, 5, f"after {what} ({st}): {bm.conf['method']} model")
        return None if st == "ok" else "fault"

    def settle(self, bm, net, good):
        """After a load: what the model now holds; meaningless numbers from damaged files replaced."""
        conv = self.keras.ops.convert_to_numpy
        if not good:
            odd = lambda a: not np.all(np.isfinite(a)) or np.abs(a).max(initial=0) > 1e3  # noqa
            for v in net.model.weights:
                a = np.array(conv(v))
                if odd(a) or "variance" in v.name and a.min() < 1e-2:
                    self.sanitize(net.model, 9)
                    break
            if bm is not None:
                for v, i in zip(bm.model.weights, bm.kinds):
                    a = np.array(conv(v))
                    if i is None and str(v.dtype).startswith("float"):
                        if odd(a) or a.min(initial=0) < 0 or a.max(initial=0) > 1:
                            v.assign(np.full(a.shape, 0.5, self.fx))
                    elif not bm.conf["shared"] and (odd(a) or "variance" in net.model.weights[i].name and a.min() < 1e-2):
                        v.assign(nets.random_value(net.model.weights[i], np.random.default_rng(i)))
        if bm is not None:
            bm.tuned = bm.tuned or bool(bm.conf["finetune"])
            if not bm.conf["shared"]:
                snap = [np.array(w) for w in bm.snapshot]
                for v, i in zip(bm.model.weights, bm.kinds):
                    if i is not None:
                        snap[i] = np.array(conv(v))
                bm.snapshot = snap

    def final(self):
        for m, bm in self.bms.items():
            self.check_bm(bm, 31, f"at the end: {bm.conf['method']} model {m}")
