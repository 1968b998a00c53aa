"""Per property: how plans are drawn (plan_*), extra operations and invariants (World subclasses)."""
import gc
import os

import numpy as np

import faults
import nets
import queries
from engine import (BALL_OK, BM, EQ_TOL, FORWARD, METHODS, SLOPES, HarnessError, Net, Violation, World, ft, scale_of)
from rng import Rng, derive



# ------------------------------------------------------------------ drawing helpers
def abort(rng, top=4.4, p_mem=0.5):
    return {"k": "abort", "at": max(1, int(10 ** rng.uniform(0, top))), "exc": "mem" if rng.chance(p_mem) else "int"}


# methods whose bounds can be asked in another form than theirs
FINAL_OK = ["crown-forward-affine", "crown-forward-hybrid", "forward-affine", "forward-hybrid"]


def gen_dom(rng, ball=0.0):
    if rng.chance(ball):
        return {"t": "ball", "eps": round(10 ** rng.uniform(-2.5, 0.2), 5), "p": rng.pick([1, 2, "inf", "inf"])}
    return {"t": "box"}


def gen_conf(rng, spec, ball=0.25, finetune=0.0, shared=1.0, methods=None, domain=None):
    ms = list(methods or METHODS)
    if nets.forward_only(spec):
        ms = [m for m in ms if m in FORWARD] or FORWARD
    if nets.no_crown(spec):
        ms = [m for m in ms if m != "crown"] or FORWARD
    dom = domain or gen_dom(rng, ball)
    if dom["t"] == "ball":
        ms = [m for m in ms if m in BALL_OK] or ["forward-hybrid"]
    m = rng.pick(ms)
    c = {"method": m, "slope": rng.pick(SLOPES, [4, 1, 1, 1, 1] if nets.slopes_ok(spec) else [4, 0, 0, 1, 1]), "shared": rng.chance(shared),
         "finetune": rng.chance(finetune), "dom": dom}
    if c["finetune"] and rng.chance(0.35):
        c["finetune"] = rng.pick(["forward", "backward"])
    if m in FINAL_OK and rng.chance(0.15):
        c["final"] = rng.pick([[True, True], [True, False], [False, True]])  # form of the bounds
    if dom["t"] == "box" and rng.chance(0.3):
        c["default_domain"] = True
    return c


def conv_op(rng, k, m, spec, **kw):
    return {"op": "convert", "k": k, "m": m, **gen_conf(rng, spec, **kw)}


def gen_via(rng, dom_t):
    return rng.pick(["raw", "raw", "range", "upper_lower"]) if dom_t == "box" else rng.pick(["raw", "raw", "noise"])


def weights_op(rng, k, spec, fault_p=0.15, hows=None):
    hows = hows or (["set", "nudge", "layer", "train", "train"] + (["bnstats"] * 3 if nets.has(spec, "bn", "dropout") else []))
    op = {"op": "weights", "k": k, "how": rng.pick(hows), "seed": rng.seed31()}
    if op["how"] == "train":
        op["steps"] = rng.randint(1, 3)
    if op["how"] in ("set", "nudge", "layer", "train") and rng.chance(fault_p):
        op["fault"] = {"k": "assign", "at": rng.randint(1, 8)}
    return op


def noise_ops(rng, k_other):
    """Things that happen in a process besides the operations of interest."""
    if rng.chance(0.3):
        return settings_op(rng)
    return rng.pick([{"op": "gc"}, {"op": "gc"}, {"op": "clear"}])


def settings_op(rng):
    if rng.chance(0.7):
        return {"op": "settings", "what": "format", "val": rng.pick(["channels_first", "channels_first", "channels_last"])}
    return {"op": "settings", "what": "seed", "val": rng.seed31()}


def freeze_op(rng, m):
    return {"op": "freeze_bm", "m": m, "what": rng.pick(["freeze_weights", "freeze_weights", "unfreeze_weights", "freeze_alpha", "unfreeze_alpha"])}


# ================================================================== C01
def plan_C01(rng, tier):
    ops = []
    n_nets = rng.pick([1, 1, 2])
    specs = {}
    for k in range(n_nets):
        specs[k] = nets.gen_spec(rng, tail=0.1, forward_only=rng.chance(0.3))
        ops.append({"op": "net", "k": k, "spec": specs[k]})
    m = 0
    doms = {}
    owner = {}
    saved = []
    n_ops = rng.randint(8, 14 if tier == "quick" else 22)
    while len(ops) < n_ops:
        k = rng.randrange(n_nets)
        r = rng.random()
        if m == 0 or (r < 0.18 and m < 4):
            op = conv_op(rng, k, m, specs[k])
            if rng.chance(0.12):
                op["fault"] = abort(rng)
            ops.append(op)
            doms[m], owner[m] = op["dom"]["t"], k
            m += 1
        elif r < 0.5:
            ops.append(weights_op(rng, k, specs[k]))
            if rng.chance(0.6):
                mm = rng.pick([i for i in owner if owner[i] == k] or [0])
                ops.append({"op": "check", "m": mm, "seed": rng.seed31(), "via": gen_via(rng, doms[mm])})
        elif r < 0.58:
            ops.append({"op": "save", "k": k, "f": rng.randint(0, 1)})
            saved.append(k)
            if rng.chance(0.15):
                ops[-1]["fault"] = {"k": "h5write", "at": rng.randint(1, 10)}
        elif r < 0.63 and saved:
            ops.append({"op": "damage", "f": rng.randint(0, 1), "how": rng.pick(["short", "torn", "flip", "lost"]),
                        "seed": rng.seed31()})
        elif r < 0.72 and saved:
            ops.append({"op": "load", "k": rng.pick(saved), "f": rng.randint(0, 1)})
            if rng.chance(0.4):
                ops[-1]["fault"] = {"k": rng.pick(["h5read", "assign"]), "at": rng.randint(1, 14)}
        elif r < 0.76:
            ops.append({"op": "query", "m": rng.randrange(m), "seed": rng.seed31(), "fault": abort(rng, 3.7)})
        elif r < 0.8:
            ops.append(rng.pick([noise_ops(rng, k), freeze_op(rng, rng.randrange(m))]))
        else:
            mm = rng.randrange(m)
            op = {"op": "check", "m": mm, "seed": rng.seed31(), "via": gen_via(rng, doms[mm])}
            if rng.chance(0.2):
                op["fault"] = abort(rng, 3.7)
            ops.append(op)
    for i in range(m):
        ops.append({"op": "check", "m": i, "seed": rng.seed31()})
    return ops


class C01(World):
    pass


# ================================================================== C02
def plan_C02(rng, tier):
    ops = []
    n_nets = rng.pick([1, 1, 2])
    specs = {}
    for k in range(n_nets):
        specs[k] = nets.gen_spec(rng, tail=0.1, forward_only=rng.chance(0.25))
        if rng.chance(0.15):
            specs[k] = nets.make_odd(specs[k], rng)
        ops.append({"op": "net", "k": k, "spec": specs[k]})
        if rng.chance(0.2):
            ops.append({"op": "freeze_layer", "k": k, "seed": rng.seed31()})
        if rng.chance(0.25):
            ops.append({"op": "weights", "k": k, "how": "train", "seed": rng.seed31(), "steps": 1})
    m = 0
    info = {}
    for _ in range(rng.randint(5, 10 if tier == "quick" else 18)):
        k = rng.randrange(n_nets)
        r = rng.random()
        if specs[k].get("odd") or r > 0.95:
            # a conversion that may be refused, half-way
            op = dict(conv_op(rng, k, m, specs[k], finetune=0.25, shared=0.7), op="try_convert", via=rng.pick(["clone", "clone", "range"]))
            if not specs[k].get("odd"):
                op["bad"] = rng.pick(["method", "slope", "back_bounds", "ball"])
            ops.append(op)
            if r > 0.7 and r < 0.9:
                ops.append({"op": "probe_train", "k": k, "seed": rng.seed31()})
        elif m == 0 or r < 0.45:
            op = conv_op(rng, k, m, specs[k], finetune=0.25, shared=0.7)
            if rng.chance(0.45):
                op["fault"] = abort(rng)
            ops.append(op)
            info[m] = op
            m += 1
        elif r < 0.65:
            mm = rng.pick(list(info))
            q = queries.gen_query(rng, info[mm]["dom"]["t"], nets.n_labels(specs[info[mm]["k"]]), n_max=3)
            op = {"op": "wrapper", "m": mm, "query": q}
            if rng.chance(0.35):
                op["fault"] = abort(rng, 3.7)
            ops.append(op)
        elif r < 0.78:
            # a query on the network itself: it is converted inside the call
            q = queries.gen_query(rng, "box", nets.n_labels(specs[k]), n_max=3)
            op = {"op": "wrapper_net", "k": k, "query": q}
            if rng.chance(0.5):
                op["fault"] = abort(rng)
            ops.append(op)
        elif r < 0.86:
            mm = rng.randrange(m)
            op = {"op": "tune", "m": mm, "seed": rng.seed31(), "epochs": rng.randint(1, 2), "which": rng.pick(["upper", "lower"])}
            if rng.chance(0.4):
                op["fault"] = abort(rng, 4.4)
            ops.append(op)
        elif r < 0.92:
            ops.append({"op": "freeze_bm", "m": rng.randrange(m), "what": rng.pick(["freeze_weights", "unfreeze_weights", "freeze_alpha", "unfreeze_alpha"])})
        elif r < 0.96:
            ops.append({"op": "drop", "m": rng.randrange(m)})
            ops.append({"op": "gc"})
        else:
            ops.append({"op": "probe_save", "k": k})
    for k in range(n_nets):
        ops.append({"op": "probe_save", "k": k})
        ops.append({"op": "probe_train", "k": k, "seed": rng.seed31()})
    return ops


def strip(config):
    if isinstance(config, dict):
        return {k: strip(v) for k, v in config.items() if k != "build_config"}
    if isinstance(config, (list, tuple)):
        return [strip(v) for v in config]
    if isinstance(config, (str, int, float, bool)) or config is None:
        return config
    return repr(type(config))


class Intact(World):
    """Remembers what each network is and compares after every operation."""

    def remember(self, k):
        net = self.nets[k]
        net.pristine = self.portrait(net)

    def portrait(self, net):
        m = net.model
        x = np.random.default_rng(derive("probe", net.spec["wseed"])).normal(size=(5, net.spec["dim"])).astype(self.fx)
        conv = self.keras.ops.convert_to_numpy
        p = {
            "predictions": np.array(conv(m(x, training=False))),
            "weights": self.net_weights(net),
            "names": [l.name for l in m.layers] + [m.name],
            "types": [type(l).__name__ for l in m.layers],
            "sub-layers and variables": nets.inventory(m),
            "config": strip(m.get_config()),
            "trainable flags": [bool(l.trainable) for l in m.layers] + [bool(m.trainable)],
            "variable trainability": [bool(v.trainable) for v in m.weights],
            "trainable weights": len(m.trainable_weights),
            "inputs and outputs": [tuple(m.input_shape), tuple(m.output_shape)],
            "layer activations": [getattr(getattr(l, "activation", None), "__name__", None) for l in m.layers],
        }
        acc = []
        for l in m.layers:
            try:
                acc.append(str(tuple(l.output.shape)))
            except Exception as e:  # noqa
                acc.append(type(e).__name__)
        p["layer outputs"] = acc
        return p

    def compare(self, k, after):
        net = self.nets[k]
        old = getattr(net, "pristine", None)
        if old is None:
            return
        try:
            new = self.portrait(net)
        except Exception as e:
            raise Violation(f"after {after}: the network cannot be used any more: {type(e).__name__}: {str(e)[:200]}")
        for key in old:
            a, b = old[key], new[key]
            if key == "predictions":
                ok = a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-7)
            elif key == "weights":
                ok = len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))
            else:
                ok = a == b
            if not ok:
                raise Violation(f"after {after}: the {key} of the network changed", before=repr(a)[:400], now=repr(b)[:400])

    def after(self, op):
        own = op.get("k") if op["op"] in ("net", "weights", "freeze_layer", "probe_train", "load") else None
        for k in list(self.nets):
            if k == own:
                self.remember(k)
            else:
                self.compare(k, op["op"] + (" (aborted)" if op.get("fault") else ""))


class C02(Intact):
    def op_freeze_layer(self, op):
        net = self.nets.get(op["k"])
        if net is None:
            return "skip"
        ls = [l for l in net.model.layers if l.weights]
        if ls:
            ls[op["seed"] % len(ls)].trainable = False
            net.frozen_layer = op["seed"] % len(ls)

    def op_wrapper(self, op):
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        args = queries.make_args(self, op["query"], bm.dom, bm.net.spec["dim"], nets.out_dim(bm.net.spec))
        with faults.random_draws("seeded", op["query"]["seed"]):
            self.lib(f"query {op['query']['q']}", lambda: queries.call(self, op["query"], bm.model, bm.dom, args), op.get("fault"))

    def op_try_convert(self, op):
        """A conversion that the library may refuse, or not: the network is what it was either way."""
        net = self.nets.get(op["k"])
        if net is None:
            return "skip"
        kw = dict(method=op["method"], slope=op["slope"], shared=op["shared"], **ft(op), perturbation_domain=self.domain_obj(op["dom"]))
        bad = op.get("bad")
        if bad in ("method", "slope"):
            kw[bad] = "no-such-" + bad
        elif bad == "back_bounds":
            n = nets.out_dim(net.spec)
            kw.update(method="crown", back_bounds=[self.keras.Input((n + 2, 3)), self.keras.Input((1,))])
        elif bad == "ball":
            kw.update(method="crown", perturbation_domain=self.BallDomain(eps=0.1, p=3))
        try:
            if op["via"] == "range":
                lo, hi = self.boxes(net.spec["dim"], 3, 2)
                self.decomon.get_range_box(net.model, lo, hi)
            else:
                self.clone(net.model, **kw)
        except Exception:  # noqa
            self.fault_count("refused-conversion")

    def op_wrapper_net(self, op):
        net = self.nets.get(op["k"])
        if net is None or net.spec.get("odd") or nets.forward_only(net.spec) or nets.no_crown(net.spec):
            return "skip"  # the default method does not support these
        dom = {"t": "box"}
        args = queries.make_args(self, op["query"], dom, net.spec["dim"], nets.out_dim(net.spec))
        with faults.random_draws("seeded", op["query"]["seed"]):
            self.lib(f"query {op['query']['q']} on the network", lambda: queries.call(self, op["query"], net.model, dom, args), op.get("fault"))

    def op_tune(self, op):
        return tune(self, op)

    def op_probe_save(self, op):
        """The network can still be saved, and what is saved rebuilds the same network."""
        net = self.nets.get(op["k"])
        if net is None:
            return "skip"
        path = os.path.join(self.tmp, "probe.weights.h5")
        x = np.random.default_rng(7).normal(size=(4, net.spec["dim"])).astype(self.fx)
        conv = self.keras.ops.convert_to_numpy
        want = np.array(conv(net.model(x, training=False)))
        self.lib("saving the network", lambda: net.model.save_weights(path))
        other = nets.build(self.keras, dict(net.spec, wseed=1), salt=op.get("salt", ""))
        self.lib("loading the saved network", lambda: other.load_weights(path))
        got = np.array(conv(other(x, training=False)))
        if not np.allclose(want, got, rtol=1e-5, atol=1e-6):
            raise Violation("a network saved after conversions does not load back the same")
        os.remove(path)
        if not net.rebuildable:
            return
        st, m2 = self.lib("rebuilding the network from its configuration", lambda: self.rebuild(net))
        got = np.array(conv(m2(x, training=False)))
        if not np.allclose(want, got, rtol=1e-5, atol=1e-6):
            raise Violation("a network rebuilt from its configuration after conversions predicts something else")

    def op_net(self, op):
        World.op_net(self, op)
        net = self.nets[op["k"]]
        try:  # some models (functional ones nested in sequential ones) are beyond keras itself
            self.rebuild(net)(np.zeros((1, net.spec["dim"]), self.fx), training=False)
            net.rebuildable = True
        except Exception:  # noqa
            net.rebuildable = False

    def rebuild(self, net):
        m2 = type(net.model).from_config(net.model.get_config())
        if not m2.built:
            m2.build((None, net.spec["dim"]))
        m2.set_weights(net.model.get_weights())
        return m2

    def op_probe_train(self, op):
        """One training step does to the network what it does to a network that was never converted."""
        net = self.nets.get(op["k"])
        if net is None or nets.has(net.spec, "dropout"):
            return "skip"
        if self.untrainable(net.spec):
            return "skip"
        other = Net(net.spec, nets.build(self.keras, net.spec, salt=op.get("salt", "")))
        if getattr(net, "frozen_layer", None) is not None:
            [l for l in other.model.layers if l.weights][net.frozen_layer].trainable = False
        for v, w in zip(other.model.weights, self.net_weights(net)):
            v.assign(w)
        rng = np.random.default_rng(op["seed"])
        x = rng.normal(size=(8, net.spec["dim"])).astype(self.fx)
        y = rng.normal(size=(8, *nets.out_shape(net.spec))).astype(self.fx)

        def step(m):
            m.compile(optimizer=self.keras.optimizers.SGD(learning_rate=0.05), loss="mse", run_eagerly=True)
            m.train_on_batch(x, y)

        self.lib("training the network", lambda: step(net.model))
        step(other.model)
        for a, b in zip(self.net_weights(net), self.net_weights(other)):
            if not np.allclose(a, b, rtol=1e-4, atol=1e-5):
                raise Violation("a network trained after conversions does not learn what it would have learnt",
                                diff=float(np.abs(a - b).max()))


# ================================================================== slope tuning helper
def tune(world, op):
    bm = world.bms.get(op["m"])
    if bm is None or bm.dom["t"] != "box" or nets.has(bm.net.spec, "bn", "dropout"):
        return "skip"
    if not can_derive(bm) or not tunable(bm) or "out" in bm.net.spec or world.untrainable(bm.net.spec):
        return "skip"  # outputs of several dimensions are not tuned
    D = world.decomon
    dim = bm.net.spec["dim"]
    lo, hi = world.boxes(dim, op["seed"], n=op.get("n"))
    fn = D.get_upper_box_tuning if op["which"] == "upper" else D.get_lower_box_tuning

    def go():
        concat = D.get_model(bm.model)
        kw = {"n_sub_boxes": op["sub"]} if "sub" in op else {}
        return fn(bm.model, concat, lo, hi, batch_size=op.get("bs", -1), lr=op.get("lr", 0.1), epochs=op["epochs"], **kw)

    with eager(world.keras):
        st, r = world.lib("tuned bounds", go, op.get("fault"))
    if st != "ok":
        return "fault"
    if len(r) != len(lo):
        raise Violation(f"tuned bounds: {len(r)} answers for {len(lo)} boxes")
    world.last_tuned = np.asarray(r, "float64").reshape(len(lo), -1), (lo, hi)


class eager:
    """Run keras training eagerly (the graph mode of TF does not support backward models)."""

    def __init__(self, keras):
        self.tf = None
        if keras.backend.backend() == "tensorflow":
            import tensorflow as tf

            self.tf = tf

    def __enter__(self):
        if self.tf is not None:
            self.was = self.tf.config.functions_run_eagerly()
            self.tf.config.run_functions_eagerly(True)

    def __exit__(self, *a):
        if self.tf is not None:
            self.tf.config.run_functions_eagerly(self.was)
        return False


def can_derive(bm):
    """Slopes that the bounds depend on: those of relu (those of s-shaped activations may have no effect)."""
    return any(n.get("act") == "relu" or n.get("f") == "relu" for n in nets.live(bm.net.spec))


# ================================================================== probes
class Probed(World):
    """Every bounds model has a probe: fixed data and the bounds it must give on them."""

    def probe_data(self, bm, m):
        return self.probes_for(bm.dom, bm.net.spec["dim"], derive("probe", m, bm.net.spec["wseed"]))

    def set_probe(self, m, fresh=True, what="probe"):
        bm = self.bms[m]
        data = self.probe_data(bm, m)
        _, (u, l) = self.bounds(bm, data)
        dirs = bm.dirs
        ws = self.bm_truth(bm)
        self.assert_sound(f"{what}: model {m} ({bm.conf['method']})", u, l, bm.net.spec, ws, bm.dom, data, 11, dirs=dirs,
                          cache=bm.net)
        if fresh and not bm.tuned and Rng("fresh", self.plan["seed"], self.cur, m).chance(0.45):
            f = self.fresh_bm(bm, weights=ws)
            _, ul2 = self.bounds(f, data)
            self.assert_close(f"{what}: model {m} ({bm.conf['method']}): bounds are not those of a fresh conversion", (u, l), ul2)
        bm.probe = (u, l)

    def match_probe(self, m, what):
        bm = self.bms[m]
        if getattr(bm, "probe", None) is None:
            return
        data = self.probe_data(bm, m)
        _, ul = self.bounds(bm, data)
        self.assert_close(f"{what}: bounds of model {m} ({bm.conf['method']}) changed", ul, bm.probe, tol=EQ_TOL)


# ================================================================== C03
def plan_C03(rng, tier):
    ops = []
    n_nets = rng.pick([1, 1, 2])
    specs = {k: nets.gen_spec(rng, tail=0.1, small=True, forward_only=rng.chance(0.2)) for k in range(n_nets)}
    for k, sp in specs.items():
        ops.append({"op": "net", "k": k, "spec": sp})
    nd = rng.randint(1, 2)
    for d in range(nd):
        ops.append({"op": "domain", "d": d, "dom": gen_dom(rng, 1.0)})
    m = 0
    info = {}
    for _ in range(rng.randint(7, 12 if tier == "quick" else 20)):
        r = rng.random()
        if m == 0 or (r < 0.28 and m < 4) or (m == 1 and r < 0.6):
            k = rng.randrange(n_nets)
            op = conv_op(rng, k, m, specs[k], ball=0.92, finetune=0.1, shared=0.85)
            if op["dom"]["t"] == "ball" and rng.chance(0.7):
                op["domref"] = rng.randrange(nd)
            ops.append(op)
            info[m] = op
            m += 1
        elif r < 0.6:
            mm = rng.randrange(m)
            op = {"op": "setdomain", "m": mm, "dom": gen_dom(rng, 1.0)}
            if rng.chance(0.3):
                op["keep"] = rng.pick(["eps", "p"])  # only the other one changes
            if rng.chance(0.1):
                op["dom"]["eps"] = 0.0
            if rng.chance(0.2):
                op["domref"] = rng.randrange(nd)
            if rng.chance(0.15):
                op["fault"] = abort(rng, 1.7)
            ops.append(op)
        elif r < 0.82:
            mm = rng.randrange(m)
            q = queries.gen_query(rng, "ball", nets.n_labels(specs[info[mm]["k"]]), n_max=3, own=True)
            op = {"op": "noise", "m": mm, "query": q, "dom": gen_dom(rng, 1.0)}
            if rng.chance(0.2):
                op["fault"] = abort(rng, 3.5)
            ops.append(op)
        elif r < 0.87:
            ops.append({"op": "badset", "m": rng.randrange(m)})
        elif r < 0.92:
            ops.append(weights_op(rng, rng.randrange(n_nets), specs[0], fault_p=0, hows=["set", "nudge"]))
        elif r < 0.96:
            ops.append({"op": "predict", "m": rng.randrange(m), "seed": rng.seed31()})
        else:
            ops.append(rng.pick([noise_ops(rng, 0), freeze_op(rng, rng.randrange(m))]))
    for i in range(m):
        ops.append({"op": "check", "m": i, "seed": rng.seed31(), "via": gen_via(rng, info[i]["dom"]["t"])})
    return ops


class C03(Probed):
    def ball(self, op):
        bm = self.bms.get(op["m"])
        return bm if bm is not None and bm.dom["t"] == "ball" else None

    def op_setdomain(self, op):
        bm = self.ball(op)
        if bm is None:
            return "skip"
        if op.get("domref") is not None and op["domref"] in self.doms:
            obj, dom = self.doms[op["domref"]]
            dom = dict(dom)
        else:
            dom = dict(op["dom"])
            if op.get("keep"):
                dom[op["keep"]] = bm.dom[op["keep"]]
            obj = self.domain_obj(dom)
        st, _ = self.lib("set_domain", lambda: bm.model.set_domain(obj), op.get("fault"))
        if st == "ok":
            bm.dom = dom
        else:
            self.either(op["m"], dom)

    def either(self, m, dom):
        """An interrupted change leaves the old domain or the new one, not a mix."""
        bm = self.bms[m]
        old = bm.dom
        stats, self.stats = self.stats, dict(self.stats)
        errs, fits = [], []
        for d in (old, dom):
            bm.dom = d
            try:
                self.set_probe(m, what="after an interrupted domain change")
                fits.append(d)
            except Violation as v:
                errs.append(v)
        self.stats = stats
        if not fits:
            raise errs[0]
        bm.dom = fits[0]
        if len(fits) == 2:
            # cannot tell which of the two: settle it
            bm.model.set_domain(self.domain_obj(old))
        self.set_probe(m, what="after an interrupted domain change")

    def op_noise(self, op):
        bm = self.ball(op)
        if bm is None:
            return "skip"
        new = dict(bm.dom if "own" in op["query"] else op["dom"])
        dim, n_out = bm.net.spec["dim"], nets.out_dim(bm.net.spec)
        args = queries.make_args(self, op["query"], new, dim, n_out)
        st, r = self.lib(f"{op['query']['q']} query", lambda: queries.call(self, op["query"], bm.model, new, args), op.get("fault"))
        if st != "ok":
            self.either(op["m"], new)
            return "fault"
        bm.dom = new
        q = op["query"]["q"]
        res = queries.as_arrays(r)
        x = args["x"]
        pts = self.points_in(new, np.asarray(x, self.fx), 5)
        N, k, d = pts.shape
        y = self.twin_predict(bm.net.spec, self.bm_truth(bm), pts.reshape(-1, d), bm.net).reshape(N, k, -1)
        what = f"noise query {q} on a {bm.conf['method']} model"
        if q == "noise_adv":
            judge_adv(what, self, op["query"], args, y, res[0])
        else:
            u = res[0] if q in ("noise_range", "noise_upper") else None
            l = res[-1] if q in ("noise_range", "noise_lower") else None
            judge_bounds(what, y, u, l, self.tight)

    def op_badset(self, op):
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        obj = self.BoxDomain() if bm.dom["t"] == "ball" else self.BallDomain(eps=0.3, p=2)
        try:
            bm.model.set_domain(obj)
        except Exception:  # noqa
            self.fault_count("rejected-domain")

    def op_predict(self, op):
        """Bounds through keras' own predict (compiled where the backend does so)."""
        bm = self.bms.get(op["m"])
        if bm is None or (self.keras.backend.backend() == "tensorflow" and bm.conf["method"] not in FORWARD):
            return "skip"
        data = self.data_for(bm.dom, bm.net.spec["dim"], op["seed"])
        z = np.concatenate([data[0][:, None], data[1][:, None]], 1) if bm.dom["t"] == "box" else data
        st, out = self.lib("predict", lambda: bm.model.predict(z, verbose=0))
        u, l, _, _ = self.read_bounds(bm.model, bm.dom, data, out)
        _, ul = self.bounds(bm, data)
        self.assert_close("predict() and the model itself", (u, l), ul)
        self.assert_sound("predict()", u, l, bm.net.spec, self.bm_truth(bm), bm.dom, data, 5, cache=bm.net)

    def after(self, op):
        if op["op"] == "weights":
            for m in list(self.bms):
                self.set_probe(m, what="after a weight change")
            return
        own = op.get("m") if op["op"] in ("convert", "setdomain", "noise") else None
        for m in list(self.bms):
            if m == own:
                self.set_probe(m, what=f"after {op['op']}")
            else:
                self.match_probe(m, f"after {op['op']} on another model" if own is not None else f"after {op['op']}")


def judge_bounds(what, y, u, l, tight=1.0):
    """y: (N, k, out) values reached in each domain."""
    N = y.shape[0]
    for b, v, sgn, side in ((u, y.max(1), 1, "upper"), (l, y.min(1), -1, "lower")):
        if b is None:
            continue
        b = b.reshape(N, -1)
        if b.shape != v.shape:
            raise Violation(f"{what}: bounds of shape {b.shape} for values of shape {v.shape}")
        if not np.all(np.isfinite(b)):
            raise Violation(f"{what}: not finite")
        sc = scale_of(v, np.minimum(np.abs(b), 1e3))
        ex = (sgn * (v - b)).max()
        if ex > 5e-5 * tight * sc:
            raise Violation(f"{what}: {side} bound crossed by a point of the domain", excess=float(ex), scale=sc,
                            bound=b.tolist(), reached=v.tolist())


def reached_adv(q, args, y):
    """Largest target-minus-source margin reached by the sampled points, per sample."""
    n, n_out = len(y), y.shape[-1]
    s = queries.as_mask(args["source_labels"], n, n_out).astype(bool)
    t = queries.as_mask(args["target_labels"], n, n_out).astype(bool) if "target_labels" in args else ~s
    N = y.shape[0]
    out = np.full(N, -np.inf)
    for i in range(N):
        if s[i].any() and t[i].any():
            d = y[i][:, t[i]][:, :, None] - y[i][:, s[i]][:, None, :]
            out[i] = d.max()
    return out


def judge_adv(what, world, q, args, y, score):
    v = reached_adv(q, args, y)
    score = np.asarray(score).reshape(-1)
    if score.shape != v.shape:
        raise Violation(f"{what}: {score.shape} scores for {v.shape} boxes")
    sc = scale_of(v, np.minimum(np.abs(score), 1e3), y)
    ex = (v - score).max()
    if not np.all(np.isfinite(score)) or ex > 5e-5 * world.tight * sc:
        i = int(np.argmax(v - score))
        raise Violation(f"{what}: the score is below what a point of the domain reaches"
                        + (" (certified although a counterexample exists)" if score[i] < 0 < v[i] else ""),
                        excess=float(ex), score=score.tolist(), reached=v.tolist())


# ================================================================== C04
def plan_C04(rng, tier):
    ops = []
    bn = rng.chance(0.15)
    spec = nets.gen_spec(rng, small=rng.chance(0.6), bn=bn, forward_only=rng.chance(0.15))
    for n in spec["nodes"]:  # slopes are those of relu mostly
        if n.get("act") in ("sigmoid", "tanh", "softsign") and rng.chance(0.6):
            n["act"] = "relu"
    ops.append({"op": "net", "k": 0, "spec": spec})
    m = 0
    info = {}
    for _ in range(rng.randint(7, 12 if tier == "quick" else 22)):
        r = rng.random()
        if m == 0 or (r < 0.12 and m < 3):
            op = conv_op(rng, 0, m, spec, ball=0.15, finetune=0.92, methods=["crown"] * 3 + ["forward-affine", "forward-hybrid"] * 2 + METHODS)
            ops.append(op)
            info[m] = op
            m += 1
            continue
        mm = rng.randrange(m)
        if r < 0.4:
            ops.append({"op": "slopes", "m": mm, "seed": rng.seed31(), "mode": rng.pick(["uniform", "extreme", "some", "uniform"])})
        elif r < 0.52:
            op = {"op": "step", "m": mm, "seed": rng.seed31(), "loss": rng.pick(["upper", "lower"]), "steps": rng.randint(1, 3),
                  "lr": rng.pick([0.05, 0.5, 5.0]), "opt": rng.pick(["sgd", "adam"])}
            if rng.chance(0.3):
                op["fault"] = rng.pick([abort(rng, 4.3), {"k": "optimizer", "at": rng.randint(1, 3)}])
            ops.append(op)
        elif r < 0.7:
            op = {"op": "tune", "m": mm, "seed": rng.seed31(), "epochs": rng.randint(1, 3), "which": rng.pick(["upper", "lower"]),
                  "lr": rng.pick([0.05, 0.5]), "n": rng.randint(1, 3), "bs": rng.pick([-1, 1, 2])}
            if rng.chance(0.2):
                op["sub"] = rng.randint(2, 4)
            if rng.chance(0.5):
                op["fault"] = rng.pick([abort(rng, 4.3), {"k": "optimizer", "at": rng.randint(1, 4)}])
            ops.append(op)
        elif r < 0.82:
            ops.append({"op": "reset", "m": mm})
            if rng.chance(0.2):
                ops[-1]["fault"] = abort(rng, 2.0)
        elif r < 0.87:
            ops.append(weights_op(rng, 0, spec, fault_p=0.1, hows=["set", "nudge"]))
        else:
            op = {"op": "check", "m": mm, "seed": rng.seed31()}
            if rng.chance(0.2):
                op["fault"] = abort(rng, 3.5)
            ops.append(op)
    for i in range(m):
        ops.append({"op": "check", "m": i, "seed": rng.seed31()})
        ops.append({"op": "reset", "m": i})
    return ops


def slope_vars(bm):
    src = {id(v) for v in bm.net.model.weights}
    return [v for v in bm.model.weights if id(v) not in src and str(v.dtype).startswith("float")]


def tunable(bm):
    """Has slopes of the pass that gives the bounds (those of the forward pass may have no effect on crown ones)."""
    f = bm.conf["finetune"]
    return (f is True or f == ("backward" if bm.conf["method"].startswith("crown") else "forward")) and bool(slope_vars(bm))


class C04(World):
    def op_slopes(self, op):
        bm = self.bms.get(op["m"])
        if bm is None or not bm.conf["finetune"]:
            return "skip"
        rng = np.random.default_rng(op["seed"])
        vs = slope_vars(bm)
        if not vs:
            return "skip"
        for v in vs:
            if op["mode"] == "some" and rng.random() < 0.5:
                continue
            a = rng.random(tuple(v.shape))
            if op["mode"] == "extreme":
                a = np.round(a)
            c = getattr(v, "constraint", None)
            a = a.astype(self.fx)
            if c is not None:
                a = np.array(self.keras.ops.convert_to_numpy(c(self.keras.ops.convert_to_tensor(a))))
            v.assign(a)
        bm.tuned = True
        self.check_bm(bm, op["seed"], f"slopes set by hand, {bm.conf['method']}", fresh=False)

    def op_step(self, op):
        bm = self.bms.get(op["m"])
        if bm is None or nets.has(bm.net.spec, "bn", "dropout") or not can_derive(bm) or not tunable(bm):
            return "skip"
        D = self.decomon
        data = self.data_for(bm.dom, bm.net.spec["dim"], op["seed"], 2)
        z = np.concatenate([data[0][:, None], data[1][:, None]], 1) if bm.dom["t"] == "box" else data
        ref = np.zeros((len(z), nets.out_dim(bm.net.spec)), self.fx)
        O = self.keras.optimizers
        bm.tuned = True

        def go():
            bm.model.freeze_weights()
            try:
                concat = D.get_model(bm.model)
                loss = (D.get_upper_loss if op["loss"] == "upper" else D.get_lower_loss)(bm.model)
                concat.compile(optimizer=(O.SGD if op["opt"] == "sgd" else O.Adam)(learning_rate=op["lr"]), loss=loss, run_eagerly=True)
                for _ in range(op["steps"]):
                    concat.train_on_batch(z, ref)
            finally:
                bm.model.unfreeze_weights()

        if bm.dom["t"] != "box" or self.untrainable(bm.net.spec):
            return "skip"
        self.lib("slope training", go, op.get("fault"))
        self.check_bm(bm, op["seed"], f"after slope training, {bm.conf['method']}", fresh=False)

    def op_tune(self, op):
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        st = tune(self, op)
        if st == "skip":
            return st
        f = op.get("fault")
        if st == "fault":
            # an interruption may hit the clean-up itself: only when the training proper was hit is the
            # model bound to be untuned
            bm.tuned = bm.tuned or f["k"] == "abort"
            if f["k"] != "abort":
                bm.tuned = False
            self.check_bm(bm, op["seed"], f"after interrupted tuning, {bm.conf['method']}", fresh=not bm.tuned)
            if bm.tuned:
                self.lib("unfreeze_weights", lambda: bm.model.unfreeze_weights())
            return "fault"
        r, data = self.last_tuned
        bm.tuned = False
        pts = self.points_in(bm.dom, data, 3)
        N, k, d = pts.shape
        y = self.twin_predict(bm.net.spec, self.bm_truth(bm), pts.reshape(-1, d), bm.net).reshape(N, k, -1)
        judge_bounds(f"tuned {op['which']} bound, {bm.conf['method']}", y, r if op["which"] == "upper" else None,
                     r if op["which"] == "lower" else None, self.tight)
        self.check_bm(bm, op["seed"], f"after tuning, {bm.conf['method']}")

    def op_reset(self, op):
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        st, _ = self.lib("reset_finetuning", lambda: bm.model.reset_finetuning(), op.get("fault"))
        if st == "ok":
            bm.tuned = False
            self.check_bm(bm, 17, f"after reset_finetuning, {bm.conf['method']}")
        else:
            self.check_bm(bm, 17, f"after an interrupted reset_finetuning, {bm.conf['method']}", fresh=False)

    def after(self, op):
        for k, net in self.nets.items():
            now = self.net_weights(net)
            if op["op"] not in ("weights", "net"):
                for a, b in zip(net.known, now):
                    if not np.array_equal(a, b):
                        raise Violation(f"after {op['op']}: the weights of the network moved")
            net.known = now


# ================================================================== C05
def plan_C05(rng, tier):
    ops = []
    spec = nets.gen_spec(rng, small=True, bn=False, forward_only=rng.chance(0.2))
    spec["nodes"] = [n for n in spec["nodes"]]
    ops.append({"op": "net", "k": 0, "spec": spec})
    if rng.chance(0.25):
        ops.append({"op": "freeze_layer", "k": 0, "seed": rng.seed31()})
    m = 0
    for _ in range(rng.randint(7, 12 if tier == "quick" else 22)):
        r = rng.random()
        if m == 0 or (r < 0.15 and m < 3):
            ops.append(conv_op(rng, 0, m, spec, ball=0.15, finetune=0.75, shared=0.75))
            m += 1
            continue
        mm = rng.randrange(m)
        if r < 0.55:
            ops.append({"op": "freeze_bm", "m": mm, "what": rng.pick(["freeze_weights", "unfreeze_weights", "freeze_alpha", "unfreeze_alpha"])})
            if rng.chance(0.1):
                ops[-1]["fault"] = abort(rng, 1.5)
        elif r < 0.88:
            op = {"op": "trainbm", "m": mm, "seed": rng.seed31(), "via": rng.pick(["self", "self", "derived", "derived_lower", "self2"])}
            if rng.chance(0.1):
                op["fault"] = abort(rng, 4.0)
            ops.append(op)
        elif r < 0.92:
            ops.append({"op": "reset", "m": mm})
        elif r < 0.96:
            ops.append({"op": "query", "m": mm, "seed": rng.seed31()})
        else:
            ops.append({"op": "tune", "m": mm, "seed": rng.seed31(), "epochs": 1, "which": rng.pick(["upper", "lower"])})
            if rng.chance(0.3):
                ops[-1]["fault"] = {"k": "optimizer", "at": 1}
    for i in range(m):
        ops.append({"op": "trainbm", "m": i, "seed": rng.seed31(), "via": "self"})
    return ops


class C05(World):
    op_freeze_layer = C02.op_freeze_layer

    def op_convert(self, op):
        r = World.op_convert(self, op)
        bm = self.bms.get(op["m"])
        if bm is not None and r is None:
            bm.fw, bm.fa = False, False
            bm.kinds = self.kinds_of(bm)
        return r

    def kinds_of(self, bm):
        """For each variable of the bounds model: index of the network's variable that it is (or is a copy of), or
        None for a slope. Asked just after the conversion."""
        ids = {id(v): i for i, v in enumerate(bm.net.model.weights)}
        now = self.net_weights(bm.net)
        kinds = []
        for v in bm.model.weights:
            k = ids.get(id(v))
            if k is None and not bm.conf["shared"]:
                a = np.array(self.keras.ops.convert_to_numpy(v))
                k = next((i for i, w in enumerate(now) if w.shape == a.shape and np.array_equal(w, a)), None)
            kinds.append(k)
        return kinds

    def reference(self, bm):
        """The same conversion of a rebuild of the network, with nothing frozen and the same values."""
        net = Net(bm.net.spec, nets.build(self.keras, bm.net.spec, salt="_ref"))
        if getattr(bm.net, "frozen_layer", None) is not None:
            [l for l in net.model.layers if l.weights][bm.net.frozen_layer].trainable = False
        f = BM(self.clone(net.model, method=bm.conf["method"], slope=bm.conf["slope"], shared=bm.conf["shared"],
                          **ft(bm.conf), perturbation_domain=self.domain_obj(bm.dom)), net, bm.conf, bm.dom)
        vals = self.values(bm.model)
        if [tuple(v.shape) for v in f.model.weights] != [v.shape for v in vals]:
            raise Violation("two conversions of the same network have different variables")
        for v, w in zip(f.model.weights, vals):
            v.assign(w)
        return f

    def op_freeze_bm(self, op):
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        st, _ = self.lib(op["what"], lambda: getattr(bm.model, op["what"])(), op.get("fault"))
        v = None if st == "fault" else not op["what"].startswith("un")
        if op["what"].endswith("weights"):
            bm.fw = v
        else:
            bm.fa = v

    def values(self, model):
        return [np.array(self.keras.ops.convert_to_numpy(v)) for v in model.weights]

    def train_once(self, bm, model, via, z, rng_seed):
        keras, D = self.keras, self.decomon
        if via.startswith("self"):
            outs = model(z)
            rng = np.random.default_rng(rng_seed)
            ys = [np.array(keras.ops.convert_to_numpy(o)) for o in outs]
            ys = [y + rng.normal(0.5, 0.3, y.shape).astype(self.fx) for y in ys]
            if via == "self":
                model.compile(optimizer=keras.optimizers.SGD(learning_rate=0.01), loss=["mse"] * len(ys), run_eagerly=True)
            model.train_on_batch(z, ys)
        else:
            ref = np.zeros((len(z), nets.out_dim(bm.net.spec)), self.fx)
            concat = D.get_model(model)
            loss = (D.get_lower_loss if via.endswith("lower") else D.get_upper_loss)(model)
            concat.compile(optimizer=keras.optimizers.SGD(learning_rate=0.05), loss=loss, run_eagerly=True)
            concat.train_on_batch(z, ref)

    def op_trainbm(self, op):
        bm = self.bms.get(op["m"])
        if bm is None or nets.has(bm.net.spec, "bn", "dropout") or self.untrainable(bm.net.spec):
            return "skip"
        via = op["via"]
        if via.startswith("derived") and (bm.dom["t"] != "box" or not can_derive(bm)):
            via = "self"
        if via == "self2" and getattr(bm, "compiled_with", None) != (bm.fw, bm.fa):
            via = "self"  # keras decides what an optimizer trains when it is first used
        data = self.data_for(bm.dom, bm.net.spec["dim"], op["seed"], 3)
        z = np.concatenate([data[0][:, None], data[1][:, None]], 1) if bm.dom["t"] == "box" else data
        # reference: the same step on a conversion where nothing is frozen
        kinds = bm.kinds
        ntr = [bool(v.trainable) for v in bm.net.model.weights]
        f = self.reference(bm)
        before = self.values(f.model)
        try:
            self.train_once(f, f.model, "self" if via.startswith("self") else via, z, op["seed"])
        except (ValueError, RuntimeError) as e:
            if "No gradients" in str(e) or "does not require grad" in str(e):
                return "skip"  # nothing in this model to train for that loss
            raise
        moved = [not np.array_equal(a, b) for a, b in zip(before, self.values(f.model))]
        free = [bm.fa is False if k is None else (bm.fw is False and ntr[k]) for k in kinds]
        if not any(m and x for m, x in zip(moved, free)):
            return "skip"
        others = {k: (self.values(b.model)) for k, b in self.bms.items() if b is not bm}
        before = self.values(bm.model)
        nb = self.net_weights(bm.net)
        bm.compiled_with, was = None, getattr(bm, "compiled_with", None)
        st, _ = self.lib("training the bounds model", lambda: self.train_once(bm, bm.model, via, z, op["seed"]), op.get("fault"))
        if st == "ok":
            bm.compiled_with = (bm.fw, bm.fa) if via == "self" else was
        after = self.values(bm.model)
        what = f"training a {bm.conf['method']} model ({via}, weights {'frozen' if bm.fw else 'free'}, slopes {'frozen' if bm.fa else 'free'})"
        trained_net = set()
        for i, (a, b) in enumerate(zip(before, after)):
            is_slope = kinds[i] is None
            frozen = bm.fa if is_slope else bm.fw
            if not is_slope and not ntr[kinds[i]] and bm.conf["shared"]:
                frozen = True
            same = np.array_equal(a, b)
            if not same and not is_slope:
                trained_net.add(kinds[i])
            if frozen and not same:
                raise Violation(f"{what}: a frozen {'slope' if is_slope else 'weight'} moved", diff=float(np.abs(a - b).max()))
            if frozen is False and same and st == "ok" and moved[i] and (is_slope or ntr[kinds[i]]):
                raise Violation(f"{what}: an unfrozen {'slope' if is_slope else 'weight'} was not trained")
        # effect on the source network
        na = self.net_weights(bm.net)
        for j, (a, b) in enumerate(zip(nb, na)):
            same = np.array_equal(a, b)
            if not bm.conf["shared"] and not same:
                raise Violation(f"{what}: training an unshared model moved the network")
            if bm.conf["shared"] and not same and j not in trained_net:
                raise Violation(f"{what}: a weight of the network moved that is not one of the model's trained ones")
        for k, vals in others.items():
            o = self.bms[k]
            if o.kinds is None:
                continue
            for i, (a, b) in enumerate(zip(vals, self.values(o.model))):
                shared_var = o.conf["shared"] and bm.conf["shared"] and o.kinds[i] is not None
                if not shared_var and not np.array_equal(a, b):
                    raise Violation(f"{what}: moved a variable of another model")
        bm.tuned = True
        if not all(np.all(np.isfinite(a)) and np.abs(a).max(initial=0) < 1e3 for a in after):
            self.sanitize(bm.net.model, 3)
            for i, v in enumerate(bm.model.weights):
                if kinds[i] is None:
                    v.assign(np.full(tuple(v.shape), 0.5, self.fx))
                elif not bm.conf["shared"]:
                    v.assign(np.random.default_rng(i).normal(size=tuple(v.shape)).astype(self.fx))

    def op_reset(self, op):
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        self.lib("reset_finetuning", lambda: bm.model.reset_finetuning())

    def op_tune(self, op):
        bm = self.bms.get(op["m"])
        if bm is None or bm.fw is None:
            return "skip"
        return tune(self, op)

    def flags(self, net):
        m = net.model
        return ([bool(l.trainable) for l in m.layers], [bool(v.trainable) for v in m.weights], len(m.trainable_weights), bool(m.trainable))

    def after(self, op):
        for k, net in self.nets.items():
            now = self.flags(net)
            if op["op"] in ("net", "freeze_layer"):
                net.flags = now
            elif now != net.flags:
                raise Violation(f"after {op['op']} {op.get('what', '')}: the trainability of the network's own layers changed", before=repr(net.flags), now=repr(now))
        for m, bm in self.bms.items():
            # what the model says it would train agrees with its state
            if bm.kinds is None or bm.fw is None or bm.fa is None:
                continue
            ids = {id(v) for v in bm.model.trainable_weights}
            for v, kind in zip(bm.model.weights, bm.kinds):
                t = id(v) in ids
                if kind is None and bm.fa and t:
                    raise Violation(f"after {op['op']} {op.get('what', '')}: a frozen slope of model {m} is listed as trainable")
                if kind is not None and bm.fw and t:
                    raise Violation(f"after {op['op']} {op.get('what', '')}: a frozen weight of model {m} is listed as trainable")
