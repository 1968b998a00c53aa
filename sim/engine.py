"""The simulated world: networks, bounds models, domains, checkpoints; operations on them; oracles."""
import gc
import hashlib
import json
import os
import struct
import tempfile
import traceback

import numpy as np

import faults
import nets
from rng import Rng, derive

METHODS = ["crown", "forward-ibp", "forward-affine", "forward-hybrid",
           "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid"]
FORWARD = ["forward-ibp", "forward-affine", "forward-hybrid"]
BALL_OK = FORWARD + ["crown-forward-affine", "crown-forward-hybrid"]
SLOPES = ["volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb"]

# tolerances (see DESIGN.md: measured on the unchanged tree, then widened)
SOUND_TOL = 5e-5
EQ_TOL = 2e-5


class Violation(Exception):
    def __init__(self, what, **info):
        super().__init__(what)
        self.what = what
        self.info = info


class HarnessError(Exception):
    pass


def scale_of(*arrays):
    s = 1.0
    for a in arrays:
        if a is not None and np.size(a):
            s = max(s, float(np.max(np.abs(a))))
    return s


def ft(conf):
    """Options of a conversion: tunable slopes ("forward" or "backward" for those of that pass only), form of the bounds."""
    f = conf["finetune"]
    kw = {"finetune": f} if isinstance(f, bool) else {"finetune_" + f: True}
    if conf.get("final"):
        kw["final_ibp"], kw["final_affine"] = conf["final"]
    return kw


class Net:
    def __init__(self, spec, model):
        self.spec = spec
        self.model = model
        self.twin = None


class BM:
    """A bounds model and what it is supposed to be."""

    def __init__(self, model, net, conf, dom):
        self.model = model
        self.net = net
        self.conf = conf  # method, slope, shared, finetune
        self.dom = dom  # {"t": "box"} | {"t": "ball", "eps", "p"}
        self.snapshot = None  # weights of an unshared one
        self.tuned = False
        self.hist = []


class World:
    def __init__(self, plan, keras, tmp):
        self.plan = plan
        self.prop = plan["prop"]
        self.keras = keras
        self.tmp = tmp
        self.fx = plan.get("floatx", "float32")
        self.tight = 1e-5 if self.fx == "float64" else 1.0  # tolerances of runs in double precision
        self.nets = {}
        self.bms = {}
        self.doms = {}
        self.files = {}
        self.derived = {}
        self.kept = []
        self.digest = hashlib.sha256()
        self.observations = []
        self.schedules = {}
        self.stats = {"ops": 0, "checks": 0, "sound_points": 0, "faults": {}, "sites": {}, "skipped": 0, "fresh": 0,
                      "sim_events": 0}
        self.trace = []
        self.ran = []
        import decomon  # noqa
        from decomon.core import BallDomain, BoxDomain
        from decomon.models import clone

        self.decomon = decomon
        self.clone = clone
        self.BoxDomain, self.BallDomain = BoxDomain, BallDomain

    # ---------------------------------------------------------------- utilities
    def note(self, *vals):
        for v in vals:
            if isinstance(v, np.ndarray):
                self.digest.update(np.ascontiguousarray(v).tobytes())
            else:
                self.digest.update(repr(v).encode())

    def untrainable(self, spec):
        """torch has no gradient for some convolutions in double precision."""
        return self.fx == "float64" and self.keras.backend.backend() == "torch" and nets.has(spec, "conv")

    def fault_count(self, kind, where=None):
        self.stats["faults"][kind] = self.stats["faults"].get(kind, 0) + 1
        if where:
            self.stats["sites"][where] = self.stats["sites"].get(where, 0) + 1

    def lib(self, what, fn, fault=None):
        """Call the library. Returns (status, value): "ok" or "fault". An error that the simulator did not
        inject is a violation: every call made here is one that must succeed."""
        fired = lambda: None  # noqa
        self.swallowed = False
        try:
            if not fault:
                return "ok", fn()
            k = fault["k"]
            if k == "abort":
                ab = faults.Abort(fault["at"], fault["exc"])
                fired = lambda: ab.fired  # noqa
                with faults.lines(ab):
                    try:
                        r = fn()
                    finally:
                        self.stats["sim_events"] += ab.count
                if ab.fired:
                    self.fault_count("abort-swallowed", ab.fired)
                    self.swallowed = True
                else:
                    self.fault_count("abort-not-reached")
                return "ok", r
            if k == "gclines":
                g = faults.Collect(fault["at"])
                with faults.lines(g):
                    r = fn()
                self.stats["sim_events"] += g.count
                for _ in range(g.done):
                    self.fault_count("gc-inside-call")
                return "ok", r
            if k == "assign":
                with faults.failing_assign(self.keras, fault["at"]) as st:
                    fired = lambda: st["fired"]  # noqa
                    return "ok", fn()
            if k == "optimizer":
                with faults.failing_optimizer(self.keras, fault["at"]) as st:
                    fired = lambda: st["fired"]  # noqa
                    return "ok", fn()
            if k in ("h5read", "h5write"):
                with faults.failing_h5(fault["at"], k[2:]) as st:
                    fired = lambda: st["fired"]  # noqa
                    return "ok", fn()
            raise HarnessError(f"fault {fault}")
        except HarnessError:
            raise
        except Violation:
            raise
        except BaseException as e:
            w = fired()
            if w:
                self.fault_count(fault["k"] + ("-" + fault["exc"] if "exc" in fault else ""), w)
                self.note("fault", w)
                e = None
                return "fault", None
            if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, faults.SimFault):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-6:]
            raise Violation(f"{what} failed: {type(e).__name__}: {str(e)[:300]}", where=where)

    # ---------------------------------------------------------------- oracle: the twin
    def twin_predict(self, spec, weights, x, cache=None):
        """Predictions of an independent rebuild of the network (no final softmax), as float64."""
        if cache is not None and cache.twin is not None:
            twin = cache.twin
        else:
            twin = nets.build(self.keras, spec, drop_softmax=True, salt="_twin")
            if cache is not None:
                cache.twin = twin
        tw = twin.weights
        if len(tw) != len(weights):
            raise HarnessError("twin weights mismatch")
        for v, w in zip(tw, weights):
            v.assign(w)
        y = twin(np.asarray(x, dtype=self.fx), training=False)
        return np.asarray(self.keras.ops.convert_to_numpy(y), dtype="float64").reshape(len(x), -1)

    def net_weights(self, net):
        return [np.array(self.keras.ops.convert_to_numpy(v)) for v in net.model.weights]

    def bm_truth(self, bm):
        """Weights that the bounds of bm must be about."""
        if bm.conf["shared"]:
            return self.net_weights(bm.net)
        return bm.snapshot

    # ---------------------------------------------------------------- data
    def boxes(self, dim, seed, n=None, width=None):
        rng = np.random.default_rng(seed)
        n = n or int(rng.integers(1, 4))
        c = rng.normal(0, 1.0, (n, dim))
        if width is None:
            width = 10 ** rng.uniform(-3, 0.3, (n, 1) if rng.random() < 0.5 else None)
        r = width * rng.uniform(0.0, 1.0, (n, dim))
        r[rng.random((n, dim)) < 0.1] = 0.0
        return (c - r).astype(self.fx), (c + r).astype(self.fx)

    def points_in(self, dom, data, seed, n=48, dirs=None):
        """Points of the domain around each sample: (N samples, n points, dim), float32-representable."""
        rng = np.random.default_rng(seed)
        if dom["t"] == "box":
            lo, hi = data
            N, d = lo.shape
            t = rng.random((N, n, d))
            t[:, : n // 2] = (t[:, : n // 2] < 0.5).astype(float)
            pts = lo[:, None] + t * (hi - lo)[:, None]
            if dirs is not None:
                # corners maximising given directions (N, k, d)
                pts = np.concatenate([pts, np.where(dirs > 0, hi[:, None], lo[:, None])], 1)
            return np.clip(pts.astype(self.fx), lo[:, None], hi[:, None])
        x = data
        N, d = x.shape
        eps, p = dom["eps"], dom["p"]
        v = rng.normal(size=(N, n, d))
        if dirs is not None:
            dd = np.where(np.abs(dirs) > 1e-12, dirs, 0.0)
            if p == np.inf or p == "inf":
                dd = np.sign(dd)
            elif p == 1:
                m = np.abs(dd).argmax(-1)
                dd = np.take_along_axis(np.sign(dd), m[..., None], -1) * np.eye(d)[m]
            v = np.concatenate([v, dd], 1)
        if p == np.inf or p == "inf":
            half = v.shape[1] // 2
            v[:, :half] = np.sign(v[:, :half])
            nrm = np.maximum(np.abs(v).max(-1, keepdims=True), 1e-12)
        else:
            nrm = np.maximum((np.abs(v) ** p).sum(-1, keepdims=True) ** (1.0 / p), 1e-12)
        r = np.ones((N, v.shape[1], 1))
        r[:, 1:n:3] = rng.random((N, len(range(1, n, 3)), 1))
        pts = x[:, None] + eps * (1 - 1e-6) * r * v / nrm
        return pts.astype(self.fx)

    def domain_obj(self, dom):
        if dom is None or dom["t"] == "box":
            return self.BoxDomain()
        return self.BallDomain(eps=dom["eps"], p=np.inf if dom["p"] == "inf" else dom["p"])

    # ---------------------------------------------------------------- bounds
    def raw_outputs(self, model, dom, data):
        if dom["t"] == "box":
            z = np.concatenate([data[0][:, None], data[1][:, None]], 1)
        else:
            z = data
        out = model.predict_on_single_batch_np(z)
        return out

    def read_bounds(self, model, dom, data, out):
        """Bounds stated by the outputs of a bounds model, computed in float64 by the simulator itself.
        Returns u, l, (u_ibp, l_ibp, u_aff, l_aff), dirs."""
        out = [np.asarray(o, dtype="float64") for o in out]
        N = len(out[-1])
        u_i = l_i = u_a = l_a = dirs = None
        if model.ibp and model.affine:
            _, u_i, wu, bu, l_i, wl, bl = out[:7]
        elif model.affine:
            _, wu, bu, wl, bl = out[:5]
        else:
            u_i, l_i = out[:2]
        if model.ibp:
            u_i, l_i = u_i.reshape(N, -1), l_i.reshape(N, -1)
        if model.affine:
            d = data[0].shape[1] if dom["t"] == "box" else data.shape[1]
            wu, wl = wu.reshape(N, d, -1), wl.reshape(N, d, -1)
            bu, bl = bu.reshape(N, -1), bl.reshape(N, -1)
            if dom["t"] == "box":
                lo, hi = data[0].astype("float64")[..., None], data[1].astype("float64")[..., None]
                u_a = (np.maximum(wu, 0) * hi + np.minimum(wu, 0) * lo).sum(1) + bu
                l_a = (np.maximum(wl, 0) * lo + np.minimum(wl, 0) * hi).sum(1) + bl
            else:
                p = dom["p"]
                if p == "inf" or p == np.inf:
                    q = 1
                elif p == 1:
                    q = np.inf
                else:
                    q = p / (p - 1.0)
                x = data.astype("float64")[..., None]
                u_a = (wu * x).sum(1) + bu + dom["eps"] * np.linalg.norm(wu, ord=q, axis=1)
                l_a = (wl * x).sum(1) + bl - dom["eps"] * np.linalg.norm(wl, ord=q, axis=1)
            dirs = np.concatenate([wu, -wl], -1).transpose(0, 2, 1)
        if model.ibp and model.affine:
            u, l = np.minimum(u_i, u_a), np.maximum(l_i, l_a)
        elif model.affine:
            u, l = u_a, l_a
        else:
            u, l = u_i, l_i
        return u, l, (u_i, l_i, u_a, l_a), dirs

    def data_for(self, bm_or_dom, dim, seed, n=None, width=None):
        dom = bm_or_dom
        lo, hi = self.boxes(dim, seed, n, width)
        if dom["t"] == "box":
            return (lo, hi)
        return ((lo + hi) / 2).astype(self.fx)

    def probes_for(self, dom, dim, seed):
        """Inputs from small to large, for bounds that are compared over time."""
        return self.data_for(dom, dim, seed, 3, np.array([[0.1], [0.5], [1.6]]))

    def bounds(self, bm, data, fault=None, via="raw", dom=None):
        """("ok", (u, l)) or ("fault", None); also keeps the soundness directions."""
        dom = dom or bm.dom
        D = self.decomon
        if via == "raw" or dom["t"] == "ball" and via not in ("noise",):
            st, out = self.lib("bounds query", lambda: self.raw_outputs(bm.model, dom, data), fault)
            if st != "ok":
                return st, None
            u, l, parts, dirs = self.read_bounds(bm.model, dom, data, out)
            bm.parts, bm.dirs = parts, dirs
            return "ok", (u, l)
        bm.dirs = None
        if via == "range":
            st, r = self.lib("get_range_box", lambda: D.get_range_box(bm.model, data[0], data[1]), fault)
        elif via == "upper_lower":
            st, r = self.lib("get_upper_box/get_lower_box", lambda: (
                D.get_upper_box(bm.model, data[0], data[1]), D.get_lower_box(bm.model, data[0], data[1])), fault)
        elif via == "noise":
            p = np.inf if dom["p"] == "inf" else dom["p"]
            st, r = self.lib("get_range_noise", lambda: D.get_range_noise(bm.model, data, eps=dom["eps"], p=p), fault)
        if st != "ok":
            return st, None
        n = len(data[0]) if isinstance(data, tuple) else len(data)
        return "ok", (np.asarray(r[0], "float64").reshape(n, -1), np.asarray(r[1], "float64").reshape(n, -1))

    def assert_sound(self, what, u, l, spec, weights, dom, data, seed, dirs=None, cache=None, extra=None):
        pts = self.points_in(dom, data, seed, dirs=dirs)
        N, k, d = pts.shape
        if not (np.all(np.isfinite(u)) and np.all(np.isfinite(l))):
            raise Violation(f"{what}: bounds are not finite", u=u.tolist(), l=l.tolist())
        y = self.twin_predict(spec, weights, pts.reshape(-1, d), cache).reshape(N, k, -1)
        self.stats["sound_points"] += N * k
        if y.shape[2] != u.shape[1]:
            raise Violation(f"{what}: {u.shape[1]} bounds for {y.shape[2]} outputs")
        sc = scale_of(y, np.minimum(np.abs(u), 1e3), np.minimum(np.abs(l), 1e3))
        over = y.max(1) - u
        under = l - y.min(1)
        self.stats["max_over"] = max(self.stats.get("max_over", -1e9), float(over.max() / sc), float(under.max() / sc))
        if max(over.max(), under.max()) > SOUND_TOL * self.tight * sc:
            side = "upper" if over.max() >= under.max() else "lower"
            raise Violation(f"{what}: {side} bound crossed by a point of the domain",
                            excess=float(max(over.max(), under.max())), scale=sc, u=u.tolist(), l=l.tolist(),
                            ymax=y.max(1).tolist(), ymin=y.min(1).tolist())

    def assert_close(self, what, a, b, tol=EQ_TOL, kind="bounds"):
        for x, y, side in zip(a, b, ("upper", "lower", "", "", "", "", "")):
            if x is None and y is None:
                continue
            x, y = np.asarray(x, "float64"), np.asarray(y, "float64")
            if x.shape != y.shape:
                raise Violation(f"{what}: shapes {x.shape} and {y.shape} differ")
            if x.size == 0:
                continue
            fx, fy = np.isfinite(x), np.isfinite(y)
            if not np.array_equal(fx, fy):
                raise Violation(f"{what}: {side} {kind} differ (not finite)")
            sc = scale_of(x[fx], y[fy])
            d = np.abs(x[fx] - y[fy]).max() if fx.any() else 0.0
            self.stats["max_eq"] = max(self.stats.get("max_eq", 0.0), float(d / sc))
            if d > tol * self.tight * sc:
                raise Violation(f"{what}: {side} {kind} differ", diff=float(d), scale=sc, got=x.tolist(),
                                want=y.tolist())

    def fresh_bm(self, bm, weights=None, source=None, dom=None):
        """A conversion made now, from an independent rebuild of the network with the given weights."""
        self.stats["fresh"] += 1
        if source is None:
            net = Net(bm.net.spec, nets.build(self.keras, bm.net.spec, salt="_fresh"))
            ws = self.bm_truth(bm) if weights is None else weights
            for v, w in zip(net.model.weights, ws):
                v.assign(w)
        else:
            net = source
        dom = dom or bm.dom
        st, m = self.lib("fresh conversion", lambda: self.clone(
            net.model, method=bm.conf["method"], slope=bm.conf["slope"], shared=True,
            **ft(bm.conf), perturbation_domain=self.domain_obj(dom)))
        f = BM(m, net, dict(bm.conf, shared=True), dom)
        return f

    def check_bm(self, bm, seed, what, fresh=True, sound=True, via="raw", fault=None, n=None):
        """Soundness for the network that bm is about, and equality with a fresh conversion."""
        self.stats["checks"] += 1
        data = self.data_for(bm.dom, bm.net.spec["dim"], seed, n)
        st, ul = self.bounds(bm, data, fault=fault, via=via)
        if st == "fault":
            st, ul = self.bounds(bm, data, via=via)
        u, l = ul
        self.note(u, l)
        dirs = bm.dirs
        ws = self.bm_truth(bm)
        if sound:
            self.assert_sound(what, u, l, bm.net.spec, ws, bm.dom, data, derive(seed, "pts"), dirs=dirs, cache=bm.net)
        if fresh and not bm.tuned:
            f = self.fresh_bm(bm, weights=ws)
            _, ul2 = self.bounds(f, data, via=via)
            self.assert_close(f"{what}: bounds are not those of a fresh conversion", (u, l), ul2)
        return u, l

    # ---------------------------------------------------------------- operations
    def run_op(self, op):
        f = getattr(self, "op_" + op["op"])
        self.stats["ops"] += 1
        r = f(op)
        if r == "skip":
            self.stats["skipped"] += 1
        else:
            self.ran.append(op["op"] + ("!" if op.get("fault") else ""))
        return r

    def op_net(self, op):
        model = nets.build(self.keras, op["spec"], salt=op.get("salt", ""))
        self.nets[op["k"]] = Net(op["spec"], model)

    def op_domain(self, op):
        self.doms[op["d"]] = (self.domain_obj(op["dom"]), dict(op["dom"]))

    def op_convert(self, op):
        net = self.nets.get(op["k"])
        if net is None:
            return "skip"
        if op.get("domref") is not None and op["domref"] in self.doms:
            dobj, dom = self.doms[op["domref"]]
            dom = dict(dom)
            # what the shared object says when the conversion is made
        else:
            dom = dict(op["dom"])
            dobj = self.domain_obj(dom)
        conf = {"method": op["method"], "slope": op["slope"], "shared": op["shared"], "finetune": op["finetune"],
                "final": op.get("final")}
        kw = dict(method=conf["method"], slope=conf["slope"], shared=conf["shared"], **ft(conf))
        if not op.get("default_domain") or dom["t"] != "box":
            kw["perturbation_domain"] = dobj
        if op.get("bb"):
            n = nets.out_dim(net.spec)
            kw["back_bounds"] = [self.keras.Input((n, n))]
        snap = self.net_weights(net)
        st, m = self.lib(f"conversion ({conf['method']})", lambda: self.clone(net.model, **kw), op.get("fault"))
        if st != "ok":
            return "fault"
        bm = BM(m, net, conf, dom)
        bm.snapshot = snap
        self.bms[op["m"]] = bm
        self.derived = {k: v for k, v in self.derived.items() if v["m"] != op["m"]}

    def op_freeze_bm(self, op):
        """Parameters of a bounds model made trainable or not: says nothing about its bounds."""
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        self.lib(op["what"], lambda: getattr(bm.model, op["what"])(), op.get("fault"))

    def op_weights(self, op):
        net = self.nets.get(op["k"])
        if net is None:
            return "skip"
        self.change_weights(net.model, net, op)

    def change_weights(self, model, net, op):
        rng = np.random.default_rng(op["seed"])
        how = op["how"]
        fault = op.get("fault")
        if how == "set":
            new = [nets.random_value(v, rng) for v in model.weights]
            self.lib("set_weights", lambda: model.set_weights(new), fault)
        elif how == "nudge":
            vs = [v for v in model.weights if rng.random() < 0.5] or list(model.weights)[:1]

            def f():
                for v in vs:
                    v.assign(nets.random_value(v, rng, scale=1.3))

            self.lib("assign", f, fault)
        elif how == "layer":
            layers = [l for l in model.layers if l.weights]
            if layers:
                l = layers[int(rng.integers(len(layers)))]
                self.lib("layer.set_weights", lambda: l.set_weights([nets.random_value(v, rng) for v in l.weights]), fault)
        elif how == "train" and self.untrainable(net.spec):
            return "skip"
        elif how == "train":
            x = rng.normal(size=(8, net.spec["dim"])).astype(self.fx)
            y = rng.normal(size=(8, *nets.out_shape(net.spec))).astype(self.fx)
            lr = float(rng.choice([0.05, 0.2]))

            def f():
                if op.get("compile", True) or model.optimizer is None:
                    opt = (self.keras.optimizers.SGD if rng.random() < 0.5 else self.keras.optimizers.Adam)(learning_rate=lr)
                    model.compile(optimizer=opt, loss="mse", run_eagerly=True)
                for _ in range(op.get("steps", 2)):
                    model.train_on_batch(x, y)

            self.lib("training the network", f, fault)
        elif how == "bnstats":
            x = rng.normal(0.5, 2.0, size=(16, net.spec["dim"])).astype(self.fx)

            def f():
                for _ in range(3):
                    model(x, training=True)

            self.lib("training-mode call", f, fault)
        else:
            raise HarnessError(how)

    def op_save(self, op):
        net = self.nets.get(op["k"])
        if net is None:
            return "skip"
        path = os.path.join(self.tmp, f"{op['f']}.weights.h5")
        if os.path.exists(path):
            os.remove(path)
        st, _ = self.lib("save_weights", lambda: net.model.save_weights(path), op.get("fault"))
        self.files[op["f"]] = {"path": path, "kind": "net", "ok": st == "ok", "w": self.net_weights(net),
                               "spec": net.spec}

    def op_damage(self, op):
        f = self.files.get(op["f"])
        if f is None or not os.path.exists(f["path"]) or os.path.getsize(f["path"]) == 0:
            return "skip"
        faults.damage_file(f["path"], op["how"], Rng("dmg", op["seed"]))
        f["ok"] = False
        self.fault_count("file-" + op["how"])

    def op_load(self, op):
        net = self.nets.get(op["k"])
        f = self.files.get(op["f"])
        if net is None or f is None or f["kind"] != "net":
            return "skip"
        intact = f["ok"] and f["spec"] == net.spec
        if not intact or op.get("fault"):
            try:
                st, _ = self.lib("load_weights", lambda: net.model.load_weights(f["path"]), op.get("fault"))
            except Violation:
                st = "fault"  # a damaged file, or the file of another network: any error will do
        else:
            st, _ = self.lib("load_weights", lambda: net.model.load_weights(f["path"]))
            for a, b in zip(self.net_weights(net), f["w"]):
                if not np.array_equal(a, b):
                    raise HarnessError("load_weights did not restore the weights")
        for a in self.net_weights(net):
            if not np.all(np.isfinite(a)) or np.abs(a).max(initial=0) > 1e4:
                # garbage read from a corrupted file: no meaningful float arithmetic left
                self.sanitize(net.model, derive("sanitize", op["f"]))
                break
        for v in net.model.weights:
            if "variance" in v.name and float(np.min(self.keras.ops.convert_to_numpy(v))) < 1e-2:
                self.sanitize(net.model, derive("sanitize", op["f"]))
                break

    def sanitize(self, model, seed):
        rng = np.random.default_rng(seed)
        for v in model.weights:
            v.assign(nets.random_value(v, rng))

    def op_gc(self, op):
        self.fault_count("gc")
        gc.collect()

    def op_clear(self, op):
        self.fault_count("clear_session")
        self.keras.backend.clear_session()

    def op_settings(self, op):
        """Global settings of Keras and random generators, that other parts of a process may change."""
        self.fault_count(f"settings-{op['what']}")
        if op["what"] == "format":
            self.keras.config.set_image_data_format(op["val"])
        else:
            self.keras.utils.set_random_seed(op["val"])

    def op_drop(self, op):
        self.bms.pop(op["m"], None)
        self.derived = {k: v for k, v in self.derived.items() if v["m"] != op["m"]}

    def op_dropnet(self, op):
        net = self.nets.pop(op["k"], None)
        if net is not None:
            self.bms = {m: b for m, b in self.bms.items() if b.net is not net}
            self.derived = {k: v for k, v in self.derived.items() if v["m"] in self.bms}

    def op_query(self, op):
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        data = self.data_for(bm.dom, bm.net.spec["dim"], op["seed"], op.get("n"))
        st, ul = self.bounds(bm, data, fault=op.get("fault"), via=op.get("via", "raw"))
        if st == "ok":
            self.note(*ul)

    def op_check(self, op):
        bm = self.bms.get(op["m"])
        if bm is None:
            return "skip"
        self.check_bm(bm, op["seed"], f"check of model {op['m']} ({bm.conf['method']})", fresh=op.get("fresh", True),
                      via=op.get("via", "raw"), fault=op.get("fault"), n=op.get("n"))
