"""Wrapper queries as data: a JSON description becomes a library call on explicit arguments."""
import numpy as np

from rng import derive

BOX_KINDS = ["range", "upper", "lower", "adv", "check", "refine_upper", "refine_lower", "refine_adv", "refine_check"]
BALL_KINDS = ["noise_range", "noise_upper", "noise_lower", "noise_adv"]


def gen_query(rng, dom_t, n_out, kinds=None, n_max=4, split=True, layouts=False, own=False):
    kinds = list(kinds or (BOX_KINDS if dom_t == "box" else BALL_KINDS))
    if n_out < 2:
        kinds = [k for k in kinds if "adv" not in k and "check" not in k]
    k = rng.pick(kinds)
    q = {"q": k, "seed": rng.seed31(), "n": rng.randint(1, n_max)}
    if split:
        if rng.chance(0.6):
            q["bs"] = rng.randint(1, 5)
        if k in ("range", "upper", "lower", "adv") and rng.chance(0.5):
            q["sub"] = rng.randint(2, 9)
        if k.startswith("refine"):
            q["sub"] = rng.randint(1, 7)
            q["random"] = rng.chance(0.5)
    elif k.startswith("refine"):
        q["sub"] = rng.randint(1, 5)
        q["random"] = False
    if "adv" in k or "check" in k:
        q["target"] = rng.chance(0.4)
        q["multi"] = rng.chance(0.25) and n_out > 2
        if rng.chance(0.35):
            q["ints"] = rng.pick(["one", "one", "list", "flat", "column"])  # integer labels: the documentation takes them too
    if own and dom_t == "ball" and rng.chance(0.25):
        q["own"] = rng.pick([1, 2, "inf"])  # negative radius: the ball of the model, whatever norm is given
    if layouts:
        q["layout"] = rng.pick(["f32", "f64", "ro", "strided", "fortran", "mid"])
    return q


def layout(a, how):
    if how == "f64":
        return a.astype("float64")
    if how == "ro":
        a = a.copy()
        a.flags.writeable = False
        return a
    if how == "strided":
        big = np.zeros((a.shape[0] * 2,) + a.shape[1:], a.dtype)
        big[::2] = a
        return big[::2]
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "mid" and a.ndim == 2:
        return a.copy()[:, None, :]
    return a.copy()


def labels_for(q, n, n_out):
    rng = np.random.default_rng(derive(q["seed"], "labels"))
    src = np.zeros((n, n_out), dtype=int)
    tgt = np.zeros((n, n_out), dtype=int)
    for i in range(n):
        k = 1
        if q.get("multi") and n_out > 2 and not q.get("ints"):
            k = int(rng.integers(1, n_out))
        perm = rng.permutation(n_out)
        if q.get("ints") == "one" and i:
            src[i], tgt[i] = src[0], tgt[0]
            continue
        src[i, perm[:k]] = 1
        rest = perm[k:]
        m = 1 if q.get("ints") else int(rng.integers(1, len(rest) + 1))
        tgt[i, rest[:m]] = 1
    return src, (tgt if q.get("target") else None)


def encode(mask, how):
    """The labels as the caller gives them: rows of zeros and ones, or integers."""
    if how is None or mask is None:
        return mask
    k = mask.argmax(1)
    if how == "one":
        return int(k[0])
    if how == "list":
        return [int(i) for i in k]
    return k if how == "flat" else k[:, None]


def as_mask(labels, n, n_out):
    """What labels mean: a row of zeros and ones per box."""
    if labels is None:
        return None
    labels = np.asarray(labels)
    if labels.ndim == 0:
        labels = np.full((n,), int(labels))
    if labels.ndim == 1 or labels.shape[1] == 1 and n_out > 1:
        return np.eye(n_out, dtype=int)[labels.reshape(-1)]
    return labels


def make_args(world, q, dom, dim, n_out, data=None):
    """Concrete arguments (arrays) of the query."""
    if data is None:
        data = world.data_for(dom, dim, q["seed"], q["n"])
    how = q.get("layout", "f32")
    args = {}
    if dom["t"] == "box":
        args["x_min"], args["x_max"] = layout(data[0], how), layout(data[1], how)
        n = len(data[0])
    else:
        args["x"] = layout(data, how if how != "mid" else "f32")
        n = len(data)
    if "adv" in q["q"] or "check" in q["q"]:
        s, t = labels_for(q, n, n_out)
        args["source_labels"] = encode(s, q.get("ints"))
        if t is not None:
            args["target_labels"] = encode(t, q.get("ints"))
    return args


def call(world, q, model, dom, args):
    D = world.decomon
    k = q["q"]
    kw = dict(args)
    if "bs" in q:
        kw["batch_size"] = q["bs"]
    if dom["t"] == "ball":
        kw["eps"] = dom["eps"]
        p = dom["p"]
        if "own" in q:
            kw["eps"], p = -1.0, q["own"]
        kw["p"] = np.inf if p == "inf" else p
    if "sub" in q:
        if k.startswith("refine"):
            kw["n_split"] = q["sub"]
            kw["random"] = q.get("random", False)
        else:
            kw["n_sub_boxes"] = q["sub"]
    fn = {
        "range": D.get_range_box, "upper": D.get_upper_box, "lower": D.get_lower_box, "adv": D.get_adv_box,
        "check": D.check_adv_box, "noise_range": D.get_range_noise, "noise_upper": D.get_upper_noise,
        "noise_lower": D.get_lower_noise, "noise_adv": D.get_adv_noise,
    }
    if k.startswith("refine"):
        base = {"refine_upper": D.get_upper_box, "refine_lower": D.get_lower_box, "refine_adv": D.get_adv_box,
                "refine_check": D.check_adv_box}[k]
        return D.refine_box(base, model, **kw)
    return fn[k](model, **kw)


def as_arrays(r):
    return [np.asarray(a, dtype="float64") for a in (r if isinstance(r, (tuple, list)) else [r])]
