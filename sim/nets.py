"""Network specifications: explicit JSON, built into Keras models by this file only.

A spec is {"dim": n, "kind": "seq"|"fun", "nodes": [node, ...], "wseed": int, "names": "auto"|"custom"}.
Node k has inputs "in" (default: the previous node; -1 is the model input).
The same spec can be built any number of times: as the network handed to decomon (the source) and as its
twin, which decomon never sees and from which the reference predictions come.
"""
import numpy as np

CF = True  # convolutions with the channels first (not with TensorFlow: they do not run on a CPU)
MERGES = ("add", "sub", "avg", "max", "min", "cat", "mul")


def gen_spec(rng, bn=True, conv=True, forward_only=False, smooth=True, small=False, softmax=True, standalone=True,
             out_min=1, nested=True, linear_tail=False, conv_p=0.3, tail=0.0):
    dim = rng.randint(2, 4 if small else 6)
    nodes = []
    shape = (dim,)
    acts = ["relu"] * 6 + [None] * 2 + (["sigmoid", "tanh", "softsign", "softplus"] if smooth else [])

    def act():
        return rng.pick(acts)

    def dense(units=None, a="?"):
        return {"t": "dense", "units": units or rng.randint(2, 5), "act": act() if a == "?" else a,
                "bias": rng.chance(0.85)}

    def push(n):
        nodes.append(n)

    n_blocks = rng.randint(1, 2 if small else 3)
    if conv and rng.chance(conv_p):
        # convolutional stem on a flat input
        h, w, c = rng.pick([(2, 2, 1), (2, 2, 1), (3, 2, 1), (3, 3, 1), (2, 2, 2)])
        if h * w * c != dim:
            if rng.chance(0.5):
                dim = h * w * c
            else:
                push(dense(h * w * c))
        cf = rng.chance(0.2) and CF  # the channels come first
        push({"t": "reshape", "shape": [c, h, w] if cf else [h, w, c]})
        n_conv = 1 if small else rng.randint(1, 2)
        for i in range(n_conv):
            k = min(rng.pick([1, 2, 2, 2]), h, w)
            k = [k, k]
            pad = rng.pick(["valid", "same"])
            st = rng.pick([[1, 1], [1, 1], [1, 1], [1, 1], [2, 1], [2, 2]])
            f = rng.randint(1, 3)
            node = {"t": "conv", "filters": f, "k": k, "pad": pad, "st": st,
                    "act": act() if forward_only else rng.pick(["relu", "relu", None]), "bias": rng.chance(0.8)}
            if st == [1, 1] and k[0] > 1 and pad == "same" and rng.chance(0.45):
                node["dil"] = [2, 2]
            if cf:
                node["cf"] = True
            if forward_only and rng.chance(0.2):
                # only forward: rectangular kernels, groups
                node["fwd"] = True
                if rng.chance(0.5) and c > 1:
                    node["groups"] = c
                    node["filters"] = f = c * rng.randint(1, 2)
                else:
                    node["k"] = k = [1, k[1]]
                    node.pop("dil", None)
            push(node)
            if pad == "same":
                h, w = -(-h // st[0]), -(-w // st[1])
            else:
                h, w = (h - k[0]) // st[0] + 1, (w - k[1]) // st[1] + 1
            c = f
            if bn and forward_only and rng.chance(0.3):
                push({"t": "bn", "center": rng.chance(0.8), "scale": rng.chance(0.8), "conv": True, "axis": 1 if cf else -1})
            if h < 2 or w < 2:
                break
        if forward_only and h >= 2 and w >= 2 and rng.chance(0.15):
            push({"t": "pool", "size": [2, 2], "pad": "valid", "st": [1, 1], "cf": cf})
            h, w = h - 1, w - 1
        if rng.chance(0.25):
            push({"t": "permute", "dims": rng.pick([[2, 1, 3], [3, 1, 2], [1, 3, 2]])})
        push({"t": "flatten", "cf": rng.chance(0.2)})
        shape = (h * w * c,)
        n_blocks = rng.randint(0, 1)
    for _ in range(n_blocks):
        r = rng.random()
        if forward_only and r < 0.35:
            # branches merged
            m = rng.pick(MERGES)
            units = rng.randint(2, 4)
            if rng.chance(0.25):
                push(dict(dense(units), **{"in": [len(nodes) - 1]}))  # merged with what it feeds
            base = len(nodes) - 1
            skip = [base] if base >= 0 and nodes[base].get("units") == units and nodes[base]["t"] == "dense" else []
            push(dict(dense(units), **{"in": [base]}))
            a = len(nodes) - 1
            if rng.chance(0.3):
                push({"t": "act", "f": "relu", "in": [a]})
                a = len(nodes) - 1
            if skip and (m == "sub" or rng.chance(0.5)):
                push({"t": m, "in": [skip[0], a]})
                continue
            push(dict(dense(units), **{"in": [base]}))
            b = len(nodes) - 1
            ins = [a, b]
            if skip:
                ins = [skip[0], a, b]
            elif m != "sub" and rng.chance(0.2):
                push(dict(dense(units), **{"in": [base]}))
                ins = [a, b, len(nodes) - 1]
            push({"t": m, "in": ins})
            continue
        if forward_only and r < 0.39:
            # branches of several dimensions merged
            m = rng.pick(MERGES)
            sh = rng.pick([[2, 3], [3, 2], [1, 2, 2]])
            units = int(np.prod(sh))
            base, ins = len(nodes) - 1, []
            for _ in range(2):
                push(dict(dense(units), **{"in": [base]}))
                push({"t": "reshape", "shape": sh, "in": [len(nodes) - 1]})
                ins.append(len(nodes) - 1)
            push({"t": m, "in": ins, **({"axis": rng.pick([1, -1])} if m == "cat" else {})})
            push({"t": "flatten", "cf": rng.chance(0.3)})
            continue
        if forward_only and smooth and r < 0.46:
            # exponential and softmax inside the network, on bounded values
            push({"t": "dense", "units": rng.randint(2, 4), "act": "tanh", "bias": True})
            push({"t": "act", "f": rng.pick(["exponential", "softmax"])})
            continue
        if rng.chance(0.06):
            # dense layer on features of several dimensions
            sh = rng.pick([[2, 2], [3, 2], [2, 3]])
            push(dense(int(np.prod(sh)), "relu"))
            push({"t": "reshape", "shape": sh})
            push(dict(dense(rng.randint(1, 3), rng.pick(["relu", None])), nd=True))
            if bn and rng.chance(0.3):
                push({"t": "bn", "center": rng.chance(0.8), "scale": rng.chance(0.8), "axis": rng.pick([1, -1]), "nd": True})
            if rng.chance(0.3):
                push({"t": "permute", "dims": [2, 1]})
            push({"t": "flatten", "cf": rng.chance(0.3)})
            continue
        push(dense())
        if standalone and rng.chance(0.25):
            f = rng.pick(["relu", "relu"] + (["sigmoid", "tanh", "softplus"] if smooth else []))
            push({"t": "act", "f": f, "cls": "act"})
        if bn and rng.chance(0.3):
            push({"t": "bn", "center": rng.chance(0.8), "scale": rng.chance(0.8)})
        if rng.chance(0.12):
            push({"t": "dropout", "rate": 0.3})
        if forward_only and rng.chance(0.12):
            # a layer used twice
            u = rng.randint(2, 4)
            push(dense(u))
            push(dense(u))
            push({"t": "again", "ref": len(nodes) - 1})
    shaped = None
    if rng.chance(tail):
        # an output with several dimensions
        shaped = rng.pick(["reshape", "reshape", "conv"])
        softmax = False
    out = rng.randint(max(out_min, 1 if out_min > 1 else 2), 4)
    if out_min == 1 and rng.chance(0.15):
        out = 1
    last_act = None if rng.chance(0.75) else rng.pick(["relu"] + (["sigmoid", "tanh"] if smooth else []))
    if linear_tail:
        last_act = None
    if softmax and rng.chance(0.12) and out > 1:
        last_act = "softmax"
    if shaped:
        shape = rng.pick([[2, 2], [2, 1, 2], [3, 1], [2, 3]] if shaped == "reshape" else [[2, 2, 1], [2, 1, 2], [1, 2, 2]])
        out = int(np.prod(shape))
    push({"t": "dense", "units": out, "act": last_act, "bias": rng.chance(0.85)})
    if shaped:
        push({"t": "reshape", "shape": shape})
    if shaped == "conv":
        k = rng.randint(1, 2)
        node = {"t": "conv", "filters": rng.randint(1, 2), "k": [k, k], "pad": "same", "st": [1, 1],
                "act": rng.pick(["relu", None, None]), "bias": rng.chance(0.8)}
        push(node)
        shape = shape[:2] + [node["filters"]]
    if softmax and last_act is None and out > 1 and rng.chance(0.06):
        push({"t": "act", "f": "softmax"})
    chain = all("in" not in n and n["t"] != "again" for n in nodes)
    kind = "seq" if chain and rng.chance(0.5) else "fun"
    spec = {"dim": dim, "kind": kind, "nodes": nodes, "wseed": rng.seed31(),
            "names": rng.pick(["auto", "auto", "custom", "clash"])}
    if shaped:
        spec["out"] = shape
    if rng.chance(0.2):
        # layers that are not trained (never all of them)
        ks = [i for i, n in enumerate(nodes) if n["t"] in ("dense", "conv", "bn")]
        if len(ks) > 1:
            rng.shuffle(ks)
            spec["frozen"] = sorted(ks[:rng.randint(1, len(ks) - 1)])
    if nested and chain and len(nodes) >= 3 and rng.chance(0.2):
        i = rng.randint(0, len(nodes) - 2)
        j = rng.randint(i + 1, len(nodes) - 1)
        spec["nest"] = [i, j, rng.pick(["seq", "fun"])]
    return spec


def has(spec, *types):
    return any(n["t"] in types for n in spec["nodes"])


def forward_only(spec):
    """Only the forward methods support these layers."""
    return has(spec, *MERGES, "pool", "again") or any(
        n.get("fwd") or n.get("f") == "exponential" or n.get("f") == "softmax" and n is not spec["nodes"][-1] or n.get("conv") or n["t"] == "conv" and n["act"] not in ("relu", None) for n in spec["nodes"])


def no_crown(spec):
    """The "crown" method does not support these (the tensors that its layers see are flat)."""
    return has(spec, "permute") or any(n.get("nd") for n in spec["nodes"])


def smooth(spec):
    return any(f not in (None, "relu", "linear") for n in spec["nodes"] for f in (n.get("act"), n.get("f")))


def live(spec):
    """The nodes that the output depends on."""
    nodes, todo, seen = spec["nodes"], [len(spec["nodes"]) - 1], set()
    while todo:
        k = todo.pop()
        if k >= 0 and k not in seen:
            seen.add(k)
            todo += nodes[k].get("in", [k - 1])
    return [nodes[k] for k in sorted(seen)]


def out_shape(spec):
    return tuple(spec.get("out") or [[n for n in spec["nodes"] if n["t"] == "dense"][-1]["units"]])


def out_dim(spec):
    return int(np.prod(out_shape(spec)))


def n_labels(spec):
    """Classes that adversarial questions can be about: none when the output has several dimensions."""
    return 1 if "out" in spec else out_dim(spec)


def slopes_ok(spec):
    """softplus has no "adaptative" relaxation; its "same-slope" one (a line through the origin with the slope of the
    chord) is sound but as ill-conditioned as the chord of a narrow interval: no equality can be asked of it."""
    return not any(n.get("act") == "softplus" or n.get("f") == "softplus" for n in spec["nodes"])


def fmt(node):
    return "channels_first" if node.get("cf") else "channels_last"


def _layer(keras, node, name, drop_softmax):
    L = keras.layers
    kw = {} if name is None else {"name": name}
    t = node["t"]
    act = node.get("act")
    if drop_softmax and act == "softmax":
        act = None
    if act == "layer":
        act = L.ReLU()
    if t == "dense":
        return L.Dense(node["units"], activation=act, use_bias=node["bias"], **kw)
    if t == "conv":
        return L.Conv2D(node["filters"], tuple(node["k"]), strides=tuple(node["st"]), padding=node["pad"],
                        dilation_rate=tuple(node.get("dil", (1, 1))), activation=act, groups=node.get("groups", 1),
                        data_format=fmt(node), use_bias=node["bias"], **kw)
    if t == "bn":
        return L.BatchNormalization(axis=node.get("axis", -1), center=node["center"], scale=node["scale"], **kw)
    if t == "act":
        f = node["f"]
        if drop_softmax and f == "softmax":
            f = "linear"
        if node.get("cls") == "relu":
            return L.ReLU(**kw)
        return L.Activation(f, **kw)
    if t == "reshape":
        return L.Reshape(tuple(node["shape"]), **kw)
    if t == "lnorm":
        return L.LayerNormalization(**kw)
    if t == "leaky":
        return L.LeakyReLU(**kw)
    if t == "permute":
        return L.Permute(tuple(node["dims"]), **kw)
    if t == "flatten":
        return L.Flatten(data_format=fmt(node), **kw)
    if t == "dropout":
        return L.Dropout(node["rate"], **kw)
    if t == "pool":
        return L.MaxPooling2D(tuple(node["size"]), strides=tuple(node["st"]), padding=node["pad"],
                              data_format=fmt(node), **kw)
    if t == "cat":
        return L.Concatenate(axis=node.get("axis", -1), **kw)
    cls = {"add": L.Add, "sub": L.Subtract, "avg": L.Average, "max": L.Maximum, "min": L.Minimum,
           "mul": L.Multiply}[t]
    return cls(**kw)


def _name(spec, k, salt):
    mode = spec.get("names", "auto")
    if mode == "auto":
        return None
    if mode == "clash":
        # names looking like the ones libraries make up; those of a nested model are also used outside it
        if spec.get("nest") and spec["nest"][0] <= k < spec["nest"][1]:
            k -= spec["nest"][0]
        return ["layer", "layer_1", "dense", "dense_1", "dense_activation", "linear", "input", "activation",
                "layer_1_linear", "decomon", "layer_decomon", "backward", "relu", "a", "a_1", "a_2", "b", "b_1", "b_2", "c"][
            k % 20] + ("" if k < 20 else str(k)) + salt
    return f"n{k}_{spec['nodes'][k]['t']}{salt}"


def build(keras, spec, drop_softmax=False, salt=""):
    """Build the Keras model of a spec (fresh layers, fresh variables), with the weights of `wseed`."""
    nodes = spec["nodes"]
    layers = []
    for k, node in enumerate(nodes):
        if node["t"] == "again":
            layers.append(layers[node["ref"]])
        else:
            layers.append(_layer(keras, node, _name(spec, k, salt), drop_softmax and k == len(nodes) - 1))
    flat = layers
    inp_name = None if spec.get("names", "auto") == "auto" else "x_in" + salt
    nest = spec.get("nest")
    if nest:
        i, j, kind = nest
        j = min(j, len(layers) - 1)
        sub_layers = layers[i:j]
        if sub_layers:
            if kind == "seq":
                sub = keras.Sequential(sub_layers)
            else:
                # needs the shape at that point
                probe = keras.Input((spec["dim"],))
                h = probe
                for l in layers[:i]:
                    h = l(h)
                x = keras.Input(tuple(h.shape[1:]))
                h = x
                for l in sub_layers:
                    h = l(h)
                sub = keras.Model(x, h)
                if i > 0:
                    # fresh layers for the outer part: the probe call added nodes to them
                    layers = [
                        _layer(keras, nodes[k], _name(spec, k, salt), drop_softmax and k == len(nodes) - 1) if k < i else l
                        for k, l in enumerate(layers)
                    ]
                    flat = layers
            layers = layers[:i] + [sub] + layers[j:]
        if spec["kind"] == "seq":
            model = keras.Sequential([keras.Input((spec["dim"],), name=inp_name)] + layers)
        else:
            x = keras.Input((spec["dim"],), name=inp_name)
            h = x
            for l in layers:
                h = l(h)
            model = keras.Model(x, h)
    elif spec["kind"] == "seq":
        model = keras.Sequential([keras.Input((spec["dim"],), name=inp_name)] + layers)
    else:
        x = keras.Input((spec["dim"],), name=inp_name)
        outs = []
        for k, node in enumerate(nodes):
            ins = node.get("in", [k - 1])
            args = [x if i < 0 else outs[i] for i in ins]
            outs.append(layers[k](args if len(args) > 1 else args[0]))
        model = keras.Model(x, outs[-1])
    for k in spec.get("frozen", ()):
        flat[k].trainable = False
    init_weights(model, spec["wseed"])
    return model


def make_odd(spec, rng):
    """A network with something in it that decomon does not convert."""
    import copy

    spec = copy.deepcopy(spec)
    ks = [i for i, n in enumerate(spec["nodes"]) if n["t"] in ("dense", "conv") and n.get("act") != "softmax"]
    if rng.chance(0.6):
        spec["nodes"][rng.pick(ks)]["act"] = rng.pick(["gelu", "silu", "hard_sigmoid", "layer"])
    else:
        spec["nodes"].append({"t": rng.pick(["lnorm", "leaky"])})
    spec["odd"] = True
    return spec


def dilatable(spec):
    return any(n["t"] == "conv" and n["st"] == [1, 1] and n["k"][0] > 1 and n["pad"] == "same" for n in spec["nodes"])


def mutate(spec, rng):
    """A network that looks like another one: same shapes, something else in it."""
    import copy

    spec = copy.deepcopy(spec)
    spec["wseed"] = rng.seed31()
    opts = []
    for i, n in enumerate(spec["nodes"]):
        if n["t"] == "conv":
            if n["st"] == [1, 1] and n["k"][0] > 1 and n["pad"] == "same":
                opts += [(i, "dil", None if "dil" in n else [2, 2])] * 3
            opts.append((i, "bias", not n["bias"]))
        if n["t"] in ("conv", "dense") and i < len(spec["nodes"]) - 1 and n.get("act") in (None, "relu"):
            opts.append((i, "act", None if n["act"] else "relu"))
        if n["t"] == "dense":
            opts.append((i, "bias", not n["bias"]))
        if n["t"] == "bn":
            opts.append((i, "scale", not n["scale"]))
    if opts and rng.chance(0.85):
        i, key, v = rng.pick(opts)
        if v is None and key == "dil":
            del spec["nodes"][i]["dil"]
        else:
            spec["nodes"][i][key] = v
    return spec


def init_weights(model, seed):
    """Seeded weights, BN statistics included (negative gammas too)."""
    rng = np.random.default_rng(seed)
    for v in model.weights:
        v.assign(random_value(v, rng))


def random_value(v, rng, scale=1.0):
    shape = tuple(v.shape)
    name = v.name
    if "variance" in name:
        a = rng.uniform(0.3, 2.0, shape)
    elif name == "gamma":
        a = rng.uniform(0.4, 1.5, shape) * rng.choice([-1.0, 1.0], shape)
    elif name in ("bias", "beta", "moving_mean"):
        a = rng.normal(0, 0.4, shape)
    elif "seed" in name:
        return np.array([1, 2], dtype="uint32") if shape == (2,) else np.zeros(shape)
    else:
        fan = max(1, int(np.prod(shape[:-1])))
        a = rng.normal(0, 1.2 / np.sqrt(fan), shape)
    return (a * scale if "variance" not in name else a).astype("float32")


def inventory(model):
    """What the model is made of, as its owner sees it: sub-layers, variables, entries of its state."""
    inv = {"variables": len(model.variables), "layers": len(model._flatten_layers()) if hasattr(model, "_flatten_layers") else None}
    if hasattr(model, "state_dict"):
        # the metrics that keras adds when it trains or evaluates are left out
        inv["state"] = sorted(k for k in model.state_dict() if not k.startswith(("_metrics", "optimizer", "_compile")))
    return inv
