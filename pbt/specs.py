"""Model specs (plain JSON data), their construction as nnj modules, and Hypothesis strategies for them."""
import collections

import torch
from hypothesis import strategies as st

from . import core, ref

# layers whose forward products (jvp, jmjTp, ...) are provided
FWD_ELEM = ["Tanh", "ReLU", "Sigmoid", "Sinusoidal", "TruncExp", "Softplus"]


def numel(shape):
    n = 1
    for s in shape:
        n *= s
    return n


# ------------------------------------------------------------------ construction
def hooks(spec):
    return {} if spec.get("h", True) else {"add_hooks": False}


def build(spec, nnj, shared=None, named=0):
    """named: bits 4 (members with names) and 16 (other constructor calls with the same meaning)"""
    t = spec["t"]
    if shared is not None and "id" in spec:
        # the same instance wherever this id occurs
        if spec["id"] not in shared:
            shared[spec["id"]] = build({k: v for k, v in spec.items() if k != "id"}, nnj, shared, named)
        return shared[spec["id"]]
    if t in ("Sequential", "Skip"):
        ms = [build(m, nnj, shared, named) for m in spec["m"]]
        if named & 4:
            # neither the alphabetical nor the numerical order of the names is the order of the members
            ms = [collections.OrderedDict((f"{'ba'[k % 2]}{len(ms) - k}", m) for k, m in enumerate(ms))]
        return (nnj.Sequential if t == "Sequential" else nnj.SkipConnection)(*ms, **hooks(spec))
    if t in ref.CUSTOM_BUILD:
        return ref.CUSTOM_BUILD[t](spec, nnj)
    if named & 16:
        return other_call(spec, nnj)
    if t == "Linear":
        return nnj.Linear(spec["i"], spec["o"], bias=spec["bias"])
    if t == "Conv2d":
        return nnj.Conv2d(
            spec["ci"], spec["co"], tuple(spec["k"]), padding=tuple(spec["p"]), bias=spec["bias"],
            dilation=tuple(spec.get("d", (1, 1))), groups=spec.get("g", 1), use_vmap_for_backprop=spec["vmap"],
        )
    if t == "MaxPool2d":
        un = lambda v: tuple(v) if isinstance(v, list) else v
        return nnj.MaxPool2d(
            un(spec["k"]), stride=un(spec["s"]), padding=un(spec["p"]), dilation=un(spec["d"]), ceil_mode=spec["ceil"]
        )
    if t == "Upsample":
        return nnj.Upsample(scale_factor=spec["s"])
    if t == "Softplus":
        return nnj.Softplus(beta=spec["beta"], threshold=spec["thr"]) if "beta" in spec else nnj.Softplus()
    if t == "L2Norm":
        return nnj.L2Norm(eps=spec["eps"]) if "eps" in spec else nnj.L2Norm()
    if t == "Reshape":
        return nnj.Reshape(*spec["dims"])
    return getattr(nnj, t)()


def other_call(spec, nnj):
    """The same layer by another way of writing the constructor call: names for positions and vice versa, one number for
    a pair of equal ones, what equals the default left out."""
    t = spec["t"]
    un = lambda v: v[0] if isinstance(v, (list, tuple)) and v[0] == v[1] else (tuple(v) if isinstance(v, list) else v)
    if t == "Linear":
        if spec["bias"]:
            return nnj.Linear(in_features=spec["i"], out_features=spec["o"])
        return nnj.Linear(spec["i"], spec["o"], False)
    if t == "Conv2d":
        kw = {"kernel_size": un(spec["k"])}
        if un(spec["p"]) != 0:
            kw["padding"] = un(spec["p"])
        if "d" in spec:
            kw["dilation"] = un(spec["d"])
        if "g" in spec:
            kw["groups"] = spec["g"]
        if not spec["bias"]:
            kw["bias"] = False
        if not spec["vmap"]:
            kw["use_vmap_for_backprop"] = False
        return nnj.Conv2d(out_channels=spec["co"], in_channels=spec["ci"], **kw)
    if t == "MaxPool2d":
        if spec["ceil"] or spec["d"] != 1:
            return nnj.MaxPool2d(un(spec["k"]), un(spec["s"]), un(spec["p"]), un(spec["d"]), False, spec["ceil"])
        kw = {k: un(v) for k, v, d in (("stride", spec["s"], None), ("padding", spec["p"], 0)) if un(v) != d}
        return nnj.MaxPool2d(kernel_size=un(spec["k"]), **kw)
    if t == "Upsample":
        return nnj.Upsample(None, spec["s"], "nearest")
    if t == "Softplus":
        return nnj.Softplus(spec["beta"], spec["thr"]) if "beta" in spec else nnj.Softplus(1.0)
    if t == "L2Norm":
        return nnj.L2Norm(spec["eps"]) if "eps" in spec else nnj.L2Norm(1e-6)
    if t == "Reshape":
        return nnj.Reshape(*tuple(spec["dims"]))
    return getattr(nnj, t)()


def leaves(spec):
    if spec["t"] in ("Sequential", "Skip"):
        return [l for m in spec["m"] for l in leaves(m)]
    return [spec]


def without_hooks(spec):
    return spec["t"] in ("Sequential", "Skip") and (not spec.get("h", True) or any(without_hooks(m) for m in spec["m"]))


def types(spec):
    if spec["t"] in ("Sequential", "Skip"):
        return {spec["t"]}.union(*[types(m) for m in spec["m"]])
    return {spec["t"]}


def depth(spec):
    if spec["t"] in ("Sequential", "Skip"):
        return 1 + max([depth(m) for m in spec["m"]] or [0])
    return 0


def param_shapes(spec):
    """Shapes of the parameters in the library's order: per layer weight then bias, layers in order."""
    out = []
    for l in leaves(spec):
        if l["t"] == "Linear":
            out.append((l["o"], l["i"]))
            if l["bias"]:
                out.append((l["o"],))
        elif l["t"] == "Conv2d":
            out.append((l["co"], l["ci"] // l.get("g", 1), *l["k"]))
            if l["bias"]:
                out.append((l["co"],))
        elif l["t"] in ref.CUSTOM_PARAMS:
            out += ref.CUSTOM_PARAMS[l["t"]](l)
    return out


def leaf_param_counts(spec):
    """Number of parameters of each parametric leaf layer, in order (the blocks of weight metrics)."""
    return [c for c in (sum(numel(s) for s in param_shapes(l)) for l in leaves(spec)) if c > 0]


def make_params(spec, recipe, dtype):
    out = []
    for k, s in enumerate(param_shapes(spec)):
        scale = 1.0
        if recipe["s"] != "int":
            scale = 1.2 / max(1, numel(s[1:])) ** 0.5 if len(s) > 1 else 0.5
        r = {"s": recipe["s"], "n": (recipe["n"] + 7919 * k) % (2**31)}
        out.append((core.values(r, s) * scale).to(dtype))
    return out


@torch.no_grad()
def load_params(module, params):
    own = list(module.parameters())
    core.require(
        [tuple(p.shape) for p in own] == [tuple(p.shape) for p in params],
        f"parameters are {[tuple(p.shape) for p in own]}, expected {[tuple(p.shape) for p in params]}",
    )
    for p, t in zip(own, params):
        p.copy_(t)


def realize(spec, nnj, params, dtype, shared=None, circumstances=0):
    with core.sut("building the model"):
        m = build(spec, nnj, shared, circumstances & 20).to(dtype)
        load_params(m, params)
        if circumstances & 1:
            for k, p in enumerate(m.parameters()):
                p.requires_grad_(k % 2 == 1)
        if circumstances & 2:
            m.eval()
        if circumstances & 32:
            # convolutions in the memory format channels_last, weights of linear layers stored column by column
            for p in m.parameters():
                if p.dim() == 4:
                    p.data = p.data.contiguous(memory_format=torch.channels_last)
                elif p.dim() == 2:
                    p.data = p.data.t().contiguous().t()
    return m


# ------------------------------------------------------------------ strategies
def ints(a, b):
    return st.integers(a, b)


def recipes(styles, layouts=core.LAYOUTS, grad=False):
    d = {"s": st.sampled_from(styles), "n": st.integers(0, 99999), "l": st.sampled_from(layouts)}
    if grad:
        d["g"] = st.sampled_from([False, False, False, True])
    return st.fixed_dictionaries(d)


x_recipes = recipes(core.X_STYLES, grad=True)
x_plain = recipes(("normal",) * 4 + ("int", "sparse", "pos", "neg", "ramp", "big", "edge", "mixmag"), grad=True)
v_recipes = recipes(core.V_STYLES)
w_recipes = recipes(core.W_STYLES, layouts=("c",))
small_batches = [1, 2, 2, 3, 3, 4, 5, 7] * 24 + [6, 8, 9, 10, 16, 17, 32, 33] * 2 + [65]
batches = st.sampled_from(small_batches)
any_batches = st.sampled_from(small_batches + [100, 129, 260])


def factorizations(n, k):
    if k == 1:
        return [[n]]
    return [[d] + r for d in range(1, n + 1) if n % d == 0 for r in factorizations(n // d, k - 1)]


@st.composite
def elementwise(draw, fwd_any=True):
    t = draw(st.sampled_from(FWD_ELEM + ["L2Norm"]))
    s = {"t": t}
    if t == "Softplus" and draw(st.booleans()):
        s["beta"] = draw(st.sampled_from([1.0, 0.5, 2.0, 4.0]))
        s["thr"] = draw(st.sampled_from([20.0, 5.0, 1.0]))
    if t == "L2Norm" and draw(st.booleans()):
        s["eps"] = draw(st.sampled_from([1e-6, 1e-3, 0.1, 1.0]))
    return s


@st.composite
def convs(draw, shape, cap, unusual=False):
    c, h, w = shape
    top = draw(st.sampled_from([4] * 12 + [7]))
    kh, kw = draw(ints(1, top)), draw(ints(1, top))
    ph, pw = draw(ints(0, kh - 1)), draw(ints(0, kw - 1))
    kh = min(kh, h + 2 * ph)
    kw = min(kw, w + 2 * pw)
    ph, pw = min(ph, kh - 1), min(pw, kw - 1)
    h2, w2 = h + 2 * ph - kh + 1, w + 2 * pw - kw + 1
    if h2 < 1 or w2 < 1 or h2 * w2 > cap:
        kh = kw = 1
        ph = pw = 0
        h2, w2 = h, w
    co = draw(ints(1, max(1, min(4, cap // (h2 * w2)))))
    return {
        "t": "Conv2d", "ci": c, "co": co, "k": [kh, kw], "p": [ph, pw],
        "bias": draw(st.booleans()), "vmap": draw(st.booleans()),
    }


def ok_pool(spec, shape):
    if len(shape) != 3:
        return False  # images only: torch would take a batch without channels for one image
    try:
        y = ref.plain_pool(spec, torch.zeros(1, *shape))
        # a window with nothing but padding has no maximum (torch gives -inf there)
        return min(y.shape) >= 1 and bool(torch.isfinite(y).all())
    except RuntimeError:
        return False


@st.composite
def pools(draw, shape):
    c, h, w = shape
    pair = draw(st.booleans())
    one = lambda lo, hi: draw(ints(lo, hi))
    k = [one(1, 3), one(1, 3)] if pair else one(1, 3)
    mode = draw(st.sampled_from(["default", "overlap", "overlap", "gaps", "any", "any"]))
    if mode == "default":
        s = None
    elif mode == "overlap":
        s = 1
    elif mode == "gaps":
        s = 3
    else:
        s = [one(1, 3), one(1, 3)]
    p = 0
    if draw(ints(0, 3)) == 0:
        p = [draw(ints(0, (k[0] if pair else k) // 2)), draw(ints(0, (k[1] if pair else k) // 2))]
    d = draw(st.sampled_from([1, 1, 1, 1, 2]))
    spec = {"t": "MaxPool2d", "k": k, "s": s, "p": p, "d": d, "ceil": draw(st.sampled_from([False, False, True]))}
    if not ok_pool(spec, shape):
        spec = {"t": "MaxPool2d", "k": [min(2, h), min(2, w)], "s": None, "p": 0, "d": 1, "ceil": False}
    return spec


@st.composite
def reshapes(draw, shape):
    n = numel(shape)
    k = draw(ints(1, 3))
    fs = [f for f in factorizations(n, k) if k < 3 or max(f[1], f[2]) <= 8] or [[n]]
    dims = list(draw(st.sampled_from(fs)))
    if draw(ints(0, 4)) == 0:
        dims[draw(ints(0, len(dims) - 1))] = -1
    return {"t": "Reshape", "dims": dims}


@st.composite
def skips(draw, shape, fwd, cap, nest):
    """SkipConnection whose inner chain keeps all dimensions but the first."""
    tail = list(shape[1:])
    inner, sh = draw(chains(shape, fwd, max(4, cap - numel(shape)), nest - 1, lo=1, hi=3))
    if list(sh[1:]) != tail:
        room = max(1, (cap - numel(shape)) // max(1, numel(tail)))
        co = draw(ints(1, max(1, min(3, room))))
        n = numel(sh)
        if len(sh) > 1 or draw(st.booleans()):
            inner.append({"t": "Flatten"})
        inner.append({"t": "Linear", "i": n, "o": co * numel(tail), "bias": draw(st.booleans())})
        if tail:
            inner.append({"t": "Reshape", "dims": [co] + tail})
    return {"t": "Skip", "m": inner}


@st.composite
def one_layer(draw, shape, fwd, cap, nest):
    shape = list(shape)
    n = numel(shape)
    opts = ["elem", "elem", "elem", "Flatten", "Reshape"]
    if len(shape) == 1:
        opts += ["Linear"] * 5
    if len(shape) == 3 and not fwd:
        opts += ["Conv2d"] * 4 + ["MaxPool2d"] * 3
        if 4 * n <= cap:
            opts += ["Upsample"] * 3
    if nest > 0:
        opts += ["Sequential"]
        if 2 * n <= cap and n > 0:
            opts += ["Skip"] * 2
    o = draw(st.sampled_from(opts))
    if o == "elem":
        return draw(elementwise())
    if o == "Flatten":
        return {"t": "Flatten"}
    if o == "Reshape":
        return draw(reshapes(shape))
    if o == "Linear":
        return {"t": "Linear", "i": n, "o": draw(ints(1, max(1, min(8, 400 // n)))), "bias": draw(st.booleans())}
    if o == "Conv2d":
        return draw(convs(shape, cap))
    if o == "MaxPool2d":
        return draw(pools(shape))
    if o == "Upsample":
        s = draw(st.sampled_from([f for f in (1, 2, 2, 3) if f * f * n <= cap]))
        return {"t": "Upsample", "s": s}
    if o == "Sequential":
        ms, _ = draw(chains(shape, fwd, cap, nest - 1, lo=1, hi=3))
        return {"t": "Sequential", "m": ms}
    if o == "Skip":
        return draw(skips(shape, fwd, cap, nest))
    raise KeyError(o)


@st.composite
def chains(draw, shape, fwd, cap, nest, lo=1, hi=4):
    ms, sh = [], list(shape)
    for _ in range(draw(ints(lo, hi))):
        l = draw(one_layer(sh, fwd, cap, nest))
        ms.append(l)
        sh = ref.out_shape(l, sh)
    return ms, sh


@st.composite
def in_shapes(draw, cap=36, kinds=("flat", "flat", "mid", "img", "img", "img")):
    k = draw(st.sampled_from(kinds))
    if draw(ints(0, 39)) == 39:
        # unusually large
        if k == "flat":
            return [draw(ints(8, 40))]
        if k == "mid":
            return [draw(ints(1, 8)), draw(ints(1, 9))]
        return list(draw(st.sampled_from([(8, 3, 4), (2, 9, 8), (1, 12, 10), (6, 4, 4), (1, 1, 17), (16, 1, 2), (4, 2, 9)])))
    if k == "flat":
        return [draw(ints(1, 7))]
    if k == "mid":
        return [draw(ints(1, 4)), draw(ints(1, 5))]
    c = draw(ints(1, 3))
    h = draw(ints(1, 6))
    w = draw(ints(1, max(1, min(6, cap // (c * h)))))
    return [c, h, w]


@st.composite
def leaf_layers(draw, shape, fwd):
    """One elementary layer, with the parametric and shape-changing kinds preferred."""
    opts = ["elem", "elem", "Reshape", "Flatten"]
    if len(shape) == 1:
        opts += ["Linear"] * 8
    if len(shape) == 3 and not fwd:
        opts += ["Conv2d"] * 8 + ["MaxPool2d"] * 6 + ["Upsample"] * 3
    return draw(layer_of(draw(st.sampled_from(opts)), shape))


@st.composite
def layer_of(draw, o, shape):
    """A layer of the given kind for inputs of this shape."""
    if o == "elem":
        return draw(elementwise())
    if o in ("L2Norm", "Softplus"):
        return {"t": o}
    if o == "Linear":
        return {"t": "Linear", "i": shape[0], "o": draw(ints(1, 9)), "bias": draw(st.booleans())}
    if o == "Conv2d":
        return draw(convs(shape, 48))
    if o == "MaxPool2d":
        return draw(pools(shape))
    if o == "Upsample":
        n = numel(shape)
        return {"t": "Upsample", "s": draw(st.sampled_from([f for f in (1, 2, 3) if f * f * n <= 120] or [1]))}
    if o == "Reshape":
        return draw(reshapes(shape))
    return {"t": "Flatten"}


@st.composite
def models(draw, fwd=False, cap=48, parametric=False, flat_out=False, kinds=None, leaf=None):
    """{"shape": input shape of one sample, "spec": module}"""
    if kinds is None and draw(ints(0, 69)) == 68:
        return draw(medium_models(fwd, parametric, flat_out, leaf))
    shape = draw(in_shapes(kinds=kinds)) if kinds else draw(in_shapes())
    if leaf if leaf is not None else draw(ints(0, 9)) < 4:
        spec = draw(leaf_layers(shape, fwd))
    else:
        rare = draw(ints(0, 39))
        ms, sh = draw(chains(shape, fwd, cap, 1, lo=7, hi=12) if rare == 39 else chains(shape, fwd, cap, 2, lo=1, hi=5))
        if parametric and not param_shapes({"t": "Sequential", "m": ms}):
            n = numel(sh)
            if len(sh) > 1:
                ms.append({"t": "Flatten"})
            ms.append({"t": "Linear", "i": n, "o": draw(ints(1, 5)), "bias": draw(st.booleans())})
            sh = [ms[-1]["o"]]
        if flat_out and len(sh) > 1:
            ms.append({"t": "Flatten"})
        spec = {"t": "Sequential", "m": ms}
        # sometimes a SkipConnection on top
        if draw(ints(0, 5)) == 0 and list(sh[1:]) == list(shape[1:]):
            spec = {"t": "Skip", "m": ms}
        if rare == 38:
            # several levels of nesting around it
            for _ in range(draw(ints(2, 4))):
                sh = ref.out_shape(spec, shape)
                o = draw(st.sampled_from(["plain", "before", "after", "skip"]))
                if o == "skip" and list(sh[1:]) == list(shape[1:]) and numel(sh) + numel(shape) <= 2 * cap:
                    spec = {"t": "Skip", "m": [spec]}
                else:
                    l = [draw(elementwise())]
                    spec = {"t": "Sequential", "m": (l if o == "before" else []) + [spec] + (l if o == "after" else [])}
    return {"shape": shape, "spec": spec}


# ------------------------------------------------------------------ larger models
@st.composite
def medium_models(draw, fwd=False, parametric=False, flat_out=False, leaf=None):
    """One layer with some dimension in the hundreds, alone or between two others."""
    b = lambda: draw(st.booleans())
    n = draw(ints(250, 280))
    opts = ["in", "out"] + ([] if parametric else ["elem", "shape"]) + ([] if fwd else ["conv"] + ([] if parametric else ["pool", "up"]))
    o = draw(st.sampled_from(opts))
    if o == "in":
        shape, l = [n], {"t": "Linear", "i": n, "o": 1, "bias": b()}
    elif o == "out":
        shape, l = [1], {"t": "Linear", "i": 1, "o": draw(ints(130, 180)), "bias": b()}
    elif o in ("elem", "shape"):
        shape = draw(st.sampled_from([[n], [2, 130], [3, 9, 10], [260, 1, 1], [1, 1, 270]]))
        l = draw(elementwise()) if o == "elem" else draw(st.sampled_from([{"t": "Flatten"}, {"t": "Reshape", "dims": [numel(shape) // 2 if numel(shape) % 2 == 0 else 1, -1]}]))
    elif o == "conv":
        ci, co, h, w = draw(st.sampled_from([(1, 1, 16, 17), (2, 3, 9, 9), (20, 1, 3, 3), (1, 20, 3, 4), (6, 7, 5, 4), (1, 1, 1, 257), (3, 2, 11, 8)]))
        k = [min(h, draw(ints(1, 3))), min(w, draw(ints(1, 3)))]
        p = [draw(ints(0, k[0] - 1)), draw(ints(0, k[1] - 1))]
        shape, l = [ci, h, w], {"t": "Conv2d", "ci": ci, "co": co, "k": k, "p": p, "bias": b(), "vmap": b()}
    elif o == "pool":
        shape = draw(st.sampled_from([[1, 16, 17], [3, 9, 10], [65, 2, 2], [17, 4, 4], [1, 3, 88]]))
        k = draw(ints(2, min(3, shape[1])))
        l = {"t": "MaxPool2d", "k": k, "s": draw(st.sampled_from([None, 1, 2])), "p": 0, "d": 1, "ceil": False}
    else:
        shape = draw(st.sampled_from([[1, 8, 8], [16, 2, 2], [2, 3, 11], [65, 1, 1]]))
        l = {"t": "Upsample", "s": 2}
    if leaf or (leaf is None and not flat_out and b()):
        return {"shape": shape, "spec": l}
    ms = [l]
    act = lambda: {"t": draw(st.sampled_from(["Tanh", "Sigmoid", "Sinusoidal", "Softplus"]))}
    if b():
        ms.insert(0, act())
    sh = ref.out_shape(l, shape)
    if flat_out and len(sh) > 1:
        ms.append({"t": "Flatten"})
    if b():
        ms.append(act())
    sp = {"t": "Sequential", "m": ms}
    if len(sh) == len(shape) and list(sh[1:]) == list(shape[1:]) and b() and numel(sh) <= 200:
        sp = {"t": "Skip", "m": ms}
    return {"shape": shape, "spec": sp}


@st.composite
def large_models(draw, fwd=False):
    """Templates of the sizes people use: dense nets with hundreds of units, convolutional encoders and
    U-shaped nets with skip connections over feature maps with thousands of entries."""
    act = lambda: {"t": draw(st.sampled_from(["Tanh", "Sigmoid", "Sinusoidal", "Softplus"]))}
    b = lambda: draw(st.booleans())
    kind = draw(st.sampled_from(["mlp"] if fwd else ["unet", "conv", "wide", "pool", "mlp"]))
    if kind == "mlp":
        i, h, o = draw(ints(20, 150)), draw(ints(40, 300)), draw(ints(1, 40))
        ms = [{"t": "Linear", "i": i, "o": h, "bias": b()}, act(), {"t": "Linear", "i": h, "o": o, "bias": b()}]
        if b():
            ms = [{"t": "Skip", "m": ms}, {"t": "Linear", "i": i + o, "o": o, "bias": b()}]
        return {"shape": [i], "spec": {"t": "Sequential", "m": ms}}
    h, w, c = draw(ints(8, 18)), draw(ints(8, 18)), draw(ints(1, 3))
    conv = lambda i, o, k=None: (lambda kk: {
        "t": "Conv2d", "ci": i, "co": o, "k": [kk, kk], "p": [kk // 2, kk // 2], "bias": b(), "vmap": b()})(k or draw(st.sampled_from([1, 3, 5])))
    if kind == "wide":
        co = draw(ints(4, 12))
        return {"shape": [c, h, w], "spec": draw(st.sampled_from([conv(c, co), {"t": "Sequential", "m": [conv(c, co), act()]}]))}
    if kind == "pool":
        k = draw(ints(2, 3))
        s = draw(st.sampled_from([None, 1, 2]))
        pool = {"t": "MaxPool2d", "k": k, "s": s, "p": draw(ints(0, 1)), "d": 1, "ceil": b()}
        return {"shape": [c, h, w], "spec": draw(st.sampled_from([pool, {"t": "Sequential", "m": [act(), pool, act()]}]))}
    c1, c2 = draw(ints(2, 6)), draw(ints(2, 6))
    if kind == "conv":
        ms = [conv(c, c1), act(), {"t": "MaxPool2d", "k": 2, "s": None, "p": 0, "d": 1, "ceil": False}, conv(c1, c2), act(), {"t": "Flatten"}]
        n = c2 * (h // 2) * (w // 2)
        if b():
            ms.append({"t": "Linear", "i": n, "o": draw(ints(1, 12)), "bias": b()})
        return {"shape": [c, h, w], "spec": {"t": "Sequential", "m": ms}}
    h, w = h - h % 2, w - w % 2
    inner = [{"t": "MaxPool2d", "k": 2, "s": None, "p": 0, "d": 1, "ceil": False}, conv(c1, c2), act(), {"t": "Upsample", "s": 2}]
    ms = [conv(c, c1), act(), {"t": "Skip", "m": inner}, act(), conv(c1 + c2, draw(ints(1, 3)))]
    return {"shape": [c, h, w], "spec": {"t": "Sequential", "m": ms}}
