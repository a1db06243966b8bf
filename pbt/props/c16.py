"""Constructor options and missing products: an exception or the right result, and no damage by the exception."""
import torch
from hypothesis import strategies as st
from torch import nn

from .. import core, ops, ref, specs
from ..common import *

CASES = {"quick": 14400, "thorough": 150000}
RULE = (
    "case = a convolution, upsampling or pooling layer with arbitrary constructor options (55%: alone or inside a model) or any "
    "model with a program of products and malformed calls (45%), 2-6 calls; each call either raises or is compared with "
    "torch.nn and autograd; after a raise of a standard model the next calls have to be right; non-trivial = some product "
    "with a non-zero exact value was returned and compared"
)
ASSUMPTIONS = [
    "torch.nn with the same options defines the function; return_indices, in-place activations and arguments of nnj.Flatten "
    "are not options of the mathematical function and are left out",
    "inputs close to a kink are not decided unless computed without rounding",
]


# ------------------------------------------------------------------ a torch.nn layer with its options, as a leaf
def un(v):
    return tuple(v) if isinstance(v, list) else v


def torch_layer(spec):
    kw = {k: un(v) for k, v in spec["kw"].items() if k != "use_vmap_for_backprop"}
    return getattr(nn, spec["cls"])(*[un(a) for a in spec["a"]], **kw)


def opt_params(spec):
    return [tuple(p.shape) for p in torch_layer(spec).parameters()]


def opt_fwd(r, spec, x, params, exact):
    m = torch_layer(spec).double() if x.dtype == torch.float64 else torch_layer(spec)
    names = [n for n, _ in m.named_parameters()]
    mine = [params.pop(0) for _ in names]
    if spec["cls"] == "MaxPool2d":
        r.gap(x, exact)
    if not names:
        return m(x), exact and spec["cls"] == "MaxPool2d"
    ys = [torch.func.functional_call(m, {n: p[i] for n, p in zip(names, mine)}, (x[i : i + 1],)) for i in range(x.shape[0])]
    return torch.cat(ys), False


def opt_build(spec, nnj):
    return getattr(nnj, spec["cls"])(*[un(a) for a in spec["a"]], **{k: un(v) for k, v in spec["kw"].items()})


ref.CUSTOM_PARAMS["Opt"] = opt_params
ref.CUSTOM_FWD["Opt"] = opt_fwd
ref.CUSTOM_BUILD["Opt"] = opt_build


@st.composite
def opt_layers(draw, shape):
    c, h, w = shape
    b = lambda: draw(st.booleans())
    one = lambda lo, hi: draw(st.integers(lo, hi))
    maybe = lambda f: f() if one(0, 2) == 1 else None
    cls = draw(st.sampled_from(["Conv2d", "Conv2d", "Conv2d", "Upsample", "Upsample", "MaxPool2d"]))
    kw = {}
    pair = lambda lo, hi: [one(lo, hi), one(lo, hi)] if b() else one(lo, hi)
    if cls == "Conv2d":
        a = [c, one(1, 4), pair(1, 3)]
        odd = draw(st.sampled_from(["stride", "dilation", "groups", "mode", "padding", "mix", "mix"]))
        if odd in ("stride", "mix") and (odd != "mix" or b()):
            kw["stride"] = draw(st.sampled_from([1, 2, 2, 3, [1, 2], [2, 1], [2, 2], [1, 1], [1, 3]]))
        if odd in ("dilation", "mix") and (odd != "mix" or b()):
            kw["dilation"] = draw(st.sampled_from([1, 2, 2, [1, 2], [2, 1], 3]))
        if odd in ("groups", "mix") and (odd != "mix" or b()):
            g = draw(st.sampled_from([d for d in (1, 2, 3) if c % d == 0]))
            kw["groups"] = g
            a[1] = g * one(1, 2)
        if odd in ("mode", "mix") and (odd != "mix" or b()):
            kw["padding_mode"] = draw(st.sampled_from(["zeros", "reflect", "replicate", "circular"]))
        kw["padding"] = draw(st.sampled_from([0, 0, 1, 2, 3, [1, 0], [0, 2], [2, 1], "same", "valid", "same"])) if odd in ("padding", "mode", "mix") else pair(0, 1)
        kw["bias"] = b()
        kw["use_vmap_for_backprop"] = b()
    elif cls == "Upsample":
        a = []
        how = draw(st.sampled_from(["size", "scale", "scale", "pair", "frac", "fracpair"]))
        if how == "size":
            kw["size"] = [h * one(1, 2) + one(0, 1), w * one(1, 2) + one(0, 1)] if b() else one(1, 2 * max(h, w))
        elif how == "scale":
            kw["scale_factor"] = draw(st.sampled_from([1, 2, 3, 2.0, 3.0]))
        elif how == "pair":
            kw["scale_factor"] = draw(st.sampled_from([[1, 2], [2, 2], [2, 1], [3, 2], [2.0, 2.0]]))
        elif how == "frac":
            kw["scale_factor"] = draw(st.sampled_from([1.5, 0.5, 2.5, 1.2, 2.9]))
        else:
            kw["scale_factor"] = draw(st.sampled_from([[1.5, 2.0], [2.0, 0.5], [2.5, 2.5]]))
        mode = draw(st.sampled_from([None, "nearest", "nearest-exact", "bilinear", "bicubic", "area"]))
        if mode:
            kw["mode"] = mode
        if mode in ("bilinear", "bicubic") and b():
            kw["align_corners"] = b()
        if "scale_factor" in kw and one(0, 3) == 2:
            kw["recompute_scale_factor"] = b()
    else:
        a = [pair(1, 3)]
        kw["stride"] = draw(st.sampled_from([None, 1, 2, 3, [1, 2], [3, 1]]))
        kw["padding"] = draw(st.sampled_from([0, 0, 1, [1, 0], [0, 1]]))
        kw["dilation"] = draw(st.sampled_from([1, 1, 2, [2, 1], 3]))
        kw["ceil_mode"] = b()
    return {"t": "Opt", "cls": cls, "a": a, "kw": kw}


@st.composite
def wide_linear(draw):
    """A Linear layer on samples of several dimensions, as torch.nn.Linear takes them."""
    shape = [draw(st.integers(1, 4)) for _ in range(draw(st.integers(2, 3)))]
    l = {"t": "Opt", "cls": "Linear", "a": [shape[-1], draw(st.integers(1, 4))], "kw": {"bias": draw(st.booleans())}}
    if draw(st.booleans()):
        return {"shape": shape, "spec": l}
    ms = [l]
    if draw(st.booleans()):
        ms.insert(0, {"t": draw(st.sampled_from(["Tanh", "Sigmoid", "Softplus"]))})
    sh = ref.out_shape(l, shape)
    if draw(st.booleans()):
        ms += [{"t": "Flatten"}, {"t": "Linear", "i": specs.numel(sh), "o": draw(st.integers(1, 3)), "bias": draw(st.booleans())}]
    return {"shape": shape, "spec": {"t": draw(st.sampled_from(["Sequential", "Sequential", "Skip"])) if sh[1:] == shape[1:] and len(ms) < 3 else "Sequential", "m": ms}}


@st.composite
def opt_models(draw):
    if draw(st.integers(0, 9)) == 7:
        return draw(wide_linear())
    shape = [draw(st.integers(1, 3)), draw(st.integers(1, 5)), draw(st.integers(1, 5))]
    l = draw(opt_layers(shape))
    try:
        sh = ref.out_shape(l, shape)
        ok = min(sh) >= 1 and specs.numel(sh) <= 90
    except Exception:
        ok = False
    if not ok:
        l = {"t": "Opt", "cls": "Conv2d", "a": [shape[0], 2, 1], "kw": {"stride": 1}}
    if draw(st.integers(0, 2)) == 0:
        return {"shape": shape, "spec": l}
    ms = [l]
    if draw(st.booleans()):
        ms.insert(0, {"t": draw(st.sampled_from(["Tanh", "Sigmoid", "Softplus"]))})
    after = draw(st.sampled_from(["no", "act", "linear", "conv"]))
    sh = ref.out_shape({"t": "Sequential", "m": ms}, shape)
    if after == "act":
        ms.append({"t": draw(st.sampled_from(["Tanh", "Sinusoidal"]))})
    elif after == "linear":
        ms += [{"t": "Flatten"}, {"t": "Linear", "i": specs.numel(sh), "o": draw(st.integers(1, 3)), "bias": draw(st.booleans())}]
    elif after == "conv":
        ms.append({"t": "Conv2d", "ci": sh[0], "co": draw(st.integers(1, 2)), "k": [1, 1], "p": [0, 0], "bias": draw(st.booleans()), "vmap": draw(st.booleans())})
    return {"shape": shape, "spec": {"t": "Sequential", "m": ms}}


@st.composite
def cases(draw, tier="quick"):
    k = draw(st.integers(0, 99))
    opt = k < 30 or k >= 75
    c = draw(st.fixed_dictionaries(base(opt_models() if opt else specs.models(), x=specs.x_plain)))
    if not opt and draw(st.integers(0, 6)) == 4:
        unhook(draw, c["model"]["spec"])
    c["steps"] = []
    for _ in range(draw(st.integers(2, 6))):
        if draw(st.integers(0, 4)) == 3:
            c["steps"].append({"bad": draw(st.sampled_from(sorted(BAD))), "r": draw(specs.v_recipes)})
        else:
            c["steps"].append({"op": draw(ops.op_strategy(ops.ALL)), "val": draw(vals)})
    return c


def unhook(draw, spec):
    """Some compositions of the model without stored feature maps: their backward products raise."""
    if spec["t"] in ("Sequential", "Skip"):
        if draw(st.booleans()):
            spec["h"] = False
        for m in spec["m"]:
            unhook(draw, m)


def bad_vec(e, r, n, *more):
    return core.tensor(r, (e.b, n, *more), e.dtype)


# calls with arguments that do not fit: whatever they do, nothing may remain
BAD = {
    "forward": lambda m, e, r: m(core.tensor(r, (e.b, *e.shape, 2), e.dtype)),
    "vjp": lambda m, e, r: m.vjp(e.x, None, bad_vec(e, r, e.O + 1)),
    "vjp weight": lambda m, e, r: m.vjp(e.x, None, bad_vec(e, r, e.O + 1), wrt="weight"),
    "jvp": lambda m, e, r: m.jvp(e.x, None, bad_vec(e, r, e.N + 1)),
    "jvp weight": lambda m, e, r: m.jvp(e.x, None, bad_vec(e, r, e.P + 1), wrt="weight"),
    "mjp": lambda m, e, r: m.mjp(e.x, None, bad_vec(e, r, 2, e.O + 1)),
    "jTmjp": lambda m, e, r: m.jTmjp(e.x, None, bad_vec(e, r, e.O + 1, e.O), wrt="weight"),
    "jTmjp type": lambda m, e, r: m.jTmjp(e.x, None, "matrix", wrt="weight"),
    "jmjTp": lambda m, e, r: m.jmjTp(e.x, None, bad_vec(e, r, e.N + 1, e.N)),
    "jmjTp weight": lambda m, e, r: m.jmjTp(e.x, None, bad_vec(e, r, e.P + 1), wrt="weight", from_diag=True),
    "set_weight": lambda m, e, r: m.set_weight("weights"),
    "fast": lambda m, e, r: m.jTmjp(e.x, None, bad_vec(e, r, e.O, e.O), wrt="weight", diag_backprop=True),
}


def check(case, rec):
    e = Env(case)
    opt = any(l["t"] == "Opt" for l in specs.leaves(e.spec))
    s = ops.State(e.spec, e.x, e.params, e.dtype)
    s.J
    if opt:
        l = [l for l in specs.leaves(e.spec) if l["t"] == "Opt"][0]
        for k, v in l["kw"].items():
            rec.label(f"{l['cls']} {k}={str(v) if isinstance(v, (str, bool)) else type(v).__name__}")
        try:
            m = specs.build(e.spec, e.nnj).to(e.dtype)
        except Exception as ex:
            rec.label(f"{l['cls']} refused by the constructor")
            return
        specs.load_params(m, e.params)
    else:
        e.labels(rec)
        m = e.model()
    bare = specs.without_hooks(e.spec)
    if bare:
        rec.label("add_hooks=False")
    raised = False
    for n, stp in enumerate(case["steps"]):
        if "bad" in stp:
            with torch.no_grad():
                try:
                    BAD[stp["bad"]](m, e, stp["r"])
                except Exception:
                    rec.label("malformed call raised")
                    raised = True
            continue
        op = stp["op"]
        try:
            val = get_val(m, e.x, stp["val"])
        except Violation:
            if opt:
                rec.label("forward pass refused")
                continue
            raise
        arg = ops.make_arg(op, e.spec, e.b, e.N, e.O, e.P, e.dtype)
        what = f"step {n}: {ops.name(op)}"
        try:
            allow = (Exception,) if opt or bare and op["op"] not in ("forward", "jvp") else ops.refusable(op, e.spec, arg)
            got = ops.call(m, e.x, val, op, arg, what, allow)
        except core.Refused:
            rec.label("refused: " + op["op"])
            raised = True
            continue
        exp = ops.expected(op, s, arg)
        ops.compare(what, op, e.spec, got, exp, e.dtype)
        rec.call()
        rec.nontrivial(ops.mag(exp) > 0)
        if bare:
            rec.label("add_hooks=False, decided: " + op["op"])
        if raised:
            rec.label("right after a refusal")
        if opt:
            rec.label(f"{l['cls']} decided: {op['op']}")
    # the weights are what they were
    for p, q in zip(m.parameters(), e.params):
        require(torch.equal(p.detach(), q), "a refused call changed the parameters")
