"""convert_to_nnj on generated torch.nn models: same function, parameters, derivatives; or an exception."""
import collections
import copy
import json

import torch
from hypothesis import strategies as st
from torch import nn

from .. import core, specs
from ..common import *

CASES = {"quick": 14400, "thorough": 150000}
RULE = (
    "case = torch.nn.Sequential (nested, 1-6 layers) with random options, 15% of the layers with options or types nnj cannot "
    "represent; converted model compared with the source on two inputs (values, parameters in order, vjp against autograd of "
    "the source), source compared with a copy made before; non-trivial = the model was converted and has a non-zero output"
)
ASSUMPTIONS = [
    "torch.nn defines the function of the source model; derivatives of it by torch autograd in the source's own precision",
    "products with a convolution that has dilation or groups may be refused (C16 decides them)",
]


def has_kink(spec):
    return any(l["t"] in ("ReLU", "MaxPool2d") for l in flat(spec))


def flat(ls):
    return [x for l in ls for x in (flat(l["m"]) if l["t"] == "Sequential" else [l])]


def chain_of(ms, how, shared):
    """how, bit by bit: 1 members with names, 2 one instance for all equal layers without parameters"""
    ms = [build(k, how, shared) for k in ms]
    if how & 1:
        return nn.Sequential(collections.OrderedDict((f"{'ba'[k % 2]}{len(ms) - k}", m) for k, m in enumerate(ms)))
    return nn.Sequential(*ms)


def build(l, how=0, shared=None):
    t = l["t"]
    un = lambda v: tuple(v) if isinstance(v, list) else v
    if t == "Sequential":
        return chain_of(l["m"], how, shared)
    if how & 2 and t in ("Tanh", "ReLU", "Sigmoid", "Softplus", "Flatten", "MaxPool2d", "Upsample"):
        key = json.dumps(l, sort_keys=True)
        if key not in shared:
            shared[key] = build(l)
        return shared[key]
    kw = {k: un(v) for k, v in l.items() if k not in ("t", "a")}
    return getattr(nn, t)(*[un(a) for a in l.get("a", [])], **kw)


ANY_SHAPE = ["GELU", "LeakyReLU", "ELU", "Dropout", "Identity", "Softmax", "PReLU", "ReLU6", "Hardtanh", "LogSigmoid", "Softsign", "SiLU", "Tanhshrink", "Hardsigmoid", "CELU"]
UNKNOWN = set(ANY_SHAPE) | {"AvgPool2d", "BatchNorm2d", "LayerNorm", "MaxPool1d", "AvgPool1d", "Conv1d", "LPPool2d", "ConvTranspose2d", "AdaptiveMaxPool2d", "UpsamplingBilinear2d"}


def refused_kind(l):
    """Layers nnj has no equivalent for: the conversion has to raise."""
    t = l["t"]
    if t in UNKNOWN:
        return True
    if t == "Conv2d" and (l.get("stride", 1) not in (1, [1, 1]) or l.get("padding_mode", "zeros") != "zeros"):
        return True
    if t == "Flatten" and (l.get("start_dim", 1), l.get("end_dim", -1)) != (1, -1):
        return True
    if t == "Upsample" and l.get("mode", "nearest") not in ("nearest", "nearest-exact"):
        return True
    return False


def out_shape(l, shape):
    with torch.no_grad():
        return list(build(l).eval()(torch.zeros(2, *shape)).shape[1:])


@st.composite
def layer(draw, shape, nest):
    n = specs.numel(shape)
    b = lambda: draw(st.booleans())
    opts = ["Tanh", "ReLU", "Sigmoid", "Softplus", "Flatten"]
    if len(shape) == 1:
        opts += ["Linear"] * 4
    if len(shape) == 3:
        opts += ["Conv2d"] * 5 + ["MaxPool2d"] * 4
        if n <= 30:
            opts += ["Upsample"] * 2
    if nest:
        opts += ["Sequential"] * 2
    odd = draw(st.integers(0, 99)) in range(60, 66)
    if odd:
        opts = list(ANY_SHAPE)
        if len(shape) == 3:
            opts += ["AvgPool2d", "BatchNorm2d", "LPPool2d", "ConvTranspose2d", "AdaptiveMaxPool2d", "UpsamplingBilinear2d"]
            opts += ["strided", "padmode", "bilinear", "partflat"] * 4
        if len(shape) == 2:
            opts += ["partflat", "MaxPool1d", "AvgPool1d", "Conv1d"] * 4
    t = draw(st.sampled_from(opts))
    if t == "Linear":
        return {"t": t, "a": [n, draw(st.integers(1, 6))], "bias": b()}
    if t in ("Conv2d", "strided", "padmode"):
        c = draw(specs.convs(shape, 60))
        l = {"t": "Conv2d", "a": [c["ci"], c["co"], c["k"]], "padding": c["p"], "bias": c["bias"]}
        k = c["k"]
        if k[0] == k[1] and c["p"][0] == c["p"][1] and b():
            l["a"][2], l["padding"] = k[0], c["p"][0]
        if t == "strided":
            l["stride"] = draw(st.sampled_from([2, [1, 2], [2, 1], 3]))
        elif t == "padmode":
            l["padding"] = [min(1, shape[1] - 1), min(1, shape[2] - 1)]
            l["a"][2] = [min(k[0], shape[1]), min(k[1], shape[2])]
            l["padding_mode"] = draw(st.sampled_from(["circular", "reflect", "replicate"]))
        else:
            if draw(st.integers(0, 4)) == 0 and c["ci"] > 1:
                l["groups"] = c["ci"]
                l["a"][1] = c["ci"] * draw(st.integers(1, 2))
            if draw(st.integers(0, 19)) == 0:
                l["padding"] = draw(st.sampled_from(["same", "valid"]))
            elif draw(st.integers(0, 4)) == 0:
                l["dilation"] = draw(st.sampled_from([2, [1, 2]]))
                l["padding"] = [2 * (k[0] - 1), 2 * (k[1] - 1)]
        return l
    if t == "MaxPool2d":
        p = draw(specs.pools(shape))
        l = {"t": t, "a": [p["k"]], "padding": p["p"], "dilation": p["d"], "ceil_mode": p["ceil"]}
        if p["s"] is not None:
            l["stride"] = p["s"]
        return l
    if t == "Upsample":
        return {"t": t, "scale_factor": draw(st.sampled_from([1, 2])), **({"mode": draw(st.sampled_from(["nearest", "nearest-exact"]))} if b() else {})}
    if t == "bilinear":
        return {"t": "Upsample", "scale_factor": 2, "mode": "bilinear", **({"align_corners": True} if b() else {})}
    if t == "Softplus":
        return {"t": t, **({"beta": draw(st.sampled_from([0.5, 2.0, 3.0])), "threshold": draw(st.sampled_from([20.0, 3.0, 1.0]))} if b() else {})}
    if t == "partflat":
        return {"t": "Flatten", **draw(st.sampled_from([{"start_dim": 2}, {"start_dim": 1, "end_dim": 2}] if len(shape) == 3 else [{"start_dim": 2}]))}
    if t == "Flatten":
        return {"t": t}
    if t == "Sequential":
        ms, _ = draw(chain(shape, nest - 1, 1, 3))
        return {"t": t, "m": ms}
    if t in ("AvgPool2d", "AdaptiveMaxPool2d", "AvgPool1d", "MaxPool1d"):
        return {"t": t, "a": [draw(st.integers(1, 2))]}
    if t == "LPPool2d":
        return {"t": t, "a": [2, 1]}
    if t in ("Conv1d", "ConvTranspose2d"):
        return {"t": t, "a": [shape[0], draw(st.integers(1, 2)), 1]}
    if t == "UpsamplingBilinear2d":
        return {"t": t, "scale_factor": 2}
    if t == "BatchNorm2d":
        return {"t": t, "a": [shape[0]]}
    if t == "Softmax":
        return {"t": t, "dim": -1}
    return {"t": t}


@st.composite
def chain(draw, shape, nest, lo, hi):
    ms, sh = [], list(shape)
    for _ in range(draw(st.integers(lo, hi))):
        l = draw(layer(sh, nest))
        try:
            sh2 = out_shape(l, sh)
        except (RuntimeError, AssertionError, ValueError):
            l, sh2 = {"t": "Tanh"}, sh
        ms.append(l)
        sh = sh2
    return ms, sh


@st.composite
def cases(draw, tier="quick"):
    shape = draw(specs.in_shapes())
    ms, _ = draw(chain(shape, 2, 1, 6))
    return {
        "shape": shape, "m": ms, "b": draw(specs.batches), "x": draw(specs.x_plain), "x2": draw(specs.x_plain),
        "w": draw(specs.w_recipes), "u": draw(specs.v_recipes), "dt": draw(dts),
        "how": draw(st.sampled_from([0, 0, 0, 0, 1, 2, 2, 3, 4, 7])),
    }


def check(case, rec):
    import nnj

    dtype = core.DT[case["dt"]]
    ms = case["m"]
    src = chain_of(ms, case.get("how", 0), {}).to(dtype)
    if case.get("how", 0) & 4:
        src.eval().requires_grad_(False)
    with torch.no_grad():
        for k, p in enumerate(src.parameters()):
            r = {"s": case["w"]["s"], "n": case["w"]["n"] + 7919 * k}
            p.copy_(core.values(r, p.shape) * (0.7 if p.dim() > 1 else 0.5))
    before = copy.deepcopy(src)
    kinds = flat(ms)
    rec.label(*["layer " + l["t"] for l in kinds])
    if any(l["t"] == "Sequential" for l in ms):
        rec.label("nested")
    must_refuse = any(refused_kind(l) for l in kinds)
    try:
        conv = nnj.convert_to_nnj(src)
    except Exception as ex:
        if must_refuse or any(l["t"] == "Conv2d" and isinstance(l["padding"], str) for l in kinds):
            rec.label("refused")  # nnj.Conv2d does not accept padding given as a word
            return
        raise Violation(f"conversion of supported layers raised {type(ex).__name__}: {str(ex)[:300]}")
    src.eval().requires_grad_(True), before.eval()
    if must_refuse:
        rec.label("not refused")
    ps, qs = list(src.parameters()), list(conv.parameters())
    require([tuple(p.shape) for p in ps] == [tuple(p.shape) for p in qs], "converted model has other parameters")
    require(all(torch.equal(p, q) for p, q in zip(ps, qs)), "converted model has other parameter values")
    require(all(p.dtype == q.dtype for p, q in zip(ps, qs)), "converted model has another dtype")
    if ps:
        with sut("get_weight of the converted model"):
            w = conv.get_weight()
        require(torch.equal(w, torch.cat([p.detach().reshape(-1) for p in ps])), "get_weight is not the source's parameters in order")
    odd = any(l["t"] == "Conv2d" and ("groups" in l or "dilation" in l or isinstance(l["padding"], str)) for l in kinds) or must_refuse
    for key in ("x", "x2"):
        x = core.tensor(case[key], (case["b"], *case["shape"]), dtype).detach()
        xx = x.clone().requires_grad_()
        y = src(xx)
        if not amax(y.detach()) < 1e6:
            raise Skip("values too large")
        with sut("converted model"):
            z = conv(x)
        close("output of the converted model", z, f64(y), amax(y.detach()) + 1e-3, dtype)
        rec.call()
        rec.nontrivial(amax(y.detach()) > 0)
    if dtype == torch.float64 or not has_kink(ms):
        u = core.tensor(case["u"], (case["b"], specs.numel(y.shape[1:])), dtype).detach()
        g = torch.autograd.grad(y.reshape(case["b"], -1), [xx] + ps, u, allow_unused=True)
        for wrt in ("input", "weight"):
            try:
                with sut("vjp of the converted model wrt " + wrt, (Exception,) if odd else ()):
                    got = conv.vjp(x, None, u, wrt=wrt)
            except core.Refused:
                continue
            if wrt == "input":
                r = (torch.zeros_like(xx) if g[0] is None else g[0]).reshape(case["b"], -1)
            elif not ps:
                expect_none("vjp of the converted model wrt weight", got)
                continue
            else:
                r = torch.cat([(torch.zeros_like(p) if a is None else a).reshape(-1) for a, p in zip(g[1:], ps)])
                require(isinstance(got, torch.Tensor), "vjp of the converted model is no tensor")
                got = got.sum(0)
            close("vjp of the converted model wrt " + wrt, got, f64(r), amax(f64(r)) + amax(u) * (1 + amax(x)), dtype)
            rec.call()
    # the source is what it was
    for (n, p), (_, q) in zip(src.state_dict().items(), before.state_dict().items()):
        require(torch.equal(p, q), f"conversion or use of the converted model changed {n} of the source")
    with torch.no_grad():
        require(torch.equal(src(x), before(x)), "the source model computes something else after the conversion")
    require([type(a) for a in src.modules()] == [type(a) for a in before.modules()], "the source model has other modules now")
