"""Forward values, shapes, dtypes and autograd gradients of every module against plain torch formulas."""
import torch
from hypothesis import strategies as st

from .. import core, ref, specs
from ..common import *
from . import c16

CASES = {"quick": 22400, "thorough": 250000}
RULE = (
    "case = random module, parameters, batch, input (any magnitude for single layers), cotangent, grad mode; compared: "
    "value, dtype, shape, autograd gradient wrt input and every parameter; non-trivial = decided, gradient or value non-zero"
)
ASSUMPTIONS = [
    "the corresponding torch.nn module computes the formula written in pbt/ref.py (cross-checked against torch.nn where it exists)",
    "gradients within 1e-7 (float64) of a kink are not decided unless computed without rounding",
]


@st.composite
def cases(draw, tier="quick"):
    k = draw(st.integers(0, 99))
    model = specs.large_models() if 40 <= k < 44 else specs.models(parametric=k % 2 == 0)
    if 50 <= k < 56:
        model = c16.opt_models()
    c = draw(st.fixed_dictionaries(base(model, b=st.integers(1, 3) if 40 <= k < 44 else None)))
    c["u"] = draw(specs.v_recipes)
    c["mode"] = draw(st.sampled_from(["grad", "grad", "grad", "nograd", "eval"]))
    return c


def nn_equivalent(spec, params, dtype):
    """The torch.nn module a leaf stands for, or None."""
    from torch import nn

    t = spec["t"]
    params = [p.clone() for p in params]
    un = ref.un
    if t == "Linear":
        m = nn.Linear(spec["i"], spec["o"], bias=spec["bias"])
    elif t == "Conv2d":
        m = nn.Conv2d(spec["ci"], spec["co"], un(spec["k"]), padding=un(spec["p"]), bias=spec["bias"])
    elif t == "MaxPool2d":
        m = nn.MaxPool2d(un(spec["k"]), un(spec["s"]), un(spec["p"]), un(spec["d"]), ceil_mode=spec["ceil"])
    elif t == "Upsample":
        m = nn.Upsample(scale_factor=spec["s"])
    elif t == "Softplus":
        m = nn.Softplus(spec.get("beta", 1.0), spec.get("thr", 20.0))
    elif t in ("Tanh", "ReLU", "Sigmoid", "Flatten"):
        m = getattr(nn, t)()
    else:
        return None
    m = m.to(dtype)
    specs.load_params(m, params)
    return m


def check(case, rec):
    e = Env(case, rec)
    # layers with unusual options: what the constructor accepts computes the function of torch.nn
    odd = [l["cls"] for l in specs.leaves(e.spec) if l["t"] == "Opt"]
    if odd and odd != ["Linear"]:
        try:
            specs.build(e.spec, e.nnj)
        except Exception:
            rec.label("refused by the constructor")
            return
    m = e.model().requires_grad_(True)
    if case["mode"] == "eval":
        with sut("eval()"):
            m.eval()
    rec.label("mode " + case["mode"])
    leaf = e.leafspec()
    x = e.x.detach()
    y = ref.forward(e.spec, x, e.params, e.dtype, check=not leaf)
    if not bool(torch.isfinite(y.to(e.dtype)).all()):
        raise Skip("value overflows")
    grad = case["mode"] != "nograd"
    xx = x.requires_grad_(grad)
    try:
        with sut("forward pass", (Exception,) if odd and odd != ["Linear"] else ()):
            if grad:
                got = m(xx)
            else:
                with torch.no_grad():
                    got = m(xx)
    except core.Refused:
        rec.label("refused by the forward pass")
        return
    if odd:
        rec.label("unusual options of " + odd[0])
    close("forward value", got, y, core.Bound(y), e.dtype)
    require(got.dtype == e.dtype, f"forward value has dtype {got.dtype}, expected {e.dtype}")
    rec.call()
    rec.nontrivial(amax(y) > 0)
    if leaf:
        other = nn_equivalent(e.spec, e.params, e.dtype)
        if other is not None:
            with torch.no_grad():
                close("forward value against torch.nn", got, f64(other(x.detach())), core.Bound(y), e.dtype)
    if not grad:
        require(not got.requires_grad, "forward pass under no_grad returned a tensor that requires grad")
        return
    # gradients: per-sample reference graph
    rx, rps, ry = ref.graph(e.spec, x, e.params, e.dtype)
    u = core.tensor(case["u"], (e.b, *e.out), e.dtype)
    require(got.requires_grad, "forward value is cut off from autograd")
    own = list(m.parameters())
    with sut("autograd through the forward pass"):
        g = torch.autograd.grad(got, [xx] + own, u.detach(), allow_unused=True)
    rg = torch.autograd.grad(ry, [rx] + rps, u.detach().double(), allow_unused=True)
    scale = lambda t: amax(t) + amax(u)
    for k, (a, r, like) in enumerate(zip(g, rg, [rx] + rps)):
        r = torch.zeros_like(like) if r is None else r
        if k > 0:
            bd = r.abs().sum(0).max()
            r = r.sum(0)
            a = torch.zeros_like(own[k - 1]) if a is None else a
        else:
            bd = amax(r)
            a = torch.zeros_like(xx) if a is None else a
        if not amax(r) < ref.LIMIT:
            raise Skip("gradient too large for the tolerances")
        close("autograd gradient wrt " + ("input" if k == 0 else f"parameter {k - 1}"), a, r, float(bd) + amax(u), e.dtype)
        rec.call()
