"""Log-likelihood values and gradients against float64 formulas and reference Jacobians."""
import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs, likes
from ..common import *

CASES = {"quick": 19200, "thorough": 200000}
RULE = (
    "case = likelihood, aggregation, random model (25% pure reshapes so that logits take any value up to 1e4), target "
    "(hard, soft, extreme), input or weight; value and gradient compared; 20%: one likelihood object used for two models with changing weights, inputs and targets; non-trivial = decided and gradient non-zero"
)
ASSUMPTIONS = [
    "targets are in [0,1] (binary) or non-negative with sum 1 over the last dimension (categorical)",
    "torch autograd of elementary functionals in float64 is the derivative",
    "inputs within 1e-7 (float64) of a kink are not decided unless computed without rounding",
]


@st.composite
def direct(draw):
    """Models whose outputs are the inputs: logits of any size and shape."""
    shape = draw(specs.in_shapes())
    kind = draw(st.integers(0, 2))
    if kind == 0:
        spec = {"t": "Flatten"}
    elif kind == 1:
        spec = draw(specs.reshapes(shape))
    else:
        spec = {"t": "Sequential", "m": [draw(specs.reshapes(shape))]}
        if len(spec["m"][0]["dims"]) == 1:
            n = specs.numel(shape)
            spec["m"].append({"t": "Linear", "i": n, "o": draw(st.integers(1, 6)), "bias": draw(st.booleans())})
    return {"shape": shape, "spec": spec}


x_logits = specs.recipes(("huge", "edge", "big", "normal", "zero"), grad=True)


@st.composite
def model_cases(draw):
    k = draw(st.integers(0, 99))
    if k >= 70:
        return draw(st.fixed_dictionaries(base(direct(), x=x_logits)))
    return draw(st.fixed_dictionaries(base(specs.models(parametric=True, leaf=False if k > 10 else None))))


@st.composite
def cases(draw, tier="quick"):
    c = draw(model_cases())
    c["like"] = draw(likes.like_strategy())
    if draw(st.integers(0, 4)) == 2:
        c["hist"] = draw(likes.history(model_cases()))
    return c


def setup(case, rec):
    e = Env(case, rec)
    lk = dict(case["like"])
    if not e.P:
        lk["wrt"] = "input"
    s = ops.State(e.spec, e.x, e.params, e.dtype)
    s.J
    rec.label(lk["L"], "aggregation " + lk["agg"], "wrt " + lk["wrt"], "output dims %d" % len(e.out))
    top = amax(s.y)
    rec.label("logits above 80" if top > 80 else "logits above 10" if top > 10 else "small logits")
    return e, lk, s


def check(case, rec):
    e, lk, s = setup(case, rec)
    m = e.model()
    L = likes.build(lk, e.nnj)
    t = likes.target(lk, (e.b, *e.out), e.dtype)
    got = likes.call("value", lk, L, m, e.x, t)
    r, bd = likes.expected("value", lk, s, t)[0]
    close(f"{lk['L']} value, {lk['agg']}", got, r, bd, e.dtype)
    got = likes.call("gradient", lk, L, m, e.x, t)
    r, bd = likes.expected("gradient", lk, s, t)[0]
    close(f"{lk['L']} gradient wrt {lk['wrt']}, {lk['agg']}", got, r, bd, e.dtype)
    rec.call(2)
    rec.nontrivial(amax(r) > 0)
    if lk["wrt"] == "weight":
        got = likes.call("gradient", lk, L, m, e.x, t, wrt_default=True)
        close(f"{lk['L']} gradient with default wrt", got, r, bd, e.dtype)
    if "hist" in case:
        likes.run_history(case, rec, ("value", "gradient"))
