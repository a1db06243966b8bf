"""diag_backprop=True against the per-layer diagonal recursion on reference Jacobians."""
import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs
from ..common import *

CASES = {"quick": 19200, "thorough": 200000}
RULE = (
    "case = random module, parameters, batch, input, diagonal or None (with and without from_diag), output passed or "
    "None; jTmjp and jmjTp, input and weight (4 products); 6% large models (backward only) against a squared-coefficient "
    "recursion; non-trivial = decided, some exact result is non-zero"
)
ASSUMPTIONS = [
    "torch autograd of elementary functionals in float64 is the derivative",
    "inputs within 1e-7 (float64) of a ReLU/pooling/threshold kink are not decided unless computed without rounding",
    "the diagonal is kept after each elementary layer, through nested Sequential and SkipConnection alike",
    "products a layer does not provide (NotImplementedError of convolution, pooling, upsampling forward products) are accepted",
]


@st.composite
def cases(draw, tier="quick"):
    k = draw(st.integers(0, 99))
    if 40 <= k < 46:
        c = draw(st.fixed_dictionaries(base(specs.large_models(), x=specs.x_plain, b=st.integers(1, 3))))
        c["large"] = True
    else:
        c = draw(st.fixed_dictionaries(base(specs.models(fwd=k > 55, parametric=k % 2 == 0))))
    c["val"], c["c"] = draw(vals), draw(styles)
    c["a"] = None if draw(st.integers(0, 3)) == 0 else draw(specs.v_recipes)
    c["fd"] = draw(st.booleans())
    return c


def large(case, rec):
    e = Env(case, rec)
    rec.label("large")
    m = e.model()
    d = torch.ones(e.b, e.O, dtype=e.dtype) if case["a"] is None else core.tensor(case["a"], (e.b, e.O), e.dtype)
    i, ws = ref.squared_back(e.spec, e.x, e.params, d, e.dtype)
    bi, bws = ref.squared_back(e.spec, e.x, e.params, d.abs(), e.dtype)
    val = get_val(m, e.x, case["val"])
    for wrt in ("input", "weight"):
        op = {"c": case.get("c", "key"), "op": "jTmjp", "wrt": wrt, "a": case["a"], "fast": True, "fd": case["fd"] or case["a"] is not None, "td": True}
        got = ops.call(m, e.x, val, op, None if case["a"] is None else d)
        if wrt == "weight" and not e.params:
            expect_none(ops.name(op), got)
            continue
        r, bd = (i, bi) if wrt == "input" else (torch.cat(ws, 1), torch.cat(bws, 1))
        ops.check_limit(bd)
        close("large model: " + ops.name(op), got, r, core.Bound(bd), e.dtype)
        rec.call()
        rec.nontrivial(amax(r) > 0)


def check(case, rec):
    if case.get("large"):
        return large(case, rec)
    e = Env(case, rec)
    m = e.model()
    s = ops.State(e.spec, e.x, e.params, e.dtype)
    s.J
    val = get_val(m, e.x, case["val"])
    rec.label("val " + case["val"])
    if case["a"] is None:
        rec.label("None with from_diag" if case["fd"] else "None without from_diag")
    for o in ("jTmjp", "jmjTp"):
        for wrt in ("input", "weight"):
            op = {"c": case.get("c", "key"), "op": o, "wrt": wrt, "a": case["a"], "fast": True, "fd": case["fd"] or case["a"] is not None, "td": True}
            ops.do(rec, m, s, e.x, val, op, e.N, e.O, e.P, e.dtype)
