"""jTmjp in its four diagonal modes (exact), input and weight, tensor / None, against the reference."""
import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs
from ..common import *

CASES = {"quick": 22400, "thorough": 250000}
RULE = (
    "case = random module, parameters, batch, input, metric recipe (any, symmetric, psd, diagonal) or None; all four "
    "from_diag/to_diag modes for input and weight (8 products, full weight results compared block by block); "
    "non-trivial = decided, some exact result is non-zero"
)
ASSUMPTIONS = [
    "torch autograd of elementary functionals in float64 is the derivative",
    "inputs within 1e-7 (float64) of a ReLU/pooling/threshold kink are not decided unless computed without rounding",
]


@st.composite
def cases(draw, tier="quick"):
    k = draw(st.integers(0, 99))
    c = draw(st.fixed_dictionaries(base(specs.models(parametric=k % 2 == 0))))
    c["val"], c["c"] = draw(vals), draw(styles)
    c["a"] = None if draw(st.integers(0, 5)) == 0 else draw(ops.metric_recipes())
    return c


def check(case, rec):
    e = Env(case, rec)
    m = e.model()
    s = ops.State(e.spec, e.x, e.params, e.dtype)
    s.J
    val = get_val(m, e.x, case["val"])
    rec.label("val " + case["val"])
    if case["a"]:
        rec.label("metric " + case["a"]["m"])
    for wrt in ("input", "weight"):
        for fd in (False, True):
            for td in (False, True):
                op = {"c": case.get("c", "key"), "op": "jTmjp", "wrt": wrt, "a": case["a"], "fd": fd, "td": td}
                ops.do(rec, m, s, e.x, val, op, e.N, e.O, e.P, e.dtype)
