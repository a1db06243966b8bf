"""jmjTp in its four diagonal modes (exact), input and weight, tensor / list / None, against the reference."""
from hypothesis import strategies as st

from .. import core, ops, specs
from ..common import *

CASES = {"quick": 22400, "thorough": 250000}
RULE = (
    "case = random module (90% from layers with forward passes), parameters, batch, input, metric recipe (any, symmetric, "
    "psd, diagonal), form (tensor, list, nested list, None); all four from_diag/to_diag modes for input and weight (8 "
    "products); non-trivial = decided, some exact result is non-zero"
)
ASSUMPTIONS = [
    "torch autograd of elementary functionals in float64 is the derivative",
    "inputs within 1e-7 (float64) of a ReLU/pooling/threshold kink are not decided unless computed without rounding",
    "products a layer does not provide (NotImplementedError of convolution, pooling, upsampling) are accepted",
]
DIR = "jmjTp"


@st.composite
def cases(draw, tier="quick"):
    k = draw(st.integers(0, 99))
    c = draw(st.fixed_dictionaries(base(specs.models(fwd=k < 90, parametric=k % 2 == 0))))
    c["val"], c["c"] = draw(vals), draw(styles)
    c["a"] = None if draw(st.integers(0, 5)) == 0 else draw(ops.metric_recipes())
    c["form"] = draw(st.sampled_from(["tensor", "tensor", "list", "nested"]))
    return c


def check(case, rec):
    e = Env(case, rec)
    m = e.model()
    s = ops.State(e.spec, e.x, e.params, e.dtype)
    s.J
    val = get_val(m, e.x, case["val"])
    rec.label("val " + case["val"])
    if case["a"]:
        rec.label("metric " + case["a"]["m"])
    for wrt in ("input", "weight"):
        for fd in (False, True):
            for td in (False, True):
                op = {"c": case.get("c", "key"), "op": DIR, "wrt": wrt, "a": case["a"], "fd": fd, "td": td}
                if case.get("form") and wrt == "weight" and DIR == "jmjTp" and case["a"] is not None:
                    op["form"] = case["form"]
                ops.do(rec, m, s, e.x, val, op, e.N, e.O, e.P, e.dtype)
