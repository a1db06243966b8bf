"""jacobian(x, val, wrt) against autograd of the independent reference."""
from hypothesis import strategies as st

from .. import core, specs
from ..common import *

CASES = {"quick": 22400, "thorough": 250000}
RULE = (
    "case = random module (40% one layer with random options, 60% nested composition), parameters, batch, input, "
    "layout, dtype, output passed or None; non-trivial = decided, and some reference Jacobian has a non-zero entry"
)
ASSUMPTIONS = [
    "torch autograd of elementary functionals in float64 is the derivative",
    "inputs within 1e-7 (float64) of a ReLU/pooling/threshold kink are not decided unless computed without rounding",
]


def cases(tier):
    return st.fixed_dictionaries({**base(specs.models()), "val": vals, "c": styles})


def check(case, rec):
    e = Env(case, rec)
    m = e.model()
    y, J = e.jac()
    val = get_val(m, e.x, case["val"])
    rec.label("val " + case["val"])
    for wrt in ("input", "weight"):
        what = f"jacobian wrt {wrt}"
        with sut(what):
            got = m.jacobian(e.x, val, wrt) if case.get("c") == "pos" else m.jacobian(e.x, val) if case.get("c") == "short" and wrt == "input" else m.jacobian(e.x, val, wrt=wrt)
        rec.call()
        if J[wrt] is None:
            expect_none(what, got)
        else:
            close(what, got, J[wrt], core.Bound(J[wrt]), e.dtype)
            rec.nontrivial(amax(J[wrt]) > 0)
    with sut("jacobian with defaults"):
        got = m.jacobian(e.x)
    close("jacobian with default arguments", got, J["input"], core.Bound(J["input"]), e.dtype)
    rec.call()
