"""jmp and mjp, input and weight, any number of columns/rows, None, against the reference Jacobian."""
from hypothesis import strategies as st

from .. import core, ops, specs
from ..common import *

CASES = {"quick": 22400, "thorough": 250000}
RULE = (
    "case = random module with parameters, batch, input, column/row counts, two matrices or None, output passed or None "
    "(4 products); non-trivial = decided, some exact product is non-zero"
)
ASSUMPTIONS = [
    "torch autograd of elementary functionals in float64 is the derivative",
    "inputs within 1e-7 (float64) of a ReLU/pooling/threshold kink are not decided unless computed without rounding",
    "products a layer does not provide (NotImplementedError of convolution, pooling, upsampling forward products) are accepted",
]
counts = st.sampled_from([1, 1, 1, 2, 3, 4, 5, 7, 11, "n", "n+1", 40] * 8 + [65, 70, 130])


@st.composite
def cases(draw, tier="quick"):
    k = draw(st.integers(0, 99))
    c = draw(st.fixed_dictionaries(base(specs.models(fwd=k < 45))))
    c["val"], c["c"] = draw(vals), draw(styles)
    for n in ("jmp", "mjp"):
        c[n] = None if draw(st.integers(0, 4)) == 0 else draw(specs.v_recipes)
        c["k" + n] = draw(counts)
    return c


def check(case, rec):
    e = Env(case, rec)
    m = e.model()
    s = ops.State(e.spec, e.x, e.params, e.dtype)
    s.J
    val = get_val(m, e.x, case["val"])
    rec.label("val " + case["val"])
    for wrt in ("input", "weight"):
        for o in ("mjp", "jmp"):
            side = (e.N if wrt == "input" else e.P) if o == "jmp" else e.O
            k = case["k" + o]
            rec.label(f"count {k}")
            k = {"n": max(1, side), "n+1": side + 1}.get(k, k)
            if e.P * k > 40000:
                k = 3
            ops.do(rec, m, s, e.x, val, {"c": case.get("c", "key"), "op": o, "wrt": wrt, "a": case[o], "k": k}, e.N, e.O, e.P, e.dtype)
