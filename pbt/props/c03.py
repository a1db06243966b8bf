"""jvp and vjp, input and weight, against the reference Jacobian (or reference autograd for large models)."""
import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs
from ..common import *

CASES = {"quick": 22400, "thorough": 250000}
RULE = (
    "case = random module with parameters, batch, input, two vectors, output passed or None (4 products); 6% of the "
    "cases are large models compared with autograd directly; non-trivial = decided, some exact product is non-zero"
)
ASSUMPTIONS = [
    "torch autograd of elementary functionals in float64 is the derivative",
    "inputs within 1e-7 (float64) of a ReLU/pooling/threshold kink are not decided unless computed without rounding",
    "products a layer does not provide (NotImplementedError of convolution, pooling, upsampling forward products) are accepted",
]


@st.composite
def cases(draw, tier="quick"):
    k = draw(st.integers(0, 99))
    if 40 <= k < 46:
        return {**draw(st.fixed_dictionaries(base(specs.large_models(), x=specs.x_plain, b=st.integers(1, 3)))),
                "large": True, "val": draw(vals), "c": draw(styles), "v": draw(specs.v_recipes), "u": draw(specs.v_recipes)}
    model = specs.models(fwd=k > 50)
    return {**draw(st.fixed_dictionaries(base(model))), "val": draw(vals), "c": draw(styles), "v": draw(specs.v_recipes), "u": draw(specs.v_recipes)}


def large(case, rec):
    e = Env(case, rec)
    rec.label("large", f"large: {'>' if max(e.O, e.N) > 1024 else '<='}1024 entries")
    m = e.model()
    xx, ps, y = ref.graph(e.spec, e.x, e.params, e.dtype)
    val = get_val(m, e.x, case["val"])
    u = core.tensor(case["u"], (e.b, e.O), e.dtype)
    for wrt in ("input", "weight"):
        ins = [xx] if wrt == "input" else ps
        with sut("vjp wrt " + wrt):
            got = m.vjp(e.x, val, u, wrt=wrt) if wrt == "weight" or case.get("c") != "short" else m.vjp(e.x, val, u)
        if not ins:
            expect_none("vjp wrt weight", got)
            continue
        yf = y.reshape(e.b, -1)
        g = torch.autograd.grad((yf * u.detach().double()).sum(), ins, retain_graph=True, create_graph=False, allow_unused=True)
        r = ref.flat_grads(g, ins, e.b)
        close("vjp wrt " + wrt, got, r, amax(r) + amax(u) , e.dtype)
        rec.call()
        rec.nontrivial(amax(r) > 0)
        op = {"c": case.get("c", "key"), "op": "jvp", "wrt": wrt, "a": case["v"]}
        v = ops.make_arg(op, e.spec, e.b, e.N, e.O, e.P, e.dtype)
        try:
            got = ops.call(m, e.x, val, op, v, None, ops.refusable(op, e.spec, v))
        except core.Refused:
            continue
        # J v by differentiating w -> w J along v
        w = torch.zeros_like(yf, requires_grad=True)
        g = torch.autograd.grad((yf * w).sum(), ins, create_graph=True, allow_unused=True)
        s = (ref.flat_grads(g, ins, e.b) * v.detach().double()).sum()
        r = torch.autograd.grad(s, w, retain_graph=True)[0]
        close("jvp wrt " + wrt, got, r, amax(r) + amax(v), e.dtype)
        rec.call()


def check(case, rec):
    if case.get("large"):
        return large(case, rec)
    e = Env(case, rec)
    m = e.model()
    s = ops.State(e.spec, e.x, e.params, e.dtype)
    s.J
    val = get_val(m, e.x, case["val"])
    rec.label("val " + case["val"])
    for wrt in ("input", "weight"):
        for o, a in (("vjp", "u"), ("jvp", "v")):
            ops.do(rec, m, s, e.x, val, {"c": case.get("c", "key"), "op": o, "wrt": wrt, "a": case[a]}, e.N, e.O, e.P, e.dtype)
