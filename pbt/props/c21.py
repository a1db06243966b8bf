"""Calls on an accelerator, simulated by torch's fake tensors, and under another default device."""
import torch
from hypothesis import strategies as st
from torch._subclasses.fake_tensor import (
    DataDependentOutputException, DynamicOutputShapeException, FakeTensorMode, UnsupportedOperatorException,
)

from .. import core, likes, ops, specs
from ..common import *
from . import c18

CASES = {"quick": 8000, "thorough": 90000}
RULE = (
    "case = model (unused, or used on the CPU before, then moved with .to), input, 1-6 of: product, weight vector round trip, "
    "likelihood, inversion of blocks; called with everything on a simulated device cuda:0 or cuda:1 (fake tensors, which carry "
    "device, dtype and shape and raise for mixed devices as a real one does), or really, with the default device of torch set to "
    "another one; compared with the same call on the CPU; non-trivial = a call with a tensor result was compared"
)
ASSUMPTIONS = [
    "torch's fake tensors propagate and check devices as the real device does; values are not computed there",
    "calls that need a value on the host (data-dependent control flow) cannot be followed by fake tensors and are not decided",
]
UNDECIDED = (DataDependentOutputException, DynamicOutputShapeException, UnsupportedOperatorException, NotImplementedError)


@st.composite
def cases(draw, tier="quick"):
    fwd = draw(st.booleans())
    c = draw(st.fixed_dictionaries(base(specs.models(fwd=fwd), x=specs.x_plain, b=st.sampled_from([1, 2, 3, 5]))))
    c["dev"] = draw(st.sampled_from(["cuda:0", "cuda:0", "cuda:1", "default"]))
    c["used"] = draw(st.booleans())
    c["val"] = draw(vals)
    kinds = ops.ALL if fwd else ops.ALL + ops.BACK + ops.BACK
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["op"] * 8 + ["weights", "like", "like"]))
        if k == "op":
            steps.append({"op": draw(ops.op_strategy(kinds))})
        elif k == "like":
            steps.append({"like": draw(likes.like_strategy()), "q": draw(st.sampled_from(["value", "gradient", "ggn"]))})
        else:
            steps.append({"weights": draw(specs.w_recipes)})
    if draw(st.integers(0, 9)) == 0:
        steps.append({"tree": draw(c18.tree(True))})
    c["steps"] = steps
    return c


def move(t, dev):
    if isinstance(t, (list, tuple)):
        return [move(k, dev) for k in t]
    if t is None:
        return None
    g = t.requires_grad
    return t.detach().to(dev).requires_grad_(g)


def prepare(e, step):
    """The tensor argument of one step, on the CPU."""
    if "op" in step:
        return ops.make_arg(step["op"], e.spec, e.b, e.N, e.O, e.P, e.dtype)
    if "like" in step:
        return likes.target(step["like"], (e.b, *e.out), e.dtype)
    if "tree" in step:
        return c18.build(step["tree"], e.dtype)
    return vec(specs.make_params(e.spec, step["weights"], e.dtype)) if e.P else None


def vec(ps):
    return torch.cat([p.reshape(-1) for p in ps])


def perform(e, m, x, val, step, arg, allow):
    """The call of one step."""
    if "op" in step:
        return ops.call(m, x, val, step["op"], arg, None, allow)
    if "like" in step:
        lk = step["like"]
        wrt = lk["wrt"] if e.P else "input"
        L = likes.build(lk, e.nnj)
        with sut(f"{lk['L']} {step['q']}", allow):
            return L(x, m, arg) if step["q"] == "value" else getattr(L, step["q"])(x, m, arg, wrt=wrt)
    if "tree" in step:
        with sut("invert_block_diagonal", allow):
            return invert(arg)
    if not e.P:
        return None
    with sut("get_weight and set_weight", allow):
        old = m.get_weight()
        m.set_weight(arg)
        return [old, m.get_weight(), m(x)]


def invert(arg):
    from nnj.utils import invert_block_diagonal

    return invert_block_diagonal(arg)


def name(step):
    if "op" in step:
        return ops.name(step["op"])
    if "like" in step:
        return f"{step['like']['L']} {step['q']}"
    return "invert_block_diagonal" if "tree" in step else "get_weight and set_weight"


def compare(what, got, exp, dev, values):
    if isinstance(exp, (list, tuple)):
        require(isinstance(got, (list, tuple)) and len(got) == len(exp), f"{what}: the structure of the result differs from that on the CPU")
        for g, r in zip(got, exp):
            compare(what, g, r, dev, values)
        return
    if exp is None:
        require(got is None, f"{what}: None on the CPU, {type(got).__name__} here")
        return
    require(isinstance(got, torch.Tensor), f"{what}: expected a tensor, got {type(got).__name__}")
    require(str(got.device) == dev, f"{what}: the result is on {got.device}, the arguments on {dev}")
    require(got.dtype == exp.dtype, f"{what}: {got.dtype}, on the CPU {exp.dtype}")
    require(tuple(got.shape) == tuple(exp.shape), f"{what}: shape {tuple(got.shape)}, on the CPU {tuple(exp.shape)}")
    if values:
        g, r = f64(got), f64(exp)
        same = (g == r) | (g.isnan() & r.isnan()) | ((g - r).abs() <= 1e-3 * (r.abs().max() + 1e-30))
        require(bool(same.all()), f"{what}: the values depend on the default device")


def tensors(r):
    if isinstance(r, (list, tuple)):
        return sum(map(tensors, r), 0)
    return int(isinstance(r, torch.Tensor))


def check(case, rec):
    e = Env(case, rec)
    cpu = e.model()
    rec.label("device " + case["dev"])
    steps = case["steps"]
    args = [prepare(e, step) for step in steps]
    exp = []
    val = get_val(cpu, e.x, case["val"])
    for step, arg in zip(steps, args):
        try:
            exp.append((perform(e, cpu, e.x, val, step, arg, (Exception,)),))
        except core.Refused:
            exp.append(None)
    m = e.model()
    if case["used"]:
        rec.label("used before")
        for step, arg in zip(steps, args):
            try:
                perform(e, m, e.x, None, step, arg, (Exception,))
            except core.Refused:
                pass
        specs.load_params(m, e.params)
    if case["dev"] == "default":
        with torch.device("meta"):
            run(case, rec, e, m, e.x, args, exp, "cpu", "under another default device", True)
        return
    dev = case["dev"]
    with FakeTensorMode(allow_non_fake_inputs=True):
        with sut("moving the model"):
            m.to(dev)
        run(case, rec, e, m, move(e.x, dev), move(args, dev), exp, dev, "on " + dev, False)


def run(case, rec, e, m, x, args, exp, dev, where, values):
    val = None
    if case["val"] != "none":
        try:
            with sut("forward pass " + where, UNDECIDED):
                val = m(x)
                val = val.detach() if case["val"] == "detach" else val.detach().clone() if case["val"] == "clone" else val
        except core.Refused:
            rec.label("undecided by fake tensors")
    for step, arg, known in zip(case["steps"], args, exp):
        if known is None:
            continue
        what = f"{name(step)} {where}"
        try:
            got = perform(e, m, x, val, step, arg, UNDECIDED)
        except core.Refused:
            rec.label("undecided by fake tensors")
            continue
        compare(what, got, known[0], dev, values)
        rec.call()
        rec.label(name(step))
        rec.nontrivial(tensors(known[0]) > 0)
