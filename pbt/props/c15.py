"""No side effects; results detached, in the module's dtype, accurate, independent of argument layout."""
import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs, likes
from ..common import *
from .c16 import BAD
from . import c17

CASES = {"quick": 14400, "thorough": 150000}
RULE = (
    "case = random module in single (50%) or double precision, input and arguments in random layouts, grad mode on or off, "
    "1-4 products, a call that raises, or a likelihood; arguments, parameters, their gradients, grad mode and random state compared bit by bit "
    "before and after, result checked for dtype, detachment, accuracy against float64 reference and against the same call "
    "on contiguous arguments; non-trivial = decided, some exact result non-zero"
)
ASSUMPTIONS = [
    "single-precision results may differ from the exact value by 5e-4 of the magnitude of the summed terms",
    "inputs close to a kink are not decided unless computed without rounding",
]


@st.composite
def cases(draw, tier="quick"):
    k = draw(st.integers(0, 99))
    fwd = k > 60
    if k % 12 == 5:
        # a layer written by a user, whose jacobian method records gradients
        fwd = True
        shape = draw(specs.in_shapes(cap=24))
        model = st.just({"shape": shape, "spec": {**draw(c17.custom(shape)), "live": True}})
    else:
        model = None
    c = draw(st.fixed_dictionaries(base(model or specs.models(fwd=fwd, parametric=k % 2 == 0), x=specs.x_plain, dt=st.sampled_from(["f32", "f64"]))))
    c["x"]["g"] = draw(st.booleans())
    c["val"] = draw(st.sampled_from(["none", "val", "val", "detach", "strided"]))
    c["ops"] = draw(st.lists(ops.op_strategy(ops.ALL if fwd else ops.BACK), min_size=1, max_size=4))
    c["grad"] = draw(st.sampled_from([True, False]))
    c["ag"] = draw(st.booleans())  # the vector, matrix or target requires gradients
    if draw(st.integers(0, 3)) == 0:
        # a call whose arguments do not fit, before the others
        c["bad"] = {"bad": draw(st.sampled_from(sorted(BAD))), "r": draw(specs.v_recipes)}
    if draw(st.integers(0, 2)) == 0:
        c["like"] = draw(likes.like_strategy())
    if draw(st.integers(0, 9)) == 0:
        c["half"] = draw(st.sampled_from(["bfloat16", "float16"]))
    return c


class Snapshot:
    def __init__(self, m, named):
        self.m = m
        self.named = named  # name -> tensor
        self.copies = {k: t.detach().clone() for k, t in named.items()}
        self.meta = {k: (t.requires_grad, t.shape, t.stride(), t.data_ptr(), t._version) for k, t in named.items()}
        self.params = [(p, p.detach().clone(), p.grad, None if p.grad is None else p.grad.clone(), p.requires_grad) for p in m.parameters()]
        self.mode = torch.is_grad_enabled()
        self.rng = torch.get_rng_state().clone()
        self.training = [q.training for q in m.modules()]
        self.dtype = torch.get_default_dtype()

    def verify(self, what):
        for k, t in self.named.items():
            same = torch.equal(t.detach(), self.copies[k])
            require(same, f"{what} changed its argument {k}")
            r, sh, sd, dp, _ = self.meta[k]
            require(t.requires_grad == r, f"{what} changed requires_grad of its argument {k}")
            require(t.shape == sh and t.stride() == sd and t.data_ptr() == dp, f"{what} changed the layout of its argument {k}")
            require(r is False or t.grad is None, f"{what} accumulated a gradient in its argument {k}")
        now = list(self.m.parameters())
        require(len(now) == len(self.params) and all(a is q[0] for a, q in zip(now, self.params)), f"{what} replaced parameters")
        for k, (p, c, g, gc, r) in enumerate(self.params):
            require(torch.equal(p.detach(), c), f"{what} changed parameter {k}")
            require(p.requires_grad == r, f"{what} changed requires_grad of parameter {k}")
            ok = (p.grad is None) if gc is None else (p.grad is not None and torch.equal(p.grad, gc))
            require(ok, f"{what} changed the gradient of parameter {k}")
        require(torch.is_grad_enabled() == self.mode, f"{what} changed the grad mode")
        require(torch.equal(torch.get_rng_state(), self.rng), f"{what} used torch's random state")
        require([q.training for q in self.m.modules()] == self.training, f"{what} changed the training mode")
        require(torch.get_default_dtype() == self.dtype, f"{what} changed the default dtype")


def tensors(prefix, arg):
    if arg is None:
        return {}
    if isinstance(arg, torch.Tensor):
        return {prefix: arg}
    return {f"{prefix}{k}": t for k, t in enumerate(flatten_blocks(prefix, arg))}


def grad_on(a):
    if isinstance(a, list):
        return [grad_on(q) for q in a]
    return None if a is None else a.detach().requires_grad_()


def half(case, e, rec):
    """In the shorter floating-point types only the type and the shape of the results are decided."""
    dtype = getattr(torch, case["half"])
    m = e.model().to(dtype)
    x = e.x.detach().to(dtype)
    rec.label("dtype " + case["half"])
    for op in case["ops"]:
        arg = ops.make_arg(op, e.spec, e.b, e.N, e.O, e.P, torch.float64)
        cast = lambda a: a if a is None else [cast(q) for q in a] if isinstance(a, list) else a.to(dtype)
        try:
            val = None if case["val"] == "none" else m(x)
            got = ops.call(m, x, val, op, cast(arg), None, (Exception,))
        except Exception:  # torch does not have every operation in these types
            rec.label("refused in " + case["half"])
            continue
        if got is None:
            continue
        for g in flatten_blocks(ops.name(op), got):
            require(g.dtype == dtype, f"{ops.name(op)}: result has dtype {g.dtype} for a module in {dtype}")
            require(g.shape[0] == e.b, f"{ops.name(op)}: {g.shape[0]} rows for a batch of {e.b}")
        rec.call()
        rec.nontrivial(True)


def check(case, rec):
    e = Env(case, rec)
    if "half" in case:
        half(case, e, rec)
        return
    s = ops.State(e.spec, e.x, e.params, e.dtype)
    s.J
    m = e.model()
    for k, p in enumerate(m.parameters()):
        if k % 2 == 0:
            p.grad = torch.full_like(p, 0.5)
    plain = e.model()
    xc = e.x.detach().contiguous().clone()
    rec.label("x layout " + case["x"]["l"], "grad mode " + str(case["grad"]))
    with torch.set_grad_enabled(case["grad"]):
        val = get_val(m, e.x, "none" if case["val"] == "none" else "detach" if case["val"] != "val" else "val")
        if case["val"] == "strided":
            val = core.layout(val, "s")
        if "bad" in case:
            snap = Snapshot(m, {"x": e.x} if val is None else {"x": e.x, "val": val})
            try:
                BAD[case["bad"]["bad"]](m, e, case["bad"]["r"])
                rec.label("malformed call returned")
            except Exception:
                rec.label("malformed call raised")
            snap.verify(f"malformed call ({case['bad']['bad']})")
        for op in case["ops"]:
            arg = ops.make_arg(op, e.spec, e.b, e.N, e.O, e.P, e.dtype)
            if case.get("ag"):
                arg = grad_on(arg)
            named = {"x": e.x, **tensors("matrix", arg)}
            if val is not None:
                named["val"] = val
            snap = Snapshot(m, named)
            what = ops.name(op)
            try:
                got = ops.call(m, e.x, val, op, arg, None, ops.refusable(op, e.spec, arg))
            except core.Refused:
                snap.verify(what + " (refused)")
                rec.label("refused: " + op["op"])
                continue
            snap.verify(what)
            exp = ops.expected(op, s, arg)
            ops.compare(what, op, e.spec, got, exp, e.dtype)
            if exp is None:
                continue
            for g in flatten_blocks(what, got):
                require(g.dtype == e.dtype, f"{what}: result has dtype {g.dtype} for a module in {e.dtype}")
                if op["op"] != "forward" and not (op["op"] == "jacobian" and e.spec.get("live")):
                    # a reshaping layer may hand back a view of its argument
                    view = any(g.untyped_storage().data_ptr() == a.untyped_storage().data_ptr() for a in named.values())
                    require(not g.requires_grad or view, f"{what}: result is attached to autograd")
                    mem = g.untyped_storage().data_ptr()
                    require(
                        not g.numel() or all(mem != p.untyped_storage().data_ptr() for p in m.parameters()),
                        f"{what}: result is a view of the module's parameters",
                    )
            cont = lambda a: None if a is None else ([cont(q) for q in a] if isinstance(a, list) else a.detach().contiguous().clone())
            other = ops.call(plain, xc, None, op, cont(arg), what + " on contiguous arguments")
            for g, h, (r, bd) in zip(flatten_blocks(what, got), flatten_blocks(what, other), exp):
                close(what + ": result depends on the layout of the arguments", g, f64(h), bd, e.dtype)
            rec.call()
            rec.label(what)
            rec.nontrivial(ops.mag(exp) > 0)
        if "like" in case and (e.P or case["like"]["wrt"] == "input"):
            lk = case["like"]
            t = likes.target(lk, (e.b, *e.out), e.dtype)
            t = core.layout(t, case["x"]["l"] if case["x"]["l"] != "e" else "s")
            if case.get("ag"):
                t = grad_on(t)
            L = likes.build(lk, e.nnj)
            for q in ("value", "gradient", "ggn"):
                what = f"{lk['L']} {q}"
                snap = Snapshot(m, {"x": e.x, "target": t})
                exp = likes.expected(q, lk, s, t)
                got = likes.call(q, lk, L, m, e.x, t)
                snap.verify(what)
                bs = flatten_blocks(what, got)
                require(len(bs) == len(exp), f"{what}: {len(bs)} blocks, expected {len(exp)}")
                for g, (r, bd) in zip(bs, exp):
                    close(what, g, r, bd, e.dtype)
                    require(g.dtype == e.dtype, f"{what}: result has dtype {g.dtype} for a module in {e.dtype}")
                    require(not g.requires_grad, f"{what}: result is attached to autograd")
                rec.call()
                rec.label("likelihood " + q)
