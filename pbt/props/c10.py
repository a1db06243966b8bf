"""Metamorphic: the result on a re-indexed batch is the re-indexed result."""
import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs, likes
from ..common import *

CASES = {"quick": 14400, "thorough": 150000}
RULE = (
    "case = random module, batch of 2-7, list of sample indices (sub-batch, permutation, repetition, single), 4 products or "
    "a likelihood; non-trivial = decided, some result is non-zero"
)
ASSUMPTIONS = [
    "the reference is used only for the size of admissible rounding errors and to skip inputs at kinks",
    "products a layer does not provide are accepted if refused for both batches",
]


@st.composite
def cases(draw, tier="quick"):
    k = draw(st.integers(0, 99))
    fwd = k > 60
    big = 40 <= k < 42
    model = specs.large_models() if big else specs.models(fwd=fwd, parametric=k % 2 == 0)
    c = draw(st.fixed_dictionaries(base(model, x=specs.x_plain, b=st.integers(2, 3) if big else st.sampled_from([2, 3, 4, 5, 6, 7] * 10 + [8, 9, 12, 16, 20, 33, 64, 65, 129]))))
    c["idx"] = draw(st.one_of(
        st.lists(st.integers(0, c["b"] - 1), min_size=1, max_size=6),
        st.permutations(list(range(c["b"]))),
        st.integers(0, c["b"] - 1).map(lambda i: [i]),
    ))
    c["idx"] = list(c["idx"])
    c["val"], c["val2"] = draw(vals), draw(vals)
    if big:
        c["large"] = True
        c["u"] = draw(specs.v_recipes)
        return c
    c["ops"] = draw(st.lists(ops.op_strategy(ops.ALL if fwd else ops.BACK), min_size=1, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        c["like"] = draw(likes.like_strategy(all_only=True))
    return c


def take(arg, idx):
    if arg is None:
        return None
    if isinstance(arg, list):
        return [take(a, idx) for a in arg]
    return arg.detach()[idx]


def same(what, whole, part, idx, bds, dtype):
    W, P = flatten_blocks(what, whole), flatten_blocks(what, part)
    require(len(W) == len(P), f"{what}: {len(W)} blocks on the batch, {len(P)} on the part")
    for k, (w, p) in enumerate(zip(W, P)):
        bd = bds[min(k, len(bds) - 1)]
        if isinstance(bd, core.Bound) and bd.t.shape == w.shape:
            bd = core.Bound(bd.t[idx])
        close(what, p, f64(w)[idx], bd, dtype)


def check(case, rec):
    e = Env(case, rec)
    m = e.model()
    idx = [i % e.b for i in case["idx"]]
    rec.label("single sample" if len(idx) == 1 else "part" if len(idx) < e.b else "reordered")
    part = e.x.detach()[idx]
    val = get_val(m, e.x, case["val"])
    if case.get("large"):
        ref.forward(e.spec, e.x, e.params, e.dtype)
        rec.label("large")
        u = core.tensor(case["u"], (e.b, e.O), e.dtype)
        for wrt in ("input", "weight"):
            for o in ("vjp", "jTmjp"):
                op = {"op": o, "wrt": wrt, "fast": o == "jTmjp", "fd": True, "td": True}
                a = ops.call(m, e.x, None, op, u)
                c = ops.call(m, part, get_val(m, part, case["val2"]), op, u.detach()[idx])
                if a is None or c is None:
                    require(a is None and c is None and not e.params, f"{ops.name(op)} is None")
                    continue
                same(ops.name(op), a, c, idx, [amax(f64(a)) + amax(u)], e.dtype)
                rec.call()
                rec.nontrivial(amax(f64(a)) > 0)
        return
    s = ops.State(e.spec, e.x, e.params, e.dtype)
    s.J
    for op in case["ops"]:
        arg = ops.make_arg(op, e.spec, e.b, e.N, e.O, e.P, e.dtype)
        exp = ops.expected(op, s, arg)
        al = ops.refusable(op, e.spec, arg)
        try:
            whole = ops.call(m, e.x, val, op, arg, None, al)
        except core.Refused:
            rec.label("refused: " + op["op"])
            continue
        val2 = get_val(m, part, case["val2"])
        sub = ops.call(m, part, val2, op, take(arg, idx), ops.name(op) + " on part of the batch")
        if exp is None:
            expect_none(ops.name(op), whole)
            expect_none(ops.name(op), sub)
            continue
        same(ops.name(op) + " on part of the batch", whole, sub, idx, [bd for _, bd in exp], e.dtype)
        rec.call()
        rec.label(ops.name(op))
        rec.nontrivial(ops.mag(exp) > 0)
    if "like" in case:
        lk = case["like"]
        if lk["wrt"] == "weight" and not e.P:
            return
        L = likes.build(lk, e.nnj)
        t = likes.target(lk, (e.b, *e.out), e.dtype)
        for q in ("value", "gradient", "ggn"):
            exp = likes.expected(q, lk, s, t)
            a = likes.call(q, lk, L, m, e.x, t)
            c = likes.call(q, lk, L, m, part, t[idx])
            same(f"{lk['L']} {q} on part of the batch", a, c, idx, [bd for _, bd in exp], e.dtype)
            rec.call()
            rec.label("likelihood " + q)
