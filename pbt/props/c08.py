"""Differential: the same chain flat and regrouped; and cut in two with the chain rule."""
import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs
from ..common import *

CASES = {"quick": 14400, "thorough": 150000}
RULE = (
    "case = chain of layers (with nested groups and SkipConnections), a random regrouping of it at every level, a cut "
    "position and 3 products, each computed on both groupings and through the cut; non-trivial = decided, the groupings "
    "differ, some result is non-zero"
)
ASSUMPTIONS = [
    "the reference is used only for the size of admissible rounding errors",
    "products a layer does not provide are accepted if both groupings refuse them",
]


@st.composite
def regroup(draw, ms):
    """ms with random consecutive runs wrapped into Sequential, and members of compositions regrouped."""
    out = []
    for m in ms:
        if m["t"] == "Skip":
            out.append({"t": "Skip", "m": draw(regroup(m["m"]))})
        elif m["t"] == "Sequential":
            sub = draw(regroup(m["m"]))
            if draw(st.booleans()):
                out += sub  # dissolve the group
            else:
                out.append({"t": "Sequential", "m": sub})
        else:
            out.append(m)
    for _ in range(draw(st.integers(0 if len(ms) != 1 else 1, 3))):
        i = draw(st.integers(0, len(out) - 1))
        j = draw(st.integers(i + 1, len(out)))
        out[i:j] = [{"t": "Sequential", "m": out[i:j]}]
    return out


@st.composite
def cases(draw, tier="quick"):
    k = draw(st.integers(0, 99))
    fwd = k > 50
    shape = draw(specs.in_shapes())
    ms, sh = draw(specs.chains(shape, fwd, 48, 2, lo=1, hi=5))
    top = draw(st.sampled_from(["Sequential", "Sequential", "Sequential", "Skip"]))
    if list(sh[1:]) != list(shape[1:]):
        top = "Sequential"
    c = draw(st.fixed_dictionaries(base(st.just({"shape": shape, "spec": {"t": top, "m": ms}}))))
    c["alt"] = {"t": top, "m": draw(regroup(ms))}
    c["cut"] = draw(st.integers(0, len(ms)))
    c["slice"] = draw(st.integers(0, 3)) == 0
    c["val"], c["val2"] = draw(vals), draw(vals)
    kinds = ops.ALL if fwd else ops.ALL + ops.BACK + ops.BACK
    c["ops"] = [draw(ops.op_strategy([o for o in kinds if o != "forward"], lists=False))]
    c["ops"] += draw(st.lists(ops.op_strategy(kinds, lists=False), min_size=0, max_size=4))
    return c


def outcome(m, x, val, op, arg, spec):
    try:
        return ops.call(m, x, val, op, arg, None, ops.refusable(op, spec, arg))
    except core.Refused:
        return "refused"


def same(what, op, a, c, exp, dtype):
    if exp is None:
        expect_none(what, a)
        expect_none(what, c)
        return
    A, C = flatten_blocks(what, a), flatten_blocks(what, c)
    require(len(A) == len(C), f"{what}: {len(A)} blocks against {len(C)}")
    for k, (g, h) in enumerate(zip(A, C)):
        bd = exp[min(k, len(exp) - 1)][1]
        close(f"{what}", h, f64(g), bd, dtype)


def check(case, rec):
    e = Env(case, rec)
    alt = case["alt"]
    s = ops.State(e.spec, e.x, e.params, e.dtype)
    s.J
    m = e.model()
    a = specs.realize(alt, e.nnj, e.params, e.dtype, None, case.get("o", 0) & 19)
    differ = alt != e.spec
    rec.label("regrouped" if differ else "same grouping")
    with sut("get_weight"):
        wm, wa = m.get_weight() if e.P else None, a.get_weight() if e.P else None
    require(wm is None or torch.equal(wm, wa), "parameter order changes with the grouping")
    val, val2 = get_val(m, e.x, case["val"]), get_val(a, e.x, case["val2"])
    for op in case["ops"]:
        arg = ops.make_arg(op, e.spec, e.b, e.N, e.O, e.P, e.dtype)
        r1, r2 = outcome(m, e.x, val, op, arg, e.spec), outcome(a, e.x, val2, op, arg, alt)
        what = "flat against regrouped: " + ops.name(op)
        if isinstance(r1, str) or isinstance(r2, str):
            require(r1 is r2 or r1 == r2, f"{what}: one grouping refuses the product, the other does not")
            rec.label("refused: " + op["op"])
            continue
        exp = ops.expected(op, s, arg)
        same(what, op, r1, r2, exp, e.dtype)
        rec.call()
        rec.label(ops.name(op))
        rec.nontrivial(differ and ops.mag(exp) > 0)
        if e.spec["t"] == "Sequential":
            cut(case, rec, e, op, arg, r1, exp, m)


def cut(case, rec, e, op, arg, whole, exp, m):
    """The joined chain against its two halves and the chain rule."""
    ms, k = e.spec["m"], case["cut"]
    if k == 0 or k == len(ms) or exp is None or op.get("form"):
        return
    s1, s2 = {"t": "Sequential", "m": ms[:k]}, {"t": "Sequential", "m": ms[k:]}
    n1 = len(specs.param_shapes(s1))
    if case.get("slice"):
        with sut("slicing the model"):
            m1, m2 = m[:k], m[k:]
        rec.label("halves by slicing")
    else:
        m1 = specs.realize(s1, e.nnj, e.params[:n1], e.dtype)
        m2 = specs.realize(s2, e.nnj, e.params[n1:], e.dtype)
    with sut("forward of the first half"):
        z = m1(e.x).detach()
    O1 = z[0].numel()
    P1 = sum(p.numel() for p in e.params[:n1])
    o, wrt = op["op"], op.get("wrt")
    c1 = lambda **kw: ops.call(m1, e.x, None, {**op, **kw}, kw["arg"], None, ops.refusable(op, s1, kw["arg"]))
    c2 = lambda **kw: ops.call(m2, z, None, {**op, **kw}, kw["arg"], None, ops.refusable(op, s2, kw["arg"]))
    cat = lambda ts, d: torch.cat([t for t in ts if t is not None], d)
    try:
        if o == "forward":
            r = c2(arg=None)
        elif o == "jacobian":
            return
        elif o in ("vjp", "mjp"):
            back = c2(arg=arg, wrt="input")
            r = c1(arg=back, wrt=wrt)
            if wrt == "weight":
                r = cat([r, c2(arg=arg, wrt="weight")], 1 if o == "vjp" else 2)
        elif o in ("jvp", "jmp"):
            if arg is None:
                return
            if wrt == "input":
                r = c2(arg=c1(arg=arg))
            else:
                parts = []
                if P1:
                    parts.append(c2(arg=c1(arg=arg[:, :P1]), wrt="input"))
                if e.P > P1:
                    parts.append(c2(arg=arg[:, P1:], wrt="weight"))
                r = sum(parts)
        elif o == "jTmjp":
            fast = op.get("fast", False)
            back = c2(arg=arg, wrt="input", fd=op["fd"], td=fast)
            r = c1(arg=back, wrt=wrt, fd=fast, td=op["td"])
            if wrt == "weight":
                tail = c2(arg=arg, wrt="weight")
                if op["td"]:
                    r = cat([r, tail], 1)
                else:
                    r = [t for t in (r, tail) if t is not None]
        else:
            if wrt == "weight" or arg is None:
                return
            fast = op.get("fast", False)
            r = c2(arg=c1(arg=arg, td=fast), fd=fast)
    except core.Refused:
        return
    same("joined chain against its halves: " + ops.name(op), op, whole, r, exp, e.dtype)
    rec.call()
    rec.label("cut")
