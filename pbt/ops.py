"""The products of the library as data: an op is a JSON dict, its argument a recipe, its expected result is
computed from the reference Jacobians. Shared by all properties that call products."""
import torch
from hypothesis import strategies as st

from . import core, ref, specs
from .core import Bound, Skip, Violation, Refused, close, require, sut, amax
from .common import flatten_blocks, expect_none

FORWARD = ("jvp", "jmp", "jmjTp")
NO_FORWARD = {"Conv2d", "MaxPool2d", "Upsample"}  # layers documented as missing (part of) the forward passes
NO_NONE = {"L2Norm"}  # layers that only have the generic products, whose argument is a tensor
NO_NONE_PRODUCT = {"Flatten", "Reshape"}  # refuse None in jmp and mjp

ANYTHING_REFUSED = {"Opt"}  # layers built with unusual options (C16): any product may raise


# ------------------------------------------------------------------ generation
def metric_recipes():
    return st.fixed_dictionaries(
        {
            "s": st.sampled_from(core.V_STYLES),
            "n": st.integers(0, 99999),
            "l": st.sampled_from(core.LAYOUTS),
            "m": st.sampled_from(["any", "any", "any", "sym", "psd", "diag"]),
        }
    )


modes = st.sampled_from([[False, False], [True, False], [False, True], [True, True]])


@st.composite
def op_strategy(draw, kinds, fast=True, none=True, lists=True):
    o = draw(st.sampled_from(kinds))
    op = {"op": o, "wrt": draw(st.sampled_from(["input", "weight"]))}
    c = draw(st.sampled_from(["key"] * 6 + ["pos", "pos", "short", "short"]))
    if c != "key":
        op["c"] = c
    if o in ("forward", "jacobian"):
        if o == "forward":
            del op["wrt"]
            op.pop("c", None)
        return op
    if o in ("jvp", "vjp"):
        op["a"] = draw(specs.v_recipes)
        return op
    if none and draw(st.integers(0, 4)) == 0:
        op["a"] = None
    else:
        op["a"] = draw(metric_recipes())
    if o in ("jmp", "mjp"):
        op["k"] = draw(st.sampled_from([1, 1, 2, 3, 4, 5, 7, 11] * 6 + [17, 33, 70]))
        return op
    if fast and draw(st.integers(0, 2)) == 0:
        op["fast"] = True
        # None needs no from_diag flag
        op["fd"], op["td"] = (draw(st.booleans()) if op["a"] is None else True), True
    else:
        op["fd"], op["td"] = draw(modes)
    if lists and o == "jmjTp" and op["wrt"] == "weight" and op["a"] is not None:
        op["form"] = draw(st.sampled_from(["tensor", "tensor", "list", "nested"]))
    return op


ALL = ("forward", "jacobian", "jvp", "vjp", "jmp", "mjp", "jmjTp", "jTmjp")
BACK = ("forward", "jacobian", "vjp", "mjp", "jTmjp")


def name(op):
    s = op["op"]
    if "wrt" in op:
        s += " wrt " + op["wrt"]
    if op["op"] in ("jmjTp", "jTmjp"):
        s += " fast" if op.get("fast") else (" diag" if op["fd"] else " full") + ("->diag" if op["td"] else "->full")
    if "a" in op and op["a"] is None:
        s += " None"
    if op.get("form", "tensor") != "tensor":
        s += " " + op["form"]
    return s


# ------------------------------------------------------------------ arguments
def square(recipe, b, n, dtype):
    r = dict(recipe)
    t = core.values(r, (b, n, n))
    kind = recipe.get("m", "any")
    if kind == "sym":
        t = t + t.transpose(1, 2)
    elif kind == "psd":
        t = t @ t.transpose(1, 2) / max(1, n)
    elif kind == "diag":
        t = torch.diag_embed(torch.diagonal(t, dim1=1, dim2=2))
    return core.layout(t.to(dtype), recipe.get("l", "c"))


def diagonal(recipe, b, n, dtype):
    t = core.values(recipe, (b, n))
    if recipe.get("m") == "psd":
        t = t.abs()
    return core.layout(t.to(dtype), recipe.get("l", "c"))


def blocks(spec):
    """[(start, stop)] of the parametric leaves in the weight vector."""
    out, p = [], 0
    for c in specs.leaf_param_counts(spec):
        out.append((p, p + c))
        p += c
    return out


def as_list(spec, t, diag, deep, p=0):
    """t cut into a list with one entry per parametric member; nested lists for nested compositions if deep."""
    out = []
    for m in spec["m"]:
        c = sum(specs.leaf_param_counts(m))
        if c == 0:
            continue
        if deep and m["t"] in ("Sequential", "Skip"):
            out.append(as_list(m, t, diag, deep, p)[0])
        else:
            out.append(t[:, p : p + c] if diag else t[:, p : p + c, p : p + c])
        p += c
    return out, p


def make_arg(op, spec, b, N, O, P, dtype):
    """The argument handed to nnj (tensor, list or None) for one op."""
    o = op["op"]
    if o in ("forward", "jacobian") or op["a"] is None:
        return None
    side_in = N if op["wrt"] == "input" else P
    if o == "jvp":
        return core.tensor(op["a"], (b, side_in), dtype)
    if o == "vjp":
        return core.tensor(op["a"], (b, O), dtype)
    if o == "jmp":
        return core.tensor(op["a"], (b, side_in, op["k"]), dtype)
    if o == "mjp":
        return core.tensor(op["a"], (b, op["k"], O), dtype)
    n = side_in if o == "jmjTp" else O
    t = diagonal(op["a"], b, n, dtype) if op["fd"] else square(op["a"], b, n, dtype)
    if op.get("form", "tensor") != "tensor" and spec["t"] in ("Sequential", "Skip"):
        return as_list(spec, t, op["fd"], op["form"] == "nested")[0]
    return t


def parametric_arg(arg, spec, op, b, P):
    """float64 single-tensor version of a (possibly list) argument."""
    if isinstance(arg, list):
        bs = flatten_blocks("argument", arg)
        # a list entry of a nested composition may hold several leaf blocks in one tensor
        if op["fd"]:
            return torch.cat([t.detach().double() for t in bs], 1)
        out = torch.zeros(b, P, P, dtype=torch.float64)
        p = 0
        for t in bs:
            k = t.shape[1]
            out[:, p : p + k, p : p + k] = t.detach().double()
            p += k
        return out
    return None if arg is None else arg.detach().double()


# ------------------------------------------------------------------ expected results
class State:
    """Reference quantities of (spec, x, params), computed on demand."""

    def __init__(self, spec, x, params, dtype):
        self.spec, self.x, self.params, self.dtype = spec, x, params, dtype
        self._J = None
        self._leaf = None
        core.CONTEXT.append((spec, x, params, dtype))

    @property
    def y(self):
        self.J
        return self._y

    @property
    def J(self):
        if self._J is None:
            self._y, self._J = ref.jacobians(self.spec, self.x, self.params, dtype=self.dtype)
        return self._J

    @property
    def leaf(self):
        if self._leaf is None:
            self._leaf = ref.leaf_jacobians(self.spec, self.x, self.params, self.dtype)[0]
        return self._leaf


def fast_back(node, d, wrt):
    """Diagonal recursion, backwards. Returns (diagonal at the input, [weight diagonals in order])."""
    if node["t"] == "leaf":
        J = node["J"]
        ws = [] if J["weight"] is None else [torch.einsum("bij,bi->bj", J["weight"] ** 2, d)]
        return torch.einsum("bij,bi->bj", J["input"] ** 2, d), ws
    if node["t"] == "Skip":
        n = node["n"]
        i, ws = fast_back({"t": "Sequential", "m": node["m"]}, d[:, n:], wrt)
        return d[:, :n] + i, ws
    ws = []
    for m in reversed(node["m"]):
        d, w = fast_back(m, d, wrt)
        ws = w + ws
    return d, ws


def fast_fwd(node, d, ws):
    """Diagonal recursion, forwards: d is the diagonal arriving through the input (None for none yet), ws the
    remaining weight diagonals (consumed in order; None when only the input is propagated)."""
    if node["t"] == "leaf":
        J = node["J"]
        out = None if d is None else torch.einsum("bij,bj->bi", J["input"] ** 2, d)
        if ws is not None and J["weight"] is not None:
            w = ws.pop(0)
            t = torch.einsum("bij,bj->bi", J["weight"] ** 2, w)
            out = t if out is None else out + t
        return out
    if node["t"] == "Skip":
        inner = fast_fwd({"t": "Sequential", "m": node["m"]}, d, ws)
        if inner is None:
            return None
        if d is None:
            d = torch.zeros(inner.shape[0], node["n"], dtype=inner.dtype)
        return torch.cat([d, inner], 1)
    for m in node["m"]:
        d = fast_fwd(m, d, ws)
    return d


def diag_of(t):
    return torch.diagonal(t, dim1=1, dim2=2)


def expected(op, s, arg):
    """None (the result must be None), or list of (reference, bound): one entry, or one per block."""
    o, spec = op["op"], s.spec
    if o == "forward":
        return [(s.y, Bound(s.y))]
    J = s.J[op["wrt"]]
    if J is None:
        return None
    b, O, I = J.shape
    A = parametric_arg(arg, spec, op, b, I)
    aJ = J.abs()
    if o == "jacobian":
        return [(J, Bound(J))]
    if o == "jvp":
        return [(torch.einsum("bij,bj->bi", J, A), Bound(torch.einsum("bij,bj->bi", aJ, A.abs())))]
    if o == "vjp":
        return [(torch.einsum("bij,bi->bj", J, A), Bound(torch.einsum("bij,bi->bj", aJ, A.abs())))]
    if o == "jmp":
        return [(J, Bound(J))] if A is None else [(J @ A, Bound(aJ @ A.abs()))]
    if o == "mjp":
        return [(J, Bound(J))] if A is None else [(A @ J, Bound(A.abs() @ aJ))]
    fd = op["fd"] or A is None
    if op.get("fast"):
        if o == "jTmjp":
            if A is None:
                A = torch.ones(b, O, dtype=torch.float64)
            i, ws = fast_back(s.leaf, A, op["wrt"])
            bi, bws = fast_back(s.leaf, A.abs(), op["wrt"])
            r, bd = (i, bi) if op["wrt"] == "input" else (torch.cat(ws, 1), torch.cat(bws, 1))
        else:
            if A is None:
                A = torch.ones(b, I, dtype=torch.float64)
            go = lambda a: (
                fast_fwd(s.leaf, a, None)
                if op["wrt"] == "input"
                else fast_fwd(s.leaf, None, [a[:, p:q] for p, q in blocks(spec)])
            )
            r, bd = go(A), go(A.abs())
        check_limit(bd)
        return [(r, Bound(bd))]
    if o == "jTmjp":
        M = torch.eye(O, dtype=torch.float64).expand(b, O, O) if A is None else (torch.diag_embed(A) if fd else A)
        if op["wrt"] == "weight" and not op["td"]:
            out = []
            for p, q in blocks(spec):
                K = J[:, :, p:q]
                Kt = K.transpose(1, 2)
                bd = Kt.abs() @ M.abs() @ K.abs()
                check_limit(bd)
                out.append((Kt @ M @ K, Bound(bd)))
            return out
        Jt = J.transpose(1, 2)
        R, bd = Jt @ M @ J, Jt.abs() @ M.abs() @ aJ
    else:
        M = torch.eye(I, dtype=torch.float64).expand(b, I, I) if A is None else (torch.diag_embed(A) if fd else A)
        if op["wrt"] == "weight":
            keep = torch.zeros(I, I, dtype=torch.float64)
            for p, q in blocks(spec):
                keep[p:q, p:q] = 1.0
            M = M * keep
        R, bd = J @ M @ J.transpose(1, 2), aJ @ M.abs() @ aJ.transpose(1, 2)
    check_limit(bd)
    if op["td"]:
        R, bd = diag_of(R), diag_of(bd)
    return [(R, Bound(bd))]


def check_limit(bd):
    if not amax(bd) < 1e12:
        raise Skip("metric too large for the tolerances")


# ------------------------------------------------------------------ calling
def refusable(op, spec, arg):
    """Exceptions the property text allows for this call: products a layer does not provide."""
    kinds = {l["t"] for l in specs.leaves(spec)}
    leaf = spec["t"] not in ("Sequential", "Skip")
    out = ()
    if kinds & ANYTHING_REFUSED and op["op"] != "forward":
        return (Exception,)
    if op["op"] in FORWARD and kinds & NO_FORWARD:
        if leaf and op.get("wrt") == "weight" and spec["t"] != "Conv2d":
            return ()  # no parameters: None, nothing to provide
        if leaf and spec["t"] == "MaxPool2d" and op["op"] == "jmp":
            return ()  # provided
        if op["op"] == "jmp" and arg is None:
            return ()  # the Jacobian itself
        out += (NotImplementedError,)
    if leaf and arg is None and op["op"] in ("jmp", "mjp", "jmjTp", "jTmjp") and spec["t"] in NO_NONE:
        out += (Exception,)
    if leaf and arg is None and op["op"] in ("jmp", "mjp") and spec["t"] in NO_NONE_PRODUCT:
        out += (NotImplementedError,)
    return out


def call(m, x, val, op, arg, what=None, allow=()):
    o = op["op"]
    # how the arguments are passed: all by keyword, by position, or what equals the documented default left out
    style = op.get("c", "key")
    with sut(what or name(op), allow):
        if o == "forward":
            return m(x)
        f = getattr(m, o)
        args = [x, val] if o == "jacobian" else [x, val, arg]
        rest = {"wrt": op["wrt"]}
        if o in ("jmjTp", "jTmjp"):
            rest.update(from_diag=op["fd"], to_diag=op["td"])
            if op.get("fast") or style != "key":
                rest["diag_backprop"] = bool(op.get("fast"))
        if style == "pos":
            return f(*args, *rest.values())
        if style == "short":
            if o == "jacobian" and val is None:
                args = [x]
            rest = {k: v for k, v in rest.items() if v not in ("input", False)}
        return f(*args, **rest)


def compare(what, op, spec, got, exp, dtype):
    if exp is None:
        expect_none(what, got)
        return
    if op["op"] == "jTmjp" and op["wrt"] == "weight" and not op["td"] and spec["t"] in ("Sequential", "Skip"):
        require(isinstance(got, list), f"{what}: expected a list of blocks, got {type(got).__name__}")
        bs = flatten_blocks(what, got)
        require(len(bs) == len(exp), f"{what}: {len(bs)} blocks, expected {len(exp)}")
        for k, (g, (r, bd)) in enumerate(zip(bs, exp)):
            close(f"{what}, block {k}", g, r, bd, dtype)
        return
    close(what, got, exp[0][0], exp[0][1], dtype)


def mag(exp):
    return 0.0 if exp is None else max(amax(r) for r, _ in exp)


def do(rec, m, s, x, val, op, N, O, P, dtype, what=None, results=None):
    """One product, called and compared. Returns False when it was (allowedly) refused."""
    b = x.shape[0]
    arg = make_arg(op, s.spec, b, N, O, P, dtype)
    what = what or name(op)
    try:
        got = call(m, x, val, op, arg, what, refusable(op, s.spec, arg))
    except Refused:
        rec.label("refused: " + op["op"])
        return False
    exp = expected(op, s, arg)
    compare(what, op, s.spec, got, exp, dtype)
    if results is not None and exp is not None:
        results.extend(flatten_blocks(what, got))
    rec.call()
    rec.label(name(op))
    rec.nontrivial(mag(exp) > 0)
    return True
