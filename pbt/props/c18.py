"""invert_block_diagonal on generated SPD matrices, batches, nested lists, and on metric blocks of models."""
import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs
from ..common import *

CASES = {"quick": 19200, "thorough": 250000}
RULE = (
    "case = matrix, batch (one or two batch dimensions) or nested list (depth <= 3) of symmetric positive definite blocks of size 1-65 with condition number up "
    "to 1e9 (1e3 in single precision), scale 1e-7 to 1e7, random layout; or the block list of jTmjp of a random model plus a "
    "positive diagonal; inverse compared with float64 inversion block by block, residual with the identity, argument bit by bit; "
    "non-trivial = a block that is not a multiple of the identity was inverted and compared"
)
ASSUMPTIONS = ["errors up to 1e-9 (double) or 3e-4 (single) + 20 n eps cond, relative to the largest entry of the inverse, count as rounding"]


@st.composite
def block(draw, f32):
    return {
        "n": draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9] * 5 + [16, 33, 65])),
        "b": draw(st.sampled_from([None, None, 1, 2, 3, 5, [2, 3], [1, 2]])),
        "r": draw(st.integers(0, 99999)),
        "cond": draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, 3.0] if f32 else [0.0, 1.0, 2.0, 4.0, 6.0, 9.0])),
        "scale": draw(st.sampled_from([0.0, 0.0, 0.0, -4.0, -1.0, 1.0, 4.0, -7.0, 7.0])),
        "kind": draw(st.sampled_from(["spd", "spd", "spd", "diag", "near", "uneven"])),
        "l": draw(st.sampled_from(core.LAYOUTS)),
    }


def tree(f32):
    return st.recursive(block(f32), lambda s: st.lists(s, min_size=0, max_size=3), max_leaves=6)


@st.composite
def cases(draw, tier="quick"):
    k = draw(st.integers(0, 99))
    if 40 <= k < 70:
        c = draw(st.fixed_dictionaries(base(specs.models(parametric=True), x=specs.x_plain, dt=st.sampled_from(["f64", "f64", "f64", "f32"]))))
        c["lam"] = draw(st.sampled_from([0.1, 1.0, 10.0]))
        c["a"] = draw(st.sampled_from([None, {"s": "pos", "n": 1}, {"s": "pos", "n": 7}]))
        c["agg"] = draw(st.sampled_from(["none", "sum", "mean"]))
        c["likelihood"] = draw(st.sampled_from([None, "LogGaussian", "LogBernoulli", "LogBinaryBernoulli"]))
        return c
    dt = draw(dts)
    return {"dt": dt, "tree": draw(tree(dt == "f32"))}


def make(bl, dtype):
    n, g = bl["n"], torch.Generator().manual_seed(bl["r"])
    dims = bl["b"] if isinstance(bl["b"], list) else [bl["b"] or 1]
    bs = specs.numel(dims)
    out = []
    for k in range(bs):
        ev = 10 ** (-bl["cond"] * torch.rand(n, generator=g, dtype=torch.float64))
        q = torch.linalg.qr(torch.randn(n, n, generator=g, dtype=torch.float64))[0]
        if bl["kind"] == "diag":
            q = torch.eye(n, dtype=torch.float64)
        if bl["kind"] == "near":
            q = torch.linalg.qr(torch.eye(n, dtype=torch.float64) + 0.01 * q)[0]
        m = q @ torch.diag(ev) @ q.T
        # in an uneven batch the matrices have different scales
        out.append((m + m.T) / 2 * 10 ** (bl["scale"] + (2 * k if bl["kind"] == "uneven" else 0)))
    t = torch.stack(out).reshape(*dims, n, n) if bl["b"] else out[0]
    return core.layout(t.to(dtype), "c" if bl["l"] == "e" and not bl["b"] else bl["l"])


def build(t, dtype):
    return [build(k, dtype) for k in t] if isinstance(t, list) else make(t, dtype)


TOL = {torch.float64: 1e-7, torch.float32: 3e-2}


def compare(what, got, arg, rec):
    if isinstance(arg, list):
        require(isinstance(got, list), f"{what}: list of blocks came back as {type(got).__name__}")
        require(len(got) == len(arg), f"{what}: {len(got)} entries, expected {len(arg)}")
        for k, (g, a) in enumerate(zip(got, arg)):
            compare(f"{what}[{k}]", g, a, rec)
        return
    require(isinstance(got, torch.Tensor), f"{what}: block came back as {type(got).__name__}")
    require(got.shape == arg.shape and got.dtype == arg.dtype, f"{what}: {got.dtype} {tuple(got.shape)} for {arg.dtype} {tuple(arg.shape)}")
    if not arg.numel():
        return
    A = arg.detach().double()
    R = torch.linalg.inv(A)
    scale = R.abs().amax((-1, -2), keepdim=True)
    err = (got.detach().double() - R).abs()
    require(bool(torch.isfinite(got).all()), f"{what}: non-finite entries in the inverse")
    cond = A.abs().sum(-1).amax(-1)[..., None, None] * R.abs().sum(-1).amax(-1)[..., None, None]
    tol = TOL[arg.dtype] * 0.01 + 20 * A.shape[-1] * torch.finfo(arg.dtype).eps * cond
    require(bool((err <= tol * scale).all()), f"{what}: not the inverse, largest relative error {float((err / scale).max()):.3g}")
    rec.call()
    d = torch.diagonal(A, dim1=-2, dim2=-1)
    rec.nontrivial(A.shape[-1] > 1 and float((A - torch.diag_embed(d)).abs().max()) > 1e-6 * float(A.abs().max()) or float(d.abs().min()) != 1.0)


def clone(t):
    return [clone(k) for k in t] if isinstance(t, list) else t.clone()


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return isinstance(b, torch.Tensor) and a.shape == b.shape and torch.equal(a, b)


def check(case, rec):
    from nnj.utils import invert_block_diagonal

    dtype = core.DT[case["dt"]]
    rec.label("dtype " + case["dt"])
    if "tree" in case:
        arg = build(case["tree"], dtype)
        rec.label("list" if isinstance(arg, list) else "batch" if arg.dim() >= 3 else "matrix")
        if isinstance(arg, list) and any(isinstance(k, list) for k in arg):
            rec.label("nested list")
        run(invert_block_diagonal, arg, rec)
        return
    e = Env(case, rec)
    if not e.P:
        return
    s = ops.State(e.spec, e.x, e.params, e.dtype)
    s.J
    m = e.model()
    with sut("metric of the model"):
        if case["likelihood"]:
            L = getattr(e.nnj, case["likelihood"])(metric_shape="full")
            arg = L.ggn(e.x, m)
            arg = neg(arg)
        else:
            M = None if case["a"] is None else core.tensor(case["a"], (e.b, e.O), dtype)
            arg = m.jTmjp(e.x, None, M, wrt="weight", from_diag=M is not None)
    if case["agg"] != "none":
        arg = agg(arg, case["agg"])
    bs = flatten_blocks("metric", arg)
    if not all(bool(torch.isfinite(t).all()) for t in bs):
        raise Skip("metric not finite")
    big = max([amax(t) for t in bs] + [1.0])
    lam = case["lam"] * (1.0 if dtype == torch.float64 else big * 0.1)
    if not big < 1e4 * lam * (10 if dtype == torch.float64 else 1):
        raise Skip("metric too ill-conditioned")
    arg = addeye(arg, lam)
    rec.label("blocks of a model", f"{len(bs)} blocks" if len(bs) < 4 else "4+ blocks")
    run(invert_block_diagonal, arg, rec)


def neg(t):
    return [neg(k) for k in t] if isinstance(t, list) else -t


def agg(t, how):
    return [agg(k, how) for k in t] if isinstance(t, list) else getattr(t, how)(0)


def addeye(t, lam):
    if isinstance(t, list):
        return [addeye(k, lam) for k in t]
    # exactly symmetric, as the property requires
    t = (t + t.transpose(-1, -2)) / 2
    return t + lam * torch.eye(t.shape[-1], dtype=t.dtype)


def run(f, arg, rec):
    before = clone(arg)
    with sut("invert_block_diagonal"):
        got = f(arg)
    require(same(before, arg), "invert_block_diagonal changed its argument")
    compare("invert_block_diagonal", got, arg, rec)
    with sut("invert_block_diagonal"):
        again = f(arg)
    compare("invert_block_diagonal, second call", again, arg, rec)
    require(same(before, arg), "invert_block_diagonal changed its argument")
