"""Log-likelihoods: generation, reference value, gradient and Hessian in float64."""
import torch
from hypothesis import strategies as st

from . import common, core, ops, specs
from .core import Bound, amax, sut, Skip

KINDS = ["LogGaussian", "LogBinaryBernoulli", "LogBernoulli"]


@st.composite
def like_strategy(draw, all_only=False):
    lk = {
        "L": draw(st.sampled_from(KINDS)),
        "agg": "return all" if all_only else draw(st.sampled_from(["return all", "default", "sum", "average"])),
        "shape": draw(st.sampled_from(["diag", "full"])),
        "wrt": draw(st.sampled_from(["weight", "weight", "input"])),
        "t": draw(st.fixed_dictionaries({"s": st.sampled_from(["hard", "soft", "soft", "edge"]), "n": st.integers(0, 99999)})),
    }
    lk["bp"] = draw(st.sampled_from(["exact", "exact", "approx"])) if lk["shape"] == "diag" else "exact"
    return lk


def build(lk, nnj):
    kw = {}
    if lk["agg"] != "default":
        kw["aggregate_batch"] = lk["agg"]
    if lk["shape"] != "diag" or lk["t"]["n"] % 2:
        kw["metric_shape"] = lk["shape"]
    if lk["bp"] != "exact" or lk["t"]["n"] % 3:
        kw["metric_backprop"] = lk["bp"]
    with sut("building " + lk["L"]):
        return getattr(nnj, lk["L"])(**kw)


def target(lk, shape, dtype):
    g = torch.Generator().manual_seed(lk["t"]["n"])
    r = torch.rand(shape, generator=g, dtype=torch.float64)
    s = lk["t"]["s"]
    if lk["L"] == "LogGaussian":
        t = torch.randn(shape, generator=g, dtype=torch.float64)
        if s == "edge":
            t = t * 100
        if s == "hard":
            t = t.round()
    elif lk["L"] == "LogBinaryBernoulli":
        t = r if s == "soft" else (r > 0.5).double() if s == "hard" else (r > 2.0).double()
    else:
        if s == "soft":
            t = r + 1e-3
            t = t / t.sum(-1, keepdim=True)
        else:
            t = torch.nn.functional.one_hot(r.argmax(-1) if s == "hard" else (r * 0).argmax(-1), shape[-1]).double()
    return t.to(dtype)


def call(q, lk, L, m, x, t, wrt_default=False):
    with sut(f"{lk['L']} {q}"):
        if q == "value":
            return L(x, m, t)
        if wrt_default:
            return getattr(L, q)(x, m, t)
        if lk["t"]["n"] % 4 == 1:
            return getattr(L, q)(x, m, t, lk["wrt"])
        return getattr(L, q)(x, m, t, wrt=lk["wrt"])


# ------------------------------------------------------------------ reference (float64)
def log_density(lk, y, t):
    b = y.shape[0]
    if lk["L"] == "LogGaussian":
        r = -0.5 * (y - t) ** 2
    elif lk["L"] == "LogBinaryBernoulli":
        # log sigma(y) and log sigma(-y) without overflow
        ls = lambda z: torch.where(z > 0, -torch.log1p(torch.exp(-z.abs())), z - torch.log1p(torch.exp(-z.abs())))
        r = t * ls(y) + (1 - t) * ls(-y)
    else:
        m = y.max(-1, keepdim=True).values
        r = t * (y - m - torch.log(torch.exp(y - m).sum(-1, keepdim=True)))
    return r.reshape(b, -1).sum(1)


def probs(y):
    m = y.max(-1, keepdim=True).values
    z = torch.exp(y - m)
    return z / z.sum(-1, keepdim=True)


def sigma(y):
    z = torch.exp(-y.abs())
    return torch.where(y >= 0, 1 / (1 + z), z / (1 + z))


def residual(lk, y, t):
    b = y.shape[0]
    if lk["L"] == "LogGaussian":
        r = t - y
    elif lk["L"] == "LogBinaryBernoulli":
        r = t - sigma(y)
    else:
        r = t - probs(y)
    return r.reshape(b, -1)


def hessian(lk, y):
    """(b, O, O)"""
    b = y.shape[0]
    if lk["L"] == "LogGaussian":
        return -torch.eye(y[0].numel(), dtype=torch.float64).expand(b, -1, -1)
    if lk["L"] == "LogBinaryBernoulli":
        return torch.diag_embed((-sigma(y) * sigma(-y)).reshape(b, -1))
    c = y.shape[-1]
    p = probs(y).reshape(b, -1, c)
    out = torch.zeros(b, p.shape[1] * c, p.shape[1] * c, dtype=torch.float64)
    for g in range(p.shape[1]):
        q = p[:, g]
        out[:, g * c : (g + 1) * c, g * c : (g + 1) * c] = q[:, :, None] * q[:, None, :] - torch.diag_embed(q)
    return out


def aggregate(lk, t, bd):
    if lk["agg"] in ("return all", "default"):
        return t, Bound(bd)
    if lk["agg"] == "sum":
        return t.sum(0), Bound(bd.sum(0))
    return t.mean(0), Bound(bd.mean(0))


def expected(q, lk, s, t):
    """[(reference, bound)], one entry per block."""
    y, t = s.y, t.detach().double()
    b = y.shape[0]
    if q == "value":
        v = log_density(lk, y, t)
        mag = (y.abs() + t.abs() + 1) ** 2 if lk["L"] == "LogGaussian" else y.abs() + 1
        bd = mag.reshape(b, -1).sum(1)
        if lk["L"] == "LogBernoulli":
            bd = bd * max(1.0, 1.0)
        return [aggregate(lk, v, bd)]
    J = s.J[lk["wrt"]]
    if q == "gradient":
        r = residual(lk, y, t)
        extra = y.abs().reshape(b, -1) + t.abs().reshape(b, -1) if lk["L"] == "LogGaussian" else 1.0
        g = torch.einsum("bi,bij->bj", r, J)
        bd = torch.einsum("bi,bij->bj", r.abs() + extra, J.abs())
        if not amax(bd) < 1e12:
            raise Skip("gradient too large for the tolerances")
        return [aggregate(lk, g, bd)]
    H = hessian(lk, y)
    if lk["bp"] == "approx":
        d = torch.diagonal(H, dim1=1, dim2=2)
        i, ws = ops.fast_back(s.leaf, d, lk["wrt"])
        bi, bws = ops.fast_back(s.leaf, torch.ones_like(d), lk["wrt"])
        r, bd = (i, bi) if lk["wrt"] == "input" else (torch.cat(ws, 1), torch.cat(bws, 1))
        ops.check_limit(bd)
        return [aggregate(lk, r, bd)]
    # rounding of the Hessian entries is absolute (1 - 1 + tiny), hence the +eye in the bound
    aH = H.abs() + torch.eye(H.shape[1], dtype=torch.float64)
    cut = lambda K: (K.transpose(1, 2) @ H @ K, K.transpose(1, 2).abs() @ aH @ K.abs())
    if lk["shape"] == "full":
        parts = [J] if lk["wrt"] == "input" else [J[:, :, p:q] for p, q in ops.blocks(s.spec)]
        out = []
        for K in parts:
            r, bd = cut(K)
            ops.check_limit(bd)
            out.append(aggregate(lk, r, bd))
        return out
    r, bd = cut(J)
    ops.check_limit(bd)
    return [aggregate(lk, ops.diag_of(r), ops.diag_of(bd))]


# ------------------------------------------------------------------ histories of one likelihood object
@st.composite
def history(draw, models):
    """A second model, and calls on both with one likelihood object; weights, targets and inputs change in between."""
    one = lambda: {
        "w": draw(st.integers(0, 1)),
        "q": draw(st.sampled_from(["value", "gradient", "ggn"])),
        "c": draw(st.sampled_from([None, None, "weights", "target", "input"])),
        "n": draw(st.integers(0, 99999)),
    }
    return {"other": draw(models), "steps": [one() for _ in range(draw(st.integers(2, 6)))]}


class World:
    def __init__(self, case, lk):
        from .common import Env

        self.e = Env(case)
        self.lk = dict(lk)
        if not self.e.P:
            self.lk["wrt"] = "input"
        self.m = self.e.model()
        self.retarget(lk["t"]["n"])
        self.state()

    def retarget(self, n):
        self.t = target({**self.lk, "t": {**self.lk["t"], "n": n}}, (self.e.b, *self.e.out), self.e.dtype)

    def state(self):
        self.s = ops.State(self.e.spec, self.e.x, self.e.params, self.e.dtype)
        self.s.J

    def change(self, c, n):
        e = self.e
        if c == "target":
            self.retarget(n)
        elif c == "weights" and e.P:
            e.params = specs.make_params(e.spec, {"s": "normal", "n": n}, e.dtype)
            self.state()
            with sut("set_weight"):
                self.m.set_weight(torch.cat([p.reshape(-1) for p in e.params]))
        elif c == "input":
            e.x = core.tensor({**e.case["x"], "n": n}, (e.b, *e.shape), e.dtype)
            self.state()


def run_history(case, rec, which):
    lk = case["like"]
    ws = [World(case, lk), World(case["hist"]["other"], lk)]
    L = build(lk, ws[0].e.nnj)
    held = []
    for n, stp in enumerate(case["hist"]["steps"]):
        w = ws[stp["w"]]
        if stp["c"]:
            w.change(stp["c"], stp["n"])
        got = call(stp["q"], w.lk, L, w.m, w.e.x, w.t)
        if stp["q"] not in which:
            continue
        what = f"step {n} with one {lk['L']} object: {stp['q']} wrt {w.lk['wrt']}"
        exp = expected(stp["q"], w.lk, w.s, w.t)
        bs = common.flatten_blocks(what, got)
        core.require(len(bs) == len(exp), f"{what}: {len(bs)} blocks, expected {len(exp)}")
        for g, (r, bd) in zip(bs, exp):
            core.close(what, g, r, bd, w.e.dtype)
            held.append((what, g, g.detach().clone()))
        rec.call()
        rec.label("one likelihood object, several calls")
    for what, g, was in held:
        core.require(torch.equal(g.nan_to_num(), was.nan_to_num()), f"{what}: this result changed during later calls")
