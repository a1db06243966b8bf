"""ggn against J^T H J with the closed-form Hessian of the log-density in float64."""
import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs, likes
from ..common import *
from . import c12

CASES = {"quick": 19200, "thorough": 200000}
RULE = (
    "case = likelihood, aggregation, metric shape, exact or fast, random model (25% pure reshapes so that logits take any "
    "value up to 1e4), two targets, input or weight; 20%: one likelihood object used for two models with changing weights, inputs and targets; non-trivial = decided and the exact ggn is non-zero"
)
ASSUMPTIONS = c12.ASSUMPTIONS + ["the fast mode is used with metric_shape='diag' (anything else is refused by compositions)"]


@st.composite
def cases(draw, tier="quick"):
    c = draw(c12.model_cases())
    c["like"] = draw(likes.like_strategy())
    if draw(st.integers(0, 4)) == 2:
        c["hist"] = draw(likes.history(c12.model_cases()))
    return c


def check(case, rec):
    e, lk, s = c12.setup(case, rec)
    m = e.model()
    L = likes.build(lk, e.nnj)
    rec.label(f"{lk['shape']} {lk['bp']}")
    allow_none = e.leafspec() and e.spec["t"] in ops.NO_NONE
    exp = likes.expected("ggn", lk, s, torch.zeros(1))
    for n, t in enumerate([likes.target(lk, (e.b, *e.out), e.dtype), None, torch.zeros(e.b, *e.out, dtype=e.dtype)]):
        what = f"{lk['L']} ggn {lk['shape']} {lk['bp']} wrt {lk['wrt']}, {lk['agg']}" + (f", target {n}" if n else "")
        with sut(what):
            got = L.ggn(e.x, m, t, wrt=lk["wrt"])
        bs = flatten_blocks(what, got)
        require(len(bs) == len(exp), f"{what}: {len(bs)} blocks, expected {len(exp)}")
        for k, (g, (r, bd)) in enumerate(zip(bs, exp)):
            close(what + (f", block {k}" if len(exp) > 1 else ""), g, r, bd, e.dtype)
        if n == 0 and lk["shape"] == "full":
            comp = not e.leafspec()
            require(isinstance(got, list) == (comp and lk["wrt"] == "weight"), f"{what}: returned {type(got).__name__}")
        rec.call()
    rec.nontrivial(ops.mag(exp) > 0)
    if lk["wrt"] == "weight":
        with sut("ggn with default wrt"):
            got = L.ggn(e.x, m)
        for g, (r, bd) in zip(flatten_blocks("ggn", got), exp):
            close("ggn with default arguments", g, r, bd, e.dtype)
    if "hist" in case:
        likes.run_history(case, rec, ("ggn",))
