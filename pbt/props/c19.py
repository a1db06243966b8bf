"""Deep copies, reloaded models and shared layer instances, driven by interleaved histories of calls."""
import copy
import io

import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs
from ..common import *
from . import c09

CASES = {"quick": 8000, "thorough": 90000}
RULE = (
    "case = (copy) a model, a history of 0-5 calls on it, a deep copy or a new model with its state dict, then 3-10 interleaved "
    "steps on both including weight changes of either; (share) two models of which the second reuses instances of the first, "
    "parametric or not, and in which instances without parameters occur several times, 3-10 interleaved steps; every result "
    "against a reference with separate layers; non-trivial = a product with non-zero exact value compared after another step"
)
ASSUMPTIONS = [
    "the instances used twice within one model have no parameters (the weight vector of a model lists a parameter once)",
    "inputs close to a kink are not decided unless computed without rounding",
]


def tag(spec, draw, pool, prob):
    """Marks members with ids: equal non-parametric specs may share one instance."""
    for m in spec["m"]:
        if m["t"] in ("Sequential", "Skip"):
            tag(m, draw, pool, prob)
        if not specs.param_shapes(m) and "id" not in m and draw(st.integers(0, 9)) < prob:
            key = repr(strip(m))
            m["id"] = pool.setdefault(key, len(pool))


def strip(s):
    if isinstance(s, dict):
        return {k: strip(v) for k, v in s.items() if k != "id"}
    return [strip(k) for k in s] if isinstance(s, list) else s


@st.composite
def repeated(draw, shape, fwd):
    """Chains in which the same kinds of layers recur, so that instances can be shared."""
    acts = [draw(specs.elementwise()) for _ in range(2)]
    if len(shape) == 3 and not fwd:
        acts.append({"t": "MaxPool2d", "k": draw(st.integers(1, 2)), "s": draw(st.sampled_from([None, 1])), "p": 0, "d": 1, "ceil": True})
        acts.append({"t": "MaxPool2d", "k": 2, "s": 1, "p": 1, "d": 1, "ceil": False})
        if specs.numel(shape) <= 9:
            acts.append({"t": "Upsample", "s": 2})
    if draw(st.booleans()):
        acts.append({"t": "Sequential", "m": [draw(specs.elementwise()), draw(specs.elementwise())]})
    ms, sh = [], list(shape)
    for _ in range(draw(st.integers(2, 6))):
        if draw(st.integers(0, 2)) == 0:
            l = draw(specs.one_layer(sh, fwd, 40, 1))
        else:
            l = copy.deepcopy(draw(st.sampled_from(acts)))
        try:
            if l["t"] == "MaxPool2d" and not specs.ok_pool(l, sh):
                l = {"t": "Tanh"}
            s2 = ref.out_shape(l, sh)
        except (RuntimeError, ValueError, IndexError):
            l, s2 = {"t": "Tanh"}, sh
        if specs.numel(s2) > 60:
            l, s2 = {"t": "Tanh"}, sh
        ms.append(l)
        sh = s2
    return ms, sh


@st.composite
def cases(draw, tier="quick"):
    fwd = draw(st.booleans())
    c = {
        "b": [draw(specs.batches) for _ in range(3)], "x": [draw(specs.x_plain) for _ in range(3)],
        "w": [draw(specs.w_recipes)] * 2, "dt": draw(dts),
        "o": draw(circumstances),
    }
    steps = lambda lo, hi: draw(st.lists(c09.steps(fwd), min_size=lo, max_size=hi))
    if draw(st.booleans()):
        c["kind"] = draw(st.sampled_from(["deepcopy", "deepcopy", "deepcopy", "state_dict", "state_dict", "assigned state_dict", "saved file"]))
        c["models"] = [draw(specs.models(fwd=fwd, parametric=True))] * 2
        c["before"] = [{**s, "m": 0} for s in steps(0, 5)]
        c["steps"] = [{**s, "m": draw(st.integers(0, 1))} for s in steps(3, 10)]
        return c
    c["kind"] = "share"
    shape = draw(specs.in_shapes(cap=16))
    ms, sh = draw(repeated(shape, fwd))
    pool = {}
    first = {"t": "Sequential", "m": ms}
    tag(first, draw, pool, 8)
    # instances shared between the models: a contiguous part of the first
    i = draw(st.integers(0, len(ms) - 1))
    j = draw(st.integers(i + 1, len(ms)))
    at = list(shape)
    for m in ms[:i]:
        at = ref.out_shape(m, at)
    for k, m in enumerate(ms[i:j]):
        if "id" not in m:
            m["id"] = 1000 + k
    part = copy.deepcopy(ms[i:j])
    end = at
    for m in part:
        end = ref.out_shape(m, end)
    extra = draw(specs.one_layer(end, fwd, 40, 0))
    if draw(st.booleans()):
        part.append(extra)
    c["models"] = [{"shape": shape, "spec": first}, {"shape": at, "spec": {"t": "Sequential", "m": part}}]
    if draw(st.integers(0, 3)) == 2:
        # the whole first model as a member of the second
        first["id"] = 5000
        tail = draw(specs.one_layer(sh, fwd, 40, 0))
        c["models"][1] = {"shape": shape, "spec": {"t": "Sequential", "m": [copy.deepcopy(first), tail]}}
    c["steps"] = [{**s, "m": draw(st.integers(0, 1))} for s in steps(3, 10)]
    return c


def check(case, rec):
    import nnj

    dtype = core.DT[case["dt"]]
    rec.label(case["kind"])
    if case["kind"] == "share":
        shared = {}
        A = c09.Machine(case, 0, dtype, nnj, shared)
        B = c09.Machine(case, 1, dtype, nnj, shared)
        ids = [l.get("id") for l in specs.leaves(A.spec) if "id" in l]
        if len(set(ids)) < len(ids):
            rec.label("instance used twice in a model")
        refresh(A)
        ms = [A, B]

        def changed(M):
            for K in ms:
                if K is not M:
                    refresh(K)

        for K in ms:
            for i in range(3):
                K.state(i)
        c09.run(ms, case["steps"], rec, dtype, changed)
        return
    A = c09.Machine(case, 0, dtype, nnj)
    for i in range(3):
        A.state(i)
    trace = []
    c09.run([A], case["before"], rec, dtype, None, trace, "before the copy, ")
    with sut(case["kind"]):
        if case["kind"] == "deepcopy":
            m = copy.deepcopy(A.m)
        elif case["kind"] == "saved file":
            f = io.BytesIO()
            torch.save(A.m, f)
            f.seek(0)
            m = torch.load(f, weights_only=False)
        else:
            m = specs.build(A.spec, nnj, None, case.get("o", 0) & 20).to(dtype)
            if case["kind"] == "state_dict":
                m.load_state_dict(A.m.state_dict())
            else:
                m.load_state_dict({k: v.clone() for k, v in A.m.state_dict().items()}, assign=True)
    B = c09.Machine(case, 1, dtype, nnj, module=m)
    B.weights([p.clone() for p in A.params])
    require(list(dict(m.named_parameters())) == list(dict(A.m.named_parameters())), "the copy has other parameter names")
    ms = [A, B]
    for K in ms:
        for i in range(3):
            K.state(i)
    ptrs = {p.data_ptr() for p in A.m.parameters() if p.numel()}
    require(not any(p.data_ptr() in ptrs for p in m.parameters() if p.numel()), "the copy shares memory of parameters with the original")
    c09.run(ms, case["steps"], rec, dtype, None, trace)
    for K, name in ((A, "original"), (B, "copy")):
        require(
            all(torch.equal(p.detach(), q) for p, q in zip(K.m.parameters(), K.params)),
            f"the parameters of the {name} changed without being set",
        )


def refresh(M):
    """Parameters shared with another model: the reference takes the module's current values."""
    own = [p.detach().clone() for p in M.m.parameters()]
    require(
        [tuple(p.shape) for p in own] == [tuple(p.shape) for p in M.params],
        f"parameters are {[tuple(p.shape) for p in own]}, expected {[tuple(p.shape) for p in M.params]}",
    )
    M.weights(own)
    for i in range(3):
        M.state(i)
