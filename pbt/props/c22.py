"""Memory and arithmetic of the products that need no Jacobian, counted operation by operation."""
import torch
from hypothesis import strategies as st
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten
from torch.utils.flop_counter import FlopCounterMode

from .. import core, likes, ops, ref, specs
from ..common import *

CASES = {"quick": 24000, "thorough": 300000}
RULE = (
    "case = model with hundreds to thousands of features per layer, vector product, product with 1-5 columns or rows, metric product with diag_backprop, gradient "
    "or approximate Gauss-Newton diagonal of a likelihood; every tensor operation of the call is recorded (storage of its result, "
    "size of its result, floating-point operations); non-trivial = the Jacobian of the call is larger than the allowed storage"
)
ASSUMPTIONS = [
    "the cost of a standard backpropagation of the batch (of one for each column or row) is, up to a constant, the sum over the layers of input, output, "
    "parameters of each sample and the multiplications of the forward pass",
    "constant factors up to 16 (largest tensor) and 40 (work) are not judged",
]
STORAGE, WORK = 16, 40


def elements(fwd):
    """L2Norm is left out: it has the generic products, by its Jacobian."""
    return specs.elementwise(fwd_any=not fwd).filter(lambda l: l["t"] != "L2Norm")


@st.composite
def layer(draw, shape, fwd):
    b = lambda: draw(st.booleans())
    n = specs.numel(shape)
    opts = ["elem", "elem"] + (["reshape", "flatten"] if len(shape) > 1 else ["reshape"])
    if len(shape) == 1:
        opts += ["linear"] * 3
    if len(shape) == 3 and not fwd:
        opts += ["conv"] * 3 + ["pool", "pool"] + (["up"] if n <= 900 else [])
    o = draw(st.sampled_from(opts))
    if o == "elem":
        return draw(elements(fwd))
    if o == "flatten":
        return {"t": "Flatten"}
    if o == "reshape":
        c = next(k for k in (4, 3, 2, 5, 7, 1) if n % k == 0)
        return {"t": "Reshape", "dims": draw(st.sampled_from([[n], [c, n // c], [c, n // c, 1], [c, 1, -1]]))}
    if o == "linear":
        return {"t": "Linear", "i": n, "o": draw(ints(1, 8)) if n > 40 else draw(ints(500, 1200)), "bias": b()}
    c, h, w = shape
    if o == "conv":
        k = [min(h, draw(ints(1, 4))), min(w, draw(ints(1, 4)))]
        p = [draw(ints(0, k[0] - 1)), draw(ints(0, k[1] - 1))]
        co = draw(ints(1, max(1, min(8, 3000 // (h * w)))))
        return {"t": "Conv2d", "ci": c, "co": co, "k": k, "p": p, "bias": b(), "vmap": b()}
    if o == "pool":
        k = min(h, w, draw(ints(1, 3)))
        return {"t": "MaxPool2d", "k": k, "s": draw(st.sampled_from([None, 1, 2])), "p": draw(ints(0, k // 2)), "d": 1, "ceil": b()}
    return {"t": "Upsample", "s": 2}


def ints(a, b):
    return st.integers(a, b)


@st.composite
def chain(draw, shape, fwd, lo, hi):
    ms = []
    for _ in range(draw(ints(lo, hi))):
        ms.append(draw(layer(shape, fwd)))
        shape = ref.out_shape(ms[-1], shape)
    return ms, shape


@st.composite
def skip(draw, shape, fwd):
    """A skip connection over layers that keep all dimensions but the first."""
    ms = [draw(elements(fwd)) for _ in range(draw(ints(1, 2)))]
    if len(shape) == 1 and draw(st.booleans()):
        n = specs.numel(shape)
        ms.append({"t": "Linear", "i": n, "o": draw(ints(1, 8)) if n > 40 else draw(ints(500, 1200)), "bias": draw(st.booleans())})
    elif len(shape) == 3 and not fwd and draw(st.booleans()):
        ms.append({"t": "Conv2d", "ci": shape[0], "co": draw(ints(1, 4)), "k": [3, 3], "p": [1, 1], "bias": draw(st.booleans()), "vmap": draw(st.booleans())})
    return {"t": "Skip", "m": ms}


@st.composite
def big(draw, fwd):
    kinds = [[draw(ints(1, 6))], [draw(ints(500, 1200))], [3, draw(ints(200, 400))]]
    side = draw(ints(12, 20))
    images = [[draw(ints(1, 4)), side, draw(ints(12, 20))]]
    shape = draw(st.sampled_from(kinds + (images if fwd else images * 4)))
    if draw(ints(0, 5)) == 0:
        return {"shape": shape, "spec": draw(layer(shape, fwd))}
    ms, mid = draw(chain(shape, fwd, 0, 2))
    if draw(st.booleans()):
        ms.append(draw(skip(mid, fwd)))
        mid = ref.out_shape(ms[-1], mid)
    if not ms or draw(st.booleans()):
        more, _ = draw(chain(mid, fwd, 1, 2))
        if draw(ints(0, 2)) == 0:
            more = [{"t": "Sequential", "m": more}]
        ms += more
    return {"shape": shape, "spec": {"t": "Sequential", "m": ms}}


CALLS = ["jvp", "vjp", "vjp", "jmp", "mjp", "mjp", "jmjTp", "jTmjp", "jTmjp", "gradient", "ggn"]


@st.composite
def cases(draw, tier="quick"):
    call = draw(st.sampled_from(CALLS))
    fwd = call in ("jvp", "jmp", "jmjTp")
    model = big(fwd)
    if call in ("gradient", "ggn"):
        model = model.filter(lambda m: ref.out_shape(m["spec"], m["shape"]))
    c = draw(st.fixed_dictionaries(base(model, x=specs.x_plain, b=st.sampled_from([1, 2, 3] * 5 + [60]))))
    c["wrt"] = draw(st.sampled_from(["input", "weight"]))
    c["val"] = draw(vals)
    c["none"] = draw(ints(0, 3)) == 0
    c["v"] = draw(specs.v_recipes)
    c["call"] = call
    c["k"] = draw(ints(1, 5))
    c["like"] = draw(st.sampled_from(["LogGaussian", "LogBinaryBernoulli"]))
    return c


class Largest(TorchDispatchMode):
    """The largest storage among the results of all operations, and the sum of the sizes of the results."""

    def __enter__(self):
        self.top = self.sum = 0
        self.what = None
        return super().__enter__()

    def __torch_dispatch__(self, f, types, args=(), kw=None):
        r = f(*args, **(kw or {}))
        for t in tree_flatten(r)[0]:
            if isinstance(t, torch.Tensor):
                n = t.untyped_storage().nbytes() // t.element_size()
                self.sum += t.numel()
                if n > self.top:
                    self.top, self.what = n, str(f)
        return r


def backpropagation(spec, shape):
    """(entries, multiplications) of one layer-by-layer pass of one sample; the largest layer, and the sum over the layers"""
    if spec["t"] in ("Sequential", "Skip"):
        top = entries = mults = 0
        n = shape
        for m in spec["m"]:
            a, c, d = backpropagation(m, n)
            top, entries, mults = max(top, a), entries + c, mults + d
            n = ref.out_shape(m, n)
        own = specs.numel(shape) + specs.numel(n)
        return max(top, own), entries + own, mults
    i, o = specs.numel(shape), specs.numel(ref.out_shape(spec, shape))
    p = sum(specs.leaf_param_counts(spec))
    mults = 0
    if spec["t"] == "Linear":
        mults = i * o
    elif spec["t"] == "Conv2d":
        k = spec["k"][0] * spec["k"][1]
        mults = o * spec["ci"] * k
        i, o = i * k, o * k  # windows may be copied out
    elif spec["t"] == "MaxPool2d":
        mults = o * spec["k"] ** 2
        o *= spec["k"] ** 2
    return i + o + p, i + o + p, mults


def perform(e, case, m, x, val, arg, L):
    wrt, fast = case["wrt"], {"from_diag": True, "to_diag": True, "diag_backprop": True}
    c = case["call"]
    allow = (NotImplementedError,)
    with sut(c, allow):
        if c in ("jvp", "vjp", "jmp", "mjp"):
            return getattr(m, c)(x, val, arg, wrt=wrt)
        if c in ("jmjTp", "jTmjp"):
            return getattr(m, c)(x, val, arg, wrt=wrt, **fast)
        return getattr(L, c)(x, m, arg, wrt=wrt)


def check(case, rec):
    e = Env(case, rec)
    m = e.model()
    c, wrt = case["call"], case["wrt"]
    if wrt == "weight" and not e.P:
        wrt = case["wrt"] = "input"
    I = e.N if wrt == "input" else e.P
    L = None
    arg = None
    if c in ("gradient", "ggn"):
        with sut("building the likelihood"):
            L = getattr(e.nnj, case["like"])(metric_backprop="approx")
        arg = core.tensor(case["v"], (e.b, *e.out), e.dtype).abs().clamp(max=1.0)
    elif c == "jmp":
        arg = core.tensor(case["v"], (e.b, I, case["k"]), e.dtype)
    elif c == "mjp":
        arg = core.tensor(case["v"], (e.b, case["k"], e.O), e.dtype)
    elif c in ("jvp", "vjp") or not case["none"]:
        arg = core.tensor(case["v"], (e.b, I if c in ("jvp", "jmjTp") else e.O), e.dtype)
    val = get_val(m, e.x, case["val"])
    top, entries, mults = backpropagation(e.spec, list(e.shape))
    # one backpropagation for each column or row
    k = case["k"] if c in ("jmp", "mjp") else 1
    top, entries, mults = k * (top + e.P), k * (entries + e.P), k * mults
    work = e.b * (entries + mults)
    x = e.x.detach()
    big, flops = Largest(), FlopCounterMode(display=False)
    try:
        with flops, big:
            perform(e, case, m, x, val, arg, L)
    except core.Refused:
        rec.label("refused")
        return
    rec.call()
    what = f"{c} wrt {wrt}" + (" (diag_backprop)" if c in ("jmjTp", "jTmjp", "ggn") else "")
    rec.label(what)
    done = big.sum + flops.get_total_flops() / 2
    rec.nontrivial(e.b * e.O * I > STORAGE * e.b * top + 500)
    if STATS is not None:
        STATS.append((big.top / (e.b * top), done / work, what, e.spec))
    require(
        big.top <= STORAGE * e.b * top + 500,
        f"{what}: {big.what} made a tensor of {big.top} entries; the largest layer has {e.b * top} features, windows and parameters (batch "
        f"{e.b}), the Jacobian {e.b * e.O * I}",
    )
    require(
        done <= WORK * work + 5000,
        f"{what}: {done:.3g} entries and multiplications; a standard backpropagation has about {work:.3g}",
    )


STATS = None
