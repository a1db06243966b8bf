"""Shared vocabulary: outcomes of a case, tensor recipes, tolerant comparison."""
import contextlib
import torch


class Violation(Exception):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """The case is outside what the oracle can decide (near a kink, overflow); counted, never a verdict."""


class Refused(Exception):
    """The code under test raised on a call that the property allows to be refused."""


DT = {"f32": torch.float32, "f64": torch.float64}
RTOL = {torch.float32: 5e-4, torch.float64: 1e-8}
FLOOR = {torch.float32: 1e-5, torch.float64: 1e-11}
# below this relative distance from a kink, two correct implementations may take different branches
KINK = {torch.float32: 2e-3, torch.float64: 1e-7}


@contextlib.contextmanager
def sut(what, allow=()):
    """Every call into nnj happens inside this guard: an exception there is nnj's, any other is ours."""
    try:
        yield
    except (Violation, Skip, Refused):
        raise
    except allow as e:
        raise Refused(f"{what}: {type(e).__name__}: {e}")
    except Exception as e:  # noqa
        raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:400]}")


def require(cond, msg):
    if not cond:
        raise Violation(msg)


# ------------------------------------------------------------------ tensors
STYLES = ("normal", "int", "sparse", "const", "ramp", "pos", "neg", "mixmag", "onehot", "big", "edge", "zero")
X_STYLES = ("normal", "normal", "normal", "int", "sparse", "const", "ramp", "pos", "neg", "mixmag", "big", "edge", "zero")
V_STYLES = ("normal", "normal", "normal", "int", "sparse", "ramp", "pos", "neg", "mixmag", "onehot", "zero", "const")
W_STYLES = ("normal",) * 6 + ("int", "int", "sparse", "sparse", "pos", "pos", "ramp", "ramp", "mixmag", "zero")
LAYOUTS = ("c", "c", "c", "c", "c", "t", "s", "o", "e", "m")

EDGE = torch.tensor(
    [-100.0, -50.0, -21.0, -15.5, -15.0, -5.0, -1.0, -0.5, 0.0, 0.25, 1.0, 3.0, 14.5, 15.0, 15.5, 19.0, 21.0, 50.0, 80.0],
    dtype=torch.float64,
)


def values(recipe, shape):
    """float64 values of a recipe: a pure function of (style, seed, shape)."""
    shape = tuple(shape)
    style, seed = recipe["s"], recipe["n"]
    g = torch.Generator().manual_seed(seed)
    n = 1
    for s in shape:
        n *= s
    r = lambda: torch.randn(n, generator=g, dtype=torch.float64)
    u = lambda lo, hi: torch.randint(lo, hi, (n,), generator=g)
    if style == "normal":
        t = r()
    elif style == "int":
        t = u(-3, 4).double()
    elif style == "sparse":
        t = r() * (u(0, 10) < 4).double()
    elif style == "const":
        t = torch.full((n,), float([1.0, -1.0, 0.5, 2.0, -0.75][seed % 5]), dtype=torch.float64)
    elif style == "ramp":
        t = (torch.arange(n, dtype=torch.float64) + 1 + seed % 3) / max(1, min(n, 8))
        if seed % 2:
            t = -t + 2.0
        t = torch.remainder(t + 2.5, 5.0) - 2.5 if n > 12 else t
    elif style == "pos":
        t = r().abs() + 0.01
    elif style == "neg":
        t = -r().abs() - 0.01
    elif style == "mixmag":
        t = r() * (10.0 ** u(-3, 2).double())
    elif style == "onehot":
        t = torch.zeros(n, dtype=torch.float64)
        if n:
            t[seed % n] = 1.0
    elif style == "big":
        t = 10.0 * r()
    elif style == "huge":
        t = r() * (10.0 ** u(1, 5).double())
    elif style == "edge":
        t = EDGE[u(0, len(EDGE))]
    elif style == "zero":
        t = torch.zeros(n, dtype=torch.float64)
    else:
        raise KeyError(style)
    return t.reshape(shape)


def layout(t, lay):
    """The same values in another memory layout."""
    if lay == "c" or t.dim() == 0:
        return t.contiguous().clone()
    if lay == "t":
        return t.transpose(0, -1).contiguous().clone().transpose(0, -1)
    if lay == "s":
        buf = torch.full((*t.shape[:-1], 2 * t.shape[-1]), 7.5, dtype=t.dtype)
        buf[..., ::2] = t
        return buf[..., ::2]
    if lay == "o":
        buf = torch.full((t.shape[0] + 2, *t.shape[1:]), -3.5, dtype=t.dtype)
        buf[1:-1] = t
        return buf[1:-1]
    if lay == "m":  # dimension 1 innermost (channels last)
        return t.movedim(1, -1).contiguous().clone().movedim(-1, 1) if t.dim() > 1 else t.contiguous().clone()
    if lay == "e":  # all samples alike, stride 0 over the batch
        return t[:1].contiguous().clone().expand(t.shape)
    raise KeyError(lay)


def tensor(recipe, shape, dtype=torch.float64, scale=1.0):
    t = (values(recipe, shape) * scale).to(dtype)
    t = layout(t, recipe.get("l", "c"))
    if recipe.get("g"):
        t = t.detach().requires_grad_()
    return t


# ------------------------------------------------------------------ comparison
def f64(t):
    return t.detach().to(torch.float64)


def amax(t):
    return float(t.abs().max()) if t.numel() else 0.0


# (spec, x, params, dtype) of the models of the running case: consulted before a numerical difference is believed
CONTEXT = []


def amplification(known):
    from . import ref

    return ref.amplification(*known)


class Bound(float):
    """The largest of the bounds in t, which also holds them entry by entry."""

    def __new__(cls, t):
        self = float.__new__(cls, amax(t))
        self.t = t.abs()
        return self


# a single case is being repeated
REPLAY = []

# what the largest bound contributes to the tolerance of every entry when there are bounds entry by entry
SHARE = {torch.float32: 0.05, torch.float64: 1e-5}


def close(what, got, ref, bound, dtype):
    """got (from nnj) against ref (float64) up to RTOL * bound, bound = magnitude of the terms summed."""
    require(isinstance(got, torch.Tensor), f"{what}: expected a tensor, got {type(got).__name__}")
    require(tuple(got.shape) == tuple(ref.shape), f"{what}: shape {tuple(got.shape)}, expected {tuple(ref.shape)}")
    g = f64(got)
    if not g.numel():
        return
    require(bool(torch.isfinite(g).all()), f"{what}: non-finite entries where the exact value is finite")
    err = (g - ref).abs()
    b = bound
    if isinstance(bound, Bound) and bound.t.shape == ref.shape:
        # the first dimension is the sample: what one sample holds says nothing about the rounding in another
        top = bound.t.flatten(1).amax(1).reshape(-1, *[1] * (bound.t.dim() - 1)) if bound.t.dim() > 1 else float(bound)
        b = bound.t + SHARE[dtype] * top
    tol = RTOL[dtype] * b + FLOOR[dtype] + torch.zeros_like(err)
    if bool((err > tol).any()):
        for known in CONTEXT:
            a = amplification(known)
            if not a < 1e30 or not bool((err > tol + 64 * torch.finfo(dtype).eps * a * float(bound)).any()):
                raise Skip("difference within the rounding error of an ill-conditioned case")
        k = int((err / tol).argmax())
        raise Violation(
            f"{what}: entry {k} is {float(g.reshape(-1)[k]):.12g}, exact value {float(ref.reshape(-1)[k]):.12g}"
            f" ({int((err > tol).sum())} of {err.numel()} entries off, largest error {float(err.max()):.3g})"
        )
