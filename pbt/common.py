"""What most properties share: a case with a model, parameters and an input, realized on both sides."""
import torch
from hypothesis import strategies as st

from . import core, ref, specs
from .core import Skip, Violation, close, require, sut, amax, f64

dts = st.sampled_from(["f64", "f64", "f64", "f64", "f32"])
vals = st.sampled_from(["none", "none", "val", "detach", "clone"])
styles = st.sampled_from(["key"] * 6 + ["pos", "short"])
wrts = st.sampled_from(["input", "weight"])


# how the model and the process are set up, bit by bit: 1 some parameters frozen, 2 eval mode, 4 members with names
# (OrderedDict), 8 default dtype of torch is double, 16 constructors called in another style, 32 weights that are not contiguous
circumstances = st.sampled_from([0] * 12 + [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 20, 31, 32, 32, 37])


def base(model, x=None, b=None, dt=None, w=None):
    return {
        "model": model,
        "b": b if b is not None else specs.any_batches,
        "x": x if x is not None else specs.x_recipes,
        "w": w if w is not None else specs.w_recipes,
        "dt": dt if dt is not None else dts,
        "o": circumstances,
    }


class Env:
    def __init__(self, case, rec=None, shared=None):
        import nnj

        self.nnj = nnj
        self.case = case
        self.spec = case["model"]["spec"]
        self.shape = case["model"]["shape"]
        self.dtype = core.DT[case["dt"]]
        self.params = specs.make_params(self.spec, case["w"], self.dtype)
        self.P = sum(p.numel() for p in self.params)
        self.N = specs.numel(self.shape)
        self.out = ref.out_shape(self.spec, self.shape)
        self.O = specs.numel(self.out)
        self.b = case["b"]
        if self.b > 65:  # large batches are for small models
            self.b = max(65, min(self.b, 2_000_000 // max(self.P, self.N, self.O) ** 2))
        self.x = core.tensor(case["x"], (self.b, *self.shape), self.dtype)
        core.CONTEXT.append((self.spec, self.x, self.params, self.dtype))
        if rec is not None:
            self.labels(rec)

    def labels(self, rec):
        ts = specs.types(self.spec)
        rec.label(*["layer " + t for t in ts])
        rec.label(f"batch {'1' if self.b == 1 else '>1'}", "dtype " + self.case["dt"], "x style " + self.case["x"]["s"])
        rec.label("nesting " + str(specs.depth(self.spec)))
        for l in specs.leaves(self.spec):
            if l["t"] == "MaxPool2d":
                k, s = l["k"], l["s"]
                k = k if isinstance(k, list) else [k, k]
                s = k if s is None else (s if isinstance(s, list) else [s, s])
                if s[0] < k[0] or s[1] < k[1]:
                    rec.label("overlapping pooling")
                if l["p"] not in (0, [0, 0]):
                    rec.label("padded pooling")
            if l["t"] == "Conv2d":
                if l["k"][0] != l["k"][1] or l["p"][0] != l["p"][1]:
                    rec.label("asymmetric convolution")
                rec.label("conv vmap" if l["vmap"] else "conv loop")

    def model(self, shared=None):
        return specs.realize(self.spec, self.nnj, self.params, self.dtype, shared, self.case.get("o", 0))

    def leafspec(self):
        return self.spec["t"] not in ("Sequential", "Skip")

    def jac(self, wrt=("input", "weight")):
        return ref.jacobians(self.spec, self.x, self.params, wrt, self.dtype)


def get_val(m, x, mode):
    if mode == "none":
        return None
    with sut("forward pass"):
        v = m(x)
    require(isinstance(v, torch.Tensor), "forward pass returned no tensor")
    if mode == "detach":
        return v.detach()
    if mode == "clone":
        return v.detach().clone()
    return v


def expect_none(what, got):
    require(got is None, f"{what}: a module without parameters has no weight quantities, expected None, got {type(got).__name__}")


def flatten_blocks(what, got):
    out = []

    def go(g):
        if isinstance(g, (list, tuple)):
            for k in g:
                go(k)
        else:
            require(isinstance(g, torch.Tensor), f"{what}: block is {type(g).__name__}")
            out.append(g)

    go(got)
    return out


def bound(*ts):
    """Product of absolute values along the contraction: an upper bound of the summed magnitudes."""
    r = ts[0].abs()
    for t in ts[1:]:
        r = r @ t.abs()
    return amax(r)
