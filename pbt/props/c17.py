"""Layers written by a user on top of the abstract bases: only forward and jacobian supplied."""
import torch
from hypothesis import strategies as st
from torch import nn

from .. import core, ops, ref, specs
from ..common import *

CASES = {"quick": 14400, "thorough": 150000}
RULE = (
    "case = a custom layer (linear, quadratic, sine, with or without parameters, any input and output shape; or element-wise, "
    "on the diagonal and on the general base) alone or inside generated Sequential / SkipConnection models, 1-4 products in "
    "random modes; non-trivial = decided and a non-zero exact result"
)
ASSUMPTIONS = [
    "the custom layer's jacobian method is right (closed forms, part of the harness) and it sets _n_params as the library's layers do",
    "None as argument of a product is only used on layers with the diagonal base and on compositions (the general base takes tensors)",
    "inputs close to a kink are not decided unless computed without rounding",
]


def const(seed, k, shape):
    return core.values({"s": "normal", "n": seed * 13 + k}, shape) / max(1, shape[-1]) ** 0.5


# ------------------------------------------------------------------ the maps, on flattened inputs (b, n) -> (b, m)
def f_lin(c, z, p):
    return z @ c["A"].T


def j_lin(c, z, y, p):
    return c["A"].expand(z.shape[0], -1, -1), None


def f_quad(c, z, p):
    return z @ c["A"].T + 0.5 * (z * z) @ c["B"].T


def j_quad(c, z, y, p):
    return c["A"] + c["B"] * z[:, None, :], None


def f_sin(c, z, p):
    return torch.sin(z @ c["A"].T) * (1 + z[:, :1])


def j_sin(c, z, y, p):
    a = z @ c["A"].T
    J = (torch.cos(a) * (1 + z[:, :1]))[:, :, None] * c["A"]
    J = J.clone()
    J[:, :, 0] += torch.sin(a)
    return J, None


def f_pmat(c, z, p):
    return torch.einsum("boi,bi->bo", p[0], torch.sin(z)) + p[1]


def j_pmat(c, z, y, p):
    b, n = z.shape
    m = p[0].shape[1]
    eye = torch.eye(m, dtype=z.dtype)
    Jw = torch.einsum("oq,bi->boqi", eye, torch.sin(z)).reshape(b, m, m * n)
    return p[0] * torch.cos(z)[:, None, :], torch.cat([Jw, eye.expand(b, m, m)], 2)


def f_pone(c, z, p):
    return (z @ c["A"].T) * p[0]


def j_pone(c, z, y, p):
    return c["A"] * p[0][:, :, None], (z @ c["A"].T)[:, :, None]


def f_pvec(c, z, p):
    return (z * p[0]) @ c["A"].T


def j_pvec(c, z, y, p):
    return c["A"] * p[0][:, None, :], c["A"] * z[:, None, :]


# element-wise: diagonals
def f_cube(c, z, p):
    return c["s"] * z + 0.1 * z**3


def d_cube(c, z, y, p):
    return c["s"] + 0.3 * z**2, None


def f_sat(c, z, p):
    return torch.tanh(c["s"] * z)


def d_sat(c, z, y, p):
    return c["s"] * (1 - y**2), None


def f_scale(c, z, p):
    return p[0] * z


def d_scale(c, z, y, p):
    return p[0].expand_as(z), z.clone()


GENERAL = {
    "lin": (f_lin, j_lin, lambda n, m: []),
    "quad": (f_quad, j_quad, lambda n, m: []),
    "sin": (f_sin, j_sin, lambda n, m: []),
    "pmat": (f_pmat, j_pmat, lambda n, m: [(m, n), (m,)]),
    "pone": (f_pone, j_pone, lambda n, m: [(1,)]),
    "pvec": (f_pvec, j_pvec, lambda n, m: [(n,)]),
}
DIAGONAL = {
    "cube": (f_cube, d_cube, lambda n: []),
    "sat": (f_sat, d_sat, lambda n: []),
    "scale": (f_scale, d_scale, lambda n: [(n,)]),
}


def constants(spec):
    n, m = specs.numel(spec["in"]), specs.numel(spec["out"])
    return {"A": const(spec["n"], 1, (m, n)), "B": const(spec["n"], 2, (m, n)), "s": 1 + 0.5 * const(spec["n"], 3, (n,))}


def shapes(spec):
    n, m = specs.numel(spec["in"]), specs.numel(spec["out"])
    return GENERAL[spec["f"]][2](n, m) if spec["f"] in GENERAL else DIAGONAL[spec["f"]][2](n)


def function(spec):
    return (GENERAL[spec["f"]] if spec["f"] in GENERAL else DIAGONAL[spec["f"]])[0]


def custom_fwd(r, spec, x, params, exact):
    mine = [params.pop(0) for _ in shapes(spec)]
    b = x.shape[0]
    c = {k: v.to(x.dtype) for k, v in constants(spec).items()}
    return function(spec)(c, x.reshape(b, -1), mine).reshape(b, *spec["out"]), False


def build(spec, nnj):
    general = spec["t"] == "CGen"
    base = nnj.AbstractJacobian if general else nnj.AbstractDiagonalJacobian

    class Custom(base, nn.Module):
        def __init__(self):
            super().__init__()
            for k, v in constants(spec).items():
                self.register_buffer("_" + k, v)
            self.ps = nn.ParameterList([nn.Parameter(torch.zeros(s)) for s in shapes(spec)])
            self._n_params = sum(p.numel() for p in self.ps)

        def parts(self, x):
            b = x.shape[0]
            c = {k: getattr(self, "_" + k) for k in ("A", "B", "s")}
            return c, x.reshape(b, -1), [p.expand(b, *p.shape) for p in self.ps]

        def forward(self, x):
            return function(spec)(*self.parts(x)).reshape(x.shape[0], *spec["out"])

        def derivative(self, x, val, wrt):
            if val is None:
                val = self.forward(x)
            c, z, p = self.parts(x)
            f = GENERAL[spec["f"]] if spec["f"] in GENERAL else DIAGONAL[spec["f"]]
            Jx, Jw = f[1](c, z, val.reshape(x.shape[0], -1), p)
            return Jx if wrt == "input" else Jw

    # a user may or may not switch gradients off: the products are detached either way
    quiet = (lambda f: f) if spec.get("live") else torch.no_grad()
    if general:

        class Layer(Custom):
            @quiet
            def jacobian(self, x, val=None, wrt="input"):
                J = self.derivative(x, val, wrt)
                if J is not None and spec["f"] in DIAGONAL:
                    J = torch.diag_embed(J)
                return J

    else:

        class Layer(Custom):
            @quiet
            def jacobian(self, x, val=None, wrt="input", diag=False):
                d = self.derivative(x, val, wrt)
                return d if d is None or diag else torch.diag_embed(d)

    return Layer()


for t in ("CGen", "CDiag"):
    ref.CUSTOM_PARAMS[t] = shapes
    ref.CUSTOM_FWD[t] = custom_fwd
    ref.CUSTOM_BUILD[t] = build
ops.NO_NONE.add("CGen")


# ------------------------------------------------------------------ generation
@st.composite
def custom(draw, shape, out=None):
    n = specs.numel(shape)
    if out is None and draw(st.integers(0, 9)) < 4:
        return {"t": draw(st.sampled_from(["CDiag", "CDiag", "CGen"])), "f": draw(st.sampled_from(sorted(DIAGONAL))), "in": shape,
                "out": shape, "n": draw(st.integers(0, 9999))}
    if out is None:
        out = draw(st.sampled_from([shape, [draw(st.integers(1, 6))], [2, 3], [1, 2, 2], [draw(st.integers(1, 3)), 1, 2]]))
    f = draw(st.sampled_from(sorted(GENERAL)))
    if f == "pmat" and n * specs.numel(out) > 700:
        f = "pvec"
    return {"t": "CGen", "f": f, "in": list(shape), "out": list(out), "n": draw(st.integers(0, 9999))}


@st.composite
def chain(draw, shape, nest, fwd, lo=1, hi=4, first=True):
    ms, sh = [], list(shape)
    k = draw(st.integers(lo, hi))
    at = draw(st.integers(0, k - 1))
    for i in range(k):
        what = draw(st.sampled_from(["custom", "layer", "layer"] + (["skip", "seq"] if nest else [])))
        if i == at and first:
            what = "custom"
        if what == "skip" and 2 * specs.numel(sh) <= 40:
            inner, s2 = draw(chain(sh, nest - 1, fwd, 1, 2))
            if s2[1:] != sh[1:]:
                inner.append(draw(custom(s2, [draw(st.integers(1, 2)), *sh[1:]])))
            l = {"t": "Skip", "m": inner}
        elif what == "seq":
            l = {"t": "Sequential", "m": draw(chain(sh, nest - 1, fwd, 1, 2))[0]}
        elif what == "layer":
            l = draw(specs.one_layer(sh, fwd, 40, 0))
        else:
            l = draw(custom(sh))
        ms.append(l)
        sh = ref.out_shape(l, sh)
    return ms, sh


@st.composite
def cases(draw, tier="quick"):
    shape = draw(specs.in_shapes(cap=24))
    fwd = draw(st.integers(0, 9)) < 7
    if draw(st.integers(0, 9)) < 4:
        spec = draw(custom(shape))
        fwd = True
    else:
        ms, sh = draw(chain(shape, 2, fwd))
        spec = {"t": "Sequential", "m": ms}
        if sh[1:] == shape[1:] and draw(st.integers(0, 3)) == 2:
            spec = {"t": "Skip", "m": ms}
    c = draw(st.fixed_dictionaries(base(st.just({"shape": shape, "spec": spec}), x=specs.x_plain)))
    c["val"] = draw(vals)
    c["ops"] = draw(st.lists(ops.op_strategy(ops.ALL if fwd else ops.BACK), min_size=1, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        # every product and mode with one argument
        a = draw(ops.metric_recipes())
        c["ops"] = [{"op": o, "wrt": w, "a": a, "k": 3, "fd": fd, "td": td}
                    for o in (("jvp", "jmp", "jmjTp") if fwd else ()) + ("vjp", "mjp", "jTmjp") for w in ("input", "weight")
                    for fd in (False, True) for td in (False, True) if o[-2:] == "Tp" or o == "jTmjp" or not (fd or td)]
    return c


def check(case, rec):
    e = Env(case, rec)
    for l in specs.leaves(e.spec):
        if l["t"] in ("CGen", "CDiag"):
            rec.label(f"custom {l['t']} {l['f']}")
    s = ops.State(e.spec, e.x, e.params, e.dtype)
    s.J
    m = e.model()
    val = get_val(m, e.x, case["val"])
    for op in case["ops"]:
        ops.do(rec, m, s, e.x, val, op, e.N, e.O, e.P, e.dtype)
    if e.P:
        with sut("get_weight"):
            w = m.get_weight()
        require(torch.equal(w, torch.cat([p.reshape(-1) for p in e.params])), "get_weight is not the parameters in order")
