"""Independent reference: the same spec evaluated with plain torch functionals in float64 with one copy of
the parameters per sample, differentiated with torch autograd. Nothing of nnj is used here."""
import torch
import torch.nn.functional as F

from .core import Skip, KINK, amax

LIMIT = 1e7  # magnitudes beyond this are outside what the tolerances can judge

# hooks for custom layers (C17): name -> parameter shapes / forward
CUSTOM_PARAMS = {}
CUSTOM_FWD = {}
CUSTOM_BUILD = {}


def un(v):
    return tuple(v) if isinstance(v, list) else v


def plain_pool(spec, x):
    return F.max_pool2d(x, un(spec["k"]), un(spec["s"]), un(spec["p"]), un(spec["d"]), ceil_mode=spec["ceil"])


def is_int(t):
    return bool((t == t.round()).all()) and amax(t) < 2**11


class Ref:
    """exact: the tensor's values are bit-identical in any correct implementation (raw data, or integer
    arithmetic without rounding), so ties and zeros at kinks are decided the same way everywhere."""

    def __init__(self, dtype=torch.float64, check=True, leaf=False, major=False):
        self.major = major
        self.kink = KINK[dtype]
        self.limit = LIMIT if dtype == torch.float64 else (1e30 if leaf else 1e3)
        if leaf and dtype == torch.float64:
            self.limit = 1e60
        self.check = check

    def fwd(self, spec, x, params, exact=True):
        t = spec["t"]
        b = x.shape[0]
        if t == "Sequential":
            for m in spec["m"]:
                x, exact = self.fwd(m, x, params, exact)
            return x, exact
        if t == "Skip":
            y, e = x, exact
            for m in spec["m"]:
                y, e = self.fwd(m, y, params, e)
            return torch.cat([x, y], 1), exact and e
        if t in CUSTOM_FWD:
            y, exact = CUSTOM_FWD[t](self, spec, x, params, exact)
            if self.check and not amax(y.detach()) < self.limit:
                raise Skip("intermediate values too large for the tolerances")
            return y, exact
        if self.major and t in MAJOR:
            return MAJOR[t](self, spec, x, params), False
        if t == "Linear":
            w = params.pop(0)
            y = torch.einsum("boi,bi->bo", w, x)
            exact = exact and is_int(x) and is_int(w)
            if spec["bias"]:
                c = params.pop(0)
                exact = exact and is_int(c)
                y = y + c
        elif t == "Conv2d":
            w = params.pop(0)
            c = params.pop(0) if spec["bias"] else None
            exact = exact and is_int(x) and is_int(w) and (c is None or is_int(c))
            pad, dil, g = tuple(spec["p"]), tuple(spec.get("d", (1, 1))), spec.get("g", 1)
            y = torch.cat(
                [F.conv2d(x[i : i + 1], w[i], None if c is None else c[i], 1, pad, dil, g) for i in range(b)]
            )
        elif t == "MaxPool2d":
            self.gap(x, exact)
            y = plain_pool(spec, x)
        elif t == "Upsample":
            y = x.repeat_interleave(spec["s"], dim=2).repeat_interleave(spec["s"], dim=3)
        elif t == "Flatten":
            y = x.reshape(b, -1)
        elif t == "Reshape":
            y = x.reshape(b, *spec["dims"])
        elif t == "ReLU":
            if self.check and not exact and x.numel():
                d = x.detach()
                # an exact zero that is not certain to be zero elsewhere is as bad as a tiny value
                if float(d.abs().min()) < self.kink * max(1.0, amax(d)):
                    raise Skip("ReLU argument too close to 0")
            y = torch.where(x > 0, x, torch.zeros_like(x))
        elif t == "Tanh":
            y, exact = torch.tanh(x), False
        elif t == "Sigmoid":
            y, exact = 1 / (1 + torch.exp(-x)), False
        elif t == "Sinusoidal":
            y, exact = torch.sin(x), False
        elif t == "TruncExp":
            d = x.detach()
            # value exp(x); derivative exp(clamp(x, -15, 15)), by documentation of the layer
            y, exact = torch.exp(d) + torch.exp(d.clamp(-15, 15)) * (x - d), False
        elif t == "Softplus":
            beta, thr = spec.get("beta", 1.0), spec.get("thr", 20.0)
            z = x * beta
            d = z.detach()
            if self.check and d.numel() and float((d - thr).abs().min()) < self.kink * thr and not exact:
                raise Skip("Softplus argument too close to its threshold")
            y = torch.where(z > thr, x, torch.log1p(torch.exp(torch.where(z > thr, torch.zeros_like(z), z))) / beta)
            exact = False
        elif t == "L2Norm":
            f = x.reshape(b, -1)
            sq = (f * f).sum(1)
            n = torch.where(sq > 0, sq, torch.ones_like(sq)).sqrt() * (sq > 0)
            y = (f / (n + spec.get("eps", 1e-6))[:, None]).reshape(x.shape)
            exact = False
        else:
            raise KeyError(t)
        if self.check:
            m = amax(y.detach())
            if not (m < self.limit):
                raise Skip("intermediate values too large for the tolerances")
        return y, exact

    def gap(self, x, exact):
        """Distinct values of a plane must be clearly distinct, unless they are exact or exact zeros."""
        if exact or not self.check:
            return
        f = x.detach().reshape(x.shape[0] * x.shape[1], -1)
        s = f.sort(dim=1).values
        d = s[:, 1:] - s[:, :-1]
        bad = (d < self.kink * max(1.0, amax(f))) & ~((s[:, 1:] == 0) & (s[:, :-1] == 0))
        if bool(bad.any()):
            raise Skip("values too close for a decidable maximum")


# ------------------------------------------------------------------ majorant: how far rounding can be amplified
# The same function, but with derivatives replaced by upper bounds of the magnitudes that enter a layer-by-layer
# computation: |W| for W, and at least 1 for derivatives that are computed with cancellation (1 - tanh^2, ...).
def _leaf(self, spec, x, params):
    r = Ref(check=False)
    with torch.no_grad():
        return r.fwd(spec, x.detach(), [p.detach() for p in params])[0]


def _major_linear(self, spec, x, params):
    k = 2 if spec["bias"] else 1
    mine = [params.pop(0) for _ in range(k)]
    y = _leaf(self, spec, x, mine)
    bare = {**spec, "bias": False}
    r = Ref(check=False)
    d, w = x.detach(), mine[0].detach()
    y = y + r.fwd(bare, x - d, [w.abs()])[0] + r.fwd(bare, d.abs(), [mine[0] - w])[0]
    if spec["bias"]:
        c = mine[1] - mine[1].detach()
        y = y + (c if spec["t"] == "Linear" else c[:, :, None, None])
    return y


def _major_elem(self, spec, x, params):
    with torch.enable_grad():
        d = x.detach().clone().requires_grad_()
        y, _ = Ref(check=False).fwd(spec, d, [])
        (g,) = torch.autograd.grad(y.sum(), d)
    return y.detach() + g.abs().clamp(min=1.0) * (x - d.detach())


def _major_l2(self, spec, x, params):
    y = _leaf(self, spec, x, params)
    b = x.shape[0]
    f, n = (x - x.detach()).reshape(b, -1), y.reshape(b, -1).abs()
    s = x.detach().reshape(b, -1).norm(dim=1) + spec.get("eps", 1e-6)
    return y + ((f + n * (n * f).sum(1, keepdim=True)) / s[:, None]).reshape(y.shape)


MAJOR = {"Linear": _major_linear, "Conv2d": _major_linear, "L2Norm": _major_l2}
for _t in ("Tanh", "Sigmoid", "Sinusoidal", "Softplus", "TruncExp"):
    MAJOR[_t] = _major_elem


def amplification(spec, x, params, dtype):
    """Factor by which rounding errors relative to a result may exceed the unit roundoff (at least 1)."""
    def mags(r, x, params):
        b = x.shape[0]
        with torch.enable_grad():
            xx = x.detach().double().contiguous().clone().requires_grad_()
            ps = [p.detach().double().expand(b, *p.shape).contiguous().clone().requires_grad_() for p in params]
            y, _ = r.fwd(spec, xx * 1.0, list(ps))
            yf = y.reshape(b, -1)
            rows = []
            for o in range(0, yf.shape[1], 1 + yf.shape[1] // 150):
                if not yf.requires_grad:
                    rows.append(torch.zeros(b, xx[0].numel() + sum(p[0].numel() for p in ps), dtype=torch.float64))
                    continue
                g = torch.autograd.grad(yf[:, o].sum(), [xx] + ps, retain_graph=True, allow_unused=True)
                rows.append(flat_grads(g, [xx] + ps, b))
        J = torch.stack(rows, 1)
        n = xx[0].numel()
        return y.detach(), [J[:, :, :n]] + ([J[:, :, n:]] if ps else [])

    y, Js = mags(Ref(check=False), x, params)
    _, Ms = mags(Ref(check=False, major=True), x, params)
    A = 1.0
    for J, M in zip(Js, Ms):
        if amax(M) > 0:
            A = max(A, amax(M) / max(amax(J), 1e-300))
    # conditioning of value and derivatives with respect to input and parameters
    d = 1e-10 if dtype == torch.float64 else 1e-6
    g = torch.Generator().manual_seed(5)
    jig = lambda t: t.detach().double() * (1 + d * (2 * torch.rand(t.shape, generator=g, dtype=torch.float64) - 1))
    y2, J2 = mags(Ref(check=False), jig(x), [jig(p) for p in params])
    c = 0.0
    for a, b_ in [(y, y2)] + list(zip(Js, J2)):
        if amax(a) > 0:
            c = max(c, amax(a - b_) / (amax(a) * d))
    return A * A * (1.0 + c)


_shape_cache = {}


def out_shape(spec, shape):
    key = (repr(spec), tuple(shape))
    if key not in _shape_cache:
        if len(_shape_cache) > 50000:
            _shape_cache.clear()
        from .specs import param_shapes

        with torch.no_grad():
            ps = [torch.zeros(1, *s) for s in param_shapes(spec)]
            y, _ = Ref(check=False).fwd(spec, torch.zeros(1, *shape), ps)
        _shape_cache[key] = list(y.shape[1:])
    return _shape_cache[key]


def single(spec):
    return spec["t"] not in ("Sequential", "Skip")


def forward(spec, x, params, dtype=torch.float64, check=True):
    b = x.shape[0]
    ps = [p.detach().double().expand(b, *p.shape) for p in params]
    with torch.no_grad():
        return Ref(dtype, check, single(spec)).fwd(spec, x.detach().double(), ps)[0]


def graph(spec, x, params, dtype=torch.float64, check=True):
    """Leaf input, leaf per-sample parameters, flattened output, ready for autograd."""
    b = x.shape[0]
    with torch.enable_grad():
        xx = x.detach().double().contiguous().clone().requires_grad_()
        ps = [p.detach().double().expand(b, *p.shape).contiguous().clone().requires_grad_() for p in params]
        y, _ = Ref(dtype, check, single(spec)).fwd(spec, xx * 1.0, list(ps))
        return xx, ps, y


def flat_grads(grads, like, b):
    return torch.cat(
        [(torch.zeros_like(l) if g is None else g).reshape(b, -1) for g, l in zip(grads, like)], dim=1
    )


@torch.enable_grad()
def jacobians(spec, x, params, wrt=("input", "weight"), dtype=torch.float64, check=True):
    """y (b, ...), {wrt: (b, out, in)}; the weight entry is None without parameters."""
    xx, ps, y = graph(spec, x, params, dtype, check)
    b = x.shape[0]
    yf = y.reshape(b, -1)
    rows = {w: [] for w in wrt}
    ins = ([xx] if "input" in wrt else []) + (ps if "weight" in wrt else [])
    if ins:
        for o in range(yf.shape[1]):
            if not yf.requires_grad:
                g = [None] * len(ins)
            else:
                g = torch.autograd.grad(yf[:, o].sum(), ins, retain_graph=True, allow_unused=True)
            if "input" in wrt:
                rows["input"].append(flat_grads(g[:1], [xx], b))
                g = g[1:]
            if "weight" in wrt and ps:
                rows["weight"].append(flat_grads(g, ps, b))
    J = {}
    for w in wrt:
        J[w] = torch.stack(rows[w], 1).detach() if (w == "input" or ps) else None
        if check and J[w] is not None and not amax(J[w]) < LIMIT:
            raise Skip("Jacobian too large for the tolerances")
    return y.detach(), J


def leaf_jacobians(spec, x, params, dtype=torch.float64):
    """Structure used by the diagonal recursion: walk(spec, x) -> node with per-leaf Jacobians."""
    params = list(params)

    def walk(s, x):
        if s["t"] in ("Sequential", "Skip"):
            nodes, y = [], x
            for m in s["m"]:
                n, y = walk(m, y)
                nodes.append(n)
            if s["t"] == "Skip":
                return {"t": "Skip", "m": nodes, "n": x[0].numel()}, torch.cat([x, y], 1)
            return {"t": "Sequential", "m": nodes}, y
        from .specs import param_shapes

        k = len(param_shapes(s))
        mine = [params.pop(0) for _ in range(k)]
        y, J = jacobians(s, x, mine, dtype=dtype)
        return {"t": "leaf", "J": J}, y

    # one checked pass for kinks and magnitudes with full knowledge of exactness
    forward(spec, x, params, dtype)
    return walk_unchecked(walk, spec, x)


def walk_unchecked(walk, spec, x):
    node, y = walk(spec, x.detach().double())
    return node, y


# ------------------------------------------------------------------ diagonal recursion without Jacobians
def squared_back(spec, x, params, d, dtype=torch.float64):
    """The backward diagonal recursion for models too large for per-layer Jacobians: each elementary layer is
    replaced by the linear map with squared coefficients and transposed by autograd.
    Returns (diagonal at the input, weight diagonals in order)."""
    forward(spec, x, params, dtype)  # decides kinks and magnitudes
    params = [p.detach().double() for p in params]
    r = Ref(check=False)

    def take(s):
        from .specs import param_shapes

        mine = params[: len(param_shapes(s))]
        del params[: len(mine)]
        return mine

    def plan(s, x):
        if s["t"] in ("Sequential", "Skip"):
            nodes, y = [], x
            for m in s["m"]:
                n, y = plan(m, y)
                nodes.append(n)
            if s["t"] == "Skip":
                return ("Skip", nodes, x[0].numel()), torch.cat([x, y], 1)
            return ("Sequential", nodes), y
        mine = take(s)
        b = x.shape[0]
        ex = lambda p: p.expand(b, *p.shape)
        with torch.no_grad():
            y, _ = r.fwd(s, x, [ex(p) for p in mine])
        return ("leaf", s, x, y, mine), y

    def back(node, d):
        if node[0] == "Sequential":
            ws = []
            for n in reversed(node[1]):
                d, w = back(n, d)
                ws = w + ws
            return d, ws
        if node[0] == "Skip":
            i, ws = back(("Sequential", node[1]), d[:, node[2] :])
            return d[:, : node[2]] + i, ws
        _, s, x, y, mine = node
        b = x.shape[0]
        with torch.enable_grad():
            if s["t"] in ("Linear", "Conv2d"):
                xx = (x * 0).requires_grad_()
                sq = [(p * p).expand(b, *p.shape).contiguous() for p in mine]
                z, _ = r.fwd(s, xx, list(sq))
                di = torch.autograd.grad((z.reshape(b, -1) * d).sum(), xx)[0].reshape(b, -1)
                ws = [p.expand(b, *p.shape).contiguous().clone().requires_grad_() for p in mine]
                z, _ = r.fwd(s, x * x, list(ws))
                g = torch.autograd.grad((z.reshape(b, -1) * d).sum(), ws)
                return di, [flat_grads(g, ws, b)]
            xx = x.clone().requires_grad_()
            z, _ = r.fwd(s, xx, [])
            if s["t"] in ("MaxPool2d", "Upsample", "Flatten", "Reshape"):
                return torch.autograd.grad((z.reshape(b, -1) * d).sum(), xx)[0].reshape(b, -1), []
            g = torch.autograd.grad(z.sum(), xx)[0].reshape(b, -1)  # element-wise layers only
            return g * g * d, []

    node, _ = plan(spec, x.detach().double())
    i, ws = back(node, d.detach().double())
    return i.detach(), [w.detach() for w in ws]
