"""Stateful: histories of get_weight / set_weight; layout against the weight Jacobian columns and autograd."""
import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs
from ..common import *

CASES = {"quick": 14400, "thorough": 150000}
RULE = (
    "case = parametric module, a program of 1-8 steps over get, set (new vector, saved vector, nearly the same vector, through a "
    "member), change of a returned or of a given vector, training step; after each step the weight vector, the forward value and weight "
    "products are compared with a reference holding the same vector; non-trivial = a set or step changed the output"
)
ASSUMPTIONS = [
    "torch autograd of elementary functionals in float64 is the derivative",
    "inputs within 1e-7 (float64) of a kink are not decided unless computed without rounding",
]


@st.composite
def cases(draw, tier="quick"):
    k = draw(st.integers(0, 99))
    model = specs.models(parametric=True, fwd=k > 60, leaf=False if k > 25 else None)
    c = draw(st.fixed_dictionaries(base(model, x=specs.x_plain)))
    c["steps"] = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "k": st.sampled_from(["set", "set", "save", "restore", "restore", "scribble", "add", "nudge", "member", "sgd", "sgd"]),
                    "r": specs.w_recipes,
                    "v": specs.v_recipes,
                    # what happens to the vector given to set_weight: laid out with gaps / changed afterwards
                    "g": st.sampled_from(["", "", "", "gaps", "changed", "grad"]),
                }
            ),
            min_size=1, max_size=8,
        )
    )
    c["u"] = draw(specs.v_recipes)
    return c


def vec(params):
    return torch.cat([p.reshape(-1) for p in params])


def cut(w, spec):
    out, p = [], 0
    for s in specs.param_shapes(spec):
        n = specs.numel(s)
        out.append(w[p : p + n].reshape(s))
        p += n
    return out


def check(case, rec):
    e = Env(case, rec)
    if not e.P:
        raise Skip("no parameters")
    m = e.model()
    cur = vec(e.params)  # the model's weight vector, as it has to be
    saved = []

    def verify(where, deep):
        with sut(where + ": get_weight"):
            w = m.get_weight()
        require(isinstance(w, torch.Tensor) and tuple(w.shape) == (e.P,), f"{where}: get_weight is no vector of {e.P} entries")
        require(w.dtype == e.dtype, f"{where}: get_weight has dtype {w.dtype}")
        require(not w.requires_grad, f"{where}: get_weight requires grad")
        if not torch.equal(w, cur):
            k = int((w != cur).nonzero()[0])
            raise Violation(f"{where}: entry {k} of get_weight is {float(w[k])}, expected {float(cur[k])}")
        with sut(where + ": forward pass"):
            y = m(e.x)
        s = ops.State(e.spec, e.x, cut(cur, e.spec), e.dtype)
        if not deep:
            r = ref.forward(e.spec, e.x, s.params, e.dtype)
            close(where + ": forward value", y, r, amax(r), e.dtype)
            rec.call()
            return y
        close(where + ": forward value", y, s.y, amax(s.y), e.dtype)
        u = core.tensor(case["u"], (e.b, e.O), e.dtype)
        J = s.J["weight"]
        with sut(where + ": vjp wrt weight"):
            g = m.vjp(e.x, None, u, wrt="weight")
        uu = u.detach().double()
        r = torch.einsum("bi,bij->bj", uu, J)
        close(where + ": vjp wrt weight", g, r, amax(torch.einsum("bi,bij->bj", uu.abs(), J.abs())), e.dtype)
        # the gradient autograd of the module itself gives, laid out like get_weight
        frozen = [p for p in m.parameters() if not p.requires_grad]
        with sut(where + ": autograd"):
            for p in frozen:
                p.requires_grad_(True)
            own = torch.autograd.grad(m(e.x).reshape(e.b, -1), list(m.parameters()), u.detach(), allow_unused=True)
            own = [torch.zeros_like(p) if a is None else a for a, p in zip(own, m.parameters())]
            for p in frozen:
                p.requires_grad_(False)
        close(where + ": summed vjp wrt weight against autograd", vec(own), f64(g).sum(0),
              amax(torch.einsum("bi,bij->j", uu.abs(), J.abs())), e.dtype)
        op = {"op": "jvp", "wrt": "weight", "a": case["steps"][0]["v"]}
        d = ops.make_arg(op, e.spec, e.b, e.N, e.O, e.P, e.dtype)
        try:
            got = ops.call(m, e.x, None, op, d, None, ops.refusable(op, e.spec, d))
            ops.compare(where + ": jvp wrt weight", op, e.spec, got, ops.expected(op, s, d), e.dtype)
        except core.Refused:
            pass
        rec.call(3)
        return y

    def give(stp, w):
        v = w.clone()
        if stp.get("g") == "gaps":
            v = core.layout(v, "s")
        elif stp.get("g") == "grad":
            v.requires_grad_()
        m.set_weight(v)
        if stp.get("g") == "changed":
            v.mul_(-2.0).add_(0.5)
        else:
            given.append((v, w.clone()))

    given = []
    y0 = verify("at the start", False)
    for n, stp in enumerate(case["steps"]):
        k = stp["k"]
        where = f"after step {n} ({k})"
        rec.label("step " + k)
        if k == "set":
            cur = vec(specs.make_params(e.spec, stp["r"], e.dtype))
            with sut(where + ": set_weight"):
                give(stp, cur)
        elif k == "save":
            with sut(where + ": get_weight"):
                saved.append((m.get_weight(), cur.clone()))
        elif k == "restore":
            if not saved:
                continue
            w, c = saved[stp["r"]["n"] % len(saved)]
            cur = c.clone()
            with sut(where + ": set_weight"):
                m.set_weight(w)  # the vector get_weight returned, kept over everything in between
        elif k == "scribble":
            with sut(where + ": get_weight"):
                w = m.get_weight()
            w.mul_(3.0).add_(1.0)
        elif k in ("add", "nudge"):
            # far from the old vector, or almost equal to it
            size = 0.25 if k == "add" else 10.0 ** -(4 + stp["r"]["n"] % 10)
            d = (core.values(stp["v"], (e.P,)) * size).to(e.dtype)
            with sut(where + ": set_weight"):
                cur = m.get_weight() + d
                give(stp, cur)
        elif k == "member":
            if e.spec["t"] != "Sequential":
                continue
            p = 0
            for j, sp in enumerate(e.spec["m"]):
                c = sum(specs.leaf_param_counts(sp))
                if c and j % 2 == stp["r"]["n"] % 2:
                    new = vec(specs.make_params(sp, stp["r"], e.dtype))
                    with sut(where + ": set_weight of a member"):
                        m[j].set_weight(new.clone())
                    cur = torch.cat([cur[:p], new, cur[p + c :]])
                p += c
        elif k == "sgd":
            d = (core.values(stp["v"], (e.P,)) * 0.1).to(e.dtype)
            with sut(where + ": optimizer step"):
                opt = torch.optim.SGD(m.parameters(), lr=1.0)
                q = 0
                for prm in m.parameters():
                    prm.grad = -d[q : q + prm.numel()].reshape(prm.shape).clone()
                    q += prm.numel()
                opt.step()
                opt.zero_grad(set_to_none=True)
            cur = cur - (-d)
        if amax(cur) > 50:
            raise Skip("weights too large")
        y = verify(where, n == len(case["steps"]) - 1)
        for v, c in saved + given:
            require(torch.equal(v.detach(), c), f"{where}: a vector that get_weight returned or set_weight was given has changed")
        if k in ("set", "add", "sgd", "member", "restore"):
            rec.nontrivial(not torch.equal(y0, y))
