"""Stateful: members of a Sequential replaced, added, removed, moved and wrapped between calls."""
import copy

import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs
from ..common import *

CASES = {"quick": 12000, "thorough": 90000}
RULE = (
    "case = model with Sequentials at any level and a program of 1-6 edits (member replaced by index or name, appended, inserted, "
    "extended by another Sequential, deleted, popped, swapped, wrapped with another layer; weights set; a slice taken), each followed "
    "by a forward pass, the weight vector and 1-2 products against a reference of the current members; non-trivial = a product with "
    "non-zero exact value after an edit"
)
ASSUMPTIONS = [
    "the edited models are valid (shapes fit) and no parametric layer occurs twice",
    "Sequentials inside a SkipConnection are edited through a reference kept when they were built",
    "inputs close to a kink are not decided unless computed without rounding",
]
LEVELS = ("Sequential", "Skip")


# ------------------------------------------------------------------ specs whose leaves carry their weights
def dress(spec, rec, prefix, count):
    """Adds ids to Sequentials and weight recipes to parametric leaves."""
    if spec["t"] in LEVELS:
        if spec["t"] == "Sequential" and "id" not in spec:
            spec["id"] = f"{prefix}.{next(count)}"
        for m in spec["m"]:
            dress(m, rec, prefix, count)
    elif specs.param_shapes(spec):
        if "wr" not in spec:
            spec["wr"] = {"s": rec["s"], "n": (rec["n"] + 131 * next(count)) % 99991}
    return spec


def params_of(spec, dtype):
    return [p for l in specs.leaves(spec) if specs.param_shapes(l) for p in specs.make_params(l, l["wr"], dtype)]


def reweigh(spec, rec):
    for k, l in enumerate(l for l in specs.leaves(spec) if specs.param_shapes(l)):
        l["wr"] = {"s": rec["s"], "n": (rec["n"] + 577 * k) % 99991}


def containers(spec, shape, skips=False):
    """[(id, members, input shape)] of every Sequential."""
    out = []
    if spec["t"] in LEVELS:
        if spec["t"] == "Sequential" or skips:
            out.append((spec.get("id"), spec["m"], list(shape)))
        for m in spec["m"]:
            out += containers(m, shape, skips)
            shape = ref.out_shape(m, shape)
    return out


def find(spec, q):
    if spec["t"] in LEVELS:
        if spec.get("id") == q:
            return spec
        for m in spec["m"]:
            r = find(m, q)
            if r is not None:
                return r
    return None


def edit(spec, step):
    """The spec after the step."""
    k = step["k"]
    if k == "slice":
        return spec
    spec = copy.deepcopy(spec)
    if k == "weights":
        reweigh(spec, step["r"])
        return spec
    ms = find(spec, step["q"])["m"]
    i = step.get("i", 0)
    new = copy.deepcopy(step.get("new"))
    if k in ("set", "name"):
        ms[i] = new
    elif k == "append":
        ms.append(new)
    elif k == "insert":
        ms.insert(i, new)
    elif k in ("extend", "iadd"):
        ms.extend(new["m"])
    elif k in ("del", "pop"):
        del ms[i]
    elif k == "delslice":
        del ms[i : step["j"]]
    elif k == "swap":
        j = step["j"]
        ms[i], ms[j] = ms[j], ms[i]
    elif k == "wrap":
        ms[i] = {"t": "Sequential", "id": step["id"], "m": [new, ms[i]] if step["first"] else [ms[i], new]}
    else:
        raise KeyError(k)
    return spec


def valid(spec, shape, cap=70):
    try:
        for l in containers({"t": "Sequential", "id": "", "m": [spec]}, shape, skips=True):
            sh = l[2]
            for m in l[1]:
                if m["t"] == "MaxPool2d" and not specs.ok_pool(m, sh):
                    return False
                if m["t"] in ("Conv2d", "Upsample") and len(sh) != 3 or m["t"] == "Linear" and sh != [m["i"]]:
                    return False
                if m["t"] == "Conv2d" and sh[0] != m["ci"]:
                    return False
                sh = ref.out_shape(m, sh)
                if specs.numel(sh) > cap:
                    return False
        if sum(specs.leaf_param_counts(spec)) > 900:
            return False
        return bool(specs.leaves(spec)) and all(c[1] for c in containers(spec, shape))
    except (RuntimeError, ValueError, IndexError, TypeError):
        return False


@st.composite
def fitting(draw, a, b, fwd):
    """A layer from inputs of shape a to outputs of shape b."""
    same = list(a) == list(b)
    opts = ["elem", "elem", "group"] if same else []
    if len(a) == len(b) == 1:
        opts += ["Linear"] * 4
    if same and len(a) == 3 and not fwd:
        opts += ["conv"] * 3
    if not opts or draw(st.integers(0, 5)) == 0:
        opts = ["dense"]
    o = draw(st.sampled_from(opts))
    if o == "elem":
        return draw(specs.elementwise())
    if o == "group":
        return {"t": "Sequential", "m": [draw(specs.elementwise()) for _ in range(draw(st.integers(1, 2)))]}
    lin = {"t": "Linear", "i": specs.numel(a), "o": specs.numel(b), "bias": draw(st.booleans())}
    if o == "Linear":
        return lin
    if o == "conv":
        k = draw(st.sampled_from([[1, 1], [3, 3], [1, 3], [3, 1]]))
        return {"t": "Conv2d", "ci": a[0], "co": a[0], "k": k, "p": [k[0] // 2, k[1] // 2], "bias": draw(st.booleans()), "vmap": draw(st.booleans())}
    ms = [{"t": "Flatten"}] if len(a) > 1 else []
    ms.append(lin)
    if len(b) > 1:
        ms.append({"t": "Reshape", "dims": list(b)})
    return {"t": "Sequential", "m": ms} if len(ms) > 1 or draw(st.booleans()) else lin


@st.composite
def changes(draw, n, spec, shape, fwd, named):
    k = draw(st.sampled_from(["set"] * 4 + ["name", "append", "append", "insert", "extend", "iadd", "del", "pop", "delslice", "swap", "wrap", "weights", "slice"]))
    if named and k in ("insert", "pop", "delslice"):
        k = "set"
    step = {"k": k}
    if k == "weights":
        if not specs.param_shapes(spec):
            return None
        step["r"] = draw(specs.w_recipes)
        return step
    q, ms, at = draw(st.sampled_from(containers(spec, shape)))
    shapes = [at]
    for m in ms:
        shapes.append(ref.out_shape(m, shapes[-1]))
    step["q"] = q
    i = step["i"] = draw(st.integers(0, len(ms) - 1))
    tip = q == spec.get("id")  # what the last layer makes of its input is free
    new = None
    if k in ("set", "name"):
        if tip and i == len(ms) - 1 and draw(st.booleans()):
            new = draw(specs.one_layer(shapes[i], fwd, 48, 1))
        elif draw(st.integers(0, 3)) == 0:
            new = strip(ms[i])  # the same kind of layer, other weights
        else:
            new = draw(fitting(shapes[i], shapes[i + 1], fwd))
        step["neg"] = draw(st.booleans())
    elif k in ("append", "extend", "iadd"):
        del step["i"]
        one = lambda sh: draw(specs.one_layer(sh, fwd, 48, 1)) if tip and draw(st.booleans()) else draw(fitting(sh, sh, fwd))
        new = one(shapes[-1])
        if k != "append":
            new = {"t": "Sequential", "m": [new]}
            if draw(st.booleans()):
                new["m"].append(one(ref.out_shape(new["m"][0], shapes[-1])))
    elif k == "insert":
        i = step["i"] = draw(st.integers(0, len(ms)))
        new = draw(fitting(shapes[i], shapes[i], fwd))
    elif k in ("delslice", "swap", "slice"):
        step["j"] = draw(st.integers(0, len(ms) - 1)) if k == "swap" else draw(st.integers(i + 1, len(ms)))
        if k == "slice":
            step["i"] = draw(st.sampled_from([0, i]))
    elif k == "wrap":
        step["first"] = draw(st.booleans())
        step["id"] = f"w{n}"
        sh = shapes[i] if step["first"] else shapes[i + 1]
        new = draw(fitting(sh, sh, fwd))
    if new is not None:
        step["new"] = dress(new, draw(specs.w_recipes), f"e{n}", iter(range(10**6)))
    return step


def strip(s):
    if isinstance(s, dict):
        return {k: strip(v) for k, v in s.items() if k not in ("id", "wr")}
    return [strip(k) for k in s] if isinstance(s, list) else s


@st.composite
def cases(draw, tier="quick"):
    fwd = draw(st.booleans())
    c = draw(st.fixed_dictionaries(base(specs.models(fwd=fwd, leaf=False), x=specs.x_plain, b=specs.batches)))
    spec = c["model"]["spec"]
    shape = c["model"]["shape"]
    if draw(st.integers(0, 19)) == 0:
        # built from nothing
        spec = {"t": "Sequential", "m": []}
        c["model"] = {"shape": shape, "spec": spec}
    dress(spec, c["w"], "m", iter(range(10**6)))
    if not any(True for _ in containers(spec, shape)):
        spec = c["model"]["spec"] = dress({"t": "Sequential", "m": [spec]}, c["w"], "t", iter(range(10**6)))
    steps = []
    kinds = ops.ALL if fwd else ops.ALL + ops.BACK + ops.BACK
    for n in range(draw(st.integers(1, 6 if tier == "quick" else 12))):
        if not spec["m"]:
            new = draw(specs.one_layer(shape, fwd, 48, 1))
            step = {"k": draw(st.sampled_from(["append", "append", "iadd"])), "q": spec["id"]}
            if step["k"] == "iadd":
                new = {"t": "Sequential", "m": [new]}
            step["new"] = dress(new, draw(specs.w_recipes), f"e{n}", iter(range(10**6)))
        else:
            step = draw(changes(n, spec, shape, fwd, bool(c["o"] & 4)))
        if step is None:
            continue
        after = edit(spec, step)
        if not valid(after, shape) or sum(specs.leaf_param_counts(after)) > 300 and c["b"] > 4:
            continue
        spec = after
        step["ops"] = draw(st.lists(ops.op_strategy(kinds), min_size=1, max_size=2))
        step["val"] = draw(vals)
        steps.append(step)
    c["steps"] = steps
    return c


# ------------------------------------------------------------------ the model
def make(spec, nnj, dtype, shared, o):
    m = specs.build(spec, nnj, shared, o & 20).to(dtype)
    specs.load_params(m, params_of(spec, dtype))
    if o & 1:
        for k, p in enumerate(m.parameters()):
            p.requires_grad_(k % 2 == 1)
    return m


def apply(m, spec, step, nnj, dtype, shared, o):
    k, i = step["k"], step.get("i")
    if k == "weights":
        after = edit(spec, step)
        m.set_weight(torch.cat([p.reshape(-1) for p in params_of(after, dtype)]))
        return
    c = shared[step["q"]]
    new = make(step["new"], nnj, dtype, shared, o) if "new" in step else None
    if k == "set":
        c[i - len(c) if step.get("neg") else i] = new
    elif k == "name":
        setattr(c, list(dict(c.named_children()))[i], new)
    elif k == "append":
        c.append(new)
    elif k == "insert":
        c.insert(i, new)
    elif k == "extend":
        c.extend(new)
    elif k == "iadd":
        c += new
    elif k == "del":
        del c[i]
    elif k == "pop":
        c.pop(i)
    elif k == "delslice":
        del c[i : step["j"]]
    elif k == "swap":
        a, b = c[i], c[step["j"]]
        c[i], c[step["j"]] = b, a
    elif k == "wrap":
        old = c[i]
        c[i] = shared[step["id"]] = nnj.Sequential(new, old) if step["first"] else nnj.Sequential(old, new)


def check(case, rec):
    import nnj

    dtype = core.DT[case["dt"]]
    spec, shape, b, o = case["model"]["spec"], case["model"]["shape"], case["b"], case.get("o", 0)
    if max(sum(specs.leaf_param_counts(case["model"]["spec"])), specs.numel(shape)) > 300:
        b = min(b, 4)
    x = core.tensor(case["x"], (b, *shape), dtype)
    shared = {}
    with sut("building the model"):
        m = make(spec, nnj, dtype, shared, o)
        if o & 2:
            m.eval()
    slices = []

    def verify(where, m, spec, x, todo, val, slice_of=False):
        s = ops.State(spec, x, params_of(spec, dtype), dtype)
        with sut(where + ": forward pass"):
            y = m(x)
        close(where + ": forward value", y, s.y, Bound(s.y), dtype)
        P = sum(p.numel() for p in s.params)
        if P:
            with sut(where + ": get_weight"):
                w = m.get_weight()
            require(tuple(w.shape) == (P,), f"{where}: get_weight is no vector of {P} entries")
            require(torch.equal(w, torch.cat([p.reshape(-1) for p in s.params])), f"{where}: get_weight is not the weight of the current members")
        v = get_val(m, x, val)
        done = False
        for op in todo:
            if slice_of and op.get("form"):
                op = {k: e for k, e in op.items() if k != "form"}
            done |= ops.do(rec, m, s, x, v, op, specs.numel(x.shape[1:]), s.y[0].numel(), P, dtype, f"{where}: {ops.name(op)}")
        return done

    Bound = core.Bound
    first = case["steps"][0]["ops"] if case["steps"] else []
    if spec["m"]:
        verify("before any change", m, spec, x, first, "none")
    changed = False
    for n, step in enumerate(case["steps"]):
        where = f"step {n} ({step['k']})"
        rec.label("edit " + step["k"])
        if step["k"] == "slice":
            sub = find(spec, step["q"])
            with sut(where):
                part = shared[step["q"]][step["i"] : step["j"]]
            require(type(part) is nnj.Sequential, f"{where}: a slice of a Sequential is {type(part).__name__}")
            at = next(a for q, _, a in containers(spec, shape) if q == step["q"])
            for k in sub["m"][: step["i"]]:
                at = ref.out_shape(k, at)
            sp = {"t": "Sequential", "m": copy.deepcopy(sub["m"][step["i"] : step["j"]])}
            xs = core.tensor({**case["x"], "n": case["x"]["n"] + 1}, (b, *at), dtype)
            slices.append((part, sp, xs, step["ops"]))
            verify(where + " of the model", part, sp, xs, step["ops"], "none", True)
        else:
            with sut(where):
                apply(m, spec, step, nnj, dtype, shared, o)
            spec = edit(spec, step)
            changed = True
        done = verify("after " + where, m, spec, x, step["ops"], step["val"])
        rec.nontrivial(done and changed)
        # a slice shares the layers and not the list of them
        if not any(k["k"] in ("weights",) or step_inside(k, slices) for k in case["steps"][: n + 1]):
            for part, sp, xs, todo in slices:
                verify(f"a slice, after {where}", part, sp, xs, todo[:1], "none", True)


def step_inside(step, slices):
    """Whether the step changes a Sequential that is a member (at any depth) of a slice."""
    return step["k"] != "slice" and any(find(sp, step["q"]) is not None for _, sp, _, _ in slices)
