"""Stateful: random histories of calls on one or two models, each result against a stateless reference."""
import sys
import threading

import torch
from hypothesis import strategies as st

from .. import core, ops, ref, specs
from ..common import *

CASES = {"quick": 8000, "thorough": 90000}
RULE = (
    "case = one model, or two unrelated ones, or two layers of one kind for shapes that are permutations of each other; three "
    "inputs of different batch sizes, a program of 3-12 steps (forward, product with no / kept / cloned / fresh output, "
    "repeated product, weight change and change back (in place, by vector, by state dict, by new parameter objects, through a cast to the other precision), train/eval, frozen weights and grad mode, change of an input tensor in place, call of a member layer, call that "
    "raises); every result is compared with a stateless reference; non-trivial = a product with a non-zero exact value was "
    "computed after another step"
)
ASSUMPTIONS = [
    "torch autograd of elementary functionals in float64 is the derivative",
    "outputs passed as val are outputs of that module for that input under the current weights",
    "inputs within 1e-7 (float64) of a kink are not decided unless computed without rounding",
]


@st.composite
def steps(draw, fwd, kinds=None):
    k = draw(st.sampled_from(kinds or ["prod"] * 8 + ["fwd"] * 5 + ["setw", "setw", "back", "back", "mutx", "member", "mode", "bad", "again", "again"]))
    s = {"k": k, "m": draw(st.sampled_from([0, 0, 1])), "i": draw(st.integers(0, 2))}
    if k == "prod":
        s["op"] = draw(ops.op_strategy(ops.ALL if fwd or draw(st.integers(0, 3)) == 0 else ops.BACK, lists=True))
        s["val"] = draw(st.sampled_from(["none", "kept", "kept", "kept", "kept-clone", "fresh"]))
        if draw(st.integers(0, 2)) == 0:
            s["tmp"] = True  # the input is a temporary: the next one may lie at the same address
        if draw(st.integers(0, 3)) == 0:
            s["over"] = True  # the caller writes into the result
    elif k in ("setw", "back"):
        if k == "setw":
            s["w"] = draw(specs.w_recipes)
            # parameters left as they are / set to zero
            s["part"] = draw(st.sampled_from(["all", "all", "zero last", "zero last", "first half", "zero bias"]))
        s["how"] = draw(st.sampled_from(["set_weight", "set_weight", "inplace", "data", "member", "state", "cast", "assign", "new"]))
    elif k == "mutx":
        s["x"] = draw(st.one_of(specs.x_plain, st.integers(0, 2)))
    elif k == "member":
        s["p"] = draw(st.integers(0, 5))
    elif k == "mode":
        s["set"] = draw(st.sampled_from(["train", "eval", "freeze", "unfreeze", "no_grad", "grad"]))
    elif k == "bad":
        s["op"] = draw(st.sampled_from(["vjp", "forward", "jTmjp", "vjp-late"]))
    return s


@st.composite
def siblings(draw):
    """Two layers of one kind; the input shapes have the same dimensions in another order."""
    if draw(st.integers(0, 3)) == 0:
        shape = [draw(st.integers(1, 5))]
        other = [draw(st.integers(1, 5))]
        kinds = ["Linear", "Linear", "L2Norm", "Softplus"]
    else:
        shape = draw(specs.in_shapes(kinds=("img",)))
        other = list(draw(st.permutations(shape)))
        kinds = ["MaxPool2d", "MaxPool2d", "Conv2d", "Upsample", "Reshape"]
    t = draw(st.sampled_from(kinds))
    return [{"shape": sh, "spec": draw(specs.layer_of(t, sh))} for sh in (shape, other)]


@st.composite
def scripted(draw, program):
    """Histories in which different weights or inputs give the same output, followed by products with the kept output:
    what remains of the intermediate values of the other call would show."""
    how = lambda: draw(st.sampled_from(["set_weight", "inplace", "data"]))
    w = lambda: draw(specs.w_recipes)
    fwd = lambda i: {"k": "fwd", "m": 0, "i": i}
    head = [{"k": "setw", "m": 0, "i": 0, "w": w(), "part": "zero last", "how": how()}]
    if draw(st.booleans()):
        head += [fwd(0), {"k": "setw", "m": 0, "i": 0, "w": w(), "part": "first half", "how": how()}, fwd(0),
                 {"k": "back", "m": 0, "i": 0, "how": how()}]
    else:
        head += [fwd(1), fwd(0), {"k": "mutx", "m": 0, "i": 0, "x": 1}]
    op = draw(ops.op_strategy(("jacobian", "vjp", "mjp", "jTmjp")))
    op["wrt"] = draw(st.sampled_from(["weight", "weight", "input"]))
    head.append({"k": "prod", "m": 0, "i": 0, "op": op, "val": draw(st.sampled_from(["kept", "kept-clone"]))})
    return head + program[:6]


@st.composite
def before_and_after(draw, program):
    """The same products before and after a change, or of an input that lies where the other one was."""
    i = draw(st.integers(0, 1))
    ps = []
    for _ in range(draw(st.integers(2, 4))):
        p = draw(steps(True, ("prod",)))
        p.update(m=0, i=i, val=draw(st.sampled_from(["none", "none", "fresh", "kept"])))
        ps.append(p)
    c = draw(st.sampled_from(["mutx", "mutx", "setw", "other"]))
    if c == "other":
        ps = [{**p, "tmp": True} for p in ps]
        return [q for p in ps for q in (p, {**p, "i": 1 - i})] + program[:4]
    change = {**draw(steps(True, (c,))), "m": 0, "i": i}
    if c == "mutx":
        change["x"] = draw(st.one_of(specs.x_plain, st.just(1 - i)))
    return ps + [change] + ps + program[:4]


@st.composite
def cases(draw, tier="quick"):
    fwd = draw(st.booleans())
    k = draw(st.integers(0, 5))
    if k == 0:
        ms = draw(siblings())
        fwd = True  # all products; those of convolutions and pooling that do not exist may be refused
    else:
        ms = [draw(specs.models(fwd=fwd, parametric=draw(st.booleans())))]
        if k <= 2:
            ms.append(draw(specs.models(fwd=fwd, parametric=True)))
    b = [draw(specs.batches) for _ in range(3)]
    program = draw(st.lists(steps(fwd), min_size=3, max_size=12))
    if draw(st.booleans()):
        b[1] = b[0]  # the input tensors may then exchange values
        h = draw(st.integers(0, 3))
        if h == 0:
            program = draw(scripted(program))
        elif h == 1:
            program = draw(before_and_after(program))
    if draw(st.integers(0, 49)) == 33:
        program = (program * 12)[:60]  # a long history
    # at least one product, after everything else
    last = draw(steps(fwd, ("prod",)))
    last["m"] = last["m"] if len(ms) > 1 else 0
    program.append(last)
    extra = {}
    if len(ms) > 1 and draw(st.integers(0, 5)) == 0:
        op = ops.op_strategy(ops.ALL if fwd else ops.BACK, lists=True)
        extra["par"] = [draw(st.lists(op, min_size=1, max_size=3)) for _ in ms]
        if draw(st.booleans()):
            ms[1] = ms[0]  # another model of the same architecture
            extra["par"][1] = extra["par"][0]
    return {
        **extra,
        "models": ms,
        "b": b,
        "x": [draw(specs.x_plain) for _ in range(3)],
        "w": [draw(specs.w_recipes), draw(specs.w_recipes)],
        "dt": draw(dts),
        "o": draw(circumstances),
        "steps": program,
    }


class Machine:
    def __init__(self, case, j, dtype, nnj, shared=None, module=None):
        self.spec, self.shape = case["models"][j]["spec"], case["models"][j]["shape"]
        self.dtype = dtype
        self.params = specs.make_params(self.spec, case["w"][j], dtype)
        self.P = sum(p.numel() for p in self.params)
        self.N, self.O = specs.numel(self.shape), specs.numel(ref.out_shape(self.spec, self.shape))
        self.xs = [core.tensor(case["x"][i], (case["b"][i], *self.shape), dtype) for i in range(3)]
        self.m = specs.realize(self.spec, nnj, self.params, dtype, shared, case.get("o", 0)) if module is None else module
        self.wid, self.wids, self.xid = 0, {0: self.params}, {i: i for i in range(3)}
        self.nid = 3
        self.kept = {}  # (weights, input values) -> output
        self.states = {}
        self.last = None  # input the module saw last
        self.prev = None

    def key(self, i):
        return (self.wid, self.xid[i])

    def state(self, i):
        k = self.key(i)
        if k not in self.states:
            self.states[k] = ops.State(self.spec, self.xs[i].detach().clone(), self.params, self.dtype)
            self.states[k].J
        return self.states[k]

    def weights(self, params):
        """From now on the module has these parameters."""
        self.params = params
        self.wid = len(self.wids)
        self.wids[self.wid] = params


def leaf_modules(m, spec):
    """(module, spec) of every member reachable through public indexing of Sequential."""
    if spec["t"] != "Sequential":
        return [(m, spec)]
    out = []
    for k, s in enumerate(spec["m"]):
        out += leaf_modules(m[k], s)
    return out


def part(new, old, how):
    """Which parameters change, which become zero."""
    n = len(new)
    if how == "first half":
        return new[: (n + 1) // 2] + old[(n + 1) // 2 :]
    if how == "zero last":
        last = max([k for k, p in enumerate(new) if p.dim() > 1], default=-1)
        return [p * 0 if k == last else (old[k] if k > last else p) for k, p in enumerate(new)]
    if how == "zero bias":
        return [p * 0 if p.dim() == 1 else p for p in new]
    return new


def other_precision(M, x, other, where):
    M.m.to(other)
    v = M.m(x.detach().to(other))
    z = x.detach().to(other)
    one = torch.ones(x.shape[0], M.O, dtype=other)
    rs = [M.m.vjp(z, None, one, wrt="weight"), M.m.jTmjp(z, None, one, wrt="weight", from_diag=True, to_diag=True)]
    if M.N * M.O < 400:
        rs += [M.m.jacobian(z, None), M.m.jTmjp(z, None, one, from_diag=True)]
    for r in rs:
        require(r is None or r.dtype == other, where + f": result in {r.dtype if r is not None else None} of a module in {other}")
    require(v.dtype == other, where + f": output in {v.dtype} of a module in {other}")


def hold(held, what, got, x):
    held.extend((what, t, t.detach().clone()) for t in got)
    del held[:-24]


def overwrite(got, others):
    """The caller does with the results what it likes."""
    taken = {t.untyped_storage().data_ptr() for t in others if t is not None}
    for t in got:
        overlap = any(n > 1 and d == 0 for n, d in zip(t.shape, t.stride()))
        if not overlap and t.untyped_storage().data_ptr() not in taken:
            with torch.no_grad():
                t.detach().fill_(7.5)


def concurrently(ms, lists, rec, dtype):
    """Models that have nothing to do with each other, used at the same time in threads of their own."""
    jobs = []
    for n, (M, todo) in enumerate(zip(ms, lists)):
        calls = []
        for op in todo:
            s = M.state(n)
            arg = ops.make_arg(op, s.spec, M.xs[n].shape[0], M.N, M.O, M.P, dtype)
            calls.append((op, arg, ops.expected(op, s, arg), ops.refusable(op, s.spec, arg)))
        jobs.append(calls)
    out = [[] for _ in ms]
    start = threading.Barrier(len(ms))
    times = 300 if core.REPLAY else 10

    def work(n):
        start.wait()
        for _ in range(times):
            for op, arg, exp, allow in jobs[n]:
                try:
                    out[n].append((op, exp, ops.call(ms[n].m, ms[n].xs[n], None, op, arg, None, allow)))
                except core.Refused:
                    pass
                except Violation as e:
                    out[n].append((op, exp, e))

    ts = [threading.Thread(target=work, args=(n,)) for n in range(len(ms))]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    for n, M in enumerate(ms):
        for op, exp, got in out[n]:
            if isinstance(got, Violation):
                raise got
            ops.compare(f"models in two threads: {ops.name(op)}", op, M.spec, got, exp, dtype)
            rec.call()
            rec.nontrivial(ops.mag(exp) > 0)
    rec.label("two threads")


def check(case, rec):
    import nnj

    dtype = core.DT[case["dt"]]
    ms = [Machine(case, j, dtype, nnj) for j in range(len(case["models"]))]
    for M in ms:
        for i in range(3):
            M.state(i)  # undecidable inputs are found before anything runs
    if "par" in case:
        concurrently(ms, case["par"], rec, dtype)
        rec.is_nontrivial, was = False, rec.is_nontrivial
    run(ms, case["steps"], rec, dtype)
    if "par" in case:
        rec.is_nontrivial = rec.is_nontrivial or was


def run(*a, **kw):
    with torch.set_grad_enabled(True):
        _run(*a, **kw)


def _run(ms, steps, rec, dtype, weights_changed=None, trace=None, where0=""):
    """Executes a program on machines; weights_changed(M) is called after the weights of M were replaced."""
    trace = [] if trace is None else trace
    held = []  # results as they were when they were returned
    for n, stp in enumerate(steps):
        M = ms[stp["m"] % len(ms)]
        i, k = stp["i"], stp["k"]
        x = M.xs[i]
        where = f"{where0}step {n}"
        if k == "again":
            if M.prev is None:
                continue
            i, op, valmode, tmp = M.prev
            x = M.xs[i]
            k = "prod"
        elif k == "prod":
            op, valmode, tmp = stp["op"], stp["val"], stp.get("tmp")
            if op["op"] == "forward":
                valmode = "none"
        rec.label("step " + k)
        if k == "fwd":
            with sut(where + ": forward pass"):
                v = M.m(x)
            close(where + ": forward value", v, M.state(i).y, amax(M.state(i).y), dtype)
            rec.call()
            M.kept[M.key(i)] = v
            hold(held, where + ": forward value", [v], x)
            M.last = i
        elif k in ("setw", "back"):
            if not M.params:
                if stp["how"] == "cast":
                    with sut(where + ": cast"), torch.no_grad():
                        other_precision(M, x, torch.float32 if dtype == torch.float64 else torch.float64, where)
                        M.m.to(dtype)
                    M.last = "cast"
                continue
            if k == "back":
                if len(M.wids) < 2:
                    continue
                M.wid = (M.wid - 1) % len(M.wids)
                if stp["how"] == "cast":
                    M.weights([p.float().to(dtype) for p in M.wids[M.wid]])
                else:
                    M.params = M.wids[M.wid]
            else:
                M.weights(part(specs.make_params(M.spec, stp["w"], dtype), M.params, stp.get("part", "all")))
                if stp["how"] == "cast":
                    M.params[:] = [p.float().to(dtype) for p in M.params]
            for q in range(3):
                M.state(q)  # an undecidable history ends here, as skipped
            with sut(where + ": " + stp["how"]), torch.no_grad():
                if stp["how"] == "set_weight":
                    M.m.set_weight(torch.cat([p.reshape(-1) for p in M.params]))
                elif stp["how"] == "inplace":
                    for p, t in zip(M.m.parameters(), M.params):
                        p.sub_(p - t)
                        p.copy_(t)
                elif stp["how"] == "data":
                    for p, t in zip(M.m.parameters(), M.params):
                        p.data = t.clone()
                elif stp["how"] == "state":
                    M.m.load_state_dict({n: t.clone() for (n, _), t in zip(M.m.named_parameters(), M.params)})
                elif stp["how"] == "assign":
                    M.m.load_state_dict({n: t.clone() for (n, _), t in zip(M.m.named_parameters(), M.params)}, assign=True)
                elif stp["how"] == "new":
                    # other parameter objects in the place of the old ones
                    for (n, p), t in zip(list(M.m.named_parameters()), M.params):
                        owner, _, last = n.rpartition(".")
                        setattr(M.m.get_submodule(owner), last, torch.nn.Parameter(t.clone(), requires_grad=p.requires_grad))
                elif stp["how"] == "cast":
                    # used in the other precision in between
                    for p, t in zip(M.m.parameters(), M.params):
                        p.copy_(t)
                    other = torch.float32 if dtype == torch.float64 else torch.float64
                    other_precision(M, x, other, where)
                    M.m.to(dtype)
                    M.last = "cast"
                else:
                    q = 0
                    for mod, sp in leaf_modules(M.m, M.spec):
                        c = len(specs.param_shapes(sp))
                        if c:
                            mod.set_weight(torch.cat([p.reshape(-1) for p in M.params[q : q + c]]))
                        q += c
            if weights_changed is not None:
                weights_changed(M)
        elif k == "mutx":
            src = stp["x"]
            if any(n > 1 and d == 0 for n, d in zip(x.shape, x.stride())):
                continue  # overlapping memory cannot be written
            if isinstance(src, int):
                if M.xs[src].shape != x.shape or src == i:
                    continue
                new, nid = M.xs[src].detach().clone(), M.xid[src]
            else:
                new, nid = core.tensor({**src, "g": False}, x.shape, dtype), M.nid
                M.nid += 1
            with torch.no_grad():
                x.copy_(new)
            M.xid[i] = nid
            mem = x.untyped_storage().data_ptr()
            M.kept = {q: v for q, v in M.kept.items() if v.untyped_storage().data_ptr() != mem}
            held[:] = [h for h in held if h[1].untyped_storage().data_ptr() != mem]
            M.state(i)
        elif k == "mode":
            how = stp["set"]
            if how in ("train", "eval"):
                M.m.train(how == "train")
            elif how in ("grad", "no_grad"):
                torch.set_grad_enabled(how == "grad")
            else:
                M.m.requires_grad_(how == "unfreeze")
        elif k == "member":
            if M.spec["t"] != "Sequential":
                continue
            with sut(where + ": call of a member layer"), torch.no_grad():
                mods = leaf_modules(M.m, M.spec)
                p = stp["p"] % len(mods)
                z = x
                for mod, sp in mods[:p]:
                    z = mod(z)
                # the member alone, on other values of the same shape
                mods[p][0](z * 0.5 + 0.25)
            M.last = "member"
        elif k == "bad":
            with torch.no_grad():
                try:
                    if stp["op"] == "forward":
                        M.m(torch.zeros(2, *M.shape[:-1], M.shape[-1] + 1, 1, 1, dtype=dtype))
                    elif stp["op"] == "vjp":
                        M.m.vjp(x, None, torch.zeros(x.shape[0], M.O + 1, dtype=dtype))
                    elif stp["op"] == "vjp-late":
                        M.m.vjp(x, None, "not a vector")
                    else:
                        M.m.jTmjp(x, None, torch.zeros(x.shape[0], M.O + 2, M.O, dtype=dtype))
                except Exception:
                    rec.label("a call raised")
            M.last = "bad"
        elif k == "prod":
            if valmode == "none":
                val = None
            elif valmode == "fresh":
                val = get_val(M.m, x, "val")
                M.last = i
            else:
                if M.key(i) not in M.kept:
                    M.kept[M.key(i)] = get_val(M.m, x, "val").detach()
                    M.last = i
                val = M.kept[M.key(i)]
                if valmode == "kept-clone":
                    val = val.detach().clone()
            s = M.state(i)
            was = rec.is_nontrivial
            rec.is_nontrivial = False
            got = []
            what = where + ": " + ops.name(op)
            ops.do(rec, M.m, s, x.detach().clone() if tmp else x, val, op, M.N, M.O, M.P, dtype, what, got)
            for g in got:
                require(g.dtype == dtype, f"{what}: result in {g.dtype} of a module in {dtype}")
            if stp.get("over"):
                overwrite(got, [x, val, *M.m.parameters(), *M.kept.values()])
            else:
                hold(held, what, got, x)
            stale = val is not None and M.last != i
            if stale:
                rec.label("val kept over another call")
            rec.is_nontrivial = was or (rec.is_nontrivial and (stale or len(trace) > 0))
            M.last = i
            M.prev = (i, op, valmode, tmp)
        trace.append(k)
    for what, t, c in held:
        require(torch.equal(t.detach(), c), f"{what}: this result changed during later calls")


def FIXED():
    """Every product of every kind of layer, twice, with other arguments of the same shapes."""
    lin = lambda i, o, bias=True: {"t": "Linear", "i": i, "o": o, "bias": bias}
    conv = lambda vmap: {"t": "Conv2d", "ci": 2, "co": 2, "k": [2, 3], "p": [0, 1], "bias": vmap, "vmap": vmap}
    pool = lambda k, s: {"t": "MaxPool2d", "k": k, "s": s, "p": 0, "d": 1, "ceil": False}
    seq = lambda *m: {"t": "Sequential", "m": list(m)}
    skip = lambda *m: {"t": "Skip", "m": list(m)}
    models = [([3], lin(3, 3)), ([3], lin(3, 2, False)), ([2, 3, 3], conv(True)), ([2, 3, 3], conv(False)), ([1, 4, 4], pool(2, None)),
              ([2, 3, 3], pool(2, 1)), ([1, 2, 2], {"t": "Upsample", "s": 2}), ([2, 2], {"t": "Flatten"}), ([4], {"t": "Reshape", "dims": [2, 2]}),
              ([3], {"t": "L2Norm"}), ([3], seq(lin(3, 3), {"t": "Tanh"}, lin(3, 3))), ([3], skip(lin(3, 3), {"t": "Sigmoid"})),
              ([3], seq(lin(3, 2), skip(skip(lin(2, 2), {"t": "Tanh"}), lin(4, 2)))), ([1, 4, 4], seq(pool(2, None), {"t": "Flatten"}, lin(4, 2)))]
    models += [([3], {"t": t}) for t in ("Tanh", "ReLU", "Sigmoid", "Sinusoidal", "TruncExp", "Softplus")]
    out = []
    for n, (shape, spec) in enumerate(models):
        arg = lambda j: {"s": "normal", "n": 10 * n + j, "l": "c", "m": "any"}
        fwd = not ops.NO_FORWARD & set(specs.types(spec))
        steps = []
        for o in ops.ALL if fwd else ops.BACK:
            for wrt in ("input", "weight"):
                op = {"op": o, "wrt": wrt}
                if o in ("forward", "jacobian"):
                    forms = [op]
                elif o in ("jvp", "vjp"):
                    forms = [{**op, "a": 1}]
                elif o in ("jmp", "mjp"):
                    forms = [{**op, "a": 1, "k": 2}]
                else:
                    modes = [(f, t, False) for f in (False, True) for t in (False, True)] + [(True, True, True)]
                    forms = [{**op, "a": 1, "fd": f, "td": t, **({"fast": True} if q else {})} for f, t, q in modes]
                    forms += [{**op, "a": None, "fd": True, "td": t} for t in (False, True)]
                for f in forms:
                    for j in (0, 1):
                        g = {**f, "a": arg(j)} if f.get("a") else dict(f)
                        steps.append({"k": "prod", "m": 0, "i": j, "op": g, "val": "none"})
        out.append({
            "models": [{"shape": shape, "spec": spec}], "b": [2, 2, 1], "x": [{"s": "normal", "n": n + 50 * j, "l": "c"} for j in range(3)],
            "w": [{"s": "normal", "n": n}, {"s": "normal", "n": n + 1}], "dt": "f64", "o": 0, "steps": steps,
        })
    return out
