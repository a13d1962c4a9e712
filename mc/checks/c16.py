"""C16: every short history of optimizer calls (several parameters, steps, scores), against the published rules in float64."""
import itertools
import math

import numpy as np
from mc import graphs
from mc.util import GenericOps, close, layout, values
from thinc.api import Adam, Linear, Model, NumpyOps, Optimizer, PyTorchWrapper, RAdam, SGD
from thinc.schedules import Schedule

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operation histories (updates of two or three parameters with several gradients, schedule steps, scores, learning-rate scales) on the real optimizers, in lockstep with the published update rules in float64; exhaustive enumeration of small layer graphs for the update of whole models"
NOTE = "All histories up to depth 4-5 (thorough 6) for 3 algorithms x 14 settings, continued after 0-13 earlier updates; regular histories of up to 260 calls (thorough 520); sizes around the kernel's unrolling and up to 4099; layer graphs up to 4 nodes with shared layers and wrapped models."
RULE = "state = (settings, history) and the weights, moments and averages reached; transition = one optimizer call or schedule step"
ASSUMPTIONS = ["float32 rounding: weights are compared with relative tolerance 1e-4", "moving averages start from zero; weight decay is applied after the gradient step (as implemented)",
               "schedules given as lists or generators may only be asked for non-decreasing steps"]


# ---- the rules ----------------------------------------------------------------------------------
class Ref:
    def __init__(self, algo, lr, L2, wd, clip, b1, b2, eps, averages):
        self.algo, self.lr, self.L2, self.wd, self.clip, self.b1, self.b2, self.eps = algo, lr, L2, wd, clip, b1, b2, eps
        self.avg = {} if averages else None
        self.m, self.v, self.t = {}, {}, {}
        self.step = 0
        self.score = None

    def val(self, f, key):
        return f(self.step, key, self.score) if callable(f) else f

    def __call__(self, key, w, g, scale):
        w, g = w.astype("float64"), g.astype("float64")
        t = self.t[key] = self.t.get(key, 0) + 1
        lr, L2, clip, b1, b2, eps = (self.val(x, key) for x in (self.lr, self.L2, self.clip, self.b1, self.b2, self.eps))
        if L2 and not self.wd:
            g = g + L2 * w
        if clip:
            n = math.sqrt(float((g * g).sum()))
            if n >= clip:
                g = g * (clip / n)
        if self.algo == "SGD":
            w = w - scale * lr * g
        else:
            m = self.m[key] = b1 * self.m.get(key, 0.0) + (1 - b1) * g
            v = self.v[key] = b2 * self.v.get(key, 0.0) + (1 - b2) * g * g
            if self.algo == "Adam":  # Kingma & Ba, the efficient form of section 2
                w = w - scale * lr * math.sqrt(1 - b2 ** t) / (1 - b1 ** t) * m / (np.sqrt(v) + eps)
            else:  # Liu et al., algorithm 2
                rinf = 2 / (1 - b2) - 1
                r = rinf - 2 * t * b2 ** t / (1 - b2 ** t)
                if r >= 5:
                    rect = math.sqrt((r - 4) * (r - 2) * rinf / ((rinf - 4) * (rinf - 2) * r))
                    w = w - scale * lr * rect * math.sqrt(1 - b2 ** t) / (1 - b1 ** t) * m / (np.sqrt(v) + eps)
                else:
                    w = w - scale * lr / (1 - b1 ** t) * m
        if L2 and self.wd:
            w = w - scale * lr * L2 * w
        if self.avg is not None:
            d = min((1 + t) / (10 + t), 0.9999)
            self.avg[key] = d * self.avg.get(key, 0.0) + (1 - d) * w
        return w


def by_key(a, b):
    """A schedule that depends on step, parameter key and last score."""
    def f(step, key, score):
        return a + b * (step % 3) + (0.01 if key is not None and key[1] == "b" else 0.0) + (0.02 * score[1] + 0.001 * score[0] if score else 0.0)
    return f, Schedule("by_key", lambda s, step, *, key=None, last_score=None, **kw: f(step, key, last_score))


LIST = [0.3, 0.1, 0.05]


def listed(step, key, score):
    return LIST[min(step, len(LIST) - 1)]


def configs(algo):
    base = dict(lr=0.1, L2=0.0, wd=True, clip=0.0, b1=0.9, b2=0.9, eps=1e-8, averages=True)
    yield "plain", base
    yield "defaults", dict(base, clip=1.0, b2=0.999)
    yield "decay", dict(base, L2=0.1)
    yield "decay-clip", dict(base, L2=0.1, clip=1.0)
    yield "L2", dict(base, L2=0.1, wd=False)
    yield "L2-clip", dict(base, L2=0.1, wd=False, clip=1.0)
    yield "no-averages", dict(base, averages=False, L2=0.1)
    yield "list", dict(base, lr="list")
    yield "generator", dict(base, lr="generator", L2="list")
    yield "schedule", dict(base, lr="schedule", clip="schedule")
    if algo != "SGD":
        yield "beta-schedule", dict(base, b1="schedule", b2="list2")
        yield "eps", dict(base, eps=0.1, b1=0.5, b2=0.75)
        yield "eps-schedule", dict(base, eps="schedule", b1="list2")
        yield "slow", dict(base, b2=0.6, eps="list")


def build(algo, cfg):
    ref, real = {}, {}
    for k, v in cfg.items():
        if v == "list":
            ref[k], real[k] = listed, list(LIST)
        elif v == "list2":
            ref[k], real[k] = (lambda s, key, sc: [0.9, 0.8, 0.95][min(s, 2)]), [0.9, 0.8, 0.95]
        elif v == "generator":
            ref[k], real[k] = listed, (x for x in LIST)
        elif v == "schedule":
            ref[k], real[k] = by_key(0.5 if k in ("b1", "b2") else 0.1, 0.05)
        else:
            ref[k], real[k] = v, v
    r = Ref(algo, ref["lr"], ref["L2"], ref["wd"], ref["clip"], ref["b1"], ref["b2"], ref["eps"], ref["averages"])
    kw = dict(L2=real["L2"], L2_is_weight_decay=real["wd"], grad_clip=real["clip"], use_averages=real["averages"])
    if algo != "SGD":
        kw.update(beta1=real["b1"], beta2=real["b2"], eps=real["eps"])
    return r, {"SGD": SGD, "Adam": Adam, "RAdam": RAdam}[algo](real["lr"], **kw)


# ---- histories -----------------------------------------------------------------------------------
KEYS = {"a": (1, "W"), "b": (1, "b"), "c": (2, "W")}
SHAPES = {"a": (2, 3), "b": (2,), "c": (2, 3)}
OPS = (("a", 0, 1.0), ("a", 1, 1.0), ("a", 2, 0.5), ("b", 1, 1.0), ("b", 3, 2.0), ("c", 1, 1.0), ("step",), ("score",), ("x", 1, 1.0))
GRADS = {0: lambda s: values(s, "float32", 3, 0.05), 1: lambda s: values(s, "float32", 5, 3.0), 2: lambda s: np.zeros(s, "float32"),
         3: lambda s: np.concatenate([np.ones(1), np.zeros(int(np.prod(s)) - 1)]).reshape(s).astype("float32")}


def cases(quick):
    def gen():
        for algo in ("SGD", "Adam", "RAdam"):
            for name, _ in configs(algo):
                for pre in (0, 7, 12) if quick else (0, 3, 6, 9, 12):
                    for depth in range(1, 4 if pre else (5 if quick else 6)):
                        if depth < (3 if pre else 4 if quick else 5):
                            continue  # prefixes are covered by the longer histories
                        for first in OPS:
                            yield (algo, name, pre, first, depth)
    return gen


def one(ctx, case):
    algo, name, pre, first, depth = case
    cfg = dict(configs(algo))[name]
    for rest in itertools.product(OPS, repeat=depth - 1):
        if any(x == y == ("score",) for x, y in zip(rest, rest[1:])):
            continue
        history(ctx, algo, name, cfg, pre, (first,) + rest)


def history(ctx, algo, name, cfg, pre, ops):
    ref, opt = build(algo, cfg)
    other = build(algo, dict(cfg, lr=0.7))[1]  # another optimizer, used in between
    w = {k: values(s, "float32", 1 + i, 1.5) for i, (k, s) in enumerate(SHAPES.items())}
    rw = {k: v.astype("float64") for k, v in w.items()}
    hist = [("a", 1, 1.0)] * pre + ([("step",)] if pre > 6 else []) + list(ops)
    for n, o in enumerate(hist):
        ctx.step()
        why = f"{algo} {name}: {' '.join(map(str, hist[: n + 1]))}"
        if o[0] == "step":
            opt.step_schedules()
            ref.step += 1
            ctx.require(opt.step == ref.step, f"{algo}:step", lambda: f"{why}: step is {opt.step}")
            continue
        if o[0] == "score":
            opt.last_score = 0.5 + n % 16
            ref.score = (ref.step, 0.5 + n % 16)
            ctx.require(opt.last_score == ref.score, f"{algo}:last_score", lambda: f"{why}: last_score is {opt.last_score}")
            continue
        if o[0] == "x":
            other(KEYS["a"], values((2, 3), "float32", 8), GRADS[o[1]]((2, 3)))
            continue
        k, gi, scale = o
        g = GRADS[gi](SHAPES[k])
        w0 = w[k]
        want = ref(KEYS[k], rw[k], g, scale)
        snap = {j: v.copy() for j, v in w.items() if j != k}
        nw, ng = opt(KEYS[k], w0, g, lr_scale=scale) if scale != 1.0 else opt(KEYS[k], w0, g)
        sig = f"{algo}:{name}"
        ok = ctx.require(nw.shape == SHAPES[k] and nw.dtype == "float32" and close(nw, want, 1e-4, 1e-5), f"{sig}:weights" + (":lr_scale" if scale != 1 else ""),
                         lambda: f"{why}: the weights are {nw.tolist()}, should be {want.tolist()}")
        ctx.require(np.shares_memory(nw, w0) and np.array_equal(nw, w0), f"{sig}:in-place", lambda: f"{why}: the weights were not updated in place")
        ctx.require(not ng.any() and ng.shape == g.shape and not g.any(), f"{sig}:zeroed", lambda: f"{why}: the gradient was not zeroed: {ng.tolist()} {g.tolist()}")
        ctx.require(all(np.array_equal(w[j], snap[j]) for j in snap), f"{sig}:others", lambda: f"{why}: another parameter changed")
        if ref.avg is None:
            ctx.require(opt.averages is None, f"{sig}:averages", lambda: f"{why}: averages are kept")
        else:
            ctx.require(set(opt.averages) == set(ref.avg) and all(opt.averages[j].shape == ref.avg[j].shape and close(opt.averages[j], ref.avg[j], 1e-4, 1e-5) for j in ref.avg),
                        f"{sig}:averages", lambda: f"{why}: averages are {opt.averages}, should be {ref.avg}")
        if not ok:
            return
        w[k] = nw
        rw[k] = want
    ctx.seen((algo, name, [w[k] for k in sorted(w)], ref.step, ref.score))


# ---- sizes, shapes and layouts -----------------------------------------------------------------------
def size_cases(quick):
    def gen():
        for algo in ("SGD", "Adam", "RAdam"):
            for shape in [(n,) for n in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 257, 1000, 4099]] + [(0, 3), (3, 0), (1, 1), (3, 5), (8, 8), (2, 3, 4), (2, 0, 3), (1, 65), (65, 1), (300, 7), (129, 130)]:
                for name in ("plain", "decay-clip", "L2-clip") if np.prod(shape) < 4000 else ("plain", "decay-clip"):  # (cancellation in float32)
                    for lay in ("C", "F", "strided", "rev", "offset"):
                        yield (algo, shape, name, lay)
    return gen


def sizes(ctx, case):
    algo, shape, name, lay = case
    ref, opt = build(algo, dict(configs(algo))[name])
    w = layout(values(shape, "float32", 2, 1.5), lay)
    for glay in ("C", lay):
        r = w.astype("float64")
        for n in range(3):
            g0 = values(shape, "float32", 4 + n, 0.4)
            g = layout(g0, glay)
            ctx.step()
            if shape[0] > 0:
                r = ref((5, "p"), r, g0, 1.0)
            w, ng = opt((5, "p"), w, g)
            why = f"{algo} {name} shape {shape}, weights {lay}, gradient {glay}, update {n}"
            ctx.require(w.shape == shape and close(w, r, 1e-4, 1e-5), f"{algo}:shape:value", lambda: f"{why}: {w.tolist()}, should be {r.tolist()}")
            ctx.require(not ng.any() and not g.any(), f"{algo}:{'contiguous' if g.flags.c_contiguous else 'layout'}:zeroed", lambda: f"{why}: the gradient was not zeroed: {g.tolist()}")
    ctx.seen(case)


def kernel_cases(quick):
    def gen():
        for n in list(range(0, 70)) + [127, 128, 129, 130, 191, 192, 193, 257, 1000, 4096, 4099]:
            for which in ("numpy", "generic"):
                yield (n, which)
    return gen


def kernel(ctx, case):
    n, which = case
    ops = {"numpy": NumpyOps(), "generic": GenericOps()}[which]
    for b1, b2, eps, lr in ((0.9, 0.999, 1e-8, 0.01), (0.5, 0.75, 0.1, 0.3), (0.0, 0.0, 1e-3, 1.0)):
        big = [np.full(n + 4, 77, "float32") for _ in range(4)]
        w, g, m, v = (b[2:2 + n] for b in big)
        w[...] = values((n,), "float32", 1)
        m[...] = 0
        v[...] = 0
        rw, rm, rv = w.astype("float64"), np.zeros(n), np.zeros(n)
        for t in range(3):
            g[...] = values((n,), "float32", 3 + t, 2.0)
            rm = b1 * rm + (1 - b1) * g
            rv = b2 * rv + (1 - b2) * g.astype("float64") ** 2
            rw = rw - lr * rm / (np.sqrt(rv) + eps)
            ctx.step()
            w2, g2, m2, v2 = ops.adam(w, g, m, v, b1, b2, eps, lr)
            why = f"{which} adam({n} weights, {b1}, {b2}, {eps}, {lr}), update {t}"
            ctx.require(close(w2, rw, 1e-4, 1e-5) and close(w, rw, 1e-4, 1e-5), f"adam:{which}:weights", lambda: f"{why}: {w.tolist()}, should be {rw.tolist()}")
            ctx.require(close(m2, rm, 1e-4, 1e-5) and close(v2, rv, 1e-4, 1e-5) and close(m, rm, 1e-4, 1e-5) and close(v, rv, 1e-4, 1e-5), f"adam:{which}:moments", lambda: f"{why}: moments {m.tolist()} {v.tolist()}, should be {rm.tolist()} {rv.tolist()}")
            ctx.require(all((b[:2] == 77).all() and (b[2 + n:] == 77).all() for b in big), f"adam:{which}:foreign-memory", lambda: f"{why} wrote outside of its arrays")
        for bad in (n + 1, max(0, n - 1)):
            if bad == n:
                continue
            for at in (1, 2, 3):
                arrs = [np.zeros(n, "float32") for _ in range(4)]
                arrs[at] = np.zeros(bad, "float32")
                ctx.step()
                try:
                    ops.adam(*arrs, b1, b2, eps, lr)
                    ctx.fail(f"adam:{which}:accepts-shapes", f"{which} adam accepted arrays of sizes {[len(a) for a in arrs]}")
                except ValueError:
                    pass
        gs = values((n,), "float32", 9, 1.0) if n else np.zeros(0, "float32")
        nrm = float(np.linalg.norm(gs.astype("float64")))
        for thr in (0.5, 2.0, 100.0):
            a = gs.copy()
            out = ops.clip_gradient(a, thr)
            want = gs * (thr / nrm) if nrm >= thr else gs
            ctx.step()
            ctx.require(close(out, want, 1e-5, 1e-6), f"clip:{which}", lambda: f"{which} clip_gradient(norm {nrm}, {thr}) is {out.tolist()}")
        for t in (1, 5, 100, 10 ** 6):
            e, x = values((n,), "float32", 2), values((n,), "float32", 6)
            d = min((1 + t) / (10 + t), 0.9999)
            want = d * e.astype("float64") + (1 - d) * x
            ctx.step()
            ops.update_averages(e, x, t)
            ctx.require(close(e, want, 1e-5, 1e-6), f"averages:{which}", lambda: f"{which} update_averages(t={t})")
    ctx.seen(case)


# ---- whole models --------------------------------------------------------------------------------------
class Recorder:
    """Records the calls an optimizer gets, and subtracts the gradient."""
    def __init__(self, copying):
        self.calls, self.copying = [], copying

    def __call__(self, key, w, g, lr_scale=1.0):
        self.calls.append((key, w.copy(), g.copy(), lr_scale))
        if self.copying:
            return w - g, g * 0
        w -= g
        g *= 0
        return w, g


def model_cases(quick):
    def gen():
        for n in (1, 2, 3) if quick else (1, 2, 3, 4):
            for g in graphs.dags(n):
                for pat in itertools.product(("two", "none", "unset", "torch"), repeat=n):
                    if quick and n == 3 and pat.count("torch") > 1:
                        continue
                    yield (g, pat)
    return gen


def model(ctx, case):
    import torch

    g, pat = case
    nodes = []
    for i, p in enumerate(pat):
        if p == "torch":
            lin = torch.nn.Linear(2, 1)
            with torch.no_grad():
                for j, q in enumerate(lin.parameters()):
                    q[...] = torch.tensor(values(tuple(q.shape), "float32", 3 * i + j, 1.0))
            n = PyTorchWrapper(lin)
            n.shims[0].torch = lin
        elif p == "none":
            n = Model(f"n{i}", lambda m, X, is_train: (X, lambda d: d))
        else:
            n = Model(f"n{i}", lambda m, X, is_train: (X, lambda d: d), params={"W": values((2, 2), "float32", i), "b": values((2,), "float32", i + 9) if p == "two" else None})
        nodes.append(n)
    for i, kids in enumerate(g):
        nodes[i]._layers = [nodes[k] for k in kids] if isinstance(nodes[i]._layers, list) else tuple(nodes[k] for k in kids)
    reach, todo = [], [0]
    while todo:
        k = todo.pop()
        if k not in reach:
            reach.append(k)
            todo += list(g[k])
    outside = values((2, 2), "float32", 77)
    stranger = Model("stranger", lambda m, X, is_train: (X, lambda d: d), params={"W": outside.copy()})
    stranger.set_grad("W", outside.copy())
    root = nodes[0]
    names = [(i, "W") for i, p in enumerate(pat) if p in ("two", "unset")] + [(i, "b") for i, p in enumerate(pat) if p == "two"]
    tnames = [(i, q) for i, p in enumerate(pat) if p == "torch" for q in ("weight", "bias")]
    for copying, zero in ((False, ()), (True, ()), (False, (0,)), (False, (1,))):  # `zero`: half of the gradients are there but all zero
        for sub in subsets(names + tnames):
            order = sorted(sub)
            expect, before, want = [], {}, {}
            for i, nm in names:
                if (i, nm) in sub:
                    gr = values(nodes[i].get_param(nm).shape, "float32", 20 + i, 0.0 if order.index((i, nm)) % 2 in zero else 0.3)
                    nodes[i].set_grad(nm, gr.copy())
                elif nodes[i].has_grad(nm):
                    nodes[i]._params._grads.pop((nodes[i].id, nm))
                before[i, nm] = nodes[i].get_param(nm).copy()
                if (i, nm) in sub and i in reach:
                    expect.append(((nodes[i].id, nm), before[i, nm], gr))
                    want[i, nm] = before[i, nm] - gr
                else:
                    want[i, nm] = before[i, nm]
            for i, nm in tnames:
                sh = nodes[i].shims[0]
                q = dict(sh._model.named_parameters())[nm]
                gr = values(tuple(q.shape), "float32", 30 + i, 0.0 if (i, nm) in sub and order.index((i, nm)) % 2 in zero else 0.3)
                q.grad = torch.tensor(gr) if (i, nm) in sub else None
                before[i, nm] = q.detach().numpy().copy()
                if (i, nm) in sub and i in reach:
                    expect.append(((sh.id, nm), before[i, nm], gr))
                    want[i, nm] = before[i, nm] - gr
                else:
                    want[i, nm] = before[i, nm]
            rec = Recorder(copying)
            ctx.step()
            root.finish_update(rec)
            why = f"graph {g}, layers {pat}, gradients of {sorted(sub)}, {'copying' if copying else 'in-place'} optimizer"
            key = lambda c: (repr(c[0]), c[1].tolist(), c[2].tolist())
            ctx.require(sorted(map(key, rec.calls)) == sorted(map(key, expect)), "model:calls",
                        lambda: f"{why}: the optimizer was called for {sorted(c[0] for c in rec.calls)}, should be {sorted(c[0] for c in expect)} (or with other arrays)")
            for i, nm in names:
                got = nodes[i].get_param(nm)
                ctx.require(np.array_equal(got, want[i, nm]), "model:param", lambda: f"{why}: parameter {i}.{nm} is {got.tolist()}, should be {want[i, nm].tolist()}")
                if not copying and i in reach and (i, nm) in sub:
                    ctx.require(not nodes[i].has_grad(nm) or not nodes[i].get_grad(nm).any(), "model:zeroed", lambda: f"{why}: gradient of {i}.{nm} is not zero")
            for i, nm in tnames:
                q = dict(nodes[i].shims[0]._model.named_parameters())[nm]
                ctx.require(np.array_equal(q.detach().numpy(), want[i, nm]), "model:torch-param", lambda: f"{why}: parameter {i}.{nm} is {q.tolist()}, should be {want[i, nm].tolist()}")
                if i in reach and (i, nm) in sub:
                    ctx.require(q.grad is None or not q.grad.numpy().any(), "model:torch-zeroed", lambda: f"{why}: gradient of {i}.{nm} is not zero")
            ctx.require(np.array_equal(stranger.get_param("W"), outside) and np.array_equal(stranger.get_grad("W"), outside), "model:stranger", lambda: f"{why}: a model outside was changed")
    ctx.seen(case)


def subsets(xs):
    if len(xs) <= 4:
        for k in range(len(xs) + 1):
            yield from (frozenset(c) for c in itertools.combinations(xs, k))
    else:
        yield frozenset()
        yield frozenset(xs)
        for x in xs:
            yield frozenset([x])
            yield frozenset(xs) - {x}


def keys(ctx, case):
    """One optimizer trains several models: the histories of different parameters must not meet."""
    import torch

    kind = case[0]
    opt = Adam(0.1)
    if kind == "models":
        ms = [Linear(2, 2).initialize() for _ in range(3)]
        ms.append(ms[0].copy())
        ks = set()
        for m in ms:
            m.set_param("W", np.ones((2, 2), "f"))
            m.set_param("b", np.ones(2, "f"))
        for n in range(3):
            for m in ms[n:]:  # models get different numbers of updates
                m.set_grad("W", np.ones((2, 2), "f"))
                m.set_grad("b", np.ones(2, "f"))
                m.finish_update(opt)
                ctx.step()
        ctx.require(len(opt.nr_update) == 8, "keys:models", f"{len(opt.nr_update)} histories for 8 parameters")
        ctx.require(sorted(opt.nr_update.values()) == [1, 1, 2, 2, 3, 3, 3, 3], "keys:models", f"{dict(opt.nr_update)}")
        return

    class Mod(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.W = torch.nn.Parameter(torch.ones(2, 2))

        def forward(self, x):
            return x @ self.W

    from thinc.shims import Shim

    wrapped = PyTorchWrapper(Mod())
    native = Model("native", lambda m, X, is_train: (X, lambda d: d), params={"W": np.ones((3,), "f")})
    want_distinct = True
    if kind == "collide":  # both counters are bound to reach the same number in some process
        native.id = wrapped.shims[0].id if case[1] else native.id
        native._params.set_param(native.id, "W", np.ones((3,), "f"))
    native.set_grad("W", np.ones((3,), "f"))
    wrapped.shims[0]._model.W.grad = torch.ones(2, 2)
    ctx.step(2)
    try:
        native.finish_update(opt)
        wrapped.finish_update(opt)
        n = len(opt.nr_update)
        ctx.require(n == 2, "keys:shim-and-layer-share", f"a wrapped model and a layer with the same id and parameter name share one history: {dict(opt.nr_update)}")
    except ValueError as e:
        ctx.fail("keys:shim-and-layer-share", f"a wrapped model (shim id {wrapped.shims[0].id}) and a layer (id {native.id}) with the same parameter name share one history: {e}")


# ---- long histories and models with many parameters --------------------------------------------------------
def long_cases(quick):
    def gen():
        for algo in ("SGD", "Adam", "RAdam"):
            for name, _ in configs(algo):
                for n in (70, 260) if quick else (33, 65, 130, 260, 520):
                    for pat in range(3):
                        yield ("history", algo, name, n, pat)
        for kind in ("wide", "deep", "params", "torch"):
            for n in (9, 17, 40, 130) if kind != "torch" else (5, 20):
                for copying in (False, True):
                    yield ("model", kind, n, copying)
    return gen


def long(ctx, case):
    if case[0] == "history":
        _, algo, name, n, pat = case
        grads = [o for o in OPS if len(o) == 3 and o[0] in "ab"]
        ops = [OPS[i % len(OPS)] if pat == 0 else ("step",) if i % 3 == 2 else grads[(i // 2) % len(grads)] if pat == 1 else ("score",) if i % 31 == 30 else grads[(5 * i) % 3] for i in range(n)]
        history(ctx, algo, name, dict(configs(algo))[name], 0, [o for a, o in enumerate(ops) if o != ("score",) or ops[a - 1] != ("score",)])
        return
    import torch

    _, kind, n, copying = case
    fwd = lambda m, X, is_train: (X, lambda d: d)
    if kind == "params":
        root = Model("m", fwd, params={f"p{i}": values((1 + i % 3,), "float32", i) for i in range(n)})
    elif kind == "torch":
        root = PyTorchWrapper(torch.nn.Sequential(*[torch.nn.Linear(1, 1) for _ in range(n)]))
    else:
        kids = [Model(f"n{i}", fwd, params={"W": values((2,), "float32", i), "b": values((1,), "float32", i + 3)}) for i in range(n)]
        if kind == "deep":
            for a, b in zip(kids, kids[1:]):
                a.layers.append(b)
            root = kids[0]
        else:
            root = Model("root", fwd, layers=kids)
    for rnd in range(2):
        expect, want = [], {}
        for k, node in enumerate(root.walk()):
            for j, nm in enumerate(node.param_names):
                g = values(node.get_param(nm).shape, "float32", 7 * k + j + rnd, 0.5)
                if (k + j) % 5 != rnd:
                    node.set_grad(nm, g.copy())
                    expect.append(((node.id, nm), node.get_param(nm).copy(), g))
                want[k, nm] = node.get_param(nm) - (g if (k + j) % 5 != rnd else 0)
            for sh in node.shims:
                for j, (nm, q) in enumerate(sh._model.named_parameters()):
                    g = values(tuple(q.shape), "float32", j + rnd, 0.5)
                    q.grad = torch.tensor(g)
                    expect.append(((sh.id, nm), q.detach().numpy().copy(), g))
        rec = Recorder(copying)
        ctx.step()
        root.finish_update(rec)
        key = lambda c: (repr(c[0]), c[1].tolist(), c[2].tolist())
        ctx.require(sorted(map(key, (c for c in rec.calls if c[2].any()))) == sorted(map(key, expect)), "model:calls", lambda: f"{case}, update {rnd}: {len(rec.calls)} calls instead of {len(expect)}, or other arrays")
        for k, node in enumerate(root.walk()):
            for nm in node.param_names:
                ctx.require(np.array_equal(node.get_param(nm), want[k, nm]), "model:param", lambda: f"{case}, update {rnd}: {k}.{nm}")
                ctx.require(copying or not node.has_grad(nm) or not node.get_grad(nm).any(), "model:zeroed", lambda: f"{case}, update {rnd}: {k}.{nm}")
                if node.has_grad(nm):
                    node.set_grad(nm, np.zeros_like(node.get_param(nm)))
            for sh in node.shims:
                for (nm, q), (_, w, g) in zip(sh._model.named_parameters(), [e for e in expect if e[0][0] == sh.id]):
                    ctx.require(np.array_equal(q.detach().numpy(), w - g), "model:torch-param", lambda: f"{case}, update {rnd}: {nm}")
    ctx.seen(case)


FAMS = {"long": (long_cases, long), "history": (cases, one), "sizes": (size_cases, sizes), "kernel": (kernel_cases, kernel), "model": (model_cases, model)}
KEYCASES = [("models",), ("collide", 0), ("collide", 1)]


def explore(ctx):
    for f, (c, fn) in FAMS.items():
        ctx.each(f, c(ctx.quick), fn, timeout=300)
    ctx.each("keys", lambda: iter(KEYCASES), keys, parallel=False)


def replay(ctx, fam, case):
    ctx.run_case(fam, keys if fam == "keys" else FAMS[fam][1], case, timeout=300)
