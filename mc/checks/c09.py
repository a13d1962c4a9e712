"""C09: all interleavings of several forward and backward passes on every layer, against each pass on its own."""
import itertools

import numpy as np
from mc import zoo
from mc.util import LAYOUTS, close, layout

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the interleavings of two or three forward/backward passes (every order with each backward after its forward) on every layer, against isolated passes; argument snapshots compared bit by bit after every step"
NOTE = "All layers of the zoo; all orders of up to three passes, and of two passes with a prediction inserted anywhere, over several combinations of batch sizes (thorough: many more combinations)."
RULE = "state = (layer, schedule prefix, gradients so far); transition = one forward or backward pass"
ASSUMPTIONS = ["accumulated gradients may differ by rounding: they are compared with tolerance 1e-5 (float64: 1e-9)"]


def schedules(n):
    """All orders of F0..Fn-1, B0..Bn-1 with Bi after Fi; forward passes are started in index order (inputs are permuted separately)."""
    ops = [("F", i) for i in range(n)] + [("B", i) for i in range(n)]

    def go(done, left):
        if not left:
            yield tuple(done)
            return
        for o in left:
            if o[0] == "B" and ("F", o[1]) not in done:
                continue
            if o[0] == "F" and any(("F", j) not in done for j in range(o[1])):
                continue
            yield from go(done + [o], [x for x in left if x != o])
    yield from go([], ops)


def pick(e, n, quick):
    """Input combinations: same-size and different-size batches, and an empty one where accepted."""
    specs = e.specs(True)
    good = [s for s in specs if e.empty(s) == ""]
    empt = [s for s in specs if e.empty(s) != ""]
    big = good[-1]
    small = good[0]
    mid = good[len(good) // 2]
    out = [(big, mid, small)[:n], (small, big, mid)[:n], (big, big, big)[:n]]
    if empt:
        out.append((big, empt[0], small)[:n])
        out.append((empt[-1], big, empt[0])[:n])
    if not quick and n == 2:
        out += list(itertools.product(good[:: max(1, len(good) // 6)] + empt[:2], repeat=2))
    if not quick and n == 3:
        out += list(itertools.product((small, big) + tuple(empt[:1]), repeat=3))
    return sorted(set(out), key=repr)


def cases(quick):
    def gen():
        for name, e in zoo.ENTRIES.items():
            for dtype in (("float32",) if e.f32 else ("float32", "float64")):
                for n in (1, 2, 3):
                    ss = list(schedules(n))
                    if n == 2:  # with a prediction in between
                        ss += [s[:i] + (("P", k),) + s[i:] for s in ss for i in range(1, 4) for k in (0, 1)]
                    for specs in pick(e, n, quick):
                        if quick and n == 3 and dtype == "float64":
                            continue
                        for s in ss:
                            yield (name, dtype, specs, s)
    return gen


def one(ctx, case):
    name, dtype, specs, sched = case
    run(ctx, zoo.ENTRIES[name], dtype, specs, sched)


def run(ctx, e, dtype, specs, sched):
    name = e.name
    n = len(specs)
    why = f"{name} {dtype} {specs} {' '.join(a + str(i) for a, i in sched)}"
    tol = 2e-5 if dtype == "float32" or "ids" in e.tags else 1e-9  # embedding gradients are float32
    iso = isolated(ctx, e, dtype, specs)
    m = e.build(dtype)
    X = [e.data(s, dtype, salt=3 * i) for i, s in enumerate(specs)]
    snapX = [zoo.full(x) for x in X]
    Y, snapY, cb, dY, snapdY, dX, snapdX = {}, {}, {}, {}, {}, {}, {}
    pre = {label: n_.get_param(p).copy() for label, n_, p in zoo.params(m)}
    for a, i in sched:
        ctx.step()
        if a == "F":
            Y[i], cb[i] = m(X[i], is_train=True)
            snapY[i] = zoo.full(Y[i])
            ctx.require(same_or_close(Y[i], iso[i][0], tol), f"{name}:Y", lambda: f"{why}: output {i} differs from that of the pass on its own: {zoo.show(Y[i])} vs {zoo.show(iso[i][0])}")
            dY[i] = zoo.gradient_for(Y[i], 5 + i)
            snapdY[i] = zoo.full(dY[i])
        elif a == "P":
            P = m.predict(X[i])
            ctx.require(same_or_close(P, iso[i][0], tol), f"{name}:predict", lambda: f"{why}: prediction {i} differs from that of the pass on its own")
        else:
            dX[i] = cb[i](dY[i])
            snapdX[i] = zoo.full(dX[i])
            ctx.require(same_or_close(dX[i], iso[i][1], tol), f"{name}:dX", lambda: f"{why}: input gradient {i} differs from that of the pass on its own: {zoo.show(dX[i])} vs {zoo.show(iso[i][1])}")
        for j in range(n):
            ctx.require(zoo.full(X[j]) == snapX[j], f"{name}:changed-input", lambda: f"{why}: step {a}{i} changed input {j}")
            if j in snapY:
                ctx.require(zoo.full(Y[j]) == snapY[j], f"{name}:changed-output", lambda: f"{why}: step {a}{i} changed the output of pass {j}")
                ctx.require(zoo.full(dY[j]) == snapdY[j], f"{name}:changed-gradient", lambda: f"{why}: step {a}{i} changed the output gradient given to pass {j}")
            if j in snapdX:
                ctx.require(zoo.full(dX[j]) == snapdX[j], f"{name}:changed-dX", lambda: f"{why}: step {a}{i} changed the input gradient returned by pass {j}")
    for label, n_, p in zoo.params(m):
        ctx.require(np.array_equal(n_.get_param(p), pre[label]), f"{name}:changed-param", lambda: f"{why}: a pass changed parameter {p}")
    total = all_grads(m)
    for label in total:
        want = sum(g[label] for _, _, g in iso)
        ctx.require(close(total[label], want, 10 * tol, 10 * tol), f"{name}:grad", lambda: f"{why}: accumulated gradient of {label} is {total[label].tolist()}, the passes on their own give {np.asarray(want).tolist()}")
    ctx.seen((name, specs, sched, dtype, [zoo.full(Y[i]) for i in range(n)], [snapdX[i] for i in range(n)]))


_ISO = {}


def isolated(ctx, e, dtype, specs):
    out = []
    for i, s in enumerate(specs):
        k = (e.name, dtype, s, i)
        if k not in _ISO:
            if len(_ISO) > 200:
                _ISO.clear()
            m = e.build(dtype)
            ctx.step(2)
            Y, bp = m(e.data(s, dtype, salt=3 * i), is_train=True)
            Y1 = zoo.copy(Y)
            dX = bp(zoo.gradient_for(Y, 5 + i))
            _ISO[k] = (Y1, zoo.copy(dX), all_grads(m))
        out.append(_ISO[k])
    return out


def all_grads(m):
    out = {}
    for label, n, p in zoo.params(m):
        out[label] = n.get_grad(p).astype("float64") if n.has_grad(p) else np.zeros(n.get_param(p).shape)
    for i, n in enumerate(m.walk()):
        for s in n.shims:
            for k, p in enumerate(s._model.parameters()):
                out[f"{i}.torch{k}"] = p.grad.numpy().astype("float64").copy() if p.grad is not None else np.zeros(tuple(p.shape))
    return out


def same_or_close(a, b, tol):
    if zoo.struct(a) != zoo.struct(b):
        return False
    return all(close(x, y, tol, tol) for (x, _), (y, _) in zip(zoo.leaves(a), zoo.leaves(b)))


def tree_cases(quick):
    def gen():
        ss = list(schedules(2)) + ([] if quick else list(schedules(3)))
        for t in zoo.trees(("L", "R", "M", "m", "N", "I", "r", "w", "n"), 2):
            for s in ss:
                yield (t, s)
    return gen


class TreeEntry:
    """A composition of dense layers, in the form of a zoo entry."""
    tags = ()

    def __init__(self, t):
        self.t, self.name = t, repr(t)

    def build(self, dtype):
        m, _ = zoo.tree_model(self.t, 3)
        m.initialize(X=zoo.rows(3))
        zoo.fill(m, dtype)
        return m

    def data(self, s, dtype, salt=0):
        return zoo.rows(s, zoo.W, dtype, salt)


def tree(ctx, case):
    t, sched = case
    n = sum(1 for a, _ in sched if a == "F")
    e = TreeEntry(t)
    try:
        e.build("float32")
    except ValueError:
        return
    run(ctx, e, "float32", (2, 3, 2)[:n], sched)


# ---- other memory layouts ------------------------------------------------------------------------
def layout_cases(quick):
    def gen():
        for name, e in zoo.ENTRIES.items():
            if e.kind not in ("rows", "pair", "list", "ragged", "cube", "padded"):
                continue
            specs = e.specs(True)
            for spec in ([specs[-1], specs[len(specs) // 2]] if quick else specs):
                for lx in LAYOUTS:
                    for ly in LAYOUTS:
                        yield (name, spec, lx, ly)
    return gen


def relayout(d, kind):
    return zoo.rebuild(d, iter([layout(a, kind) if a.ndim else a.copy() for a, _ in zoo.leaves(d)]))


def layouts(ctx, case):
    name, spec, lx, ly = case
    e = zoo.ENTRIES[name]
    why = f"{name} {spec} input layout {lx}, gradient layout {ly}"
    m = e.build()
    X = e.data(spec)
    ctx.step(2)
    Y, bp = m(X, is_train=True)
    dY = zoo.gradient_for(Y, 5)
    dY0, Y0 = zoo.copy(dY), zoo.copy(Y)
    dX = bp(dY)
    want = all_grads(m)
    m2 = e.build()
    X2 = relayout(e.data(spec), lx)
    try:
        Y2, bp2 = m2(X2, is_train=True)
        dX2 = bp2(relayout(dY0, ly))
    except (ValueError, RuntimeError) if e.has_torch() else ValueError:  # refusing a layout is fine
        ctx.note("refused", 1)
        ctx.outcome((name, lx, ly))
        return
    ctx.step(2)
    ctx.require(same_or_close(Y2, Y0, 2e-5), f"{name}:layout:Y", lambda: f"{why}: {zoo.show(Y2)} instead of {zoo.show(Y0)}")
    ctx.require(same_or_close(dX2, dX, 2e-5), f"{name}:layout:dX", lambda: f"{why}: {zoo.show(dX2)} instead of {zoo.show(dX)}")
    got = all_grads(m2)
    for label in got:
        ctx.require(close(got[label], want[label], 2e-4, 2e-4), f"{name}:layout:grad", lambda: f"{why}: gradient of {label} is {got[label].tolist()} instead of {want[label].tolist()}")
    ctx.seen((case, zoo.full(Y2), zoo.full(dX2)))


def explore(ctx):
    ctx.each("passes", cases(ctx.quick), one)
    ctx.each("tree", tree_cases(ctx.quick), tree)
    ctx.each("layout", layout_cases(ctx.quick), layouts)


def replay(ctx, family, case):
    ctx.run_case(family, {"passes": one, "tree": tree, "layout": layouts}[family], case)
