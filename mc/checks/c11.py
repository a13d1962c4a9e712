"""C11: every small batch composition x representation, against processing each item in a batch of its own."""
import itertools

import numpy as np
from mc import zoo
from mc.util import close, long_compositions
from mc.zoo import OPS, Padded, Ragged, T

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of batch compositions (number, lengths and order of items, including empty ones) in every representation, run on the real layers and compared item by item with batches of one, outputs and input gradients"
NOTE = "All layers of the zoo that map items independently; up to 3-4 sequences of length up to 2-3 in every order, and regular batches of up to 40 sequences (thorough 65) or 130 rows (300); parameter gradients are compared with the sum over the items."
RULE = "state = (layer, batch composition) and its outputs; transition = one forward or backward pass"
ASSUMPTIONS = ["results may differ by rounding (other matrix shapes): compared with relative tolerance 2e-5",
               "layers that pool sequences by maximum, first or last step do not accept empty sequences"]


def items(d, n=None):
    """The batch taken apart into per-item values, by the definition of each representation."""
    if isinstance(d, Padded):
        out = [None] * d.data.shape[1]
        for i in range(d.data.shape[1]):
            out[int(d.indices[i])] = d.data[: int(d.lengths[i]), i]
        return out
    if isinstance(d, Ragged):
        out, at = [], 0
        for n_ in np.asarray(d.lengths).tolist():
            out.append(d.dataXd[at:at + n_])
            at += n_
        return out
    if isinstance(d, tuple) and n is not None:
        if len(d) == 4 and all(isinstance(x, np.ndarray) for x in d) and d[0].ndim == 3:
            return items(Padded(*d))
        if len(d) == 2 and isinstance(d[1], np.ndarray) and d[1].dtype.kind == "i":
            return items(Ragged(*d))
        return list(zip(*[items(x) for x in d])) if d else []
    if isinstance(d, (list, tuple)):
        return list(d)
    return [d[i] for i in range(len(d))]


def same_item(a, b, tol=2e-5):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same_item(x, y, tol) for x, y in zip(a, b))
    return a.shape == b.shape and a.dtype == b.dtype and close(a, b, tol, tol)


def seq(n, j, w=zoo.W):
    return zoo.values((n, w), "float32", 3 + 2 * j + 5 * n, 1.3)


SEQ = ("list", "ragged", "padded", "ragged-tuple", "padded-tuple", "idlist", "idlist2")


def batch(e, comp):
    """comp: a tuple of (length, variant) items."""
    k = e.kind
    if k in ("idlist", "idlist2"):
        return [np.array([zoo.IDS[(i + 2 * j + n) % 7] for i in range(n * (k == "idlist2") + n)], dtype="i").reshape((n, 2) if k == "idlist2" else (n,)) for n, j in comp]
    return zoo.as_rep([seq(n, j) for n, j in comp], k)


def row_batch(e, comp):
    k = e.kind
    if k in ("ids", "ids2"):
        return np.array([zoo.IDS[j % 7] for j in comp], dtype="i") if k == "ids" else np.array([(zoo.IDS[j % 7], zoo.IDS[(j + 3) % 7]) for j in comp], dtype="i").reshape(-1, 2)
    mk = {"rows": lambda j: zoo.values((3,), "float32", 3 + j, 1.3), "cube": lambda j: zoo.values((2, 3), "float32", 3 + j, 1.3)}
    st = lambda f, shape: np.stack([f(j) for j in comp]) if comp else np.zeros((0,) + shape, "float32")
    if k == "pair":
        return (st(mk["rows"], (3,)), st(lambda j: mk["rows"](j + 9), (3,)))
    return st(mk[k], (3,) if k == "rows" else (2, 3))


def grad_of(y, salt):
    """An output gradient that depends on the item alone."""
    if isinstance(y, tuple):
        return tuple(grad_of(x, salt + 3 * i) for i, x in enumerate(y))
    return (zoo.values(y.shape, "float64", salt, 1.0)).astype(y.dtype)


def put(Y, gs):
    """The item gradients in the form of Y."""
    if isinstance(Y, Padded):
        d = np.zeros_like(Y.data)
        for i in range(Y.data.shape[1]):
            d[: int(Y.lengths[i]), i] = gs[int(Y.indices[i])]
        return Padded(d, Y.size_at_t.copy(), Y.lengths.copy(), Y.indices.copy())
    if isinstance(Y, Ragged):
        return Ragged(np.concatenate(gs) if gs else Y.dataXd.copy(), np.array(Y.lengths, copy=True))
    if isinstance(Y, tuple):
        if len(Y) == 4 and Y[0].ndim == 3:
            p = put(Padded(*Y), gs)
            return (p.data, p.size_at_t, p.lengths, p.indices)
        if len(Y) == 2 and Y[1].dtype.kind == "i":
            r = put(Ragged(*Y), gs)
            return (r.dataXd, r.lengths)
        return tuple(put(y, [g[i] for g in gs]) for i, y in enumerate(Y))
    if isinstance(Y, list):
        return list(gs)
    return np.stack(gs).astype(Y.dtype) if gs else Y.copy()


def run(ctx, e, X, salts):
    m = e.build()
    ctx.step(2)
    Y, bp = m(X, is_train=True)
    P = m.predict(X)
    n = len(salts)
    ys = items(Y, n)
    ps = items(P, n)
    if len(ys) != n:
        return m, Y, ys, ps, None
    dX = bp(put(Y, [grad_of(y, s) for y, s in zip(ys, salts)]))
    g = {l: (a.get_grad(p).astype("float64") if a.has_grad(p) else np.zeros(a.get_param(p).shape)) for l, a, p in zoo.params(m)}
    return m, Y, ys, ps, (dX, g)


_ONE = {}


def alone(ctx, e, X, key, salt):
    k = (e.name, key)
    if k not in _ONE:
        _ONE[k] = run(ctx, e, X, [salt])
    return _ONE[k]


def check(ctx, e, comp, mk, single, known_bad=False):
    name = e.name
    why = f"{name} on {comp}"
    X = mk(e, comp)
    salts = [single(c) for c in comp]
    m, Y, ys, ps, rest = run(ctx, e, X, salts)
    if not ctx.require(len(ys) == len(comp), f"{name}:items", lambda: f"{why}: {len(ys)} outputs"):
        return
    dX, g = rest
    dxs = items(dX, len(comp)) if zoo.leaves(X) and not e.params_only else None
    if known_bad:  # the wrapped module runs over the padding: see the known findings
        p = zoo.as_rep([seq(n, j) for n, j in comp], "padded")
        lstm = next(s._model for n in m.walk() for s in n.shims)
        lstm.eval()
        with zoo.torch.no_grad():
            raw = items(Padded(lstm(zoo.torch.tensor(p.data))[0].numpy(), p.size_at_t, p.lengths, p.indices))
        if all(same_item(a, b) for a, b in zip(ys, raw)) and all(same_item(a, b) for a, b in zip(ps, raw)):
            diff = [i for i, c in enumerate(comp) if c[0] and not same_item(ys[i], alone(ctx, e, mk(e, (c,)), c, salts[i])[2][0])]
            if diff:
                ctx.fail("PyTorchLSTM-bi:runs-over-padding", f"{why}: items {diff} depend on the padding")
            return
    total = {l: np.zeros_like(v) for l, v in g.items()}
    judge = True
    for i, c in enumerate(comp):
        if e.empty(empty_key(e, (c,))) in e.refuse:
            judge = False  # this item cannot be processed alone
            continue
        _, Y1, ys1, ps1, (dX1, g1) = alone(ctx, e, mk(e, (c,)), c, salts[i])
        ctx.require(same_item(ys[i], ys1[0]), f"{name}:Y", lambda: f"{why}: item {i} gives {zoo.show(ys[i])}, alone {zoo.show(ys1[0])}")
        ctx.require(same_item(ps[i], ps1[0]), f"{name}:predict", lambda: f"{why}: predicted item {i} is {zoo.show(ps[i])}, alone {zoo.show(ps1[0])}")
        if dxs is not None:
            dx1 = items(dX1, 1)
            ctx.require(len(dxs) == len(comp) and same_item(dxs[i], dx1[0]), f"{name}:dX", lambda: f"{why}: input gradient of item {i} is {zoo.show(dxs[i])}, alone {zoo.show(dx1[0])}")
        for l in total:
            total[l] += g1[l]
    if judge:
        for l in g:
            ctx.require(close(g[l], total[l], 2e-4, 2e-4), f"{name}:grad", lambda: f"{why}: gradient of {l} is {g[l].tolist()}, the items add up to {total[l].tolist()}")
    ctx.seen((name, comp, [zoo.full(y) for y in ys]))


def empty_key(e, comp):
    return tuple(c[0] if isinstance(c, tuple) else c for c in comp) if e.kind in SEQ else (len(comp), 2) if e.kind == "cube" else len(comp)


def seq_entries():
    return [e for e in zoo.ENTRIES.values() if ("seqwise" in e.tags or "pooled" in e.tags) and e.kind in SEQ]


def comps(quick):
    for ls in zoo.compositions(3, 2):
        yield tuple((n, i) for i, n in enumerate(ls))
    for ls in zoo.compositions(3, 2, 1):  # repeated contents
        if len(ls) > 1:
            yield tuple((n, 0) for n in ls)
    for ls in [(3, 1), (1, 3), (4, 0, 2), (1, 2, 3, 4), (4, 3, 2, 1), (2, 2, 2, 2), (0, 0, 3, 0), (5, 1, 4, 1, 3)]:
        yield tuple((n, i) for i, n in enumerate(ls))
    for ls in long_compositions((17, 40) if quick else (9, 17, 33, 40, 65), 7):
        yield tuple((n, i) for i, n in enumerate(ls))
    if not quick:
        for ls in zoo.compositions(4, 3):
            yield tuple((n, i) for i, n in enumerate(ls))
        for ls in zoo.compositions(5, 2):
            if len(ls) == 5:
                yield tuple((n, i) for i, n in enumerate(ls))


def seq_cases(quick):
    def gen():
        for e in seq_entries():
            for comp in comps(quick):
                if e.empty(tuple(n for n, _ in comp)) in e.refuse:
                    continue
                yield (e.name, comp)
    return gen


def seqs(ctx, case):
    name, comp = case
    e = zoo.ENTRIES[name]
    known_bad = "PyTorchLSTM-bi" in name and len({n for n, _ in comp}) > 1
    check(ctx, e, comp, batch, lambda c: 7 + c[0] * 3 + c[1], known_bad)


def row_cases(quick):
    def gen():
        for e in zoo.ENTRIES.values():
            if ("rowwise" in e.tags or "ids" in e.tags) and e.kind in ("rows", "cube", "pair", "ids", "ids2"):
                for n in range(0, 4 if quick else 5):
                    if n == 0 and "batch" in e.refuse:
                        continue
                    for comp in itertools.product(range(4), repeat=n):
                        yield (e.name, comp)
                for n in (17, 33, 130) if quick else (9, 17, 33, 65, 130, 300):
                    yield (e.name, tuple((3 * i + i // 5) % 7 for i in range(n)))
    return gen


def rows(ctx, case):
    name, comp = case
    check(ctx, zoo.ENTRIES[name], comp, row_batch, lambda c: 7 + c)


# ---- all representations give the same results ---------------------------------------------------
def rep_names():
    out = {}
    for n, e in zoo.ENTRIES.items():
        for rep in ("list", "ragged", "padded"):
            if n.endswith("-" + rep):
                base = n[: -len(rep) - 1]
                if base not in ("with_array:0", "with_array:1"):  # another inner layer for padded
                    out.setdefault(base, []).append((rep, n))
                elif rep != "padded":
                    out.setdefault(base, []).append((rep, n))
    return {k: v for k, v in out.items() if len(v) > 1}


def rep_cases(quick):
    def gen():
        for base in rep_names():
            for comp in comps(quick):
                yield (base, comp)
    return gen


def reps(ctx, case):
    base, comp = case
    got = []
    for rep, name in rep_names()[base]:
        e = zoo.ENTRIES[name]
        if e.empty(tuple(n for n, _ in comp)) in e.refuse:
            continue
        m, Y, ys, ps, rest = run(ctx, e, batch(e, comp), [7 + 3 * n + j for n, j in comp])
        ctx.require(type(Y) is {"list": list, "ragged": Ragged, "padded": Padded}[rep], f"{base}:{rep}:type", lambda: f"{name} on {comp} returns {type(Y)}")
        if not ctx.require(rest is not None, f"{base}:{rep}:items", lambda: f"{name} on {comp}: {len(ys)} outputs"):
            continue
        got.append((rep, ys, items(rest[0], len(comp)), rest[1]))
        if isinstance(Y, Padded):
            ctx.require(well_formed(Y), f"{base}:{rep}:malformed", lambda: f"{name} on {comp}: {zoo.struct(Y)}")
    for rep, ys, dxs, g in got[1:]:
        r0, ys0, dxs0, g0 = got[0]
        for i in range(len(comp)):
            ctx.require(same_item(ys[i], ys0[i]), f"{base}:{rep}:Y", lambda: f"{base} on {comp}: item {i} as {rep} gives {zoo.show(ys[i])}, as {r0} {zoo.show(ys0[i])}")
            ctx.require(same_item(dxs[i], dxs0[i]) or dxs[i].size == 0 == dxs0[i].size, f"{base}:{rep}:dX", lambda: f"{base} on {comp}: gradient of item {i} as {rep} is {zoo.show(dxs[i])}, as {r0} {zoo.show(dxs0[i])}")
        for l in g:
            l0 = [k for k in g0][list(g).index(l)]
            ctx.require(close(g[l], g0[l0], 2e-4, 2e-4), f"{base}:{rep}:grad", lambda: f"{base} on {comp}: gradient of {l} as {rep} is {g[l].tolist()}, as {r0} {g0[l0].tolist()}")


def well_formed(p):
    n = [int(x) for x in p.lengths]
    return (n == sorted(n, reverse=True) and sorted(int(i) for i in p.indices) == list(range(len(n))) and p.data.shape[1] == len(n)
            and [int(x) for x in p.size_at_t] == [sum(1 for k in n if k > t) for t in range(p.data.shape[0])])


def explore(ctx):
    ctx.each("seqs", seq_cases(ctx.quick), seqs)
    ctx.each("rows", row_cases(ctx.quick), rows)
    ctx.each("reps", rep_cases(ctx.quick), reps)


def replay(ctx, family, case):
    ctx.run_case(family, {"seqs": seqs, "rows": rows, "reps": reps}[family], case)
