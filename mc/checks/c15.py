"""C15: every small id pattern through embedding, hashing, remapping and scatter/gather, against direct definitions."""
import copy
import itertools

import numpy as np
from mc.util import GenericOps, backends, close, layout, values
from thinc.api import Embed, HashEmbed, NumpyOps, chain, premap_ids, remap_ids, remap_ids_v2, strings2arrays

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of id arrays (all patterns over boundary ids, types, layouts, columns, table sizes) on the real operations and layers, against the published hash algorithms and direct row-by-row definitions; tables sit inside larger guarded arrays"
NOTE = "Id patterns up to length 3-4 over 2-8 ids including 0, the last row, one past it and far outside; all thinc integer types and the narrow ones; tables of 1-4 rows and widths 0-3 and 17, and regular patterns of up to 1000 (thorough 5000) ids into tables of up to 70000 rows and 300 columns; hash seeds and ids at all word boundaries."
RULE = "state = (operation, table, ids) and the result; transition = one operation"
ASSUMPTIONS = ["negative ids follow the array library (they may select from the end, be ignored or be refused), but never touch memory outside the table",
               "the hash is MurmurHash3 x64 128-bit of the 8 key bytes, n-grams are MurmurHash64A of the keys' bytes: both are published algorithms, implemented here independently"]
M64 = (1 << 64) - 1
OPS = backends()
ITYPES = ("int32", "int64", "uint32", "uint64", "int8", "uint8", "int16", "uint16")


# ---- published hash functions -------------------------------------------------------------------
def murmur3_x64_128(data, seed):
    c1, c2 = 0x87C37B91114253D5, 0x4CF5AD432745937F
    rotl = lambda x, r: ((x << r) | (x >> (64 - r))) & M64

    def fmix(k):
        k ^= k >> 33
        k = k * 0xFF51AFD7ED558CCD & M64
        k ^= k >> 33
        k = k * 0xC4CEB9FE1A85EC53 & M64
        return k ^ (k >> 33)
    assert len(data) < 16
    h1 = h2 = seed
    tail1, tail2 = data[:8], data[8:]
    if tail2:
        h2 ^= rotl(int.from_bytes(tail2, "little") * c2 & M64, 33) * c1 & M64
    if tail1:
        h1 ^= rotl(int.from_bytes(tail1, "little") * c1 & M64, 31) * c2 & M64
    h1 ^= len(data)
    h2 ^= len(data)
    h1 = (h1 + h2) & M64
    h2 = (h2 + h1) & M64
    h1, h2 = fmix(h1), fmix(h2)
    h1 = (h1 + h2) & M64
    h2 = (h2 + h1) & M64
    return [h1 & 0xFFFFFFFF, h1 >> 32, h2 & 0xFFFFFFFF, h2 >> 32]


def murmur64a(data, seed):
    m, r = 0xC6A4A7935BD1E995, 47
    h = seed ^ (len(data) * m & M64)
    for i in range(0, len(data) - 7, 8):
        k = int.from_bytes(data[i:i + 8], "little") * m & M64
        k ^= k >> r
        h = (h ^ (k * m & M64)) * m & M64
    assert len(data) % 8 == 0
    h ^= h >> r
    h = h * m & M64
    return h ^ (h >> r)


def key(v):
    return (int(v) & M64).to_bytes(8, "little")


HIDS = (0, 1, 2, 255, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 0x0123456789ABCDEF)
SEEDS = (0, 1, 42, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1)


def hash_cases(quick):
    def gen():
        for seed in SEEDS:
            yield ("hash", (), seed)
            for n in (1, 2) if quick else (1, 2, 3):
                for ids in itertools.product(HIDS, repeat=n):
                    yield ("hash", ids, seed)
        for n in range(-1, 7):
            for k in range(6 if quick else 7):
                for ids in itertools.product((0, 5, 2 ** 64 - 1) if k < 5 else (0, 2 ** 64 - 1), repeat=k):
                    yield ("ngrams", ids, n)
    return gen


def hashing(ctx, case):
    op, ids, p = case
    for bn, ops in OPS.items():
        a = np.array(ids, dtype="uint64")
        for lay in ("C", "offset", "strided"):
            x = layout(a, lay)
            snap = x.copy()
            ctx.step()
            if op == "hash":
                want = np.array([murmur3_x64_128(key(i), p) for i in ids], "uint32").reshape((-1, 4))
            else:
                want = np.array([murmur64a(b"".join(map(key, ids[i:i + p])), 0) for i in range(len(ids) - p + 1)] if p > 0 else [], "uint64")
            try:
                got = ops.hash(x, p) if op == "hash" else ops.ngrams(p, x)
            except (ValueError, BufferError):
                if x.flags.c_contiguous:
                    raise
                continue  # refuses arrays that are not contiguous
            ctx.require(got.dtype == want.dtype and got.shape == want.shape and np.array_equal(got, want), f"{op}:{bn}", lambda: f"{bn} {op} of {ids} ({lay}) with {p} is {got.tolist()}, should be {want.tolist()}")
            ctx.require(np.array_equal(x, snap), f"{op}:changed", lambda: f"{bn} {op} changed its argument")
    ctx.seen(case)


# ---- gather and scatter --------------------------------------------------------------------------
FAR = (2 ** 31 - 1, 2 ** 20)


def table_in(shape, dtype, lay="offset"):
    """A table inside a larger array whose other cells are guarded."""
    big = np.full((shape[0] + 4,) + shape[1:], 77, dtype=dtype)
    t = big[2:2 + shape[0]]
    t[...] = values(shape, dtype, 3, 2.0)
    return big, t


def guarded(big, n):
    return (big[:2] == 77).all() and (big[2 + n:] == 77).all()


def gs_cases(quick):
    def gen():
        for nV in (0, 1, 2, 3):
            for nO in (0, 1, 3, 17):
                ids = list(range(nV))
                for it in ("int32", "uint32", "int64", "uint64"):
                    for rows in range(3):
                        for cols in range(4 if quick else 5):
                            if len(ids) ** (rows * cols) > 300:
                                continue
                            for t in itertools.product(ids, repeat=rows * cols):
                                yield ("gather", nV, nO, it, (rows, cols), t)
                    # one id outside, at every position
                    for rows, cols in ((1, 1), (1, 2), (2, 2)):
                        for at in range(rows * cols):
                            for bad in (nV, nV + 1, -1, -nV - 1) + FAR:
                                if bad < 0 and it[0] == "u":
                                    bad = 2 ** (31 if it == "uint32" else 32) + 1
                                t = [0] * (rows * cols)
                                t[at] = bad
                                yield ("gather", nV, nO, it, (rows, cols), tuple(t))
                for it in ITYPES:
                    for n in range(5 if quick else 6):
                        for t in itertools.product(ids, repeat=n) if len(ids) ** n <= 300 else ():
                            yield ("scatter", nV, nO, it, (n,), t)
                    for n in (1, 2, 3):
                        for at in range(n):
                            for bad in (nV, nV + 1, -1, -nV - 1) + FAR:
                                if (bad < 0 and it[0] == "u") or (bad > 2 ** 7 and it.endswith("8")) or (bad > 2 ** 15 and it.endswith("16")):
                                    continue
                                t = [0] * n
                                t[at] = bad
                                yield ("scatter", nV, nO, it, (n,), tuple(t))
    return gen


def gs(ctx, case):
    op, nV, nO, it, shape, t = case
    inside = all(0 <= i < nV for i in t)
    negative = not inside and all(-nV <= i < nV for i in t)
    ids0 = np.array(t, dtype=it).reshape(shape)
    tol = max(1e-6, 5e-7 * (len(t) if op == "scatter" else shape[1]))  # sums of many float32 numbers
    for dtype in ("float32", "float64"):
        for bn, ops in OPS.items():
            for lay in ("C", "strided", "rev"):
                if lay != "C" and (nO == 17 or not inside):
                    continue
                ids = layout(ids0, lay)
                big, table = table_in((nV, nO), dtype)
                t0 = table.copy()
                why = f"{bn} {op}({dtype} table of {nV}x{nO}, ids={ids0.tolist()} {it} {lay})"
                ctx.step()
                if op == "gather":
                    try:
                        got = ops.gather_add(table, ids)
                    except IndexError:
                        ctx.require(not inside, "gather:refused", lambda: f"{why} raised")
                        got = None
                    except TypeError:  # a type the kernel does not support
                        ctx.require(bn == "numpy" and it not in ("int32", "uint32"), "gather:type", lambda: f"{why} refused the type")
                        got = None
                    except ValueError:
                        ctx.require(lay != "C" and bn == "numpy", "gather:layout", lambda: f"{why} refused the layout")
                        got = None
                    if got is not None:
                        if not inside and not negative and nO:
                            ctx.fail("gather:outside", f"{why} is {got.tolist()}")
                        elif inside or nO == 0:
                            want = np.zeros((shape[0], nO), "float64")
                            for r in range(shape[0]) if inside else ():
                                for c in range(shape[1]):
                                    want[r] += t0[ids0[r, c]]
                            ctx.require(got.dtype == dtype and close(got, want, tol, tol), "gather:value", lambda: f"{why} is {got.tolist()}, should be {want.tolist()}")
                    ctx.require(np.array_equal(table, t0) and np.array_equal(ids, ids0), "gather:changed", lambda: f"{why} changed its arguments")
                else:
                    v0 = values(shape + (nO,), dtype, 9, 3.0)
                    for vl in ("C", "F", "strided") if lay == "C" and inside else ("C",):
                        table[...] = t0
                        vals = layout(v0, vl)
                        raised = None
                        try:
                            ops.scatter_add(table, ids, vals)
                        except (IndexError, ValueError) as e:
                            raised = e
                        want = t0.astype("float64").copy()
                        for i, r in enumerate(t):
                            if inside or negative:
                                want[r] += v0[i]
                        if raised is not None:
                            ctx.require(not inside, "scatter:refused", lambda: f"{why} raised {raised!r}")
                        elif not inside and any(i < 0 for i in t):  # ignored, or counted from the end
                            ok = all(close(table[r], t0[r], tol, tol) for r in range(nV) if r not in t and r - nV not in t)
                            ctx.require(ok, "scatter:negative", lambda: f"{why} changed other rows: {table.tolist()}")
                        elif not inside:
                            if nO and nV:
                                ctx.fail("scatter:outside", f"{why} did not raise; the table is {table.tolist()}")
                        else:
                            ctx.require(close(table, want, tol, tol), "scatter:value", lambda: f"{why} values {vl} gives {table.tolist()}, should be {want.tolist()}")
                        ctx.require(np.array_equal(vals, v0) and np.array_equal(ids, ids0), "scatter:changed", lambda: f"{why} changed its arguments")
                ctx.require(guarded(big, nV), f"{op}:foreign-memory", lambda: f"{why} wrote outside of the table")
    ctx.seen(case)


# ---- embedding layers ------------------------------------------------------------------------------
def emb_cases(quick):
    def gen():
        for kind in ("embed", "hash"):
            for nV in (1, 2, 3, 5):
                for nO in (1, 2, 3):
                    for it in ITYPES:
                        pool = list(range(nV)) if kind == "embed" else ([0, 1, 127] + ([] if it.endswith("8") else [2 ** 15 - 1]) + ([2 ** 31 - 1] if "32" in it or "64" in it else []) + ([2 ** 63 - 1] if "64" in it else [])
                                                                       + ([-1] if it[0] == "i" else [np.iinfo(it).max]))
                        for n in range(4):
                            if quick and n == 3 and (it not in ("int32", "uint64") or nO == 2):
                                continue
                            for ids in itertools.product(pool, repeat=n):
                                yield (kind, nV, nO, it, ids, None)
                            if n <= 2:
                                for col in (0, 1, 2, -1):
                                    for ids in itertools.product(pool, repeat=n):
                                        yield (kind, nV, nO, it, ids, col)
                        if kind == "embed":
                            for bad in (nV, nV + 1, 100):
                                for n in (1, 2, 3):
                                    for at in range(n):
                                        ids = [0] * n
                                        ids[at] = bad
                                        yield (kind, nV, nO, it, tuple(ids), None)
    return gen


def emb(ctx, case):
    kind, nV, nO, it, ids, col = case
    n = len(ids)
    a = np.array(ids, dtype=it)
    if col is not None:
        X0 = np.full((n, 3), 1, dtype=it) * np.arange(3).astype(it)
        X0[:, col] = a
    else:
        X0 = a
    for seed in ((7,) if kind == "embed" else (0, 7, 2 ** 32 - 1)):
        for lay in ("C", "strided", "rev") if n == 2 else ("C",):
            X = layout(X0, lay)
            snap = X.copy()
            init = lambda ops, shape: values(shape, "float32", 5, 2.0)
            m = Embed(nO, nV, column=col, initializer=init) if kind == "embed" else HashEmbed(nO, nV, seed=seed, column=col, initializer=init)
            m.initialize()
            node = [x for x in m.walk() if x.has_param("E")][0]
            E = node.get_param("E").copy()
            why = f"{kind}(nO={nO}, nV={nV}, column={col}, seed={seed}) on {X0.tolist()} {it} {lay}"
            ctx.step(2)
            if kind == "embed" and any(i >= nV for i in ids):
                for tr in (True, False):
                    try:
                        Y, _ = m(X, is_train=tr)
                        ctx.fail("embed:outside", f"{why} gave {Y.tolist()}")
                    except IndexError:
                        pass
                continue
            rows = [[i] for i in ids] if kind == "embed" else [[h % nV for h in murmur3_x64_128(key(i), seed)] for i in ids]
            want = np.zeros((n, nO))
            for k, rs in enumerate(rows):
                for r in rs:
                    want[k] += E[r]
            P = m.predict(X)
            Y, bp = m(X, is_train=True)
            for what, y in (("predict", P), ("train", Y)):
                ctx.require(isinstance(y, np.ndarray) and y.dtype == "float32" and close(y, want, 1e-6, 1e-6), f"{kind}:{what}", lambda: f"{why}: {what} is {y.tolist()}, should be {want.tolist()}")
            total = np.zeros((nV, nO))
            for rep in range(2):  # gradients of several passes add up
                dY = values((n, nO), "float32", 11 + rep, 1.5)
                d0 = dY.copy()
                dX = bp(dY)
                for k, rs in enumerate(rows):
                    for r in rs:
                        total[r] += dY[k]
                g = node.get_grad("E")
                ctx.require(close(g, total, max(1e-5, 1e-6 * n), max(1e-5, 1e-6 * n)), f"{kind}:gradient", lambda: f"{why}: gradient {g.tolist()}, should be {total.tolist()}")
                ctx.require(dX.shape == X.shape and dX.dtype.kind in "iu" and not dX.any(), f"{kind}:dX", lambda: f"{why}: the input gradient is {dX!r}, should be zeros of shape {X.shape}")
                ctx.require(np.array_equal(dY, d0), f"{kind}:changed-dY", lambda: f"{why}: changed the output gradient")
            ctx.require(np.array_equal(X, snap) and np.array_equal(node.get_param("E"), E), f"{kind}:changed", lambda: f"{why}: changed the ids or the table")
    ctx.seen(case)


# ---- mapping -----------------------------------------------------------------------------------------
TABLES = ({}, {1: 0}, {0: 5}, {0: 0, 1: 1, 2: 3}, {2: 1, 2 ** 31 - 1: 2, 255: 7}, {2 ** 40: 3, 2 ** 63 - 1: 9, 3: 2 ** 31 - 1}, {i: 100 - i for i in range(70)})


def map_cases(quick):
    def gen():
        for which in ("v1", "v2", "premap"):
            for ti, tab in enumerate(TABLES):
                for default in (0, 99, -1):
                    for it in ITYPES:
                        pool = [v for v in (0, 1, 2, 3, 255, 2 ** 31 - 1, 2 ** 40, 2 ** 63 - 1, 2 ** 64 - 1, -1, -2 ** 31) if np.iinfo(it).min <= v <= np.iinfo(it).max]
                        for n in range(3 if quick else 4):
                            for ids in itertools.product(pool, repeat=n):
                                yield (which, ti, default, it, ids, None)
                        if which != "v1":
                            for col in (0, 1, -1):
                                for n in range(3):
                                    for ids in itertools.product(pool[:4] + pool[-2:], repeat=n):
                                        yield (which, ti, default, it, ids, col)
    return gen


def mapping(ctx, case):
    which, ti, default, it, ids, col = case
    tab = dict(TABLES[ti])
    if which == "premap":
        mk = lambda: premap_ids(tab, default=default, column=col)
    elif which == "v1":
        mk = lambda: remap_ids(tab, default=default)
    else:
        mk = lambda: remap_ids_v2(tab, default=default, column=col)
    m = mk()
    a = np.array(ids, dtype=it)
    n = len(ids)
    X = a if col is None else np.stack([a if j == (col % 3) else np.arange(n).astype(it) for j in range(3)], axis=1).reshape((n, 3))
    want = [[tab.get(int(i), default)] for i in ids]
    for lay in ("C", "strided", "rev") if n == 2 else ("C",):
        x = layout(X, lay)
        snap = x.copy()
        for mm, what in ((m, ""), (m.copy(), "copy of ")):
            for tr in (False, True):
                ctx.step()
                Y, bp = mm(x, is_train=tr)
                ctx.require(Y.shape == (n, 1) and Y.dtype.kind == "i" and Y.tolist() == want, f"{which}:value", lambda: f"{what}{case} {lay} is {Y.tolist()}, should be {want}")
            dX = bp(np.ones((n, 1), "f"))
            if which != "v1":
                ctx.require(isinstance(dX, np.ndarray) and dX.shape == x.shape and not dX.any(), f"{which}:backward", lambda: f"{case}: passes back {dX!r}")
        ctx.require(np.array_equal(x, snap) and tab == TABLES[ti], f"{which}:changed", lambda: f"{case} changed its arguments")
    ctx.seen(case)


def strings(ctx, case):
    which = case[0]
    if which in ("v1", "v2"):
        words = case[1]
        mk = remap_ids if which == "v1" else remap_ids_v2
        m, other = (mk(), mk()) if which == "v1" else (mk({}), mk({}))
        ctx.step(4)
        for step, tab in enumerate(({"a": 1, "": 2}, {"b": 0, "a": 5}, {})):
            if which == "v1" and step == 0:
                m.attrs["mapping_table"].update(tab)  # "can be updated after the layer has been created"
            else:
                m.attrs["mapping_table"] = tab
            m.attrs["default"] = 50 + step
            Y, bp = m(list(words), is_train=True)
            want = [[tab.get(w, 50 + step)] for w in words]
            ctx.require(Y.tolist() == want and Y.shape == (len(words), 1), f"{which}:strings", lambda: f"{case} step {step}: {Y.tolist()}, should be {want}")
            ctx.require(bp(np.ones((len(words), 1), "f")) == [], f"{which}:strings:backward", lambda: f"{case}: backward")
            Z = other.predict(list(words))
            ctx.require(Z.tolist() == [[0]] * len(words), f"{which}:shared-table", lambda: f"{case} step {step}: updating one layer's table changed another layer: {Z.tolist()}")
    elif which == "unset":
        m = remap_ids_v2()
        try:
            m.predict(["a"])
            ctx.fail("v2:unset", "a layer without a table did not raise")
        except ValueError:
            pass
    else:
        Xs = case[1]
        m = strings2arrays()
        ctx.step(2)
        Y, bp = m([list(x) for x in Xs], is_train=True)
        ok = isinstance(Y, list) and len(Y) == len(Xs) and all(y.dtype == "uint64" and y.shape == (len(x), 1) for x, y in zip(Xs, Y))
        ctx.require(ok, "strings2arrays:shape", lambda: f"{case}: {Y}")
        alone = {w: m.predict([[w]])[0].tolist()[0] for x in Xs for w in x}
        ctx.require(ok and all(y.tolist() == [alone[w] for w in x] for x, y in zip(Xs, Y)), "strings2arrays:value", lambda: f"{case}: {Y} differs from each word alone: {alone}")
        ctx.require(len({tuple(v) for v in alone.values()}) == len(alone), "strings2arrays:collision", lambda: f"{case}: {alone}")
        ctx.require(bp(Y) == [], "strings2arrays:backward", "")
    ctx.seen(case)


def string_cases():
    W = ("a", "b", "", "ü")
    yield ("unset",)
    for n in range(4):
        for ws in itertools.product(W, repeat=n):
            yield ("v1", ws)
            yield ("v2", ws)
    for outer in range(3):
        for ls in itertools.product(range(3), repeat=outer):
            for ws in itertools.product(W, repeat=sum(ls)):
                it = iter(ws)
                yield ("s2a", tuple(tuple(next(it) for _ in range(k)) for k in ls))


# ---- many ids and large tables, through the same functions --------------------------------------------------
PATTERNS = {"rising": lambda i, n, v: i % v, "falling": lambda i, n, v: (v - 1 - i) % v, "last": lambda i, n, v: v - 1, "first": lambda i, n, v: 0, "mixed": lambda i, n, v: (i * 7919 + 13) % v,
            "one-hot": lambda i, n, v: v - 1 if i == n - 1 else 0}


def long_cases(quick):
    def gen():
        for n in (9, 257, 1000) if quick else (5, 9, 17, 33, 65, 129, 257, 1000, 5000):
            for nV in (3, 257, 70000) if quick else (3, 100, 257, 70000):
                for pat in PATTERNS:
                    for it in ("int32", "uint64") if quick else ("int32", "uint32", "int64", "uint64"):
                        yield ("hash", n, nV, 3, it, pat, None)
                        if nV < 70000 or n < 1000:
                            yield ("scatter", n, nV, 4, it, pat, None)
                            yield ("embed", n, nV, 4, it, pat, 1)
                            yield ("hashembed", n, nV, 4, it, pat, None)
                        if "int32" in it:
                            for cols in (1, 4, 9):
                                yield ("gather", n, nV, 5, it, pat, cols)
                        yield ("map", n, nV, 0, it, pat, None)
                    if n <= 257:
                        for size in (1, 2, 3, 8, 9, n - 1, n, n + 1):
                            yield ("ngrams", n, nV, 0, "uint64", pat, size)
            for nO in (64, 65, 300):
                yield ("scatter", 9, 12, nO, "int32", "mixed", None)
                yield ("gather", 9, 12, nO, "int32", "mixed", 4)
                yield ("embed", 9, 12, nO, "int32", "mixed", None)
                yield ("hashembed", 9, 12, nO, "int32", "mixed", None)
    return gen


def long(ctx, case):
    what, n, nV, nO, it, pat, extra = case
    at = lambda k: tuple(PATTERNS[pat](i, k, nV) for i in range(k))
    ids = at(n)
    if what == "hash":
        hashing(ctx, ("hash", ids, 7))
    elif what == "ngrams":
        hashing(ctx, ("ngrams", ids, extra))
    elif what == "gather":
        gs(ctx, ("gather", nV, nO, it, (n, extra), at(n * extra)))
    elif what == "scatter":
        gs(ctx, ("scatter", nV, nO, it, (n,), ids))
    elif what in ("embed", "hashembed"):
        emb(ctx, ("embed" if what == "embed" else "hash", nV, nO, it, ids, extra))
    else:
        tab = {i: (i * 31 + 1) % 1000 for i in range(0, nV, 1 if pat == "mixed" else 2)}
        a = np.array(ids, it)
        for mk in (lambda: remap_ids(tab, default=-7), lambda: remap_ids_v2(tab, default=-7), lambda: premap_ids(tab, default=-7)):
            ctx.step()
            Y, bp = mk()(a, is_train=True)
            ctx.require(Y.shape == (n, 1) and Y.tolist() == [[tab.get(i, -7)] for i in ids], "map:value", lambda: f"{case}")
    ctx.seen(case)


FAMS = {"long": (long_cases, long), "hash": (hash_cases, hashing), "gather-scatter": (gs_cases, gs), "embed": (emb_cases, emb), "mapping": (map_cases, mapping), "strings": (lambda q: string_cases, strings)}


def explore(ctx):
    for f, (c, fn) in FAMS.items():
        ctx.each(f, c(ctx.quick), fn)


def replay(ctx, fam, case):
    ctx.run_case(fam, FAMS[fam][1], case)
