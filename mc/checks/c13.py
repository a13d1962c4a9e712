"""C13: every index into every small batch, against the same index into the list of its sequences."""
import itertools

import numpy as np
from mc.checks.c12 import eq, eq_list, make, ref_padded, rep, same_rep, show
from mc.util import compositions, long_compositions
from thinc.api import Padded, Ragged
from thinc.types import ArgsKwargs, Pairs

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of batches and indices (all integers, all slices around the bounds with steps -3..3, all integer sequences up to length 3), and of index histories up to depth 2, on the real containers against Python lists"
NOTE = "Up to 4 sequences of length 0-2 (and regular batches of up to 130, thorough 300, sequences with every integer and regular slices and lists), feature shapes of rank 0-2, several types and length types; results are indexed again; the same batch is reused for all indices (its cached offsets must not go stale)."
RULE = "state = (container, composition, index history) and the selected items; transition = one indexing operation"
ASSUMPTIONS = ["a padded batch is a list of its columns (sorted by length); indexing keeps that order, so an index that repeats or permutes columns selects them in column order", "a tuple is not an index of a ragged batch (2d indexing is refused, as documented)"]


def wide_indices(n):
    """For long batches: every integer, slices between some bounds, and regular lists of positions."""
    for i in range(-n - 1, n + 1):
        yield ("int", i)
    bounds = [None] + sorted({-n - 1, -n, -n // 2, -2, -1, 0, 1, 2, n // 2, n - 1, n, n + 1})
    for a, b in itertools.product(bounds, repeat=2):
        for s in (None, 1, 2, 7, -1, -2, -7):
            yield ("slice", a, b, s)
    for form in ("list", "i4", "i8"):
        for t in (range(n), range(n - 1, -1, -1), range(0, n, 3), range(-1, -n - 1, -2), [(5 * i + 2) % n for i in range(n)], [0] * n, [n - 1] * 3, [i // 2 for i in range(n)], [(11 * i) % n - n * (i % 2) for i in range(2 * n)]):
            yield (form,) + tuple(t)
        yield (form,) + tuple(range(n + 1))


def indices(n, small=False):
    if n > 5:
        yield from wide_indices(n) if not small else ((i for i in wide_indices(n) if i[0] != "slice" and len(i) < 2 * n and i[0] != "i4") if n < 40 else ())
        return
    bounds = [None] + list(range(-n - 1, n + 2))
    if small:  # of an already indexed batch
        for i in range(-n, n):
            yield ("int", i)
        for sl in ((None, None, None), (None, None, -1), (1, None, None), (None, -1, None), (None, None, 2), (-1, None, -1)):
            yield ("slice",) + sl
        for k in range(3):
            for t in itertools.product(range(-n, n), repeat=k):
                yield ("list",) + t
        return
    for i in range(-n - 1, n + 1):
        yield ("int", i)
        yield ("npint", i)
    for a in bounds:
        for b in bounds:
            for s in (None, 1, 2, 3, -1, -2, -3):
                yield ("slice", a, b, s)
    for k in range(4 if n <= 3 else 3):
        for t in itertools.product(range(-n, n), repeat=k):
            for form in ("list", "i4", "i8"):
                if k < 3 or form == "list":
                    yield (form,) + t
    for bad in ((n,), (-n - 1,), (0, n)):
        yield ("list",) + bad
        yield ("i8",) + bad


def mk_index(ix):
    k = ix[0]
    if k == "int":
        return ix[1]
    if k == "npint":
        return np.int64(ix[1])
    if k == "slice":
        return slice(*ix[1:])
    if k == "list":
        return list(ix[1:])
    return np.array(ix[1:], dtype={"i4": "int32", "i8": "int64"}[k])


def select(xs, ix):
    """The selected positions, or None when a list would raise."""
    n = len(xs)
    k = ix[0]
    if k in ("int", "npint"):
        return [range(n)[ix[1]]] if -n <= ix[1] < n else None
    if k == "slice":
        return list(range(n)[slice(*ix[1:])])
    if any(not -n <= i < n for i in ix[1:]):
        return None
    return [range(n)[i] for i in ix[1:]]


def kind_of(ix):
    if ix[0] == "slice":
        return "slice" + ("" if ix[3] in (None, 1) else "-step" if ix[3] > 0 else "-negative")
    return ix[0]


def ragged_cases(quick):
    def gen():
        for lens in compositions(4 if quick else 5, 2):
            for feat, dtype, lt in (((2,), "float32", "int32"), ((), "int64", "int64"), ((2, 3), "float64", "int32"), ((0,), "float32", "int32"), ((1,), "uint64", "uint64"))[: 2 if quick and len(lens) == 4 else 5]:
                yield (lens, feat, dtype, lt)
        for lens in long_compositions((12, 33, 130) if quick else (6, 9, 12, 16, 17, 32, 33, 64, 65, 130, 257, 300)):
            yield (lens, (2,), "float32", "int32")
            if not quick:
                yield (lens, (), "int64", "int64")
    return gen


def ragged(ctx, case):
    lens, feat, dtype, lt = case
    xs = make(lens, feat, dtype)
    data = np.concatenate(xs) if xs else np.zeros((0,) + feat, dtype)
    r = Ragged(data, np.array(lens, lt))
    ctx.require(len(r) == len(xs), "ragged:len", "")
    one_ragged(ctx, r, xs, case, (2 if len(lens) <= 2 + (not ctx.quick) else 1) + (not ctx.quick and len(lens) <= 1), feat, dtype)
    ctx.require(eq(r.dataXd, data) and r.lengths.tolist() == list(lens), "ragged:changed", lambda: f"indexing {case} changed the batch")


def one_ragged(ctx, r, xs, why, depth, feat, dtype, small=False):
    for ix in indices(len(xs), small):
        sel = select(xs, ix)
        ctx.step()
        try:
            got = r[mk_index(ix)]
        except IndexError:
            ctx.require(sel is None, f"ragged:{kind_of(ix)}:raised", lambda: f"{why}[{ix}] raised IndexError")
            continue
        if sel is None:
            ctx.fail(f"ragged:{kind_of(ix)}:accepted", f"{why}[{ix}] gave {show(got)}")
            continue
        want = [xs[i] for i in sel]
        ok = isinstance(got, Ragged) and got.lengths.shape == (len(sel),) and got.lengths.tolist() == [len(x) for x in want] and got.lengths.dtype.kind in "iu"
        ctx.require(ok, f"ragged:{kind_of(ix)}:lengths", lambda: f"{why}[{ix}] is {show(got)}, should have the sequences {show(want)}")
        w = np.concatenate(want) if want else np.zeros((0,) + feat, dtype)
        ctx.require(eq(got.dataXd, w), f"ragged:{kind_of(ix)}:data", lambda: f"{why}[{ix}] is {show(got)}, should have the sequences {show(want)}")
        ctx.seen(("ragged", why, ix))
        if depth > 1 and ok:
            one_ragged(ctx, got, want, (why, ix), depth - 1, feat, dtype, True)


def padded_cases(quick):
    def gen():
        for lens in compositions(4 if quick else 5, 2):
            for feat, dtype, order in (((2,), "float32", 0), ((1,), "int64", 1), ((0,), "float64", 0))[: 2 if quick and len(lens) == 4 else 3]:
                yield (lens, feat, dtype, order)
        for lens in long_compositions((12, 33, 130) if quick else (6, 9, 12, 16, 17, 32, 33, 64, 65, 130, 257, 300)):
            yield (lens, (2,), "float32", 0)
    return gen


def padded(ctx, case):
    lens, feat, dtype, order = case
    xs = make(lens, feat, dtype)
    p = rep("padded", xs)
    if order and len(xs) > 1:  # the other order of ties
        o = sorted(range(len(xs)), key=lambda i: (-len(xs[i]), i))
        q = p.copy()
        pos = [p.indices.tolist().index(i) for i in o]
        p = Padded(q.data[:, pos], q.size_at_t, q.lengths[pos], q.indices[pos])
    if not xs:
        p = Padded(np.zeros((0, 0) + feat, dtype), p.size_at_t, p.lengths, p.indices)
    cols = [(i, xs[i]) for i in p.indices.tolist()]
    snap = show(p)
    one_padded(ctx, p, cols, case, (2 if len(lens) <= 2 + (not ctx.quick) else 1) + (not ctx.quick and len(lens) <= 1))
    ctx.require(show(p) == snap, "padded:changed", lambda: f"indexing {case} changed the batch")
    ctx.require(len(p) == len(xs), "padded:len", "")


def one_padded(ctx, p, cols, why, depth, small=False):
    for ix in indices(len(cols), small):
        sel = select(cols, ix)
        ctx.step()
        try:
            got = p[mk_index(ix)]
        except IndexError:
            ctx.require(sel is None, f"padded:{kind_of(ix)}:raised", lambda: f"{why}[{ix}] raised IndexError")
            continue
        if sel is None:
            ctx.fail(f"padded:{kind_of(ix)}:accepted", f"{why}[{ix}] gave {show(got)}")
            continue
        want = [cols[i] for i in sorted(sel)]
        n = len(want)
        msg = ""
        if not isinstance(got, Padded) or got.data.ndim != 3 or got.data.shape[1] != n or got.lengths.shape != (n,) or got.indices.shape != (n,):
            msg = "shape"
        elif got.lengths.tolist() != [len(x) for _, x in want]:
            msg = "lengths"
        elif got.indices.tolist() != [i for i, _ in want]:
            msg = "indices"
        elif got.data.dtype != p.data.dtype or got.data.shape[2] != p.data.shape[2]:
            msg = "type"
        elif got.data.shape[0] < max([len(x) for _, x in want], default=0) or got.size_at_t.shape != (got.data.shape[0],):
            msg = "steps"
        elif got.size_at_t.tolist() != [sum(len(x) > t for _, x in want) for t in range(got.data.shape[0])]:
            msg = "size_at_t"
        elif any(not np.array_equal(got.data[: len(x), k], x) or got.data[len(x):, k].any() for k, (_, x) in enumerate(want)):
            msg = "contents"
        ctx.require(not msg, f"padded:{kind_of(ix)}:{msg}", lambda: f"{why}[{ix}] is {show(got)}, should have (in columns) {show([x for _, x in want])}: {msg}")
        ctx.seen(("padded", why, ix))
        if depth > 1 and not msg:
            one_padded(ctx, got, want, (why, ix), depth - 1, True)


def pairs_cases(quick):
    def gen():
        for n in list(range(5)) + [9, 12, 40]:
            for kind in ("list", "array", "tuple", "ragged", "padded", "pairs", "mixed"):
                yield (kind, n)
    return gen


def pairs(ctx, case):
    kind, n = case
    lens = [(2, 1, 0, 2, 1)[i % 5] for i in range(n)]
    slen = sorted(lens, reverse=True)
    a, b = make(lens, (2,), "float32"), [x + 1 for x in make(lens, (2,), "float32")]
    rows = np.arange(2 * n).reshape((n, 2))
    mk = {"list": lambda: (list(range(n)), [f"s{i}" for i in range(n)]), "tuple": lambda: (tuple(range(n)), "".join(chr(97 + i) for i in range(n))),
          "array": lambda: (rows, rows[:, 0] + 100), "ragged": lambda: (rep("ragged", a), rep("ragged", b)),
          "padded": lambda: (rep("padded", a), rep("padded", b)), "pairs": lambda: (Pairs(rows, rows + 1), rows + 2),
          "mixed": lambda: (rep("ragged", a), rows)}
    one, two = mk[kind]()
    p = Pairs(one, two)
    ctx.require(len(p) == n, "pairs:len", f"len(Pairs) of {case} is {len(p)}")
    for ix in indices(n):
        i = mk_index(ix)
        ctx.step()

        def get(x):
            try:
                return ("ok", x[i])
            except (IndexError, TypeError) as e:
                return (type(e).__name__, None)
        w1, w2 = get(one), get(two)
        got = get(p)
        if w1[0] != "ok" or w2[0] != "ok":
            ctx.require(got[0] != "ok", f"pairs:{kind}:accepted", lambda: f"{case}[{ix}] gave {got[1]!r}, its parts give {w1!r} and {w2!r}")
            continue
        ok = got[0] == "ok" and isinstance(got[1], Pairs) and deep(got[1].one) == deep(w1[1]) and deep(got[1].two) == deep(w2[1])
        ctx.require(ok, f"pairs:{kind}:{kind_of(ix)}", lambda: f"{case}[{ix}] is {got!r}, its parts give {w1!r} and {w2!r}")
        ctx.seen(("pairs", case, ix))


def deep(x):
    if isinstance(x, Pairs):
        return ("P", deep(x.one), deep(x.two))
    return show(x)


def args_cases(quick):
    def gen():
        for na in range(4):
            for nk in range(4):
                yield (na, nk)
        for na, nk in ((9, 0), (10, 1), (11, 2), (12, 3), (40, 3), (130, 1)):
            yield (na, nk)
    return gen


def args(ctx, case):
    na, nk = case
    a = tuple(object() for _ in range(na))
    for names in itertools.permutations(("x", "y", "0"), nk):
        kw = {k: object() for k in names}
        ak = ArgsKwargs(a, kw)
        ctx.step(4)
        flat = list(a) + list(kw.values())
        keys = list(range(na)) + list(names)
        ctx.require(list(ak.keys()) == keys, "argskwargs:keys", lambda: f"{case} {names}: keys {list(ak.keys())}")
        ctx.require(list(ak.values()) == flat, "argskwargs:values", lambda: f"{case} {names}: values")
        ctx.require(list(ak.items()) == list(zip(keys, flat)), "argskwargs:items", lambda: f"{case} {names}: items")
        for perm in itertools.permutations(list(zip(keys, flat))) if na + nk <= 4 else [list(zip(keys, flat)), list(zip(keys, flat))[::-1]]:
            b = ArgsKwargs.from_items(perm)
            ctx.step()
            ctx.require(b.args == tuple(v for k, v in perm if isinstance(k, int)) and list(b.kwargs.items()) == [(k, v) for k, v in perm if isinstance(k, str)],
                        "argskwargs:from_items", lambda: f"from_items({perm})")
        ctx.seen((case, names))


FAMS = {"ragged": (ragged_cases, ragged), "padded": (padded_cases, padded), "pairs": (pairs_cases, pairs), "args": (args_cases, args)}


def explore(ctx):
    for f, (c, fn) in FAMS.items():
        ctx.each(f, c(ctx.quick), fn, timeout=300)


def replay(ctx, fam, case):
    ctx.run_case(fam, FAMS[fam][1], case, timeout=300)
