"""C12: every small list of sequences through every conversion and back, against direct definitions."""
import itertools

import numpy as np
from mc import zoo
from mc.util import backends, compositions, layout, long_compositions, snap, values
from thinc.api import (Model, Padded, Ragged, chain, list2array, list2padded, list2ragged, noop, padded2list, ragged2list,
                       with_array, with_array2d, with_flatten, with_list, with_padded, with_ragged)
from thinc.layers import with_flatten_v2

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of lists of sequences (number, lengths, feature shape, data type, padding, memory layout) through every conversion and its inverse on the real code, against direct definitions of the target representation"
NOTE = "Up to 4 sequences (thorough 5) of length 0-3, (and regular lists of up to 130, thorough 300, sequences), feature shapes of rank 0-2 with widths 0-3, 9 data types, padding 0-3, rounding 1-4; the conversion operations, the conversion layers with their backward passes, and the with_* wrappers around an identity that records what it is given."
RULE = "state = (conversion, composition, feature shape, type) and its result; transition = one conversion"
ASSUMPTIONS = ["all sequences of a list have the same feature shape and type", "pad() refuses empty lists, as documented"]
DTYPES = ("float32", "float64", "int32", "int64", "uint64", "uint32", "int8", "bool", "float16")
OPS = backends()


def make(lens, feat, dtype, lay="C"):
    out = []
    for i, n in enumerate(lens):
        v = values((n,) + feat, "float64", 1 + i, 50.0)
        v = np.where(np.abs(v) < 1, 1.5, v)
        if dtype == "bool":
            a = v > 0
        elif dtype.startswith("u"):
            a = np.abs(v).astype(dtype)
            if dtype == "uint64":
                a = a + np.uint64(2 ** 63)  # not representable in a signed type, or in a float
        else:
            a = v.astype(dtype)
            if dtype == "int64":
                a = a * (2 ** 40) + 1
        out.append(layout(a, lay) if a.ndim and lay != "C" else a)
    return out


def eq(a, b):
    return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


def eq_list(a, b):
    return isinstance(a, (list, tuple)) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))


def show(x):
    if isinstance(x, np.ndarray):
        return f"{x.dtype}{x.shape}{x.tolist()}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(show(y) for y in x) + "]"
    if isinstance(x, Ragged):
        return f"Ragged({show(x.dataXd)}, {np.asarray(x.lengths).tolist()})"
    if isinstance(x, Padded):
        return f"Padded({show(x.data)}, {x.size_at_t.tolist()}, {x.lengths.tolist()}, {x.indices.tolist()})"
    return repr(x)


def ref_padded(seqs):
    """Is p a well-formed padded batch of exactly these sequences?"""
    def check(p):
        n = len(seqs)
        lens = [len(s) for s in seqs]
        if not isinstance(p, Padded):
            return "not a Padded"
        if n == 0:
            ok = p.data.shape[1] == 0 and p.lengths.shape == (0,) and p.indices.shape == (0,) and p.size_at_t.shape == (p.data.shape[0],)
            return "" if ok else "empty batch"
        m = max(lens)
        if p.data.shape != (m, n) + seqs[0].shape[1:]:
            return f"data shape {p.data.shape}"
        if p.data.dtype != seqs[0].dtype:
            return f"data type {p.data.dtype}"
        if sorted(p.indices.tolist()) != list(range(n)):
            return "indices are no permutation"
        if p.lengths.tolist() != [lens[i] for i in p.indices.tolist()]:
            return "lengths and indices do not agree"
        if p.lengths.tolist() != sorted(lens, reverse=True):
            return "not sorted by decreasing length"
        if p.size_at_t.tolist() != [sum(l > t for l in lens) for t in range(m)]:
            return "size_at_t"
        for k, i in enumerate(p.indices.tolist()):
            if not np.array_equal(p.data[: lens[i], k], seqs[i]):
                return f"contents of sequence {i}"
            if p.data[lens[i]:, k].any():
                return f"padding of sequence {i} is not zero"
        return ""
    return check


# ---- operations --------------------------------------------------------------------------------
FEATS = ((), (1,), (2,), (0,), (2, 3), (2, 0))


def flat_cases(quick):
    def gen():
        for n_, lens in enumerate(compositions(4 if quick else 5, 3 if quick else 3)):
            for feat in FEATS:
                for dtype in DTYPES if len(lens) <= 2 or not quick else DTYPES[:4]:
                    for pad in (0, 1, 2, 3) if len(lens) <= 3 or not quick else (0, 2):
                        yield (lens, feat, dtype, pad)
    return gen


def flat(ctx, case):
    lens, feat, dtype, pad = case
    for lay in ("C", "strided", "rev") if len(lens) <= 2 else ("C",):
        xs = make(lens, feat, dtype, lay)
        before = [x.copy() for x in xs]
        for bn, ops in OPS.items():
            for seq in (list, tuple):
                why = f"{bn} flatten({show(xs)}, pad={pad})"
                ctx.step()
                nd = 1 + len(feat)
                f = ops.flatten(seq(xs), pad=pad, ndim_if_empty=nd)
                want = [np.zeros((pad,) + feat, dtype)]
                for x in xs:
                    if len(x):
                        want += [x, np.zeros((pad,) + feat, dtype)]
                if any(len(x) for x in xs):
                    w = np.concatenate(want)
                    ctx.require(eq(f, w), f"flatten:pad{min(pad, 1)}" + ("" if w.size else ":no-width"), lambda: f"{why} is {show(f)}, should be {show(w)}")
                elif xs:
                    ctx.require(f.shape == (0,) + feat and f.dtype == dtype, "flatten:all-empty", lambda: f"{why} is {show(f)}")
                else:
                    ctx.require(f.shape == (0,) * nd, "flatten:no-sequences", lambda: f"{why} is {show(f)}")
                    f = np.zeros((0,) + feat, dtype)
                ctx.require(eq_list(xs, before), "flatten:changed", lambda: f"{why} changed its argument")
                ctx.require(not any(np.shares_memory(f, x) for x in xs if f.size), "flatten:shares", lambda: f"{why} is not a new array")
                for form, ls in (("i4", np.array(lens, "int32")), ("i8", np.array(lens, "int64")), ("list", list(lens))):
                    if form == "list" and pad:
                        ls = list(lens)
                    f0 = f.copy()
                    back = ops.unflatten(f, ls, pad=pad)
                    ctx.step()
                    ctx.require(eq_list(back, before), f"unflatten:{form}:pad{min(pad, 1)}" + ("" if 0 not in feat else ":no-width"),
                                lambda: f"{why} then unflatten(lengths={ls!r}) is {show(back)}")
                    ctx.require(eq(f, f0) and np.asarray(ls).tolist() == list(lens), "unflatten:changed", lambda: f"{why} then unflatten changed its arguments")
                for to in ("float64", "int32", dtype):
                    if "float" in dtype and to == "int32":
                        continue
                    g = ops.flatten(seq(xs), dtype=to, pad=pad, ndim_if_empty=nd)
                    ctx.require(g.dtype == to and (not xs or np.array_equal(g, f.astype(to))), "flatten:dtype", lambda: f"{why[:-1]}, dtype={to}) is {show(g)}")
    ctx.seen(case)


def pad_cases(quick):
    def gen():
        for lens in compositions(4 if quick else 5, 3):
            for feat in ((1,), (2,), (0,)) + (((), (2, 3)) if len(lens) <= 3 else ()):
                for dtype in DTYPES:
                    yield (lens, feat, dtype)
    return gen


def padded(ctx, case):
    lens, feat, dtype = case
    for lay in ("C", "strided", "rev") if len(lens) <= 2 else ("C",):
        xs = make(lens, feat, dtype, lay)
        before = [x.copy() for x in xs]
        for bn, ops in OPS.items():
            why = f"{bn} {show(xs)}"
            for r in (1, 2, 3, 4):
                ctx.step()
                if not xs:
                    try:
                        ops.pad(xs, round_to=r)
                        ctx.fail("pad:empty", "pad([]) did not raise")
                    except ValueError:
                        pass
                    continue
                p = ops.pad(xs, round_to=r)
                m = max(lens)
                m += -m % r
                w = np.zeros((len(xs), m) + feat, dtype)
                for i, x in enumerate(xs):
                    w[i, : len(x)] = x
                ctx.require(eq(p, w), "pad", lambda: f"{why}: pad(round_to={r}) is {show(p)}, should be {show(w)}")
                for ls in (list(lens), np.array(lens, "int32")):
                    ctx.step()
                    b = ops.unpad(p, ls)
                    ctx.require(eq_list(b, before), "unpad", lambda: f"{why}: unpad gives {show(b)}")
                if r == 1:
                    i = ops.insert_into(w.shape, xs)
                    ctx.require(eq(i, w), "insert_into", lambda: f"{why}: insert_into is {show(i)}")
            if len(feat) == 1:
                ctx.step(2)
                p = ops.list2padded(xs)
                msg = ref_padded(before)(p)
                ctx.require(not msg, f"list2padded:{msg.split(' ')[0]}", lambda: f"{why}: list2padded is {show(p)}: {msg}")
                p0 = p.copy()
                b = ops.padded2list(p)
                ctx.require(eq_list(b, before), "padded2list", lambda: f"{why}: padded2list(list2padded()) is {show(b)}")
                ctx.require(show(p) == show(p0), "padded2list:changed", lambda: f"{why}: padded2list changed its argument")
                # whatever is in the padding, and however the sequences are ordered within one length
                if xs:
                    q = p.copy()
                    for k, l in enumerate(q.lengths.tolist()):
                        q.data[l:, k] = 1
                    ctx.require(eq_list(ops.padded2list(q), before), "padded2list:padding", lambda: f"{why}: padded2list depends on the padding")
                    c = p.copy()
                    ctx.require(show(c) == show(p) and not any(np.shares_memory(getattr(c, a), getattr(p, a)) for a in ("data", "size_at_t", "lengths", "indices") if getattr(p, a).size),
                                "Padded.copy", lambda: f"{why}: Padded.copy")
            ctx.require(eq_list(xs, before), "pad:changed", lambda: f"{why}: a conversion changed its argument")
    ctx.seen(case)


def odd(ctx, case):
    """What pad() documents to refuse."""
    ops = OPS[case[0]]
    bad = {"ndim": [np.zeros((1, 2), "f"), np.zeros((1,), "f")], "dtype": [np.zeros((1, 2), "f"), np.zeros((1, 2), "d")],
           "width": [np.zeros((1, 2), "f"), np.zeros((1, 3), "f")], "round": [np.zeros((1, 2), "f")], "none": []}[case[1]]
    ctx.step()
    try:
        got = ops.pad(bad, round_to=case[2])
        ctx.fail(f"pad:accepts-{case[1]}", f"pad({show(bad)}, round_to={case[2]}) gave {show(got)}")
    except ValueError:
        pass


# ---- layers -------------------------------------------------------------------------------------
def perms_of_ties(p, ops):
    return p


class Recorder:
    """An identity layer that notes what it is given, forward and backward."""
    def __init__(self):
        self.fwd, self.bwd = [], []
        self.model = Model("recorder", self.forward)

    def forward(self, model, X, is_train):
        self.fwd.append(X)

        def backprop(dY):
            self.bwd.append(dY)
            return dY
        return X, backprop


def rep(kind, xs):
    ops = OPS["numpy"]
    if kind == "list":
        return list(xs)
    if kind == "ragged":
        data = np.concatenate(xs) if xs else np.zeros((0, 2), "f")
        return Ragged(data, np.array([len(x) for x in xs], "i"))
    if kind == "ragged-tuple":
        r = rep("ragged", xs)
        return (r.data, r.lengths)
    if kind in ("padded", "padded-tuple"):
        if not xs:
            p = Padded(np.zeros((0, 0, 2), "f"), np.zeros(0, "i"), np.zeros(0, "i"), np.zeros(0, "i"))
        else:
            order = sorted(range(len(xs)), key=lambda i: (-len(xs[i]), -i))
            lens = [len(xs[i]) for i in order]
            d = np.zeros((lens[0], len(xs)) + xs[0].shape[1:], xs[0].dtype)
            for k, i in enumerate(order):
                d[: lens[k], k] = xs[i]
            p = Padded(d, np.array([sum(l > t for l in lens) for t in range(lens[0])], "i"), np.array(lens, "i"), np.array(order, "i"))
        return p if kind == "padded" else (p.data, p.size_at_t, p.lengths, p.indices)
    raise ValueError(kind)


def same_rep(kind, got, xs):
    """'' if got is the representation `kind` of exactly xs."""
    if kind == "list":
        return "" if isinstance(got, list) and eq_list(got, xs) else "list"
    if kind == "ragged":
        if not isinstance(got, Ragged):
            return "kind"
        if not isinstance(got.lengths, np.ndarray):
            return "lengths are no array"
        if np.asarray(got.lengths).tolist() != [len(x) for x in xs]:
            return "lengths"
        if not xs:
            return "" if got.data.shape[0] == 0 else "data"
        return "" if eq(got.dataXd, np.concatenate(xs)) else "data"
    if kind == "ragged-tuple":
        return same_rep("ragged", Ragged(*got), xs) if isinstance(got, tuple) and len(got) == 2 else "kind"
    if kind == "padded":
        return ref_padded(xs)(got)
    if kind == "padded-tuple":
        return same_rep("padded", Padded(*got), xs) if isinstance(got, tuple) and len(got) == 4 else "kind"
    raise ValueError(kind)


CONV = {
    "list2ragged": (lambda: list2ragged(), "list", "ragged"),
    "ragged2list": (lambda: ragged2list(), "ragged", "list"),
    "list2padded": (lambda: list2padded(), "list", "padded"),
    "padded2list": (lambda: padded2list(), "padded", "list"),
    "list2ragged>>ragged2list": (lambda: chain(list2ragged(), ragged2list()), "list", "list"),
    "ragged2list>>list2ragged": (lambda: chain(ragged2list(), list2ragged()), "ragged", "ragged"),
    "list2padded>>padded2list": (lambda: chain(list2padded(), padded2list()), "list", "list"),
    "padded2list>>list2padded": (lambda: chain(padded2list(), list2padded()), "padded", "padded"),
    "ragged2list>>list2padded": (lambda: chain(ragged2list(), list2padded()), "ragged", "padded"),
    "padded2list>>list2ragged": (lambda: chain(padded2list(), list2ragged()), "padded", "ragged"),
}
WRAP = {"with_list": (with_list, "list", ("list", "ragged", "padded")),
        "with_ragged": (with_ragged, "ragged", ("list", "ragged", "padded", "ragged-tuple")),
        "with_padded": (with_padded, "padded", ("list", "ragged", "padded", "padded-tuple"))}


def layer_cases(quick):
    def gen():
        for lens in compositions(4 if quick else 5, 3):
            for dtype in ("float32", "float64", "int32", "int64") + (("uint64", "int8") if not quick else ()):
                for name in CONV:
                    for feat in ((2,), (1,), (0,)) + (((2, 3), ()) if "padded" not in name else ()):
                        yield ("conv", name, lens, feat, dtype)
                for name, (_, _, kinds) in WRAP.items():
                    for k in kinds:
                        for feat in ((2,), (1,), (0,)) + (((2, 3),) if k == "list" and name == "with_ragged" else ()):
                            yield ("wrap", name, k, lens, feat, dtype)
                for k in ("list", "ragged", "padded"):
                    for pad in (0, 1, 2) if k == "list" else (0,):
                        for feat in ((2,), (1,), (0,)) + (((2, 3), ()) if k != "padded" else ()):
                            for w in ("with_array", "with_array2d"):
                                if w == "with_array2d" and len(feat) != 1:
                                    continue
                                yield ("array", w, k, pad, lens, feat, dtype)
    return gen


def layers(ctx, case):
    kind = case[0]
    if kind == "conv":
        _, name, lens, feat, dtype = case
        make_m, src, dst = CONV[name]
        xs, gs = make(lens, feat, dtype), [x + x for x in make(lens, feat, dtype)]
        m = make_m()
        X = rep(src, xs)
        ctx.step(2)
        Y, bp = m(X, is_train=True)
        msg = same_rep(dst, Y, xs)
        ctx.require(not msg, f"{name}:forward:{msg.split(' ')[0]}", lambda: f"{case}: {show(X)} becomes {show(Y)}: {msg}")
        dY = put(Y, dst, gs)
        dX = bp(dY)
        msg = same_rep(src, dX, gs)
        ctx.require(not msg, f"{name}:backward:{msg.split(' ')[0]}", lambda: f"{case}: output gradient {show(dY)} becomes {show(dX)}: {msg}")
        msg = same_rep(src, X, xs)
        ctx.require(not msg, f"{name}:changed", lambda: f"{case}: the input was changed")
    elif kind == "wrap":
        _, name, k, lens, feat, dtype = case
        wrap, inner, _ = WRAP[name]
        xs, gs = make(lens, feat, dtype), [x + x for x in make(lens, feat, dtype)]
        r = Recorder()
        m = wrap(r.model)
        X = rep(k, xs)
        ctx.step(2)
        Y, bp = m(X, is_train=True)
        msg = same_rep(inner, r.fwd[0], xs)
        ctx.require(not msg, f"{name}:{k}:inner", lambda: f"{case}: the wrapped layer got {show(r.fwd[0])} for {show(X)}: {msg}")
        msg = same_rep(k, Y, xs)
        ctx.require(not msg, f"{name}:{k}:forward", lambda: f"{case}: {show(X)} became {show(Y)}: {msg}")
        dY = put(Y, k, gs)
        dX = bp(dY)
        msg = same_rep(inner, r.bwd[0], gs)
        ctx.require(not msg, f"{name}:{k}:inner-backward", lambda: f"{case}: the wrapped layer got the gradient {show(r.bwd[0])} for {show(dY)}: {msg}")
        msg = same_rep(k, dX, gs)
        ctx.require(not msg, f"{name}:{k}:backward", lambda: f"{case}: {show(dY)} became {show(dX)}: {msg}")
        msg = same_rep(k, X, xs)
        ctx.require(not msg, f"{name}:{k}:changed", lambda: f"{case}: the input was changed: {msg}")
    else:
        _, w, k, pad, lens, feat, dtype = case
        xs, gs = make(lens, feat, dtype), [x + x for x in make(lens, feat, dtype)]
        r = Recorder()
        m = (with_array if w == "with_array" else with_array2d)(r.model, pad=pad)
        X = rep(k, xs)
        ctx.step(2)
        Y, bp = m(X, is_train=True)
        got = r.fwd[0]
        if k == "padded":
            want = X.data if w == "with_array" else X.data.reshape((X.data.shape[0] * X.data.shape[1],) + X.data.shape[2:])
        else:
            want = [np.zeros((pad,) + feat, dtype)]
            for x in xs:
                if len(x):
                    want += [x, np.zeros((pad,) + feat, dtype)]
            want = np.concatenate(want) if any(len(x) for x in xs) else np.zeros((0,) + feat, dtype)
        if xs:
            ctx.require(eq(got, want), f"{w}:{k}:inner", lambda: f"{case}: the wrapped layer got {show(got)} for {show(X)}, should be {show(want)}")
        msg = same_rep(k, Y, xs)
        ctx.require(not msg, f"{w}:{k}:forward" + ("" if 0 not in feat else ":no-width"), lambda: f"{case}: {show(X)} became {show(Y)}: {msg}")
        dY = put(Y, k, gs)
        dX = bp(dY)
        msg = same_rep(k, dX, gs)
        ctx.require(not msg, f"{w}:{k}:backward" + ("" if 0 not in feat else ":no-width"), lambda: f"{case}: {show(dY)} became {show(dX)}: {msg}")
        msg = same_rep(k, X, xs)
        ctx.require(not msg, f"{w}:{k}:changed", lambda: f"{case}: the input was changed: {msg}")
    if kind == "conv" and case[1] == "list2ragged":
        m = list2array()
        ctx.step(2)
        Y, bp = m(xs, is_train=True)
        if xs:
            ctx.require(eq(Y, np.concatenate(xs)), "list2array", lambda: f"{case}: list2array gives {show(Y)}")
            dX = bp(np.concatenate(gs))
            ctx.require(eq_list(dX, gs), "list2array:backward", lambda: f"{case}: list2array passes back {show(dX)}")
        else:
            ctx.require(len(Y) == 0 and bp(Y) == [], "list2array:empty", lambda: f"{case}: list2array")
    ctx.seen(case)


def put(Y, kind, gs):
    """The sequences gs in the arrangement of Y (its order of sequences)."""
    if kind == "list":
        return list(gs)
    if kind == "ragged":
        return Ragged(np.concatenate(gs) if gs else Y.dataXd, np.array(Y.lengths, copy=True))
    if kind == "ragged-tuple":
        r = put(Ragged(*Y), "ragged", gs)
        return (r.data, r.lengths)
    if kind == "padded":
        d = np.zeros_like(Y.data)
        for k, i in enumerate(Y.indices.tolist()):
            d[: len(gs[i]), k] = gs[i]
        return Padded(d, Y.size_at_t.copy(), Y.lengths.copy(), Y.indices.copy())
    p = put(Padded(*Y), "padded", gs)
    return (p.data, p.size_at_t, p.lengths, p.indices)


def nested_cases(quick):
    def gen():
        for outer in range(4):
            for lens in itertools.product(range(3), repeat=outer):
                for seqlens in itertools.islice(itertools.product(range(3), repeat=sum(lens)), 81):
                    yield (lens, seqlens)
    return gen


def nested(ctx, case):
    lens, seqlens = case
    it = iter(make(seqlens, (2,), "float32"))
    X = [[next(it) for _ in range(n)] for n in lens]
    flatX = [x for g in X for x in g]
    G = [[x + x for x in g] for g in X]
    for name, w in (("v1", with_flatten), ("v2", with_flatten_v2)):
        r = Recorder()
        ctx.step(2)
        if name == "v1":  # its inner layer makes one row per item
            inner = Model("rows", lambda m, Xs, is_train: (np.array([[float(len(x)), i] for i, x in enumerate(Xs)], "f").reshape((-1, 2)), lambda dY: (r.bwd.append(dY), list(Xs))[1]))
            Y, bp = w(inner)(X, is_train=True)
            k = 0
            for g, y in zip(X, Y):
                want = np.array([[float(len(x)), k + i] for i, x in enumerate(g)], "f").reshape((-1, 2))
                k += len(g)
                ctx.require(eq(y, want), "with_flatten.v1:forward", lambda: f"{case}: {show(Y)}")
            ctx.require(len(Y) == len(X), "with_flatten.v1:forward", lambda: f"{case}: {show(Y)}")
            dX = bp([y + y for y in Y])
            if X:
                ctx.require(eq(r.bwd[0], np.concatenate([y + y for y in Y])), "with_flatten.v1:inner-backward", lambda: f"{case}: {show(r.bwd[0])}")
            ctx.require(len(dX) == len(X) and all(eq_list(a, b) for a, b in zip(dX, X)), "with_flatten.v1:backward", lambda: f"{case}: {show(dX)}")
        else:
            Y, bp = w(r.model)(X, is_train=True)
            ctx.require(eq_list(r.fwd[0], flatX), "with_flatten.v2:inner", lambda: f"{case}: inner got {show(r.fwd[0])}")
            ctx.require(len(Y) == len(X) and all(eq_list(a, b) for a, b in zip(Y, X)), "with_flatten.v2:forward", lambda: f"{case}: {show(Y)}")
            dX = bp(G)
            ctx.require(len(dX) == len(X) and all(eq_list(a, b) for a, b in zip(dX, G)), "with_flatten.v2:backward", lambda: f"{case}: {show(dX)}")
    ctx.seen(case)


# ---- many and long sequences, through the same functions ---------------------------------------------------
def long_cases(quick):
    def gen():
        for lens in long_compositions((9, 17, 33, 130) if quick else (6, 9, 16, 17, 32, 33, 64, 65, 130, 257, 300), 9):
            for feat in ((2,),) if quick else ((2,), (1,), ()):
                for dtype in ("float32", "int64"):
                    for pad in (0, 2):
                        yield ("flat", (lens, feat, dtype, pad))
                    yield ("padded", (lens, feat, dtype))
                    for name in CONV:
                        if feat or "padded" not in name:
                            yield ("layers", ("conv", name, lens, feat, dtype))
                    if not feat:
                        continue
                    for name, (_, _, kinds) in WRAP.items():
                        for k in kinds:
                            yield ("layers", ("wrap", name, k, lens, feat, dtype))
                    for k in ("list", "ragged", "padded"):
                        for pad in (0, 1) if k == "list" else (0,):
                            yield ("layers", ("array", "with_array", k, pad, lens, feat, dtype))
                            yield ("layers", ("array", "with_array2d", k, pad, lens, feat, dtype))
            yield ("nested", (tuple(n % 4 for n in lens[:40]), tuple((3 * i) % 5 for i in range(sum(n % 4 for n in lens[:40])))))
    return gen


def long(ctx, case):
    FAMS[case[0]][1](ctx, case[1])


FAMS = {"flat": (flat_cases, flat), "padded": (pad_cases, padded), "layers": (layer_cases, layers), "nested": (nested_cases, nested)}
ODD = [(b, k, r) for b in OPS for k, r in (("ndim", 1), ("dtype", 1), ("width", 1), ("round", 0), ("round", -1), ("none", 1))]


def explore(ctx):
    for f, (c, fn) in FAMS.items():
        ctx.each(f, c(ctx.quick), fn)
    ctx.each("long", long_cases(ctx.quick), long)
    ctx.each("odd", lambda: iter(ODD), odd, parallel=False)


def replay(ctx, fam, case):
    ctx.run_case(fam, {"odd": odd, "long": long}[fam] if fam in ("odd", "long") else FAMS[fam][1], case)
