"""C22: dropout with the random source replaced by every possible outcome."""
import contextlib
import itertools
from unittest import mock

import numpy as np
from mc import zoo
from mc.util import backends, values
from thinc import api as T
from thinc.types import Padded, Ragged

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration on the real code with the random source under control: every keep/drop pattern of every small batch in every representation, every history of forward/backward/rate/enable events, every layer with built-in dropout; oracle: a scaled mask read off the controlled source, the same layer without dropout, and exact counting of the kept share over a grid of source values"
NOTE = "arrays of up to 6 (thorough 9) cells, all patterns; 9 rates; event histories of length <= 4 (thorough 5); 20+ layers with built-in dropout."
RULE = "state = (attributes, outstanding backward passes with their masks); transition = one forward, backward, rate change, switch or mask draw"
ASSUMPTIONS = ["the random source is one of numpy's uniform or binomial generators (where neither is consulted, the checks that depend on its outcome are skipped and the mask is read off the output)", "a rate of one or more drops everything; None or a rate of zero or less drops nothing", "sequences of arrays come back as lists"]
OPS = T.NumpyOps()


class Coins:
    """A random source that hands out the given numbers in [0, 1), one per cell, again from the start when used up."""

    def __init__(self, seq):
        self.seq, self.pos, self.drawn = list(seq), 0, []

    def take(self, shape):
        shape = () if shape is None else shape
        n = int(np.prod(shape))
        out = [self.seq[(self.pos + i) % len(self.seq)] for i in range(n)] if self.seq else [0.0] * n
        self.pos += n
        self.drawn.append(n)
        return np.array(out, dtype="float64").reshape(shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.take(size)

    def random(self, size=None):
        return self.take(size)

    def rand(self, *shape):
        return self.take(shape)

    def binomial(self, n, p, size=None):
        assert n == 1
        return (self.take(size) < p).astype("int64")

    @contextlib.contextmanager
    def on(self):
        with contextlib.ExitStack() as s:
            for name, f in [("uniform", self.uniform), ("random", self.random), ("random_sample", self.random), ("ranf", self.random), ("sample", self.random), ("rand", self.rand), ("binomial", self.binomial)]:
                s.enter_context(mock.patch.object(np.random, name, f))
            yield self


LOW, HIGH = 0.0, 1.0 - 2.0 ** -30


def kept_value(rate):
    if rate is None or rate <= 0:
        return 1.0
    return 0.0 if rate >= 1 else 1.0 / (1.0 - rate)


def is_mask(mask, rate):
    v = kept_value(rate)
    ok = np.isclose(mask, v, rtol=1e-5, atol=0)
    if rate is not None and rate > 0:
        ok |= mask == 0
    return bool(np.all(ok))


# ---- 1. the mask itself -----------------------------------------------------------------------------------
RATES = (None, -0.5, 0, 0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 0.999, 1.0, 1, 1.5)
SHAPES = ((0,), (1,), (4,), (2, 3), (3, 2), (0, 3), (2, 0), (1, 2, 2), (2, 1, 3), (6, 1))


def mask_cases(quick):
    for shape in SHAPES + (() if quick else ((3, 3), (2, 2, 2), (8,))):
        for rate in RATES:
            for b in ("numpy", "generic"):
                yield [b, list(shape), rate]


def masks(ctx, case):
    name, shape, rate = case
    ops, shape = backends()[name], tuple(shape)
    n = int(np.prod(shape))
    seen = set()
    for bits in itertools.product((LOW, HIGH), repeat=n):
        c = Coins(bits or (LOW,))
        with c.on():
            m = ops.get_dropout_mask(shape, rate)
        ctx.step()
        if not ctx.require(isinstance(m, np.ndarray) and m.shape == shape and m.dtype == np.float32, "mask:type", lambda: f"{case}: {getattr(m, 'shape', None)} {getattr(m, 'dtype', type(m))}"):
            return
        ctx.require(is_mask(m, rate), "mask:values", lambda: f"{case}: {m.tolist()} (kept cells are {kept_value(rate)})")
        seen.add(tuple((m != 0).ravel().tolist()))
        random = rate is not None and 0 < rate < 1
        if random and c.drawn:
            ctx.require(sum(c.drawn) == n, "mask:one-draw-per-cell", lambda: f"{case}: {c.drawn} draws")
        ctx.seen((name, shape, rate, m))
    if random and n and (c.drawn):
        ctx.require(len(seen) == 2 ** n, "mask:cells-independent", lambda: f"{case}: {len(seen)} different masks from {2 ** n} outcomes")
    if not random:
        ctx.require(len(seen) == 1, "mask:random-at-fixed-rate", lambda: f"{case}")
    # the same outcome gives the same mask, also if numpy's own generator is used
    a, b = [], []
    for out in (a, b):
        np.random.seed(5)
        out.append(ops.get_dropout_mask(shape, rate))
        out.append(ops.get_dropout_mask(shape, rate))
    ctx.require(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), "mask:source-decides", lambda: f"{case}: masks differ for the same seed")
    a[0][...] = 7
    with Coins((HIGH,)).on():
        m1 = ops.get_dropout_mask(shape, rate)
        m2 = ops.get_dropout_mask(shape, rate)
    ctx.require(not np.shares_memory(m1, m2) or m1.size == 0, "mask:shared-memory", lambda: f"{case}")
    ctx.require(is_mask(m1, rate), "mask:values", lambda: f"{case}: after writing to an earlier mask: {m1}")


def share_cases(quick):
    N = 400 if quick else 4000
    for rate in (0.05, 0.1, 0.2, 0.25, 0.3, 1 / 3, 0.4, 0.5, 0.6, 2 / 3, 0.7, 0.75, 0.8, 0.9, 0.95):
        for b in ("numpy", "generic"):
            yield [b, rate, N]


def share(ctx, case):
    """Over an even grid of source values, the kept share is 1 - rate: counted exactly."""
    name, rate, N = case
    ops = backends()[name]
    c = Coins([(k + 0.5) / N for k in range(N)])
    with c.on():
        m = ops.get_dropout_mask((N,), rate)
    ctx.step(N)
    if not c.drawn:
        ctx.note("source not consulted")
        return
    kept = int((m != 0).sum())
    ctx.require(abs(kept - (1 - rate) * N) <= 1, "mask:share", lambda: f"{case}: {kept} of {N} kept, expected {(1 - rate) * N:.1f}")
    keep = m != 0
    ctx.require(int(np.abs(np.diff(keep.astype(int))).sum()) <= 1, "mask:threshold", lambda: f"{case}: the kept cells are not one interval of source values")


# ---- 2. the layer, in every representation ----------------------------------------------------------------
def batch(rep, lens, w=2, dtype="float32", salt=0):
    xs = [values((n, w), dtype, salt + 5 * i) + np.dtype(dtype).type(2.0) for i, n in enumerate(lens)]
    if rep in ("list", "tuple"):
        return xs if rep == "list" else tuple(xs)
    if rep == "1d":
        return values((sum(lens),), dtype, salt) + np.dtype(dtype).type(2.0)
    if rep == "2d":
        return np.concatenate(xs) if xs else np.zeros((0, w), dtype)
    if rep == "3d":
        return values((len(lens), 2, w), dtype, salt) + np.dtype(dtype).type(2.0)
    if rep == "ragged":
        return Ragged(np.concatenate(xs) if xs else np.zeros((0, w), dtype), np.array(lens, dtype="i"))
    if rep == "ragged1d":
        return Ragged(values((sum(lens),), dtype, salt) + np.dtype(dtype).type(2.0), np.array(lens, dtype="i"))
    if rep == "padded":
        return OPS.list2padded(xs)
    raise ValueError(rep)


REPS = ("1d", "2d", "3d", "list", "tuple", "ragged", "ragged1d", "padded")


def arrays(d):
    """All cells, padding included."""
    return [a for a, _ in zoo.leaves(d)]


def layer_cases(quick):
    lens = [(1,), (2, 1), (0, 1), (1, 0, 1), (3,)] if quick else [(1,), (2, 1), (1, 2), (0, 1), (1, 0, 1), (3,), (1, 1, 1), (0, 0), (2, 2)]
    for rep in REPS:
        for l in lens:
            for rate in (0.25, 0.5, 0.9, 1.0, 0.0):
                for dtype in ("float32", "float64"):
                    yield [rep, list(l), rate, dtype]


def as_seq(s):
    return ("list",) + s[1:] if s[0] == "tuple" else s


def layer(ctx, case):
    rep, lens, rate, dtype = case
    X = batch(rep, lens, dtype=dtype)
    n = sum(a.size for a in arrays(X))
    masks_seen = set()
    if n > 8:
        patterns = itertools.product((LOW, HIGH), repeat=4)
    else:
        patterns = itertools.product((LOW, HIGH), repeat=max(n, 1))
    for bits in patterns:
        model = T.Dropout(rate)
        before = zoo.full(X)
        c = Coins(bits)
        with c.on():
            Y, bp = model(X, True)
        ctx.step()
        where = f"Dropout({rate}) on {rep} {lens} {dtype}, outcome {[int(b > 0.5) for b in bits]}"
        ctx.require(zoo.full(X) == before, "layer:input-changed", where)
        if not ctx.require(as_seq(zoo.struct(Y, False)) == as_seq(zoo.struct(X, False)), "layer:structure", lambda: f"{where}: {zoo.struct(Y)}"):
            return
        if dtype == "float32":
            ctx.require(as_seq(zoo.struct(Y)) == as_seq(zoo.struct(X)), "layer:dtype", lambda: f"{where}: {zoo.struct(Y)}")
        ms = []
        for x, y in zip(arrays(X), arrays(Y)):
            m = np.divide(y, x, out=np.zeros(x.shape, "float64"), where=x != 0)
            real = x != 0
            ms.append((m, real))
            ctx.require(is_mask(m[real], rate) and np.all(y[~real] == 0), "layer:scaled-mask", lambda: f"{where}: {y.tolist()} from {x.tolist()}")
        dY = zoo.rebuild(Y, iter([values(a.shape, a.dtype.name, 3 + i) + a.dtype.type(1.5) for i, a in enumerate(arrays(Y))]))
        dbefore = zoo.full(dY)
        for attempt in (1, 2):
            dX = bp(dY)
            ctx.step()
            ctx.require(zoo.full(dY) == dbefore, "layer:gradient-changed", where)
            if not ctx.require(as_seq(zoo.struct(dX, False)) == as_seq(zoo.struct(X, False)), "layer:structure-back", lambda: f"{where}: {zoo.struct(dX)}"):
                return
            for (m, real), d, g in zip(ms, arrays(dX), arrays(dY)):
                ctx.require(np.allclose(d[real], (g * m)[real], rtol=1e-5, atol=0), "layer:same-mask-backward", lambda: f"{where}: gradient {d.tolist()} from {g.tolist()}, mask {m.tolist()}")
        masks_seen.add(tuple(np.concatenate([(m != 0)[r].ravel() for m, r in ms]).tolist()) if ms else ())
        ctx.seen((case, [m for m, _ in ms]))
    reals = sum(int(r.sum()) for _, r in ms)
    if c.drawn and 0 < rate < 1 and n <= 8 and n == reals:
        ctx.require(len(masks_seen) == 2 ** n, "layer:cells-independent", lambda: f"{case}: {len(masks_seen)} masks")
    # outside training, disabled
    for label, train, attrs in (("inference", False, {}), ("disabled", True, {"is_enabled": False}), ("rate 0", True, {"dropout_rate": 0.0})):
        model = T.Dropout(rate)
        model.attrs.update(attrs)
        with Coins([LOW]).on():
            Y, bp = model(X, train)
            ctx.require(as_seq(zoo.full(Y)) == as_seq(zoo.full(X)), "layer:identity", lambda: f"{label}: Dropout({rate}) on {rep} {lens}: {zoo.show(Y)}")
            dY = zoo.rebuild(Y, iter([values(a.shape, a.dtype.name, 3) for a in arrays(Y)]))
            ctx.require(as_seq(zoo.full(bp(dY))) == as_seq(zoo.full(dY)), "layer:identity-back", lambda: f"{label}: Dropout({rate}) on {rep} {lens}")
    with Coins([LOW]).on():
        ctx.require(as_seq(zoo.full(T.Dropout(rate).predict(X))) == as_seq(zoo.full(X)), "layer:identity", lambda: f"predict: Dropout({rate}) on {rep} {lens}")


# ---- 3. histories -----------------------------------------------------------------------------------------
EVENTS = ("train", "infer", "back", "back-oldest", "rate=0.5", "rate=0", "rate=0.75", "toggle", "copy", "bytes")


def history_cases(quick):
    n = 4 if quick else 5
    for k in range(1, n + 1):
        for h in itertools.product(EVENTS, repeat=k):
            if "train" in h and (quick is False or k < 4 or h[-1].startswith("back")):
                for rep in (("2d",) if k == n else ("2d", "padded", "list")):
                    yield [rep, list(h)]


def history(ctx, case):
    rep, h = case
    model = T.Dropout(0.25)
    rate, enabled, outstanding = 0.25, True, []
    k = 0
    for i, e in enumerate(h):
        ctx.step()
        where = f"{rep}: {h}, step {i}"
        if e in ("train", "infer"):
            k += 1
            X = batch(rep, (2, 1), salt=k)
            c = Coins([LOW, HIGH, HIGH, LOW, HIGH][k % 5:] + [HIGH, LOW])
            with c.on():
                Y, bp = model(X, e == "train")
            ms = []
            active = e == "train" and enabled and rate > 0
            for x, y in zip(arrays(X), arrays(Y)):
                m = np.divide(y, x, out=np.zeros(x.shape, "float64"), where=x != 0)
                ctx.require(is_mask(m[x != 0], rate if active else 0), "history:mask", lambda: f"{where}: rate {rate if active else 0}, mask {m.tolist()}")
                ms.append((m, x != 0))
            if active and c.drawn:
                flat = np.concatenate([m[r] for m, r in ms])
                ctx.require((flat == 0).any() and (flat != 0).any(), "history:not-applied", lambda: f"{where}: mask {flat}")
            outstanding.append((Y, ms, bp))
        elif e.startswith("back"):
            if not outstanding:
                return
            Y, ms, bp = outstanding[0 if e == "back-oldest" else -1]
            dY = zoo.rebuild(Y, iter([values(a.shape, a.dtype.name, 3 + j) + a.dtype.type(1.5) for j, a in enumerate(arrays(Y))]))
            with Coins([HIGH, LOW, LOW]).on():
                dX = bp(dY)
            for (m, r), d, g in zip(ms, arrays(dX), arrays(dY)):
                ctx.require(np.allclose(d[r], (g * m)[r], rtol=1e-5, atol=0), "history:backward", lambda: f"{where}: {d.tolist()} from {g.tolist()}, mask {m.tolist()}")
        elif e.startswith("rate"):
            rate = float(e[5:])
            T.set_dropout_rate(model, rate)
            ctx.require(model.attrs["dropout_rate"] == rate, "history:set-rate", where)
        elif e == "toggle":
            enabled = not enabled
            model.attrs["is_enabled"] = enabled
        elif e == "copy":
            model = model.copy()
        elif e == "bytes":
            model = T.Dropout(0.9).from_bytes(model.to_bytes())
    ctx.seen((rep, h))


# ---- 4. dropout built into other layers -------------------------------------------------------------------
def plain_builders():
    out = {}
    for cls in ("Relu", "Mish", "Gelu", "Swish", "HardSwish", "HardSwishMobilenet", "Dish", "ClippedLinear", "HardSigmoid", "HardTanh", "ReluK", "Maxout"):
        for norm in (False, True):
            out[f"{cls}{'+norm' if norm else ''}"] = (lambda drop, cls=cls, norm=norm: getattr(T, cls)(2, 3, dropout=drop, normalize=norm), "out", "rows")
    out["Embed"] = (lambda drop: T.Embed(3, 5, dropout=drop), "out", "ids")
    out["Embed-column"] = (lambda drop: T.Embed(3, 5, column=1, dropout=drop), "out", "ids2")
    out["HashEmbed"] = (lambda drop: T.HashEmbed(3, 5, seed=2, dropout=drop), "out", "ids")
    out["HashEmbed-column"] = (lambda drop: T.HashEmbed(3, 5, seed=2, column=0, dropout=drop), "out", "ids2")
    for d in (1, 2):
        for bi in (False, True):
            out[f"LSTM-{d}{'bi' if bi else ''}"] = (lambda drop, d=d, bi=bi: T.LSTM(2, 2, depth=d, bi=bi, dropout=drop), "weights", "padded")
    return out


BUILDERS = plain_builders()


def built_cases(quick):
    for name in BUILDERS:
        for how in ("argument", "set_dropout_rate", "attribute-any"):
            for rate in (0.25, 0.5, 1.0, 0.0):
                for dtype in (("float32",) if quick else ("float32", "float64")):
                    yield [name, how, rate, 2 if BUILDERS[name][2] == "rows" else 3]


def built_in(name, how, rate):
    build = BUILDERS[name][0]
    if how == "argument":
        return build(rate)
    m = build(0.125)
    if how == "set_dropout_rate":
        T.set_dropout_rate(m, rate)
    else:
        for n in m.walk():
            if "dropout_rate" in n.attrs:
                n.attrs["dropout_rate"] = rate
    return m


def data_for(kind, n):
    if kind == "rows":
        return values((n, 3), salt=4)
    if kind == "ids":
        return np.array([1, 3, 1], dtype="int32")[:n]
    if kind == "ids2":
        return np.array([[1, 2], [3, 0], [1, 2]], dtype="int32")[:n]
    return OPS.list2padded([values((k, 2), salt=k) for k in (2, 1)])


def copy_params(a, b):
    """Parameters of b := those of a (same nodes apart from dropout nodes)."""
    na = [n for n in a.walk() if n.param_names]
    nb = [n for n in b.walk() if n.param_names]
    assert len(na) == len(nb)
    for x, y in zip(na, nb):
        for p in x.param_names:
            y.set_param(p, x.get_param(p).copy())


def gradients(m):
    out = {}
    for i, n in enumerate(x for x in m.walk() if x.param_names):
        for p in n.param_names:
            out[(i, p)] = n.get_grad(p).copy() if n.has_grad(p) else np.zeros_like(n.get_param(p))
    return out


def gclose(a, b, tol=1e-4):
    return a.keys() == b.keys() and all(np.allclose(a[k], b[k], rtol=tol, atol=1e-5) for k in a)


def built(ctx, case):
    name, how, rate, n = case
    build, where_mask, kind = BUILDERS[name]
    X = data_for(kind, n)
    np.random.seed(0)
    plain = build(None if where_mask == "out" else 0.0)
    plain.initialize(X=X)
    zoo.fill(plain)
    # without dropout
    Y0 = plain.predict(X)
    d0 = arrays(Y0)[0]
    Y0t, bp0 = plain(X, True)
    ctx.require(np.allclose(arrays(Y0t)[0], d0, rtol=1e-5, atol=1e-6), "built:plain-training", lambda: f"{name} with no dropout: training output differs from inference")
    m = built_in(name, how, rate)
    m.initialize(X=X)
    copy_params(plain, m)
    ctx.require(np.array_equal(arrays(m.predict(X))[0], d0), "built:inference", lambda: f"{case}: dropout changes the output outside training")
    with Coins([LOW]).on():
        Yi, _ = m(X, False)
    ctx.require(np.array_equal(arrays(Yi)[0], d0), "built:inference", lambda: f"{case}: dropout changes the output outside training")
    cells = 8 if where_mask == "out" and kind == "rows" else 3 if where_mask == "out" else 6
    patterns = list(itertools.product((LOW, HIGH), repeat=min(cells, 2 * n if kind == "rows" else cells)))
    seen = set()
    drew = False
    for bits in patterns:
        for node in list(m.walk()) + list(plain.walk()):
            for p in node.param_names:
                if node.has_grad(p):
                    node.set_grad(p, np.zeros_like(node.get_param(p)))
        c = Coins(bits)
        with c.on():
            Y, bp = m(X, True)
        drew = drew or bool(c.drawn)
        ctx.step()
        y = arrays(Y)[0]
        outcome = [int(b > 0.5) for b in bits]
        dY = zoo.gradient_for(Y, 5)
        T.set_dropout_rate(m, 0.0625)  # changes the rate between forward and backward
        with Coins([HIGH, LOW]).on():
            dX = bp(dY)
        T.set_dropout_rate(m, rate)
        if where_mask == "out":
            ok = np.abs(d0) > 1e-6
            mask = np.divide(y, d0, out=np.zeros(y.shape, "float64"), where=ok)
            if not ctx.require(np.all([is_mask(np.where(abs(v) < 1e-9, 0, v), rate) or abs(v - kept_value(rate)) < 1e-3 for v in mask[ok]]) and np.all(np.abs(y[~ok]) < 1e-5), "built:scaled-mask", lambda: f"{case}, outcome {outcome}: output {y.tolist()}, without dropout {d0.tolist()}"):
                continue
            mask = np.where(np.abs(mask) > 1e-6, kept_value(rate), 0.0)
            seen.add(tuple((mask[ok] != 0).tolist()))
            if not ok.all():
                continue_gradient = False
            else:
                continue_gradient = True
            if continue_gradient or kind.startswith("ids"):
                _, bp0 = plain(X, True)
                dX0 = bp0((arrays(dY)[0] * mask).astype("float32"))
                ctx.require(gclose(gradients(m), gradients(plain)), "built:gradient", lambda: f"{case}, outcome {outcome}: {gradients(m)}, expected {gradients(plain)}")
                if dX.dtype.kind == "f":
                    ctx.require(np.allclose(dX, dX0, rtol=1e-4, atol=1e-5), "built:input-gradient", lambda: f"{case}, outcome {outcome}: {dX.tolist()}, expected {dX0.tolist()}")
        else:
            # on the weights: the plain layer with the weights multiplied by the mask the source decides on
            Wt = plain.get_param("LSTM")
            if not c.drawn:
                mask = np.ones(Wt.shape, "float32")
                if 0 < rate < 1:
                    continue
                mask *= kept_value(rate)
            else:
                with Coins(bits).on():
                    mask = OPS.get_dropout_mask(Wt.shape, rate)
            keep = Wt.copy()
            plain.set_param("LSTM", (Wt * mask).astype("float32"))
            Yp, bpp = plain(X, True)
            dXp = bpp(dY)
            want = {k: (g * mask if k[1] == "LSTM" else g) for k, g in gradients(plain).items()}
            plain.set_param("LSTM", keep)
            ctx.require(np.allclose(y, arrays(Yp)[0], rtol=1e-4, atol=1e-5), "built:weights-mask", lambda: f"{case}, outcome {outcome}: {y.tolist()}, expected {arrays(Yp)[0].tolist()}")
            ctx.require(gclose(gradients(m), want), "built:weights-gradient", lambda: f"{case}, outcome {outcome}")
            ctx.require(np.allclose(arrays(dX)[0], arrays(dXp)[0], rtol=1e-4, atol=1e-5), "built:input-gradient", lambda: f"{case}, outcome {outcome}")
            ctx.require(np.array_equal(m.get_param("LSTM"), keep), "built:weights-changed", lambda: f"{case}: the weights themselves were masked")
            seen.add(tuple((mask != 0).tolist()))
        ctx.seen((case, y))
    if drew and 0 < rate < 1:
        ctx.require(len(seen) > 1, "built:not-applied", lambda: f"{case}: the random source does not change the output")
    if rate == 0:
        ctx.require(len(seen) <= 1, "built:rate-zero", lambda: f"{case}: dropout at rate zero")


# ---- 5. set_dropout_rate reaches every node -----------------------------------------------------------------
def tree_cases(quick):
    for depth in (1, 2, 3):
        for shape in itertools.product(("chain", "concatenate", "residual", "with_array", "clone"), repeat=depth - 1):
            for rate in (0.0, 0.5):
                for attr in ("default", "extra", "none"):
                    yield [list(shape), rate, attr]


def tree(ctx, case):
    shape, rate, attr = case
    leaf = [T.Dropout(0.25), T.Relu(2, 2, dropout=0.25), T.Linear(2, 2)]
    leaf[2].attrs["my_rate"] = 0.25
    m = T.chain(*leaf)
    for s in shape:
        if s == "chain":
            m = T.chain(m, T.Dropout(0.25))
        elif s == "concatenate":
            m = T.chain(T.concatenate(m, T.Maxout(2, 2, dropout=0.25)), T.Linear(2, 4))
        elif s == "residual":
            m = T.residual(m)
        elif s == "with_array":
            m = T.with_array(m)
        elif s == "clone":
            m = T.clone(m, 2)
    names = {"default": ["dropout_rate"], "extra": ["dropout_rate", "my_rate"], "none": []}[attr]
    before = [dict(n.attrs) for n in m.walk()]
    out = T.set_dropout_rate(m, rate) if attr == "default" else T.set_dropout_rate(m, rate, names)
    ctx.require(out is m, "tree:return", f"{case}")
    for n, b in zip(m.walk(), before):
        for k, v in b.items():
            want = rate if k in names else v
            ctx.require(n.attrs[k] == want, "tree:rate", lambda: f"{case}: {n.name}.{k} is {n.attrs[k]}, expected {want}")
        ctx.require(set(n.attrs) == set(b), "tree:attrs-added", lambda: f"{case}: {n.name}")
        ctx.step()
    m.initialize(X=values((2, 2)))
    if attr == "default" and rate == 0.0:
        with Coins([LOW, HIGH]).on():
            a, _ = m(values((2, 2)), True)
        ctx.require(np.allclose(a, m.predict(values((2, 2))), rtol=1e-5, atol=1e-6), "tree:zero-is-identity", lambda: f"{case}")
    ctx.seen(case)


# ---- 6. noise only in training, for every noisy layer of the zoo ------------------------------------------------
def noisy_cases(quick):
    for name in zoo.NOISY:
        e = zoo.NOISY[name]
        for spec in e.specs(quick):
            yield [name, spec]


def noisy(ctx, case):
    e = zoo.NOISY[case[0]]
    spec = tuple(case[1]) if isinstance(case[1], list) else case[1]
    X = e.data(spec)
    if e.empty(spec):
        return
    m = e.build()
    a = m.predict(X)
    with Coins([LOW]).on():
        b = m.predict(X)
    ctx.step(2)
    ctx.require(zoo.full(a) == zoo.full(b), "noisy:inference-random", lambda: f"{case}: predict depends on the random source")
    if "torch" in e.tags:
        return
    with Coins([HIGH, LOW, HIGH]).on():
        y1, bp1 = m(X, True)
        y2, bp2 = m(X, True)
    with Coins([HIGH, LOW, HIGH]).on():
        y3, bp3 = m(X, True)
    dY = zoo.gradient_for(y1, 2)
    d2 = bp2(zoo.copy(dY))
    d1 = bp1(zoo.copy(dY))
    d3 = bp3(zoo.copy(dY))
    ctx.require(zoo.full(y1) == zoo.full(y3), "noisy:source-decides", lambda: f"{case}: the same outcome of the source gives another output")
    ctx.require(zoo.full(d1) == zoo.full(d3), "noisy:source-decides-back", lambda: f"{case}: the same outcome of the source gives another gradient")
    ctx.seen((case, zoo.full(y1)))


FAMILIES = {"masks": masks, "share": share, "layer": layer, "history": history, "built": built, "tree": tree, "noisy": noisy}


def explore(ctx):
    q = ctx.quick
    ctx.each("masks", lambda: mask_cases(q), masks)
    ctx.each("share", lambda: share_cases(q), share)
    ctx.each("layer", lambda: layer_cases(q), layer)
    ctx.each("history", lambda: history_cases(q), history)
    ctx.each("built", lambda: built_cases(q), built)
    ctx.each("tree", lambda: tree_cases(q), tree)
    ctx.each("noisy", lambda: noisy_cases(q), noisy)


def replay(ctx, family, case):
    FAMILIES[family](ctx, case)
