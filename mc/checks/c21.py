"""C21: transparent wrappers against the plain computation, for every zoo layer, duplicate pattern, and history."""
import contextlib
import functools
import itertools
from unittest import mock

import numpy as np
from mc import zoo
from mc.util import backends, layout, values
from thinc import api as T
from thinc.layers.array_getitem import floats_getitem, ints_getitem
from thinc.layers.resizable import resize_linear_weighted, resize_model
from thinc.types import Padded, Ragged

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration on the real code: every wrapper around every layer of the zoo on every small batch, every history of initialize/forward/backward/copy events, every duplicate pattern for row deduplication, every small index, and every sequence of resizes; oracle: the unwrapped computation and an event log"
NOTE = "130+ layers x 8 wrappers on all small batches; event histories of length <= 4 (thorough 5) with failures at every point; all id arrays up to 4 rows (thorough 5) over 3 ids; all resize sequences of up to 4 (thorough 5) steps from 4 starting states."
RULE = "state = (weights, event log, outstanding backward passes); transition = one initialize, forward, backward, copy or resize"
ASSUMPTIONS = ["uniqued: the wrapped layer depends on the chosen column only (documented use); the gradient of equal rows with unequal output gradients is their mean", "resizing to a smaller output may be refused"]
OPS = T.NumpyOps()


def grads(m):
    out = []
    for n in m.walk():
        for p in n.param_names:
            out.append((p, n.get_grad(p).copy() if n.has_grad(p) else np.zeros_like(n.get_param(p))))
        for s in n.shims:
            if hasattr(s._model, "parameters"):
                out.append(("shim", [x.grad.numpy().copy() if x.grad is not None else None for x in s._model.parameters()]))
    return out


# ---- 1. every wrapper over every layer --------------------------------------------------------------------
class Log:
    def __init__(self):
        self.events = []

    @contextlib.contextmanager
    def range(self, message, *a, **kw):
        self.events.append(("open", message))
        try:
            yield
        finally:
            self.events.append(("close", message))

    use_interval = range


def same(a, b):
    return zoo.struct(a) == zoo.struct(b) and zoo.full(a) == zoo.full(b)


def take(d, i):
    return d[i]


WRAPPERS = {
    # name: (wrap(layer, log), data -> wrapped data, wrapped output -> output, output gradient -> wrapped gradient, wrapped dX -> dX)
    "with_debug": (lambda l, log: T.with_debug(l, on_init=lambda *a: log.events.append(("init", a)), on_forward=lambda *a: log.events.append(("forward", a)), on_backprop=lambda *a: log.events.append(("backprop", a))), None),
    "with_debug-default": (lambda l, log: T.with_debug(l, "name"), None),
    "with_debug twice": (lambda l, log: T.with_debug(T.with_debug(l, on_forward=lambda *a: log.events.append(("inner", a)), on_backprop=lambda *a: log.events.append(("inner-b", a))), on_forward=lambda *a: log.events.append(("outer", a)), on_backprop=lambda *a: log.events.append(("outer-b", a))), None),
    "with_nvtx_range": (lambda l, log: T.with_nvtx_range(l), None),
    "with_nvtx_range-named": (lambda l, log: T.with_nvtx_range(l, "R", forward_color=3, backprop_color=4), None),
    "with_signpost_interval": (lambda l, log: T.with_signpost_interval(l, log), None),
    "map_list": (lambda l, log: T.map_list(l), lambda d: [d], ),
    "with_getitem-0": (lambda l, log: T.with_getitem(0, l), lambda d: (d, "other"), ),
    "with_getitem-1": (lambda l, log: T.with_getitem(1, l), lambda d: ("other", d, 7), ),
    "with_getitem-last": (lambda l, log: T.with_getitem(-1, l), lambda d: ("other", 7, d), ),
    "with_getitem--2": (lambda l, log: T.with_getitem(-2, l), lambda d: (7, d, "other"), ),
    "chain-noop": (lambda l, log: T.chain(T.noop(), l), None),
    "clone1": (lambda l, log: T.clone(l, 1), None),
    "tuplify": (lambda l, log: T.tuplify(l, T.noop()), None),
    "with_cpu": (lambda l, log: T.with_cpu(l, OPS), None),
}


def where_is(name):
    return {"with_getitem-0": 0, "with_getitem-1": 1, "with_getitem-last": 2, "with_getitem--2": 1, "map_list": 0}.get(name)


def wrap_cases(quick):
    for name, e in zoo.ENTRIES.items():
        for w in WRAPPERS:
            if w == "with_cpu" and e.kind not in ("rows", "rows2", "rows4", "cube", "ids", "ids2", "pair"):
                continue
            if w == "tuplify" and (e.params_only or e.kind in ("padded", "padded-tuple", "ragged-tuple")):
                continue
            if name == "with_nvtx_range" and w.startswith("with_"):
                continue
            for s in e.specs(quick):
                if w == "tuplify" and e.empty(s):
                    continue
                yield name, w, s


def patched(log):
    es = contextlib.ExitStack()
    es.enter_context(mock.patch("thinc.layers.with_nvtx_range.use_nvtx_range", log.range))
    es.enter_context(mock.patch("thinc.layers.with_signpost_interval.has_os_signpost", True))
    return es


def wrapped(ctx, case):
    name, w, spec = case
    e = zoo.ENTRIES[name]
    mk, enc = WRAPPERS[w]
    sig = f"{w}"
    plain, inner, log = e.build(), e.build(), Log()
    X = e.data(spec)
    where = f"{w}({name}) on {spec}"
    with patched(log):
        m = mk(inner, log)
        at = where_is(w)
        WX = enc(zoo.copy(X)) if enc else zoo.copy(X)
        Y, bp = plain(zoo.copy(X), is_train=True)
        ctx.step(4)
        log.events.clear()
        WY, wbp = m(WX, is_train=True)
        fw = list(log.events)
        log.events.clear()
        if at is not None:
            rest = [x for i, x in enumerate(WX) if i != at]
            ctx.require(type(WY) is type(WX) and len(WY) == len(WX) and [x for i, x in enumerate(WY) if i != at] == rest, f"{sig}:other-items", lambda: f"{where}: {WY!r}")
            got = WY[at] if len(WY) > at else None
        elif w == "tuplify":
            got = WY[0]
            ctx.require(type(WY) is tuple and len(WY) == 2 and same(WY[1], X), f"{sig}:output", where)
        else:
            got = WY
        if not ctx.require(same(got, Y), f"{sig}:output", lambda: f"{where}: {zoo.show(got)} != {zoo.show(Y)}"):
            return
        dY = zoo.gradient_for(Y, 3)
        dX = bp(zoo.copy(dY))
        WdY = zoo.copy(dY)
        if at is not None:
            WdY = type(WX)(WdY if i == at else ("d", i) for i in range(len(WX)))
        elif w == "tuplify":
            WdY = (WdY, zoo.rebuild(X, [a * 0 for a, _ in zoo.leaves(X)]))
        WdX = wbp(WdY)
        bw = list(log.events)
        if at is not None:
            ctx.require(len(WdX) == len(WX) and all(WdX[i] == ("d", i) for i in range(len(WX)) if i != at), f"{sig}:other-gradients", lambda: f"{where}: {WdX!r}")
            WdX = WdX[at]
        if w != "tuplify" or e.kind not in ("ids", "ids2", "idlist", "idlist2", "sparse"):
            ctx.require(same(WdX, dX), f"{sig}:input-gradient", lambda: f"{where}: {zoo.show(WdX)} != {zoo.show(dX)}")
        ga, gb = grads(inner), grads(plain)
        ctx.require(len(ga) == len(gb) and all(np.array_equal(x[1], y[1]) if isinstance(x[1], np.ndarray) else all(np.array_equal(p, q) for p, q in zip(x[1], y[1])) for x, y in zip(ga, gb)), f"{sig}:param-gradients", where)
        n = "R" if "named" in w else inner.name
        if w == "with_debug":
            ctx.require([k for k, _ in fw] == ["forward"] and fw[0][1][0] is m and fw[0][1][1] is WX and fw[0][1][2] is True, f"{sig}:on_forward", lambda: f"{where}: {fw}")
            ctx.require([k for k, _ in bw] == ["backprop"] and len(bw[0][1]) == 1 and bw[0][1][0] is WdY, f"{sig}:on_backprop", lambda: f"{where}: {bw}")
        elif w == "with_debug twice":
            ctx.require([k for k, _ in fw] == ["outer", "inner"] and [k for k, _ in bw] == ["outer-b", "inner-b"], f"{sig}:order", lambda: f"{where}: {fw} {bw}")
        elif w.startswith("with_nvtx") or w.startswith("with_signpost"):
            ctx.require(fw == [("open", f"{n} forward"), ("close", f"{n} forward")] and bw == [("open", f"{n} backprop"), ("close", f"{n} backprop")], f"{sig}:ranges", lambda: f"{where}: {fw} {bw}")
        # prediction
        log.events.clear()
        P = m.predict(enc(zoo.copy(X)) if enc else zoo.copy(X))
        P = P[at] if at is not None else P[0] if w == "tuplify" else P
        ctx.require(same(P, plain.predict(zoo.copy(X))), f"{sig}:predict", where)
        if w == "with_debug":
            ctx.require([(k, a[2]) for k, a in log.events] == [("forward", False)], f"{sig}:on_forward", lambda: f"{where}: predict: {log.events}")
    ctx.seen((name, w, spec))


# ---- 2. histories of events ---------------------------------------------------------------------------------
class Boom(Exception):
    pass


def toy(log, fail):
    """A layer whose phases are logged and may fail."""

    def init(model, X=None, Y=None):
        log.events.append(("do", "init"))
        if fail == "init":
            raise Boom()

    def forward(model, X, is_train):
        log.events.append(("do", "forward"))
        if fail == "forward":
            raise Boom()

        def backprop(dY):
            log.events.append(("do", "backprop"))
            if fail == "backprop":
                raise Boom()
            return dY * 2

        return X * 2, backprop

    return T.Model("toy", forward, init=init)


def event_cases(quick):
    for kind in ("debug", "nvtx", "signpost", "debug+nvtx", "signpost+debug", "debug-noinit", "nvtx-noinit", "signpost-noinit"):
        for fail in (None, "init", "forward", "backprop", "callback-init", "callback-forward", "callback-backprop"):
            if "noinit" in kind and fail == "init":
                continue
            yield kind, fail, 4 if quick else 5


def events(ctx, case):
    kind, fail, depth = case
    hist = [()]
    acts = ("init", "init0", "train", "predict", "back0", "back-last", "copy")
    for n in range(1, depth + 1):
        for h in itertools.product(acts, repeat=n):
            if n < depth and n > 1:
                continue
            events1(ctx, kind, fail, h)


def events1(ctx, kind, fail, h):
    log = Log()
    sig = f"events:{kind}"
    t = toy(log, fail)
    if "noinit" in kind:
        t.init = None

    def cb(phase):
        def f(*args):
            log.events.append(("callback", phase, len(args)))
            if fail == f"callback-{phase}":
                raise Boom()
        return f

    with patched(log):
        m = t
        layers = kind.replace("-noinit", "").split("+")
        for k in reversed(layers):
            if k == "debug":
                m = T.with_debug(m, on_init=cb("init"), on_forward=cb("forward"), on_backprop=cb("backprop"))
            elif k == "nvtx":
                m = T.with_nvtx_range(m)
            else:
                m = T.with_signpost_interval(m, log)
        ctx.require(m.name == "toy", f"{sig}:name", m.name)

        def expect(phase):
            """Events of one phase, and whether it fails."""
            ev, closes, failed = [], [], False
            for k in layers:
                if k == "debug":
                    ev.append(("callback", phase, {"init": 3, "forward": 3, "backprop": 1}[phase]))
                    if fail == f"callback-{phase}":
                        failed = True
                        break
                elif k == "signpost" or phase != "init":
                    if phase == "init" and "noinit" in kind and k == layers[-1]:
                        continue
                    ev.append(("open", f"toy {phase}"))
                    closes.append(("close", f"toy {phase}"))
            if not failed and not (phase == "init" and "noinit" in kind):
                ev.append(("do", phase))
                failed = fail == phase
            return ev + closes[::-1], failed

        backs = []
        X = values((2, 2))
        for a in h:
            log.events.clear()
            ctx.step()
            if a in ("init", "init0"):
                phase, run = "init", (lambda: m.initialize(X=X, Y=X) if a == "init" else m.initialize())
            elif a == "train":
                phase, run = "forward", (lambda: m(X, True))
            elif a == "predict":
                phase, run = "forward", (lambda: m.predict(X))
            elif a == "copy":
                m = m.copy()
                ctx.require(not log.events, f"{sig}:copy", f"{h}: {log.events}")
                continue
            else:
                if not backs:
                    continue
                b = backs[0 if a == "back0" else -1]
                phase, run = "backprop", (lambda: b(X + 1))
            want, fails = expect(phase)
            try:
                r = run()
                ok = True
            except Boom:
                ok = False
            ctx.require(ok == (not fails), f"{sig}:failure", lambda: f"{h}, failing {fail}: {a} {'succeeded' if ok else 'failed'}")
            ctx.require(log.events == want, f"{sig}:{phase}", lambda: f"{h}, failing {fail}, at {a}: events {log.events}, expected {want}")
            if not ok:
                continue
            if a in ("init", "init0"):
                ctx.require(r is m, f"{sig}:initialize-returns", f"{h}")
            elif a == "train":
                ctx.require(np.array_equal(r[0], X * 2), f"{sig}:output", f"{h}")
                backs.append(r[1])
            elif a == "predict":
                ctx.require(np.array_equal(r, X * 2), f"{sig}:output", f"{h}")
            else:
                ctx.require(np.array_equal(r, (X + 1) * 2), f"{sig}:gradient", f"{h}")
    ctx.seen((kind, fail, h))


# ---- 3. uniqued ------------------------------------------------------------------------------------------------
def scaled(column):
    """Floats out of one column, with an input gradient and a parameter."""

    def forward(model, X, is_train):
        w = model.get_param("w")
        x = X[:, column : column + 1].astype("f")
        model.attrs["calls"].append(X.shape[0])

        def backprop(dY):
            model.inc_grad("w", (x * dY).sum(axis=0))
            d = np.zeros(X.shape, "f")
            d[:, column] = (dY * w).sum(axis=1)
            return d

        return x * w, backprop

    m = T.Model("scaled", forward, params={"w": None}, dims={"nO": 2}, attrs={"calls": []})
    m.set_param("w", np.array([0.5, -2.0], "f"))
    return m


INNER = {
    "Embed": lambda c: T.Embed(2, 6, column=c), "HashEmbed": lambda c: T.HashEmbed(2, 5, seed=3, column=c), "Embed+Mish": lambda c: T.chain(T.Embed(3, 6, column=c), T.Mish(2)),
    "scaled": scaled, "Embed|Hash": lambda c: T.concatenate(T.Embed(1, 6, column=c), T.HashEmbed(1, 5, seed=1, column=c)),
}


def uniq_cases(quick):
    for n in range(0, 5 if quick else 6):
        for keys in itertools.product((0, 2, 5), repeat=n):
            for cols, c in ((1, 0), (2, 0), (2, 1), (3, 1)):
                yield keys, cols, c
    for n in (17, 130) if quick else (7, 16, 17, 33, 65, 130, 300):
        for k in (1, 2, 3, 6):
            for keys in (tuple(i % k for i in range(n)), tuple((n - i) * 7 % k for i in range(n)), tuple(i * k // n for i in range(n)), (k - 1,) + (0,) * (n - 1), (0,) * (n - 1) + (k - 1,)):
                for cols, c in ((1, 0), (3, 1)):
                    yield keys, cols, c


def uniq(ctx, case):
    keys, cols, c = case
    n = len(keys)
    base = (np.arange(n * cols).reshape(n, cols) * 7 + 1) % 6
    for dtype in ("uint64", "int64", "int32"):
        X0 = base.astype(dtype)
        X0[:, c] = keys
        for lay in ("C", "F", "strided") if dtype == "int64" else ("C",):
            X = layout(X0, lay)
            for name, mk in INNER.items():
                models = []
                for wrap in (False, True):
                    np.random.seed(0)
                    l = mk(c)
                    l.initialize(X=np.zeros((1, cols), dtype))
                    zoo.fill(l)
                    models.append(T.uniqued(l, column=c) if wrap else l)
                a, b = models
                where = f"uniqued({name}, column={c}) on keys {keys} in {cols} columns ({dtype}, {lay})"
                ctx.step(4)
                keep = X.copy()
                Y, bp = a(X, True)
                U, ubp = b(X, True)
                if not ctx.require(U.shape == Y.shape and U.dtype == Y.dtype and np.allclose(U, Y, rtol=1e-6, atol=1e-7), f"uniqued:{name}:output", lambda: f"{where}: {U} != {Y}"):
                    continue
                if name == "scaled":
                    calls = b.layers[0].attrs["calls"]
                    ctx.require(n * cols < 2 or calls == [len(set(keys))], "uniqued:computes-unique-rows-once", lambda: f"{where}: the layer saw {calls} rows")
                ctx.require(np.allclose(b.predict(X), a.predict(X), rtol=1e-6), f"uniqued:{name}:predict", where)
                for g in ("equal", "distinct", "zero-one"):
                    for m in models:
                        for k in m.walk():
                            for p in k.param_names:
                                if k.has_grad(p):
                                    k.get_grad(p)[...] = 0
                    dY = {"equal": lambda: Y * 0.5 + 1, "distinct": lambda: values(Y.shape, salt=5), "zero-one": lambda: (np.arange(Y.size).reshape(Y.shape) % 2).astype("f")}[g]()
                    kd = dY.copy()
                    dX, dU = bp(dY.copy()), ubp(dY.copy())
                    ctx.step(2)
                    for (p, ga), (_, gb) in zip(grads(a), grads(b)):
                        ctx.require(np.allclose(ga, gb, rtol=1e-5, atol=1e-6), f"uniqued:{name}:param-gradient", lambda: f"{where}, {g} gradient: {p}: {gb} != {ga}")
                    want = np.array(dX, "f")
                    for k in set(keys):
                        rows = [i for i in range(n) if keys[i] == k]
                        want[rows] = np.array(dX, "f")[rows].mean(axis=0)
                    ctx.require(dU.shape == dX.shape and np.allclose(dU, want, rtol=1e-5, atol=1e-6), f"uniqued:{name}:input-gradient", lambda: f"{where}, {g} gradient: {dU} != {want}")
                ctx.require(np.array_equal(X, keep), "uniqued:changes-input", where)
    ctx.seen((keys, cols, c))


# ---- 4. lists, items and pairs -------------------------------------------------------------------------------------
def list_cases(quick):
    for n in range(0, 4 if quick else 5):
        for lens in itertools.product((0, 1, 2), repeat=n):
            for inner in ("Linear", "Mish", "window", "Maxout", "norm", "residual"):
                yield "map_list", inner, lens
    for n in range(0, 4):
        for inner in ("Linear", "Mish", "Maxout", "Relu+norm", "chain"):
            for s in ("Cauchy", "sum", "prod", "first"):
                for equal in (False, True):
                    yield "siamese", inner, (n, s, equal)


LAYER = {
    "Linear": lambda: T.Linear(2, 3), "Mish": lambda: T.Mish(2, 3), "window": lambda: T.chain(T.expand_window(1), T.Linear(2, 9)), "Maxout": lambda: T.Maxout(2, 3, nP=2),
    "norm": lambda: T.LayerNorm(3), "residual": lambda: T.residual(T.Mish(3, 3)), "Relu+norm": lambda: T.Relu(2, 3, normalize=True), "chain": lambda: T.chain(T.Linear(4, 3), T.Mish(2, 4)),
}


def binop(name):
    def forward(model, X, is_train):
        a, b = X
        if name == "sum":
            return a + 2 * b, lambda d: (d, 2 * d)
        if name == "prod":
            return a * b, lambda d: (d * b, d * a)
        return a * 1, lambda d: (d, d * 0)

    return T.Model(name, forward, dims={"nO": None})


def ready(m):
    m.initialize()
    zoo.fill(m)
    return m


def lists(ctx, case):
    what, inner, spec = case
    a, b = ready(LAYER[inner]()), ready(LAYER[inner]())
    where = f"{what}({inner}) on {spec}"
    ctx.step(2)
    if what == "map_list":
        Xs = [values((n, 3), salt=i + 1) for i, n in enumerate(spec)]
        Ys, bps = [], []
        for X in Xs:
            Y, bp = a(X, True)
            Ys.append(Y)
            bps.append(bp)
        m = T.map_list(b)
        Z, zb = m(Xs, True)
        ctx.require(isinstance(Z, list) and len(Z) == len(Ys) and all(np.array_equal(x, y) for x, y in zip(Z, Ys)), "map_list:output", where)
        dYs = [values(Y.shape, salt=9 + i) for i, Y in enumerate(Ys)]
        dX = [bp(d.copy()) for bp, d in zip(bps, dYs)]
        dZ = zb([d.copy() for d in dYs])
        ctx.require(isinstance(dZ, list) and len(dZ) == len(dX) and all(np.array_equal(x, y) for x, y in zip(dZ, dX)), "map_list:input-gradient", where)
    else:
        n, s, equal = spec
        mk = (lambda: ready(T.CauchySimilarity(2 if inner != "x" else 3))) if s == "Cauchy" else (lambda: binop(s))
        sa, sb = mk(), mk()
        X1, X2 = values((n, 3), salt=1), values((n, 3), salt=1 if equal else 6)
        if equal:
            X2 = X1
        V1, b1 = a(X1, True)
        V2, b2 = a(X2, True)
        Y, bs = sa((V1, V2), True)
        m = T.siamese(b, sb)
        Z, zb = m((X1, X2), True)
        ctx.require(np.array_equal(Z, Y), "siamese:output", lambda: f"{where}: {Z} != {Y}")
        dY = values(Y.shape, salt=4)
        d1, d2 = bs(dY.copy())
        dX1, dX2 = b1(d1), b2(d2)
        r = zb(dY.copy())
        ctx.require(isinstance(r, tuple) and len(r) == 2 and np.array_equal(r[0], dX1) and np.array_equal(r[1], dX2), "siamese:input-gradient", where)
        for (p, x), (_, y) in zip(grads(sa), grads(sb)):
            ctx.require(np.array_equal(x, y), f"siamese:similarity-gradient", f"{where}: {p}")
    for (p, x), (_, y) in zip(grads(a), grads(b)):
        ctx.require(np.allclose(x, y, rtol=1e-6, atol=1e-7), f"{what}:param-gradient", lambda: f"{where}: {p}: {y} != {x}")
    ctx.seen(case)


# ---- 5. indexing --------------------------------------------------------------------------------------------------------
IDX1 = [0, 1, -1, slice(None), slice(0, 2), slice(1, None), slice(None, None, 2), slice(None, None, -1), slice(0, 0), [0], [1, 0], [0, 0, 1], [-1, 0], []]


def index_cases(quick):
    for n in (0, 1, 2, 3):
        for w in (1, 2, 3):
            yield n, w


def indexing(ctx, case):
    n, w = case
    both = [(a,) for a in IDX1] + [(a, b) for a in IDX1 for b in IDX1]
    for raw in both:
        idx = tuple(np.array(i, dtype="i") if isinstance(i, list) else i for i in raw)
        idx = idx[0] if len(idx) == 1 else idx
        for fn, dt in ((T.array_getitem, "f"), (floats_getitem, "f"), (ints_getitem, "i")):
            X = (np.arange(n * w).reshape(n, w) + 1).astype(dt)
            m = fn(idx)
            try:
                want = X[idx]
            except IndexError:
                if n == 0:
                    continue
                ctx.step()
                try:
                    r = m.predict(X)
                except IndexError:
                    continue
                ctx.fail("getitem:out-of-range", f"{raw} on {X.shape} gave {r!r}")
                continue
            ctx.step(2)
            Y, bp = m(X, True)
            ctx.require(np.array_equal(Y, want) and np.shape(Y) == np.shape(want), "getitem:output", lambda: f"{raw} on {X.shape}: {Y} != {want}")
            dY = (values(np.shape(want), salt=3) * 10).astype(dt) if np.ndim(want) else np.dtype(dt).type(3)
            dX = bp(dY)
            wd = np.zeros(X.shape, dt)
            if dt == "f":
                np.add.at(wd, idx, dY)
                ctx.require(dX.shape == X.shape and np.allclose(dX, wd), "getitem:gradient", lambda: f"{raw} on {X.shape}: {dX} != {wd}")
            else:
                ctx.require(dX.shape == X.shape, "getitem:gradient", lambda: f"{raw} on {X.shape}: {dX}")
    ctx.seen(case)


# ---- 6. resizing ------------------------------------------------------------------------------------------------------------
START = {
    "initialized": lambda mk: mk(2, 3).initialize(),
    "sized": lambda mk: mk(2, 3),
    "no nI": lambda mk: mk(2, None),
    "unset": lambda mk: mk(None, None),
    "no nO": lambda mk: mk(None, 3),
}
FILL = {"none": None, "zero": {"W": 0, "b": 0}, "bias": {"b": -7.5}, "both": {"W": 0.25, "b": -1e9}, "empty": {}}
BASE = {"Linear": T.Linear, "Softmax_v2": T.Softmax_v2, "Linear-init": functools.partial(T.Linear, init_W=lambda ops, s: np.full(s, 9, "f"), init_b=lambda ops, s: np.full(s, 8, "f"))}


def resize_cases(quick):
    for base in BASE:
        for start in START:
            for fill in FILL:
                for first in (1, 2, 3, 5):
                    yield base, start, fill, first, 3 if quick else 4
                for h in ((300, 301), (33, 65, 66), tuple(range(2, 40)), (257, "train", 258, "bytes", 300, "copy", 1000), (5, "weights") + sum(((n, "train") for n in range(6, 30)), ())):
                    yield base, start, fill, h, None


def resizing(ctx, case):
    base, start, fill, first, depth = case
    if depth is None:  # one long history
        resize1(ctx, base, start, fill, first)
        return
    acts = (1, 2, 3, 4, 6, "weights", "train", "init", "copy", "bytes")
    for n in range(0, depth + 1):
        for h in itertools.product(acts, repeat=n):
            if n < depth and n > 0:
                continue
            resize1(ctx, base, start, fill, (first,) + h)


def resize1(ctx, base, start, fill, h):
    l = START[start](BASE[base])
    fd = FILL[fill]
    m = T.resizable(l, resize_layer=functools.partial(resize_linear_weighted, fill_defaults=fd) if fill != "none" else resize_linear_weighted)
    W = b = None
    nI = l.maybe_get_dim("nI")
    nO = l.maybe_get_dim("nO")
    has = l.has_param("W") is True
    if has:
        l.set_param("W", values((2, 3), salt=4))
        l.set_param("b", values((2,), salt=5))
        W, b = l.get_param("W").copy(), l.get_param("b").copy()
    where = f"{base} ({start}, fill {fill}): {h}"
    for k, a in enumerate(h):
        inner = m.layers[0]
        ctx.step()
        if isinstance(a, int):
            before = {p: (inner.get_param(p), inner.get_param(p).copy()) for p in inner.param_names if inner.has_param(p)}
            small = nO is not None and a < nO
            try:
                r = resize_model(m, new_nO=a)
            except Exception as e:
                if not small:
                    ctx.fail(f"resize:raises:{start}", f"{where}, step {k}: {type(e).__name__}: {e}")
                    return
                ctx.require(m.layers[0] is inner and inner.maybe_get_dim("nO") == nO, "resize:refused-but-changed", where)
                continue
            if small and W is not None:
                ctx.fail("resize:shrinks-initialized", f"{where}, step {k}: shrunk from {nO} to {a}")
                return
            ctx.require(r is m, "resize:returns", where)
            new = m.layers[0]
            for p, (arr, copy) in before.items():
                ctx.require(np.array_equal(arr, copy) or new is inner, "resize:old-layer-changed", lambda: f"{where}, step {k}: {p}")
            ctx.require(new is inner or not any(new.get_param(p) is arr for p, (arr, _) in before.items()), "resize:weights-shared", where)
            if W is not None and a != nO:
                fW, fb = (fd or {}).get("W", 0), (fd or {}).get("b", 0)
                W = np.concatenate([W, np.full((a - nO, nI), fW, "f")])
                b = np.concatenate([b, np.full((a - nO,), fb, "f")])
            elif W is None and new.has_param("W"):
                W, b = new.get_param("W").copy(), new.get_param("b").copy()
            nO = a
            ctx.require(new is inner or new.attrs is not inner.attrs, "resize:attrs-shared", where)
        elif a == "weights":
            if W is None:
                continue
            W, b = values((nO, nI), salt=20 + k), values((nO,), salt=30 + k)
            inner.set_param("W", W.copy())
            inner.set_param("b", b.copy())
        elif a == "train":
            if W is None:
                continue
            X = values((2, nI), salt=k)
            Y, bp = m(X, True)
            dY = values(Y.shape, salt=2)
            bp(dY)
            opt = T.Optimizer(0.125, L2=0.0, grad_clip=0.0, beta1=0.0, beta2=0.0)
            m.finish_update(opt)
            W = W - np.float32(0.125) * (dY.T @ X)
            b = b - np.float32(0.125) * dY.sum(axis=0)
        elif a == "init":
            if W is not None:
                ws, bs = inner.get_param("W").copy(), inner.get_param("b").copy()
            try:
                m.initialize(X=values((2, nI or 3), salt=1)) if nO is not None else None
            except Exception as e:
                ctx.fail("resize:initialize", f"{where}, step {k}: {type(e).__name__}: {e}")
                return
            if nO is not None:
                nI = nI or 3
                W, b = m.layers[0].get_param("W").copy(), m.layers[0].get_param("b").copy()
        elif a == "copy":
            m = m.copy()
        elif a == "bytes":
            if W is None:
                continue
            m2 = T.resizable(BASE[base](None, None), resize_layer=m.attrs["resize_layer"])
            m = m2.from_bytes(m.to_bytes())
        new = m.layers[0]
        ctx.require(new.maybe_get_dim("nO") == nO and new.maybe_get_dim("nI") == nI, "resize:dims", lambda: f"{where}, step {k}: {new.maybe_get_dim('nO')}, {new.maybe_get_dim('nI')}; expected {nO}, {nI}")
        if nO is not None and (isinstance(a, int) or a == "init"):
            ctx.require(m.maybe_get_dim("nO") == nO, "resize:own-dims", lambda: f"{where}, step {k}: resizable has nO {m.maybe_get_dim('nO')}, its layer {nO}")
        if W is not None:
            ctx.require(new.get_param("W").shape == W.shape and np.allclose(new.get_param("W"), W, rtol=1e-5, atol=1e-6), "resize:weights", lambda: f"{where}, step {k}: W = {new.get_param('W')}, expected {W}")
            ctx.require(new.get_param("b").shape == b.shape and np.allclose(new.get_param("b"), b, rtol=1e-5, atol=1e-6), "resize:weights", lambda: f"{where}, step {k}: b = {new.get_param('b')}, expected {b}")
            X = values((2, nI), salt=3)
            Y = m.predict(X)
            want = X @ W.T + b
            if base == "Softmax_v2":
                e = np.exp(want - want.max(axis=1, keepdims=True))
                want = e / e.sum(axis=1, keepdims=True)
            ctx.require(Y.shape == want.shape and np.allclose(Y, want, rtol=1e-4, atol=1e-5), "resize:output", lambda: f"{where}, step {k}")
    ctx.seen((base, start, fill, h))


FAMILIES = {"wrapped": wrapped, "events": events, "uniq": uniq, "lists": lists, "indexing": indexing, "resizing": resizing}


def explore(ctx):
    q = ctx.quick
    ctx.each("resizing", lambda: resize_cases(q), resizing)
    ctx.each("events", lambda: event_cases(q), events)
    ctx.each("uniq", lambda: uniq_cases(q), uniq)
    ctx.each("wrapped", lambda: wrap_cases(q), wrapped)
    ctx.each("lists", lambda: list_cases(q), lists)
    ctx.each("indexing", lambda: index_cases(q), indexing)


def replay(ctx, family, case):
    FAMILIES[family](ctx, case)
