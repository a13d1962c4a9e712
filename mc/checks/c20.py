"""C20: every small mix of explicit dimensions and sample data, for every layer and every small composition."""
import itertools
from unittest import mock

import numpy as np
import thinc.initializers
from mc import zoo
from mc.util import backends, values
from thinc import api as T
from thinc.layers.array_getitem import ints_getitem
from thinc.layers.with_flatten_v2 import with_flatten_v2
from thinc.layers.resizable import resize_linear_weighted
from thinc.types import Padded, Ragged
from thinc.util import get_width

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration, on the real code, of every mix of explicit dimensions and sample data for every layer and every small composition, against the documented inference policy; recording layers check that wrappers initialize their layer with exactly the data they later run it on; the random source is a controller for the initializers"
NOTE = "30 layers x all explicit/missing/contradictory dimension and sample widths; all compositions of up to 3 leaves (Linear with every explicit mask, LayerNorm, no-op, dropout) by chain/concatenate/add with a residual, with_array or clone around any node; 25 wrappers x all batch kinds x all lengths; 9 initializers x all shapes."
RULE = "state = (explicit dimensions, sample widths, dimensions after initialize); transition = one initialize or predict"
ASSUMPTIONS = [
    "where neither explicit dimensions nor samples determine a dimension, the outcome is unspecified",
    "chain hands the sample output only to layers whose output width is unset (documented policy); a sample output contradicting an explicit last layer is not required to be refused",
    "Softmax, Sigmoid: the sample output need not agree with explicit nO; a contradicting sample input may be refused at the first prediction instead",
]
OPS = T.NumpyOps()


def rows(n, w):
    return values((n, w), salt=w)


def dims(m):
    return {d: m.maybe_get_dim(d) for d in m.dim_names}


# ---- 1. single layers --------------------------------------------------------------------------------
class Spy:
    """Initializer that records the shapes it was asked for."""

    def __init__(self, base):
        self.base, self.made = base, []

    def __call__(self, ops, shape):
        n = int(np.prod(shape))
        a = (np.arange(n, dtype="f").reshape(shape) + self.base) * 0.01
        self.made.append(a.copy())
        return a


def ids(n, w):
    return np.zeros(n, "int64")


def padded(n, w):
    return OPS.list2padded([rows(k + 1, w) for k in range(n)])


def ragged(n, w):
    return Ragged(rows(2 * n, w), np.array([2] * n, "i"))


def sparse(n, w):
    return (np.arange(2 * n, dtype="uint64"), np.ones(2 * n, "f"), np.array([2] * n, "i"))


DENSE2 = {"W": "OI", "b": "O"}


class L:
    def __init__(self, make, given, params, X=rows, Y=rows, x="nI", y="nO", same=(), inits=("init_W", "init_b"), y_strict=True, x_strict=True, chained=False, out=lambda d: d["nO"], defaults=None):
        self.make, self.given, self.params, self.X, self.Y, self.x, self.y = make, given, params, X, Y, x, y
        self.same, self.inits, self.y_strict, self.x_strict, self.chained, self.out = same, inits, y_strict, x_strict, chained, out
        self.defaults = defaults or {}


def lstm_size(d, depth, dirs):
    nH, nI = d["nO"] // dirs, d["nI"]
    n, width = 0, nI
    for _ in range(depth):
        n += dirs * (4 * nH * (width + nH) + 8 * nH)
        width = nH * dirs
    return (n,)


LAYERS = {}
for name in ("Linear", "Relu", "Mish", "Swish", "Gelu", "Dish", "HardSwish", "HardSwishMobilenet", "ClippedLinear", "HardSigmoid", "HardTanh", "ReluK"):
    LAYERS[name] = L(getattr(T, name), ("nO", "nI"), {"W": ("nO", "nI"), "b": ("nO",)})
    if name != "Linear":
        LAYERS[name + "+normalize+dropout"] = L(lambda _c=getattr(T, name), **kw: _c(normalize=True, dropout=0.3, **kw), ("nO", "nI"), {"W": ("nO", "nI"), "b": ("nO",)}, chained=True, y_strict=False)
LAYERS["Maxout"] = L(T.Maxout, ("nO", "nI", "nP"), {"W": ("nO", "nP", "nI"), "b": ("nO", "nP")}, defaults={"nP": 3})
LAYERS["Maxout+normalize+dropout"] = L(lambda **kw: T.Maxout(normalize=True, dropout=0.3, **kw), ("nO", "nI", "nP"), {"W": ("nO", "nP", "nI"), "b": ("nO", "nP")}, chained=True, y_strict=False, defaults={"nP": 3})
for name in ("Softmax", "Softmax_v2", "Sigmoid"):
    LAYERS[name] = L(getattr(T, name), ("nO", "nI"), {"W": ("nO", "nI"), "b": ("nO",)}, y_strict=False, x_strict=False)
LAYERS["LayerNorm"] = L(T.LayerNorm, ("nI",), {"G": ("nI",), "b": ("nI",)}, same=("nI", "nO"), inits=(), y_strict=False)
LAYERS["Embed"] = L(T.Embed, ("nO", "nV"), {"E": ("nV", "nO")}, X=ids, x=None, inits=("initializer",))
LAYERS["HashEmbed"] = L(lambda **kw: T.HashEmbed(**kw) if "nO" in kw and "nV" in kw else None, ("nO", "nV"), {"E": ("nV", "nO")}, X=lambda n, w: ids(n, w).astype("uint64"), x=None, y=None, inits=("initializer",))
LAYERS["SparseLinear_v2"] = L(T.SparseLinear_v2, ("nO", "length"), {"W": None, "b": ("nO",)}, X=sparse, x=None, inits=(), defaults={"length": 2**18})
LAYERS["MultiSoftmax"] = L(lambda nO=None, nI=None: T.MultiSoftmax((1, nO - 1), nI) if nO else None, ("nO", "nI"), {"W": ("nO", "nI"), "b": ("nO",)}, y=None, inits=())
LAYERS["CauchySimilarity"] = L(T.CauchySimilarity, ("nI",), {"W": ("nI",)}, X=lambda n, w: (rows(n, w), rows(n, w) + 1), Y=lambda n, w: np.ones(n, "f"), y=None, inits=(), out=lambda d: None)
LAYERS["ParametricAttention"] = L(lambda **kw: T.ParametricAttention(**kw), ("nO",), {"Q": ("nO",)}, X=ragged, Y=ragged, x="nO", y=None, inits=())
LAYERS["ParametricAttention_v2"] = L(lambda **kw: T.ParametricAttention_v2(**kw), ("nO",), {"Q": ("nO",)}, X=ragged, Y=ragged, x="nO", y=None, inits=())
LAYERS["ParametricAttention_v2+key"] = L(lambda **kw: T.ParametricAttention_v2(key_transform=T.Linear(), **kw), ("nO",), {"Q": ("nO",)}, X=ragged, Y=ragged, x="nO", y=None, inits=())
for _d in (1, 2):
    for _b in (False, True):
        LAYERS[f"LSTM-{_d}-{'bi' if _b else 'uni'}"] = L(
            lambda _d=_d, _b=_b, **kw: T.LSTM(bi=_b, depth=_d, **kw), ("nO", "nI"),
            {"LSTM": lambda d, _d=_d, _b=_b: lstm_size(d, _d, 1 + _b), "HC0": lambda d, _d=_d, _b=_b: (2, _d, 1 + _b, d["nO"] // (1 + _b))},
            X=padded, Y=padded, inits=None)
DIMV = {"nO": (2, 4, 3), "nI": (2, 3), "nP": (1, 2), "nV": (1, 3), "length": (8, 16)}


def layer_cases(quick):
    for name, spec in LAYERS.items():
        ds = list(spec.given)
        for combo in itertools.product(*[(None,) + (DIMV[d] if not (quick and "LSTM" not in name) else DIMV[d][:2]) for d in ds]):
            for xw in (None, 2, 3, 4)[: 3 if quick else 4]:
                for yw in (None, 2, 4, 3)[: 3 if quick and "LSTM" not in name else 4]:
                    for n in (2,) if quick else (1, 2, 3):
                        yield name, dict(zip(ds, combo)), xw, yw, n


def layer(ctx, case):
    name, given, xw, yw, n = case
    spec = LAYERS[name]
    kw = {d: v for d, v in given.items() if v is not None}
    spies = []
    if spec.inits:
        spies = [Spy(100 * i) for i in range(len(spec.inits))]
        kw.update(zip(spec.inits, spies))
    m = spec.make(**kw)
    if m is None:
        return
    if name == "HashEmbed" and m.layers:
        return
    sig = name
    want = dict(spec.defaults)
    want.update({d: v for d, v in given.items() if v is not None})
    contra = False
    for d, v, strict in ((spec.x, xw, True), (spec.y, yw, spec.y_strict)):
        if d is None or v is None:
            continue
        if "LSTM" in name and "bi" in name and d == "nO" and v % 2:
            contra = True
        old = want.get(d)
        if old is None:
            if not (d == "nO" and spec.same and xw is not None):
                want[d] = v
        elif old != v and strict:
            contra = True
    if spec.same:  # the width in equals the width out
        w = want.get("nI") or want.get("nO")
        if w is not None:
            for d in spec.same:
                want[d] = w
        if given["nI"] is None and xw is None and yw is not None:
            want["nI"] = want["nO"] = yw
        if given["nI"] is not None and xw is None and yw not in (None, given["nI"]):
            contra = True
    if name.startswith("LSTM") and "bi" in name and want.get("nO") and want["nO"] % 2:
        contra = True
    need = set(spec.given) | ({spec.x} if spec.x else set())
    enough = not ("+key" in name and xw is None) and all(want.get(d) is not None for d in need)
    X = spec.X(n, xw) if xw is not None else None
    Y = spec.Y(n, yw) if yw is not None else None
    where = f"{name}({given}).initialize(X={xw}, Y={yw})"
    ctx.step()
    try:
        r = m.initialize(X=X, Y=Y)
    except Exception as e:
        if not contra and enough:
            ctx.fail(f"{sig}:refused", f"{where}: {type(e).__name__}: {e}")
        for d, v in given.items():
            if v is not None and m.has_dim(d):
                ctx.require(m.get_dim(d) == v, f"{sig}:explicit-dimension-changed", f"{where}: {d} {v} -> {m.get_dim(d)}")
        ctx.outcome((name, "refused"))
        return
    if contra:
        if not spec.x_strict and xw is not None:
            try:
                m.predict(X)
            except Exception:
                return
        ctx.fail(f"{sig}:contradiction-accepted", f"{where} was accepted: {dims(m)}")
        return
    if not enough:
        return
    ctx.require(r is m, f"{sig}:returns", where)
    ctx.seen((name, sorted(want.items())))
    # the layer holding the parameters
    core = m
    if spec.chained:
        core = m.layers[0]
        while core.layers:
            core = core.layers[0]

    def check(what):
        for d, v in want.items():
            if d in core.dim_names:
                ctx.require(core.maybe_get_dim(d) == v, f"{sig}:dim-{d}", lambda: f"{where}: {what}: {d} = {core.maybe_get_dim(d)}, expected {v}")
            if d in m.dim_names and (xw is not None or not spec.chained):
                ctx.require(m.maybe_get_dim(d) == v, f"{sig}:outer-dim-{d}", lambda: f"{where}: {what}: {d} = {m.maybe_get_dim(d)}, expected {v}")
        ctx.require((spec.chained and xw is None) or all(v is not None for k in m.walk() for d, v in dims(k).items() if (name, d) != ("HashEmbed", "nI")), f"{sig}:unset-dim", lambda: f"{where}: {what}: {[dims(k) for k in m.walk()]}")
        for p, shape in spec.params.items():
            if not ctx.require(core.has_param(p), f"{sig}:param-missing", lambda: f"{where}: {what}: {p}"):
                continue
            a = core.get_param(p)
            if p == "W" and shape is None:
                exp = (want["nO"] * want["length"],)
            else:
                exp = shape(want) if callable(shape) else tuple(want[d] for d in shape)
            ctx.require(a.shape == exp and a.dtype == np.float32, f"{sig}:param-shape", lambda: f"{where}: {what}: {p} {a.dtype} {a.shape}, expected {exp}")
        ctx.require(set(core.param_names) == set(spec.params), f"{sig}:param-names", where)
        if m is not core:
            ctx.require(all(k.has_param(p) for k in m.walk() for p in k.param_names), f"{sig}:param-unset", where)

    check("after initialize")
    for s, p in zip(spies, list(spec.params)):
        ctx.require(len(s.made) >= 1 and np.array_equal(core.get_param(p), s.made[-1]), f"{sig}:initializer-values", lambda: f"{where}: {p} is not what its initializer returned")
    predict(ctx, m, spec, want, n, where, sig)
    # again, with and without data
    for again in (0, 1):
        ctx.step()
        try:
            m.initialize() if again == 0 and name != "with X" else m.initialize(X=X, Y=Y)
        except Exception as e:
            ctx.fail(f"{sig}:re-initialize", f"{where}: again ({'no data' if again == 0 else 'same data'}): {type(e).__name__}: {e}")
            return
        check(f"after initializing again ({again})")
    predict(ctx, m, spec, want, n, where, sig)
    # contradiction after the fact
    for d, mk, which in ((spec.x, spec.X, "X"), (spec.y if spec.y_strict else None, spec.Y, "Y")):
        if d is None:
            continue
        bad = mk(n, want[d] + 2)
        ctx.step()
        try:
            m.initialize(**{which: bad})
            if which == "X":
                m.predict(bad)
        except Exception:
            pass
        else:
            if which == "X" or not spec.chained:
                ctx.fail(f"{sig}:contradiction-accepted", f"{where} then initialize({which} of width {want[d] + 2}): {dims(m)}")
        check("after a refused contradiction")


def predict(ctx, m, spec, want, n, where, sig):
    X = spec.X(n, want[spec.x] if spec.x else 2)
    ctx.step()
    try:
        Y = m.predict(X)
    except Exception as e:
        ctx.fail(f"{sig}:predict", f"{where}: predict: {type(e).__name__}: {e}")
        return
    w = spec.out(want)
    if w is not None:
        ctx.require(get_width(Y) == w, f"{sig}:output-width", lambda: f"{where}: output width {get_width(Y)}, nO = {w}")


# ---- 2. compositions -----------------------------------------------------------------------------------
class Contra(Exception):
    pass


class Unknown(Exception):
    pass


def build(t):
    k = t[0]
    if k == "L":
        return T.Linear(t[1], t[2])
    if k == "N":
        return T.LayerNorm(t[1])
    if k == "noop":
        return T.noop()
    if k == "drop":
        return T.Dropout(0.2)
    kids = [build(c) for c in t[1:]]
    return {"chain": T.chain, "concat": T.concatenate, "add": T.add, "residual": T.residual, "array": T.with_array, "clone": lambda m: T.clone(m, 2)}[k](*kids)


def known(t):
    """Output width fixed by explicit dimensions, None when it is still open, False when the layer has none."""
    k = t[0]
    if k in "LN":
        return t[1]
    if k in ("noop", "drop"):
        return False
    if k == "chain":
        return known(t[-1]) or None
    if k == "clone":
        return known(t[1]) or None
    if k == "concat":
        ks = [known(c) for c in t[1:]]
        return sum(ks) if all(ks) else None
    if k == "add":
        ks = [known(c) for c in t[1:]]
        return ks[0] if all(ks) else None
    if k == "residual":
        return known(t[1]) or None
    return known(t[1])


def has(t, end):
    """Whether the node has an input (0) / output (-1) dimension of its own."""
    k = t[0]
    if k in "LN" or (k == "residual"):
        return k != "residual" or has(t[1], end)
    if k in ("noop", "drop"):
        return False
    if k == "chain":
        return has(t[1] if end == 0 else t[-1], end)
    return all(has(c, end) for c in t[1:])


def entry(t):
    """Input width fixed by explicit dimensions."""
    k = t[0]
    if k == "L":
        return t[2]
    if k == "N":
        return t[1]
    if k in ("noop", "drop"):
        return None
    if k == "chain":
        return entry(t[1])
    return next((entry(c) for c in t[1:] if entry(c)), None)


def open_norm(t):
    return t == ("N", None) or any(open_norm(c) for c in t[1:] if isinstance(c, tuple))


def sim(t, x, y):
    """Output width when everything is determined and consistent; Contra / Unknown otherwise."""
    k = t[0]
    if k == "L":
        if (x and t[2] and t[2] != x) or (y and t[1] and t[1] != y):
            raise Contra()
        if not (x or t[2]) or not (y or t[1]):
            raise Unknown()
        return y or t[1]
    if k == "N":
        if x:
            if t[1] and t[1] != x:
                raise Contra()
            return x
        if y and t[1] and t[1] != y:
            raise Contra()
        if not (y or t[1]):
            raise Unknown()
        return t[1] or y
    if k in ("noop", "drop"):
        return x
    if k in ("chain", "clone"):
        kids = t[1:] if k == "chain" else (t[1], t[1])
        cur, out = x, None
        for c in kids:
            kn = known(c)
            out = sim(c, cur, y if kn is None else None)
            if x:
                cur = out
        if not x and open_norm(t) and y:
            raise Unknown()
        return out
    if k == "concat":
        kn = known(t)
        if y and kn and kn != y:
            raise Unknown()
        outs = [sim(c, x, y if y and not kn and known(c) is None else None) for c in t[1:]]
        if any(o is None for o in outs) or (y and not kn):
            raise Unknown()
        return sum(outs)
    if k == "add":
        outs = [sim(c, x, y if known(c) is not False else None) for c in t[1:]]
        if y and any(o != y for o in outs if o):
            raise Unknown()
        if len({o for o, c in zip(outs, t[1:]) if o and has(c, -1)}) > 1:
            raise Contra()
        if any(o is None for o in outs) or len(set(outs)) > 1:
            raise Unknown()
        return outs[0]
    if k == "residual":
        out = sim(t[1], x, y if known(t[1]) is None else None)
        inw = x or entry(t[1])
        if inw and out and out != inw:
            raise Contra() if has(t[1], -1) and has(t[1], 0) else Unknown()
        return out
    return sim(t[1], x, y)


LINEARS = [("L", o, i) for o in (None, 1, 2) for i in (None, 1, 2)]
OPSN = ("chain", "concat", "add")


def tree_cases(quick):
    xs, ys = (None, 1, 2), (None, 1, 2, 3)
    others = [("N", None), ("N", 2), ("noop",), ("drop",)]
    un = ("residual", "array", "clone")

    def go(trees):
        for t in trees:
            yield t

    one = [l for l in LINEARS + others]
    t1 = one + [(u, l) for u in un for l in one] + [(u, (v, l)) for u in un for v in un for l in one]
    t2 = []
    for op in OPSN:
        for a in one:
            for b in one:
                t2.append((op, a, b))
                for u in un:
                    t2 += [(op, (u, a), b), (op, a, (u, b)), (u, (op, a, b))]
    lin3 = LINEARS if not quick else [("L", None, None), ("L", 2, None), ("L", 1, None), ("L", None, 2), ("L", 1, 2), ("L", 2, 2), ("L", 2, 1)]
    t3 = []
    for a, b, c in itertools.product(lin3, repeat=3):
        for op in OPSN:
            t3.append((op, a, b, c))
            for op2 in OPSN:
                t3 += [(op, (op2, a, b), c), (op, a, (op2, b, c))]
    if not quick:
        for a, b, c in itertools.product(lin3[:2] + others, repeat=3):
            for op in OPSN:
                for op2 in OPSN:
                    for u in un:
                        t3 += [(op, (u, (op2, a, b)), c), (op, a, (u, (op2, b, c))), (op, (op2, a, (u, b)), c), (u, (op, (op2, a, b), c))]
    # `add` extends a first `add`, `concatenate` a first `concatenate`: same meaning
    for t in t1 + t2:
        for x in xs:
            for y in ys:
                yield t, x, y
    for t in t3:
        for x in (None, 2) if quick else xs:
            for y in (None, 2, 3) if quick else ys:
                yield t, x, y


def flat_equiv(t):
    """The same expression with a nested first add/concatenate of the same kind merged, as the functions do."""
    if t[0] in ("L", "N", "noop", "drop"):
        return t
    kids = [flat_equiv(c) for c in t[1:]]
    if t[0] in ("concat", "add") and kids[0][0] == t[0]:
        kids = list(kids[0][1:]) + kids[1:]
    return (t[0],) + tuple(kids)


def shows(t):
    return t[0] + (f"{t[1:]}" if t[0] in "LN" else "" if len(t) == 1 else "(" + ",".join(map(shows, t[1:])) + ")")


def watch(ctx, m, seen):
    """Compare, for every node, the widths it really receives and returns with its dimensions."""
    for node in m.walk():
        f = node._func

        def spy(model, X, is_train, f=f):
            Y, b = f(model, X, is_train)
            for d, v in (("nI", X), ("nO", Y)):
                w = model.maybe_get_dim(d)
                seen.append((model.name, d, w, get_width(v) if isinstance(v, np.ndarray) else None))
            return Y, b

        node._func = spy


def tree(ctx, case):
    t, x, y = case
    t = untuple(t)
    e = flat_equiv(t)
    try:
        out = sim(e, x, y)
        verdict = "ok"
    except Contra:
        verdict = "contra"
    except Unknown:
        verdict = "unknown"
    try:
        m = build(t)
    except Exception as err:
        ctx.fail(f"tree:{t[0]}:construct", f"{shows(t)}: {type(err).__name__}: {err}")
        return
    explicit = [(node, dims(node)) for node in m.walk()]
    X = rows(2, x) if x else None
    Y = rows(2, y) if y else None
    where = f"{shows(t)}.initialize(X={x}, Y={y})"
    ctx.step()
    try:
        m.initialize(X=X, Y=Y)
    except Exception as err:
        if verdict == "ok":
            ctx.fail(f"tree:{t[0]}:refused", f"{where}: {type(err).__name__}: {err}")
        ctx.outcome((verdict, "refused"))
        return
    ctx.outcome((verdict, "accepted"))
    for node, before in explicit:
        for d, v in before.items():
            if v is not None:
                ctx.require(node.maybe_get_dim(d) == v, "tree:explicit-dimension-changed", lambda: f"{where}: {node.name}.{d}: {v} -> {node.maybe_get_dim(d)}")
    for node in m.walk():
        if node.param_names:
            nO, nI = node.maybe_get_dim("nO"), node.maybe_get_dim("nI")
            if node.name == "linear" and node.has_param("W"):
                ctx.require(node.get_param("W").shape == (nO, nI) and node.get_param("b").shape == (nO,), "tree:param-shape", where)
    # run it, on data of the width it declares
    w = x or m.maybe_get_dim("nI")
    if not w:
        return
    seen = []
    watch(ctx, m, seen)
    ctx.step()
    try:
        Z = m.predict(rows(3, w))
    except Exception as err:
        if verdict == "ok":
            try:
                sim(e, w, y)
            except (Contra, Unknown):
                return
            ctx.fail(f"tree:{t[0]}:predict", f"{where}: {type(err).__name__}: {err}")
        return
    if verdict == "contra":
        ctx.fail(f"tree:{t[0]}:contradiction-accepted", f"{where}: accepted, predict returned {Z.shape}; {[(k.name, dims(k)) for k in m.walk()]}")
        return
    if verdict == "unknown":
        return
    try:
        sim(e, w, y)
    except (Contra, Unknown):
        return  # consistent without data only
    ctx.seen((repr(t), x, y))
    if x:
        ctx.require(Z.shape == (3, out), f"tree:{t[0]}:output-width", lambda: f"{where}: output {Z.shape}, expected width {out}")
    for name, d, dim, width in seen:
        ctx.require(dim is None or width is None or dim == width, f"tree:dims-disagree-with-data", lambda: f"{where}: {name}.{d} = {dim}, data has {width}")
    if x:
        for node in m.walk():
            for d in node.dim_names:
                ctx.require(node.maybe_get_dim(d) is not None or not plain(node), "tree:unset-dim", lambda: f"{where}: {node.name}.{d} is not set")
            ctx.require(all(node.has_param(p) for p in node.param_names), "tree:param-unset", where)
        before = [(dims(k), {p: k.get_param(p).shape for p in k.param_names}) for k in m.walk()]
        for args in ({}, {"X": X}, {"X": X, "Y": Y}):
            ctx.step()
            try:
                m.initialize(**args)
            except Exception as err:
                ctx.fail(f"tree:{t[0]}:re-initialize", f"{where}, again with {sorted(args)}: {type(err).__name__}: {err}")
                return
            after = [(dims(k), {p: k.get_param(p).shape for p in k.param_names}) for k in m.walk()]
            ctx.require(after == before, "tree:re-initialize-changes", lambda: f"{where}, again with {sorted(args)}: {before} -> {after}")


def plain(node):
    """Compositions around layers without dimensions have nothing to set theirs from."""
    return all(k.dim_names for k in node.walk())


def untuple(t):
    return tuple(untuple(c) if isinstance(c, (list, tuple)) else c for c in t)


# ---- 3. wrappers initialize their layer with the data they run it on ----------------------------------------
def probe(log, who="inner", fn=None, **kw):
    """A layer recording the data it is initialized with and run on."""

    def init(model, X=None, Y=None):
        log.append((who, "init", X, Y))
        for d, v in (("nI", X), ("nO", Y if Y is not None or fn else X)):
            if v is not None and model.has_dim(d) is None:
                try:
                    model.set_dim(d, get_width(v))
                except (ValueError, AttributeError):
                    pass

    def forward(model, X, is_train):
        Y = fn(X) if fn else double(X)
        log.append((who, "run", X, Y))
        return Y, lambda dY: X

    return T.Model(who, forward, init=init, dims={"nI": None, "nO": None}, **kw)


def double(X):
    """Elementwise; integers become floats of width 2."""
    if isinstance(X, np.ndarray) and X.dtype.kind in "iu":
        return np.concatenate([X.reshape(len(X), -1)] * 2, axis=1).astype("f")
    return zoo.rebuild(X, [a * 2 for a, _ in zoo.leaves(X)])


def lists(lens):
    return [values((n, 3), salt=n + i) for i, n in enumerate(lens)]


def ragged_(lens):
    return Ragged(values((sum(lens), 3), salt=sum(lens)), np.array(lens, "i"))


def padded_(lens):
    return OPS.list2padded(lists(lens))


def array2(lens):
    return values((sum(lens), 3), salt=sum(lens))


def array3(lens):
    return values((max(lens), len(lens), 3), salt=sum(lens))


def nested(lens):
    return [[10 * i + j for j in range(n)] for i, n in enumerate(lens)]


def ints2(lens):
    return np.array([[k % 2, k] for k in range(sum(lens))], "int64").reshape(-1, 2)


def pair(lens):
    return (array2(lens), array2(lens) + 1)


SEQ = {"list": lists, "ragged": ragged_, "padded": padded_}


def rl(f):
    return lambda X: f(X)


WRAP = {
    # name: (construct, kinds of input, how inner layers see Y)
    "with_array": (lambda P: T.with_array(P()), {**SEQ, "array": array2, "array3": array3}),
    "with_array-pad": (lambda P: T.with_array(P(), pad=1), {"ragged": ragged_, "padded": padded_, "array": array2}),
    "with_array2d": (lambda P: T.with_array2d(P()), {**SEQ, "array": array2}),
    "with_list": (lambda P: T.with_list(P()), SEQ),
    "with_padded": (lambda P: T.with_padded(P()), {**SEQ, "array": array3, "tuple": lambda n: tuple(getattr(padded_(n), k) for k in ("data", "size_at_t", "lengths", "indices"))}),
    "with_ragged": (lambda P: T.with_ragged(P()), {**SEQ, "tuple": lambda n: (ragged_(n).dataXd, ragged_(n).lengths)}),
    "with_flatten": (lambda P: T.with_flatten(P(fn=lambda X: values((len(X), 2)))), {"nested": nested}),
    "with_flatten_v2": (lambda P: with_flatten_v2(P(fn=lambda X: [x + 0.5 for x in X])), {"nested": nested}),
    "with_flatten_v2-arrays": (lambda P: with_flatten_v2(P(fn=lambda X: [values((2,), salt=i) for i, x in enumerate(X)])), {"nested": nested}),
    "map_list": (lambda P: T.map_list(P()), {"list": lists}),
    "with_getitem-0": (lambda P: T.with_getitem(0, P()), {"pair": pair}),
    "with_getitem-1": (lambda P: T.with_getitem(1, P()), {"pair": pair}),
    "with_cpu": (lambda P: T.with_cpu(P(), OPS), {"array": array2}),
    "uniqued": (lambda P: T.uniqued(P(), column=0), {"ints": ints2}),
    "uniqued-1": (lambda P: T.uniqued(P(), column=1), {"ints": ints2}),
    "resizable": (lambda P: T.resizable(P(), resize_linear_weighted), {"array": array2}),
    "tuplify": (lambda P: T.tuplify(P(), P(who="second", fn=lambda X: X[:, :1])), {"array": array2}),
    "with_reshape": (lambda P: T.with_reshape(P()), {"array3": array3}),
    "with_debug": (lambda P: T.with_debug(P()), {"array": array2}),
    "with_nvtx_range": (lambda P: T.with_nvtx_range(P()), {"array": array2}),
    "with_signpost_interval": (lambda P: T.with_signpost_interval(P(), mock.MagicMock()), {"array": array2}),
    "residual": (lambda P: T.residual(P()), {**SEQ, "array": array2}),
    "siamese": (lambda P: T.siamese(P(), P(who="second", fn=lambda X: (X[0] * X[1]).sum(axis=1, keepdims=True))), {"pair": pair}),
    "bidirectional": (lambda P: T.bidirectional(P(), P(who="second")), {"padded": padded_}),
    "chain": (lambda P: T.chain(P(), P(who="second", fn=lambda X: X[:, :2])), {"array": array2}),
    "chain3": (lambda P: T.chain(P(), P(who="second", fn=lambda X: X[:, :2]), P(who="third")), {"array": array2}),
    "concatenate": (lambda P: T.concatenate(P(), P(who="second")), {"list": lists, "ragged": ragged_, "array": array2}),
    "add": (lambda P: T.add(P(), P(who="second")), {"array": array2}),
    "clone1": (lambda P: T.clone(P(), 1), {"array": array2}),
    "attention-key": (lambda P: T.ParametricAttention_v2(key_transform=P()), {"ragged": ragged_}),
    "softmax-of-chain": (lambda P: T.chain(T.with_array(P()), T.list2ragged(), T.reduce_mean(), P(who="second")), {"list": lists}),
}
NO_Y = {"chain", "chain3", "concatenate", "attention-key", "softmax-of-chain", "residual", "tuplify-Y"}


def wrap_cases(quick):
    lens = [c for n in range(1, 4 if quick else 5) for c in itertools.product(range(1, 4 if quick else 5), repeat=n)]
    for name, (_, kinds) in WRAP.items():
        for kind in kinds:
            for ls in lens:
                for hasY in (False, True):
                    yield name, kind, ls, hasY


def same_data(a, b):
    return zoo.full(a) == zoo.full(b) if not isinstance(a, (int, float, str)) else a == b


def wrap(ctx, case):
    name, kind, lens, hasY = case
    with mock.patch("thinc.layers.with_signpost_interval.has_os_signpost", True):
        _wrap(ctx, *case)


def _wrap(ctx, name, kind, lens, hasY):
    make, kinds = WRAP[name]
    log = []
    m = make(lambda **kw: probe(log, **kw))
    X = kinds[kind](list(lens))
    where = f"{name} on {kind} {lens}{' with Y' if hasY else ''}"
    sig = f"wrapper:{name}"
    Y = None
    if hasY:
        # what the wrapper returns for X, taken from a separate instance
        log2 = []
        m2 = make(lambda **kw: probe(log2, **kw))
        m2.initialize(X=X)
        Y = m2.predict(X)
    ctx.step(2)
    try:
        m.initialize(X=X, Y=Y)
    except Exception as e:
        ctx.fail(f"{sig}:refused", f"{where}: {type(e).__name__}: {e}")
        return
    inits = [e for e in log if e[1] == "init"]
    m.predict(X)
    runs = [e for e in log if e[1] == "run"]
    ctx.seen((name, kind, lens, hasY, len(log)))
    for who in {e[0] for e in inits + runs}:
        i = [e for e in inits if e[0] == who]
        r = [e for e in runs if e[0] == who]
        if not ctx.require(i and r, f"{sig}:not-initialized", f"{where}: {who}: initialized {len(i)}, ran {len(r)} times"):
            continue
        _, _, x, y = i[-1]
        rx, ry = r[-1][2], r[-1][3]
        if name == "map_list":
            rx, ry = [(e[2], e[3]) for e in r if e[0] == who][-len(lens)]
        if name == "siamese" and who == "inner":
            rx, ry = r[-2][2], r[-2][3]
        if name.startswith("uniqued") and sum(lens) > 1:
            ctx.require(x is not None and get_width(x) == get_width(rx), f"{sig}:init-X", where)
            rx = x
        if name == "bidirectional" and who == "second":
            ctx.require(isinstance(x, Padded) and x.data.shape == rx.data.shape, f"{sig}:init-X", where)
            rx = x
        ctx.require(x is not None and zoo.struct(x) == zoo.struct(rx) and same_data(x, rx), f"{sig}:init-X", lambda: f"{where}: {who} was initialized with {zoo.show(x)} but runs on {zoo.show(rx)}")
        if hasY and name not in NO_Y and not name.startswith("uniqued") and not (name == "siamese" and who == "inner") and name != "bidirectional" and not (name == "add"):
            ctx.require(y is not None and zoo.struct(y) == zoo.struct(ry) and same_data(y, ry), f"{sig}:init-Y", lambda: f"{where}: {who} was initialized with output {zoo.show(y)} but returns {zoo.show(ry)}")
    # the wrapper's own dimensions are its layer's
    inner = m.layers[0] if m.layers else m
    if name not in ("siamese", "bidirectional", "tuplify", "chain", "chain3", "concatenate", "softmax-of-chain", "attention-key", "add"):
        for d in m.dim_names:
            ctx.require(m.maybe_get_dim(d) == inner.maybe_get_dim(d), f"{sig}:own-dims", lambda: f"{where}: {d} = {m.maybe_get_dim(d)}, the layer's is {inner.maybe_get_dim(d)}")


# wrappers of a layer with a fixed width, inside a chain that ends elsewhere
def seq_linear(w):
    return T.with_array(T.Linear(w))


INCHAIN = {
    "with_array": (lambda: T.with_array(T.Linear(3)), lambda: T.with_array(T.Linear()), lists),
    "with_array2d": (lambda: T.with_array2d(T.Linear(3)), lambda: T.with_array(T.Linear()), lists),
    "with_list": (lambda: T.with_list(T.with_array(T.Linear(3))), lambda: T.with_array(T.Linear()), ragged_),
    "with_ragged": (lambda: T.with_ragged(T.with_array(T.Linear(3))), lambda: T.with_array(T.Linear()), lists),
    "with_padded": (lambda: T.with_padded(T.with_array2d(T.Linear(3))), lambda: T.with_array(T.Linear()), lists),
    "with_padded LSTM": (lambda: T.with_padded(T.LSTM(4)), lambda: T.with_array(T.Linear()), lists),
    "map_list": (lambda: T.map_list(T.Linear(3)), lambda: T.with_array(T.Linear()), lists),
    "with_cpu": (lambda: T.with_cpu(T.Linear(3), OPS), T.Linear, array2),
    "with_debug": (lambda: T.with_debug(T.Linear(3)), T.Linear, array2),
    "resizable": (lambda: T.resizable(T.Linear(3), resize_linear_weighted), T.Linear, array2),
    "with_reshape": (lambda: T.with_reshape(T.Linear(3)), lambda: T.with_reshape(T.Linear()), array3),
    "uniqued": (lambda: T.uniqued(T.chain(ints_getitem((slice(0, None), 0)), T.Embed(3, 9))), T.Linear, ints2),
    "uniqued Embed": (lambda: T.uniqued(T.Embed(3, 9, column=0), column=0), T.Linear, ints2),
    "Embed": (lambda: T.Embed(3, 9), T.Linear, lambda n: ints2(n)[:, 0]),
    "HashEmbed": (lambda: T.HashEmbed(3, 9, column=0), T.Linear, lambda n: ints2(n).astype("uint64")),
    "concatenate": (lambda: T.concatenate(T.Linear(3), T.Linear(2)), T.Linear, array2),
    "concatenate Embed": (lambda: T.concatenate(T.Embed(3, 9, column=0), T.Embed(4, 9, column=1)), T.Linear, ints2),
    "concatenate3": (lambda: T.concatenate(T.concatenate(T.Linear(3), T.Linear(2)), T.Linear(4)), T.Linear, array2),
    "concatenate wrapped": (lambda: T.concatenate(T.with_array(T.Linear(3)), T.with_array(T.Linear(2))), lambda: T.with_array(T.Linear()), lists),
    "concatenate attention": (lambda: T.concatenate(T.reduce_mean(), T.reduce_max()), T.Linear, ragged_),
    "add": (lambda: T.add(T.Linear(3), T.Linear(3)), T.Linear, array2),
    "residual": (lambda: T.residual(T.Linear(3)), T.Linear, array2),
    "residual Relu": (lambda: T.residual(T.Relu(3, normalize=True, dropout=0.1)), T.Linear, array2),
    "clone": (lambda: T.clone(T.Linear(3), 2), T.Linear, array2),
    "Relu": (lambda: T.Relu(3, normalize=True, dropout=0.1), T.Softmax, array2),
    "Maxout": (lambda: T.Maxout(3, normalize=True, dropout=0.1), T.Softmax, array2),
    "chain": (lambda: T.chain(T.Linear(3), T.LayerNorm()), T.Linear, array2),
    "expand_window": (lambda: T.chain(T.expand_window(1), T.Linear(3)), T.Linear, array2),
    "attention": (lambda: T.chain(T.ParametricAttention(), T.reduce_sum()), T.Linear, ragged_),
    "attention v2": (lambda: T.chain(T.ParametricAttention_v2(key_transform=T.Gelu(3)), T.reduce_sum()), T.Linear, ragged_),
    "siamese": (lambda: T.siamese(T.Linear(3), T.CauchySimilarity()), lambda: T.noop(), pair),
    "siamese explicit": (lambda: T.siamese(T.Linear(3, 3), T.CauchySimilarity(3)), lambda: T.noop(), pair),
    "bidirectional": (lambda: T.bidirectional(T.LSTM(4), T.LSTM(4)), lambda: T.with_array2d(T.Linear()), padded_),
    "tuplify": (lambda: T.tuplify(T.Linear(3), T.Linear(2)), lambda: T.with_getitem(0, T.Linear(5)), array2),
    "with_getitem": (lambda: T.with_getitem(1, T.Linear(3)), lambda: T.with_getitem(0, T.Linear(5)), pair),
    "PyTorch": (lambda: T.PyTorchWrapper(__import__("torch").nn.Linear(3, 4)), T.Linear, array2),
}
LASTW = 5


def chain_cases(quick):
    for name in INCHAIN:
        for lens in itertools.product(range(1, 4), repeat=2):
            for hasX in (True,):
                for hasY in (False, True):
                    for where in ("first", "nested", "with_debug", "noop-first"):
                        yield name, lens, hasX, hasY, where


def inchain(ctx, case):
    name, lens, hasX, hasY, place = case
    mk, last, data = INCHAIN[name]
    X = data(list(lens))
    where = f"chain({name}, last) ({place}) on {lens}"
    m = mk()
    lst = last()
    if not hasY:
        for k in lst.walk():
            if k.has_dim("nO") is None:
                k.set_dim("nO", LASTW)
    full = {"first": lambda: T.chain(m, lst), "nested": lambda: T.chain(T.chain(m, lst), T.noop()), "with_debug": lambda: T.chain(T.with_debug(m), lst), "noop-first": lambda: T.chain(T.noop(), m, lst)}[place]()
    Y = None
    if hasY:
        # a sample of the output: run an equal model with the last width fixed
        m2, l2 = mk(), last()
        for k in l2.walk():
            if k.has_dim("nO") is None:
                k.set_dim("nO", LASTW)
        ref = T.chain(m2, l2)
        ref.initialize(X=X)
        Y = ref.predict(X)
    ctx.step(2)
    try:
        full.initialize(X=X, Y=Y)
        Z = full.predict(X)
    except Exception as e:
        ctx.fail(f"in-chain:{name}:refused", f"{where}: {type(e).__name__}: {e}")
        return
    ctx.seen((name, lens, hasY, place))
    if Y is not None:
        ctx.require(zoo.struct(Z) == zoo.struct(Y), f"in-chain:{name}:output", lambda: f"{where}: {zoo.show(Z)} for sample {zoo.show(Y)}")
    for node in m.walk():
        ctx.require(all(node.has_param(p) for p in node.param_names), f"in-chain:{name}:param-unset", where)
    if name not in ("siamese", "siamese explicit", "tuplify", "with_getitem"):
        ctx.require(get_width(Z) == LASTW, f"in-chain:{name}:width", lambda: f"{where}: {get_width(Z)}")
    shapes = [{p: k.get_param(p).shape for p in k.param_names} for k in full.walk()]
    ds = [dims(k) for k in full.walk()]
    for args in ({}, {"X": X}, {"X": X, "Y": Z}):
        try:
            full.initialize(**args)
        except Exception as e:
            ctx.fail(f"in-chain:{name}:re-initialize", f"{where}: again with {sorted(args)}: {type(e).__name__}: {e}")
            return
        ctx.require(shapes == [{p: k.get_param(p).shape for p in k.param_names} for k in full.walk()] and ds == [dims(k) for k in full.walk()], f"in-chain:{name}:re-initialize-changes", where)


# ---- 4. initializers --------------------------------------------------------------------------------------------
def fan(s):
    return s[1]


INITS = {
    # name: (kind, parameters of the distribution as a function of the shape and the settings)
    "glorot_uniform_init": ("uniform", lambda s: (6.0 / (s[0] + s[1])) ** 0.5, ({},)),
    "he_uniform_init": ("uniform", lambda s: (6.0 / s[1]) ** 0.5, ({},)),
    "lecun_uniform_init": ("uniform", lambda s: (3.0 / s[1]) ** 0.5, ({},)),
    "glorot_normal_init": ("normal", lambda s: (2.0 / (s[0] + s[1])) ** 0.5, ({},)),
    "he_normal_init": ("normal", lambda s: (2.0 / s[1]) ** 0.5, ({},)),
    "lecun_normal_init": ("normal", lambda s: (1.0 / s[1]) ** 0.5, ({},)),
    "normal_init": ("normal", lambda s, mean=0.0, fan_in=-1: (1.0 / (s[1] if fan_in == -1 else fan_in)) ** 0.5, ({}, {"mean": 0.25}, {"fan_in": 4}, {"fan_in": -1}, {"fan_in": 9, "mean": -0.5})),
    "uniform_init": ("uniform", None, ({}, {"lo": -0.5, "hi": 0.25}, {"lo": 1.0, "hi": 3.0})),
    "zero_init": ("zero", None, ({},)),
}
SAMPLES = {"lowest": lambda n: np.zeros(n), "highest": lambda n: np.ones(n), "ramp": lambda n: (np.arange(n) + 0.5) / n}


def init_cases(quick):
    shapes = [s for k in (2, 3, 4) for s in itertools.product((1, 2, 3) if quick else (1, 2, 3, 5), repeat=k)]
    for name in INITS:
        for s in shapes + [(0, 3), (64, 33)]:
            for kw in INITS[name][2]:
                for via in ("call", "registry", "layer"):
                    for smp in SAMPLES:
                        if via == "layer" and len(s) != 2:
                            continue
                        yield name, s, kw, via, smp


class Source:
    """numpy.random replaced: `uniform` and `normal` map a fixed unit sample through the requested distribution."""

    def __init__(self, unit):
        self.unit = unit

    def _fill(self, size):
        shape = (size,) if np.isscalar(size) else tuple(size)
        return self.unit(int(np.prod(shape))).reshape(shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._fill(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if scale < 0:
            raise ValueError("scale < 0")
        return loc + scale * (self._fill(size) * 4 - 2)

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def random(self, size=None):
        return self._fill(size)

    def rand(self, *size):
        return self._fill(size)

    def randn(self, *size):
        return self.normal(0.0, 1.0, size)


def initializer(ctx, case):
    name, shape, kw, via, smp = case
    shape = tuple(shape)
    kind, scale, _ = INITS[name]
    unit = SAMPLES[smp]
    n = int(np.prod(shape))
    if kind == "zero":
        want = np.zeros(shape, "f")
    elif name == "uniform_init":
        lo, hi = kw.get("lo", -0.1), kw.get("hi", 0.1)
        want = lo + (hi - lo) * unit(n).reshape(shape)
    elif kind == "uniform":
        s = scale(shape)
        want = -s + 2 * s * unit(n).reshape(shape)
    else:
        want = kw.get("mean", 0.0) + scale(shape, **kw) * (unit(n).reshape(shape) * 4 - 2)
    f = getattr(T, name, None) or getattr(thinc.initializers, name)
    for bname, ops in backends().items():
        src = Source(unit)
        with mock.patch("numpy.random.uniform", src.uniform), mock.patch("numpy.random.normal", src.normal):
            ctx.step()
            try:
                if via == "call":
                    got = f(ops, shape, **kw)
                elif via == "registry":
                    got = T.registry.resolve({"i": {"@initializers": f"{name}.v1", **kw}})["i"](ops, shape)
                else:
                    m = T.Linear(shape[0], shape[1], init_W=T.registry.resolve({"i": {"@initializers": f"{name}.v1", **kw}})["i"])
                    m.ops = ops
                    m.initialize()
                    got = m.get_param("W")
            except Exception as e:
                ctx.fail(f"init:{name}:raises", f"{name}(shape={shape}, {kw}) via {via}: {type(e).__name__}: {e}")
                return
        ctx.seen((name, shape, sorted(kw.items()), smp, bname))
        ctx.require(isinstance(got, np.ndarray) and got.dtype == np.float32 and got.shape == shape, f"init:{name}:shape", lambda: f"{name}({shape}) -> {getattr(got, 'dtype', type(got))} {np.shape(got)}")
        ctx.require(np.shape(got) == shape and np.allclose(got, want, rtol=1e-5, atol=1e-6), f"init:{name}:distribution", lambda: f"{name}(shape={shape}, {kw}) via {via}, random source at its {smp}: {got.ravel()[:4]}, expected {want.ravel()[:4]}")


# ---- 6. dimensions set on the inner layer before or after it was wrapped, with and without sample data -----------
LATE = [n for n in WRAP if n not in ("siamese", "bidirectional", "tuplify", "chain", "chain3", "concatenate", "softmax-of-chain", "attention-key", "add")]


def late_cases():
    for name in LATE:
        for when in itertools.product(("unset", "before", "after"), repeat=2):
            for data in ("none", "X", "XY"):
                for times in (1, 2):
                    yield name, when, data, times


def late(ctx, case):
    name, when, data, times = case
    with mock.patch("thinc.layers.with_signpost_interval.has_os_signpost", True):
        _late(ctx, *case)


def _late(ctx, name, when, data, times):
    make, kinds = WRAP[name]
    X = kinds[next(iter(kinds))]([2, 1])
    first = []
    ref = make(lambda **kw: probe(first, **kw))
    ref.initialize(X=X)
    Y = ref.predict(X)
    inner0 = ref.layers[0] if ref.layers else ref
    width = {d: inner0.maybe_get_dim(d) for d in ("nI", "nO")}
    run = [e for e in first if e[1] == "run"][-1]
    if width["nO"] is None:
        try:
            width["nO"] = get_width(run[3])
        except ValueError:
            pass
    made = []

    def P(**kw):
        m = probe([], **kw)
        for d, w in zip(("nI", "nO"), when):
            if w == "before" and width[d]:
                m.set_dim(d, width[d])
        made.append(m)
        return m

    m = make(P)
    inner = m.layers[0] if m.layers else m
    for d, w in zip(("nI", "nO"), when):
        if w == "after" and width[d]:
            inner.set_dim(d, width[d])
    where = f"{name}: dimensions nI, nO of the layer set {when} wrapping, initialized {times} times with {data}"
    for _ in range(times):
        ctx.step()
        try:
            m.initialize(X=X if data != "none" else None, Y=Y if data == "XY" else None)
        except Exception as e:
            ctx.fail(f"late:{name}:refused", f"{where}: {type(e).__name__}: {e}")
            return
    for d, w in zip(("nI", "nO"), when):
        if w != "unset" and width[d]:
            ctx.require(inner.maybe_get_dim(d) == width[d], f"late:{name}:layer", lambda: f"{where}: the layer's {d} is {inner.maybe_get_dim(d)}, set to {width[d]}")
    for d in m.dim_names:
        ctx.require(m.maybe_get_dim(d) == inner.maybe_get_dim(d), f"late:{name}:own-dims", lambda: f"{where}: {d} = {m.maybe_get_dim(d)}, the layer's is {inner.maybe_get_dim(d)}")
    ctx.seen((name, when, data, [m.maybe_get_dim(d) for d in m.dim_names]))


FAMILIES = {"late": late, "layer": layer, "tree": tree, "wrap": wrap, "inchain": inchain, "initializer": initializer}


def explore(ctx):
    q = ctx.quick
    ctx.each("layer", lambda: layer_cases(q), layer)
    ctx.each("tree", lambda: tree_cases(q), tree)
    ctx.each("wrap", lambda: wrap_cases(q), wrap)
    ctx.each("inchain", lambda: chain_cases(q), inchain)
    ctx.each("initializer", lambda: init_cases(q), initializer)
    ctx.each("late", late_cases, late)


def replay(ctx, family, case):
    FAMILIES[family](ctx, case)
