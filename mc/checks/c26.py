"""C26: data validation against a recursive definition of what a value of a declared type is."""
import collections.abc
import inspect
import itertools
import queue
import threading
import typing
from typing import Any, Callable, Dict, ForwardRef, Generic, List, Optional, Sequence, Tuple, TypeVar, Union

import numpy as np
from mc import zoo
from mc.core import digest
from mc.util import values
from thinc import api as T
from thinc import types as TY
from thinc.types import (ArgsKwargs, Array1d, Array2d, Array3d, Array4d, ArrayXd, Floats1d, Floats2d, Floats3d, Floats4d, FloatsXd,
                         Ints1d, Ints2d, Ints3d, Ints4d, IntsXd, List2d, ListXd, Padded, Pairs, Ragged, SizedGenerator)

PaddedData = Tuple[Floats3d, Ints1d, Ints1d, Ints1d]
RaggedData = Tuple[Array2d, Ints1d]
from thinc.util import DataValidationError

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration, on the real code, of every pair of declared type and data value over an alphabet of ranks, number types and containers nested to a bounded depth, for the input, the output and both; of every layer of the library and every value; of all chains of declared layers; and of all nestings and two-thread interleavings of switching validation on and off; oracle: a recursive definition of the values of a type"
NOTE = "quick: about 115 declared types x 120 values x input/output; thorough: every list, tuple, union and nested list over 23 element types (about 1100 types) x 260 values; chains of up to 3 layers; nestings up to depth 3; all interleavings of two threads."
RULE = "state = (declared type, value, side) or (validation switch stacks of the threads); transition = one initialization, or one switch"
ASSUMPTIONS = ["of a list, the first five items are checked", "a value that can be read as the declared container or basic type (a tuple for a list, a number for a string) may be accepted or refused"]


# ---- what a value of a type is ---------------------------------------------------------------------------------
class Doc:
    """A class of the user's own."""

    def __init__(self, x=0):
        self.x = x


class SubDoc(Doc):
    pass


FL, IN = ("float32",), ("int32", "int64", "uint32", "uint64")
ARRAYS = {}
for _n, (_f, _i) in {1: (Floats1d, Ints1d), 2: (Floats2d, Ints2d), 3: (Floats3d, Ints3d), 4: (Floats4d, Ints4d)}.items():
    ARRAYS.update({_f: (_n, FL), _i: (_n, IN)})
UNIONS = [Array1d, Array2d, Array3d, Array4d, ArrayXd, FloatsXd, IntsXd]


def both(results):
    results = list(results)
    if any(r is False for r in results):
        return False
    return None if any(r is None for r in results) else True


def either(results):
    results = list(results)
    if any(r is True for r in results):
        return True
    return None if any(r is None for r in results) else False


def conforms(v, t):
    """True: v is a t. False: it is not. None: not specified."""
    if isinstance(t, str):
        t = getattr(TY, t)
    if isinstance(t, ForwardRef):
        t = getattr(TY, t.__forward_arg__)
    if t is Any or t is inspect.Signature.empty:
        return True
    if isinstance(t, TypeVar):
        if t.__bound__ is not None:
            return conforms(v, t.__bound__)
        return either(conforms(v, c) for c in t.__constraints__) if t.__constraints__ else True
    if t is type(None):
        return v is None
    try:
        spec = ARRAYS.get(t)
    except TypeError:
        spec = None
    if spec is not None:
        return isinstance(v, np.ndarray) and (spec[0] is None or v.ndim == spec[0]) and (spec[1] is None or str(v.dtype) in spec[1])
    o, args = typing.get_origin(t), typing.get_args(t)
    if o is Union:
        return either(conforms(v, a) for a in args)
    if o is list or t is list or t is List:
        return container(v, (list,), (tuple, set, frozenset, collections.abc.Iterator), args[0] if args else Any)
    if o is collections.abc.Sequence or t is Sequence:
        return container(v, (list, tuple), (set, frozenset, collections.abc.Iterator, str, bytes, range, SizedGenerator), args[0] if args else Any)
    if o is tuple or t is tuple or t is Tuple:
        if not args or args[-1] is Ellipsis:
            return container(v, (tuple,), (list, set, frozenset, collections.abc.Iterator), args[0] if args else Any)
        if not isinstance(v, (tuple, list, set, frozenset)):
            return None if isinstance(v, collections.abc.Iterator) else False
        if len(v) != len(args):
            return False
        if isinstance(v, (set, frozenset)):
            return None
        r = both(conforms(x, a) for x, a in zip(v, args))
        return r if isinstance(v, tuple) or r is False else None
    if o is dict or t is dict or t is Dict:
        if not isinstance(v, dict):
            return None if isinstance(v, collections.abc.Iterable) and not (isinstance(v, str) and v) else False
        if not args:
            return True
        return both([conforms(k, args[0]) for k in v] + [conforms(x, args[1]) for x in v.values()])
    if o is collections.abc.Callable or t is Callable:
        return callable(v)
    if t is collections.abc.Hashable or t is typing.Hashable:
        return isinstance(v, collections.abc.Hashable)
    if t in (str, int, float, bool):
        if type(v) is t:
            return True
        if isinstance(v, np.ndarray) and v.size > 1 or isinstance(v, (list, tuple, dict, set, Ragged, Padded, Pairs, ArgsKwargs)) or v is None:
            return False
        return False if isinstance(v, str) and v == "a" else None
    if o is not None and isinstance(o, type):  # Pairs[T]
        return isinstance(v, o)
    if isinstance(t, type):
        return isinstance(v, t)
    raise NotImplementedError(repr(t))


def container(v, exact, castable, item):
    if isinstance(v, exact):
        some = list(v)[:5] if isinstance(v, list) else list(v)
        r = both(conforms(x, item) for x in some)
        return None if r and any(conforms(x, item) is not True for x in list(v)[5:]) else r  # only the first five items of a list are promised to be looked at
    if isinstance(v, collections.abc.Iterator) or isinstance(v, (str, bytes)) and isinstance(v, castable):
        return None
    if isinstance(v, castable):
        return False if any(conforms(x, item) is False for x in list(v)[:5]) else None
    return False


# ---- alphabets -------------------------------------------------------------------------------------------------
def arr(shape, dtype):
    if dtype == "str":
        a = np.empty(shape, dtype=object)
        a[...] = "x"
        return a
    return np.array(np.arange(1, 1 + int(np.prod(shape)) if shape else 2).reshape(shape), dtype=dtype) if shape else np.array(1, dtype=dtype)


SHAPES = ((), (3,), (2, 3), (1, 2, 3), (1, 1, 2, 2), (0,), (0, 3))
DTYPES = ("float32", "float64", "float16", "int8", "int32", "int64", "uint32", "uint64", "bool", "str")


def leaf_values(quick):
    out = {}
    for s in SHAPES:
        for d in DTYPES:
            if quick and d not in ("float32", "float64", "int32", "uint64", "str") and s not in ((3,), (2, 3)):
                continue
            out[f"{d}{list(s)}"] = lambda s=s, d=d: arr(s, d)
    out.update({
        "ragged": lambda: Ragged(arr((3, 2), "float32"), arr((2,), "int32")),
        "ragged-int": lambda: Ragged(arr((3,), "uint64"), arr((2,), "int32")),
        "padded": lambda: T.NumpyOps().list2padded([arr((2, 2), "float32"), arr((1, 2), "float32")]),
        "pairs": lambda: Pairs([1, 2], [3, 4]),
        "sized": lambda: SizedGenerator(lambda: iter(()), 3),
        "argskwargs": lambda: ArgsKwargs((arr((2, 3), "float32"),), {}),
        "str": lambda: "a", "int": lambda: 3, "float": lambda: 2.5, "np-float": lambda: np.float32(2.0), "true": lambda: True, "bytes": lambda: b"a",
        "doc": Doc, "subdoc": SubDoc, "callable": lambda: len,
        "dict": lambda: {"a": arr((2, 3), "float32")}, "dict-empty": lambda: {},
        "dict-ragged": lambda: {"data": arr((3, 2), "float32"), "lengths": arr((2,), "int32")},
        "set": lambda: {"a", "b"},
    })
    return out


def all_values(quick):
    leaves = leaf_values(quick)
    out = dict(leaves)
    short = ["float32[3]", "float32[2, 3]", "float64[2, 3]", "int32[3]", "int32[2, 3]", "uint64[2, 3]", "float32[1, 2, 3]", "ragged", "str", "int", "doc"]
    if not quick:
        short += ["int64[2, 3]", "float32[]", "float32[0, 3]", "str[3]", "padded", "pairs", "float32[1, 1, 2, 2]"]
    for a in short:
        la = leaves[a]
        out[f"[{a}]"] = lambda la=la: [la()]
        out[f"({a},)"] = lambda la=la: (la(),)
        out[f"[[{a}]]"] = lambda la=la: [[la()]]
        out[f"[[], [{a}]]"] = lambda la=la: [[], [la(), la()]]
        out[f"[[{a}], {a}]"] = lambda la=la: [[la()], la()]
        out[f"([{a}], [{a}])"] = lambda la=la: ([la()], [la()])
    for a, b in itertools.product(short[:5] if quick else short[:8], repeat=2):
        la, lb = leaves[a], leaves[b]
        if not quick or a != b:
            out[f"[{a}, {b}]"] = lambda la=la, lb=lb: [la(), lb()]
        out[f"({a}, {b})"] = lambda la=la, lb=lb: (la(), lb())
    for n in (3, 4, 5):
        out[f"[f2]*{n}"] = lambda n=n: [arr((2, 3), "float32") for _ in range(n)]
        out[f"(f2,)*{n}"] = lambda n=n: tuple(arr((2, 3), "float32") for _ in range(n))
        for i in range(n):  # one wrong item at each place
            out[f"[f2]*{n} but {i}"] = lambda n=n, i=i: [arr((2, 3), "float64" if j == i else "float32") for j in range(n)]
    for n in (6, 7, 10):
        for i in range(n):
            out[f"[f2]*{n} but {i}"] = lambda n=n, i=i: [arr((2, 3), "float64" if j == i else "float32") for j in range(n)]
    out["[f2]*9"] = lambda: [arr((2, 3), "float32") for _ in range(9)]
    out["(f2, i1)"] = lambda: (arr((3, 2), "float32"), arr((2,), "int32"))
    out["(f3, i1, i1, i1)"] = lambda: (arr((1, 1, 2), "float32"),) + tuple(arr((1,), "int32") for _ in range(3))
    out["[f3, i1, i1, i1]"] = lambda: [arr((1, 1, 2), "float32")] + [arr((1,), "int32") for _ in range(3)]
    out["[]"], out["()"] = list, tuple
    return out


InF = TypeVar("InF")
InB = TypeVar("InB", bound=Union[Floats2d, Ragged])
InC = TypeVar("InC", Floats2d, List[Floats2d])
InX = TypeVar("InX", bound=ArrayXd)


def leaf_types():
    return list(ARRAYS) + UNIONS + [Ragged, Padded, Pairs, str, Doc, Any, Callable]


def all_types(quick):
    out = leaf_types() + [ArgsKwargs, SizedGenerator, int, float, inspect.Signature.empty, "Floats2d", "Ragged", "List2d", "Padded", "Ints1d",
                          List, Tuple, Sequence, Dict, list, tuple, dict, List2d, ListXd, RaggedData, PaddedData, InF, InB, InC, InX, Pairs[Floats2d]]
    el = [Floats2d, Floats1d, Ints1d, Ints2d, Floats3d, ArrayXd, FloatsXd, Array2d, Ragged, str, Any, Doc] if quick else leaf_types()
    for a in el:
        out += [List[a], Sequence[a], Tuple[a], Tuple[a, ...], Tuple[a, a], List[List[a]], Sequence[Sequence[a]], Optional[a], List[Optional[a]], Dict[str, a], Union[List[a], List[Ints3d]], Union[a, List[a]]]
    for a, b in itertools.combinations(el[:6] if quick else el, 2):
        out += [Union[a, b], Tuple[a, b]]
        if not quick:
            out += [List[Union[a, b]], Tuple[List[a], b], Union[List[a], List[b]], Union[Tuple[a, b], Tuple[b, a]], Tuple[b, a]]
    uniq = []
    keys = set()
    for t in out:
        k = repr(t)
        if k not in keys:
            keys.add(k)
            uniq.append(t)
    return uniq


def record(log):
    def init(model, X=None, Y=None):
        log.append((X, Y))

    return init


def make(tx, ty, log, name="layer"):
    empty = inspect.Signature.empty

    def forward(model, X, is_train):
        log.append("forward")
        return X, lambda d: d

    forward.__annotations__ = {k: v for k, v in (("X", tx), ("return", empty if ty is empty else Tuple[ty, Callable])) if v is not empty}
    return T.Model(name, forward, init=record(log), params={"W": None}, dims={"nO": None})


def quick_repr(t):
    return getattr(t, "__name__", None) if isinstance(t, type) else repr(t).replace("typing.", "").replace("thinc.types.", "")


# ---- one declared type, one value ------------------------------------------------------------------------------
def pairs_of(quick):
    def it():
        n = len(all_types(quick))
        vs = list(all_values(quick))
        step = 30 if quick else 65
        for i in range(n):
            for side in "XY":
                for j in range(0, len(vs), step):
                    yield i, side, j, j + step
    return it


TABLE = {}


def table(quick):
    if quick not in TABLE:
        TABLE[quick] = (all_types(quick), list(all_values(quick).items()))
    return TABLE[quick]


def attempt(model, on=True, **data):
    with T.data_validation(on):
        try:
            model.initialize(**data)
        except DataValidationError as e:
            str(e)  # the message can be written
            return "refused"
        except Exception as e:
            return f"{type(e).__name__}: {e}"
    return "accepted"


def pair(ctx, case):
    i, side, lo, hi = case
    types, vals = table(ctx.quick)
    t = types[i]
    for name, mk in vals[lo:hi]:
        check(ctx, t, name, mk, side)


def check(ctx, t, name, mk, side):
    v = mk()
    want = conforms(v, t)
    log = []
    empty = inspect.Signature.empty
    m = make(t if side == "X" else empty, t if side == "Y" else empty, log)
    before = digest(dump(v))
    got = attempt(m, **{side: v})
    ctx.step()
    ctx.seen((quick_repr(t), name, side))
    ctx.outcome((want, got))
    what = f"{side} declared as {quick_repr(t)}, given {name}"
    tag = f"{side}:{quick_repr(t)}:{name}"
    if not ctx.require(got in ("accepted", "refused"), f"error:{tag}", lambda: f"{what}: should be {'accepted' if want else 'refused with a DataValidationError'}, raises {got}"):
        return
    if want is not None:
        ctx.require((got == "accepted") == want, f"pair:{tag}", lambda: f"{what}: {got}, but it {'is' if want else 'is not'} of the declared type")
    ctx.require(digest(dump(v)) == before, f"modified:{tag}", lambda: f"{what}: the data was modified")
    if got == "accepted":
        ok = len(log) == 1 and log[0][side == "Y"] is v and log[0][side == "X"] is None
        ctx.require(ok, f"passed-on:{tag}", lambda: f"{what}: accepted, but the layer's initialization did not get exactly the data it was given: {log!r}"[:500])
    else:
        ctx.require(not log, f"ran:{tag}", lambda: f"{what}: refused, but code of the layer ran: {log!r}"[:500])
    # switched off, anything goes
    log2 = []
    m = make(t if side == "X" else empty, t if side == "Y" else empty, log2)
    got = attempt(m, on=False, **{side: v})
    ctx.require(got == "accepted" and len(log2) == 1 and log2[0][side == "Y"] is v, f"off:{tag}", lambda: f"{what}, with validation off: {got}")


def dump(v):
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [dump(x) for x in v]
    if isinstance(v, dict):
        return {k: dump(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, Ragged):
        return ["ragged", v.data, v.lengths]
    if isinstance(v, Padded):
        return ["padded", v.data, v.size_at_t, v.lengths, v.indices]
    if isinstance(v, Doc):
        return ["doc", v.x]
    return repr(type(v)) if not isinstance(v, (str, int, float)) else v


# ---- both sides at once ----------------------------------------------------------------------------------------
BOTH_T = [Floats2d, Ints1d, List[Floats2d], Ragged, Padded, Tuple[Floats2d, Ints1d], Any, inspect.Signature.empty, Union[Floats2d, Ragged]]
BOTH_V = ["float32[2, 3]", "int32[3]", "[float32[2, 3]]", "ragged", "padded", "(float32[2, 3], int32[3])", "str", "[]"]


def both_cases():
    yield from itertools.product(range(len(BOTH_T)), range(len(BOTH_T)))


def both_sides(ctx, case):
    tx, ty = BOTH_T[case[0]], BOTH_T[case[1]]
    vals = dict(all_values(True))
    for x, y in itertools.product(BOTH_V + [None], BOTH_V + [None]):
        vx, vy = vals[x]() if x else None, vals[y]() if y else None
        want = both([x is None or conforms(vx, tx), y is None or conforms(vy, ty)])
        log = []
        m = make(tx, ty, log)
        got = attempt(m, X=vx, Y=vy)
        ctx.step()
        ctx.seen(("both", case, x, y))
        tag = f"{quick_repr(tx)}->{quick_repr(ty)}:{x},{y}"
        if want is not None:
            ctx.require(got == ("accepted" if want else "refused"), f"both:{tag}", lambda: f"a layer {quick_repr(tx)} -> {quick_repr(ty)} given X={x}, Y={y}: {got}, should be {'accepted' if want else 'refused'}")
        if got == "accepted":
            ctx.require(len(log) == 1 and log[0][0] is vx and log[0][1] is vy, f"both-passed:{tag}", lambda: f"initialization got {log!r}"[:400])
        else:
            ctx.require(not log, f"both-ran:{tag}", "refused, but the layer's code ran")


# ---- the layers of the library ---------------------------------------------------------------------------------
TAnyX = Union[ArrayXd, Sequence[ArrayXd], Ragged, Padded]
DOCUMENTED = {
    "CauchySimilarity": (lambda: T.CauchySimilarity(), Tuple[Floats2d, Floats2d], Floats1d),
    "Dropout": (lambda: T.Dropout(0.1), TAnyX, TAnyX),
    "Embed": (lambda: T.Embed(2, 4), Ints1d, Floats2d),
    "HashEmbed": (lambda: T.HashEmbed(2, 4), Ints1d, Floats2d),
    "LSTM": (lambda: T.LSTM(2), Padded, Padded),
    "bidirectional": (lambda: T.bidirectional(T.noop()), Padded, Padded),
    "ParametricAttention": (lambda: T.ParametricAttention(), Ragged, Ragged),
    "expand_window": (lambda: T.expand_window(1), Union[Floats2d, Ragged], Union[Floats2d, Ragged]),
    "list2array": (lambda: T.list2array(), List[Array2d], Array2d),
    "list2ragged": (lambda: T.list2ragged(), ListXd, Ragged),
    "list2padded": (lambda: T.list2padded(), List2d, Padded),
    "ragged2list": (lambda: T.ragged2list(), Ragged, ListXd),
    "padded2list": (lambda: T.padded2list(), Padded, List2d),
    "strings2arrays": (lambda: T.strings2arrays(), Sequence[Sequence[str]], List[Ints2d]),
    "remap_ids_v2": (lambda: T.remap_ids_v2({"a": 1}), Union[Sequence[typing.Hashable], Ints1d, Ints2d], Ints2d),
    "with_getitem": (lambda: T.with_getitem(0, T.noop()), Tuple[Any, ...], Tuple[Any, ...]),
    "with_reshape": (lambda: T.with_reshape(T.noop()), Array3d, None),
    "with_flatten": (lambda: T.with_flatten(T.noop()), Sequence[Sequence[Any]], ListXd),
    "siamese": (lambda: T.siamese(T.noop(), T.CauchySimilarity()), Tuple[Any, Any], ArrayXd),
    "uniqued": (lambda: T.uniqued(T.Embed(2, 4)), Ints2d, Floats2d),
    "sigmoid_activation": (lambda: T.sigmoid_activation(), FloatsXd, FloatsXd),
    "residual": (lambda: T.residual(T.noop()), Union[List[FloatsXd], Ragged, Padded, FloatsXd, Floats1d, Floats2d, Floats3d, Floats4d], Union[List[FloatsXd], Ragged, Padded, FloatsXd]),
    "noop": (lambda: T.noop(), Any, Any),
    "with_debug": (lambda: T.with_debug(T.noop()), Any, Any),
    "tuplify": (lambda: T.tuplify(T.noop(), T.noop()), Any, Any),
    "array_getitem": (lambda: T.array_getitem(0), Any, Any),
    "with_array": (lambda: T.with_array(T.noop()), Union[Padded, Ragged, ListXd, ArrayXd], Union[Padded, Ragged, ListXd, ArrayXd]),
    "with_array2d": (lambda: T.with_array2d(T.noop()), Union[Padded, Ragged, List2d, Array2d], Union[Padded, Ragged, List2d, Array2d]),
    "with_padded": (lambda: T.with_padded(T.noop()), Union[Padded, Ragged, List2d, Floats3d, PaddedData], Union[Padded, Ragged, List2d, Floats3d, PaddedData]),
    "with_ragged": (lambda: T.with_ragged(T.noop()), Union[Padded, Ragged, ListXd, RaggedData], Union[Padded, Ragged, ListXd, RaggedData]),
    "with_list": (lambda: T.with_list(T.noop()), Union[Padded, Ragged, List2d, List[Floats2d], List[Ints2d]], Union[Padded, Ragged, List2d, List[Floats2d], List[Ints2d]]),
}
for _n in ("Linear", "Relu", "Maxout", "Mish", "Dish", "Swish", "Gelu", "Sigmoid", "HardSigmoid", "HardTanh", "HardSwish", "HardSwishMobilenet", "ClippedLinear", "ReluK", "LayerNorm", "Softmax", "Softmax_v2", "softmax_activation", "Logistic"):
    DOCUMENTED[_n] = (lambda _n=_n: getattr(T, _n)(), Floats2d, Floats2d)
DOCUMENTED["MultiSoftmax"] = (lambda: T.MultiSoftmax((2, 2)), Floats2d, Floats2d)
for _n in ("first", "last", "max", "mean", "sum"):
    DOCUMENTED[f"reduce_{_n}"] = (lambda _n=_n: getattr(T, f"reduce_{_n}")(), Ragged, Floats2d)


def layer_cases():
    for n in DOCUMENTED:
        for side in "XY":
            yield n, side


def layer(ctx, case):
    name, side = case
    mk, tx, ty = DOCUMENTED[name]
    t = tx if side == "X" else ty
    if t is None:
        return
    for vn, v in all_values(ctx.quick).items():
        m = mk()
        dims = [{d: n.maybe_get_dim(d) for d in n.dim_names} for n in m.walk()]
        data = v()
        want = conforms(data, t)
        hit = None
        with T.data_validation(True):
            try:
                m.initialize(**{side: data})
            except DataValidationError as e:
                hit = e
            except Exception:
                pass  # whatever the shapes lead to
        ctx.step()
        ctx.seen((name, side, vn))
        if want is False:
            ctx.require(hit is not None, f"layer:{name}:{side}:{vn}:accepted", lambda: f"{name} takes {quick_repr(tx)} to {quick_repr(ty)}; initialized with {side}={vn} it raises no validation error")
            now = [{d: n.maybe_get_dim(d) for d in n.dim_names} for n in m.walk()]
            ctx.require(now == dims and not any(n.has_param(p) for n in m.walk() for p in n.param_names), f"layer:{name}:{side}:{vn}:changed", lambda: f"{name} refused {side}={vn} but was changed: {dims} -> {now}")
        if want is True and not m.layers:
            ctx.require(hit is None, f"layer:{name}:{side}:{vn}:refused", lambda: f"{name} takes {quick_repr(tx)} to {quick_repr(ty)}; initialized with {side}={vn}: refused: {hit}")


# ---- every composition with its own data -----------------------------------------------------------------------
def own_cases(quick):
    def it():
        for n in zoo.ENTRIES:
            if n != "remap>Embed":  # declared for sequences, given arrays
                yield n
    return it


def own(ctx, name):
    e = zoo.ENTRIES[name]
    for spec in list(e.specs(True))[:12 if ctx.quick else 60]:
        X = e.data(spec)
        m = e.build()
        out = {}
        with T.data_validation(False):
            Y = m.predict(X)
        for on in (False, True):
            for given in ("X", "XY"):
                T.fix_random_seed(0)
                m = e._build()
                data = {"X": X} if given == "X" else {"X": X, "Y": Y}
                with T.data_validation(on):
                    try:
                        m.initialize(**data)
                        r = "ok"
                    except Exception as err:
                        r = type(err).__name__
                        msg = str(err)
                ctx.step()
                state = (r, [(n.name, sorted((d, n.maybe_get_dim(d)) for d in n.dim_names), [dump(n.maybe_get_param(p)) for p in sorted(n.param_names)]) for n in m.walk()])
                ctx.require(r != "DataValidationError", f"own:{name}:{given}", lambda: f"{name}: its own data {zoo.show(X)} (and output) is refused: {msg}"[:900])
                out.setdefault(given, []).append(state)
        for given, (a, b) in out.items():
            if "DataValidationError" not in (a[0], b[0]):
                ctx.require(digest(a) == digest(b), f"own-same:{name}:{given}", lambda: f"{name}: initialized differently with validation on and off: {a} / {b}"[:900])
        with T.data_validation(True):
            Y2 = e.build().predict(X)
        ctx.require(digest([a for a, _ in zoo.leaves(Y2)]) == digest([a for a, _ in zoo.leaves(Y)]), f"own-predict:{name}", "other results with validation on")
        ctx.seen((name, spec))


# ---- chains ----------------------------------------------------------------------------------------------------
KINDS = {"f2": (Floats2d, "float32[2, 3]"), "i1": (Ints1d, "int32[3]"), "rag": (Ragged, "ragged"), "list": (List[Floats2d], "[float32[2, 3]]"), "any": (Any, "str"), "pad": (Padded, "padded")}


def chain_cases():
    for n in (2, 3):
        yield from itertools.product([a + ">" + b for a in KINDS for b in KINDS], repeat=n) if n == 2 else ()
    # three layers: the middle one varies fully, the ends over three kinds
    for a, b, c in itertools.product([x + ">" + y for x in ("f2", "rag", "any") for y in ("f2", "rag")], [x + ">" + y for x in KINDS for y in KINDS], ["f2>i1", "rag>f2", "any>any"]):
        yield a, b, c


def chains(ctx, case):
    vals = all_values(True)
    first = case[0].split(">")[0]
    for given in sorted({first, "f2", "rag"}):
        inits, bad = [], []
        layers = []
        for k, spec in enumerate(case):
            a, b = spec.split(">")

            def mkf(b):
                def forward(model, X, is_train):
                    return vals[KINDS[b][1]](), lambda d: d
                return forward

            forward = mkf(b)
            forward.__annotations__ = {"X": KINDS[a][0], "return": Tuple[KINDS[b][0], Callable]}

            layers.append(T.Model(f"l{k}", forward, init=lambda model, X=None, Y=None, k=k: inits.append(k)))
        x = vals[KINDS[given][1]]()
        want_inits = []
        cur, ok = given, True
        for k, spec in enumerate(case):
            a, b = spec.split(">")
            if not conforms(vals[KINDS[cur][1]](), KINDS[a][0]):
                ok = False
                break
            want_inits.append(k)
            cur = b
        got = attempt(T.chain(*layers), X=x)
        ctx.step(len(case))
        ctx.seen((case, given))
        ctx.require(got == ("accepted" if ok else "refused"), f"chain:{case}:{given}", lambda: f"a chain of {case} given {given}: {got}, should be {'accepted' if ok else 'refused'}")
        ctx.require(inits == want_inits, f"chain-init:{case}:{given}", lambda: f"a chain of {case} given {given}: layers {inits} were initialized, should be {want_inits}")


# ---- forward functions -----------------------------------------------------------------------------------------
def fwd_cases():
    def f0(): ...
    def f1(m): ...
    def f2(m, X): ...
    def f3(m, X, is_train): ...
    def f3d(m, X, is_train=False): ...
    def f4(m, X, is_train, extra): ...
    def f4d(m, X, is_train, extra=1): ...
    return {"0": (f0, False), "1": (f1, False), "2": (f2, False), "3": (f3, True), "3-default": (f3d, True), "4": (f4, False), "4-default": (f4d, False)}


def forwards(ctx, name):
    f, ok = fwd_cases()[name]
    for X, Y in itertools.product((None, 1), repeat=2):
        for on in (True, False):
            log = []
            got = attempt(T.Model("m", f, init=record(log)), on=on, X=X, Y=Y)
            ctx.step()
            want = "accepted" if ok or not on else "refused"
            ctx.require(got == want, f"forward:{name}", lambda: f"a forward function of {name} parameters, validation {on}: {got}, should be {want}")
            ctx.require(len(log) == (got == "accepted"), f"forward-init:{name}", "initialization ran although refused")
            ctx.seen((name, X, Y, on))


# ---- switching on and off --------------------------------------------------------------------------------------
def programs(depth):
    """All well-nested sequences of at most `depth` switches, with a probe at every point. An exit may be by exception."""
    def go(d, stack):
        yield ()
        if d == 0:
            return
        for v in (True, False):
            for how in ("exit", "raise"):
                for inner in go(d - 1, stack):
                    used = sum(1 for x in inner if x[0] == "enter")
                    for rest in go(d - 1 - used, stack):
                        yield (("enter", v),) + inner + ((how, None),) + rest
    seen = set()
    for p in go(depth, ()):
        if p not in seen:
            seen.add(p)
            yield p


class Switch:
    """The switches of one thread, and what validation should be there."""

    def __init__(self):
        self.open, self.stack = [], [False]

    def run(self, op):
        what, v = op
        if what == "enter":
            cm = T.data_validation(v)
            cm.__enter__()
            self.open.append(cm)
            self.stack.append(v)
        elif what == "exit":
            self.open.pop().__exit__(None, None, None)
            self.stack.pop()
        elif what == "raise":
            e = KeyError("x")
            try:
                if self.open.pop().__exit__(KeyError, e, None):
                    return "the exception is swallowed"
            except KeyError:
                pass
            self.stack.pop()
        log = []
        m = make(Floats2d, inspect.Signature.empty, log)
        try:
            m.initialize(X="a")
            got = False
        except DataValidationError:
            got = True
        return got == self.stack[-1] or f"validation is {'on' if got else 'off'}, should be {'on' if self.stack[-1] else 'off'}"


def switch_cases(quick):
    def it():
        for p in programs(3 if quick else 4):
            yield ("one", p)
        two = list(programs(1)) + [(("enter", True), ("enter", False), ("exit", None), ("raise", None))]
        for p, q in itertools.product(two, repeat=2):
            yield ("threads", p, q)
    return it


def switches(ctx, case):
    if case[0] == "one":
        s = Switch()
        for k, op in enumerate((("probe", None),) + case[1]):
            r = s.run(op)
            ctx.step()
            ctx.require(r is True, "switch:one", lambda: f"after {case[1][:k]}: {r}")
            ctx.seen(("one", tuple(s.stack), k))
        return
    p, q = case[1], case[2]
    for order in set(itertools.permutations("p" * len(p) + "q" * len(q))):
        runs(ctx, p, q, order)


def runs(ctx, p, q, order):
    """Two threads, one operation at a time, in the given order; every thread probes after every operation."""
    cmd = {"p": queue.Queue(), "q": queue.Queue()}
    done = queue.Queue()

    def worker(k):
        s = Switch()
        while True:
            op = cmd[k].get()
            if op is None:
                return
            try:
                done.put(s.run(op))
            except Exception as e:
                done.put(f"raised {type(e).__name__}: {e}")

    ts = {k: threading.Thread(target=worker, args=(k,), daemon=True) for k in "pq"}
    for th in ts.values():
        th.start()
    progs = {"p": list(p), "q": list(q)}
    try:
        for i, k in enumerate(order):
            for kk, op in ((k, progs[k].pop(0)), ("q" if k == "p" else "p", ("probe", None))):
                cmd[kk].put(op)
                r = done.get(timeout=20)
                ctx.step()
                ctx.require(r is True, "switch:threads", lambda: f"threads {p} and {q} in the order {''.join(order[:i + 1])}, seen by {kk}: {r}")
        ctx.seen((p, q, order))
    finally:
        for k in "pq":
            cmd[k].put(None)
        for th in ts.values():
            th.join(10)


def explore(ctx):
    ctx.each("pairs", pairs_of(ctx.quick), pair)
    ctx.each("both", both_cases, both_sides)
    ctx.each("layers", layer_cases, layer)
    ctx.each("own", own_cases(ctx.quick), own)
    ctx.each("chains", chain_cases, chains)
    ctx.each("forwards", lambda: list(fwd_cases()), forwards)
    ctx.each("switches", switch_cases(ctx.quick), switches)


def replay(ctx, fam, case):
    {"pairs": pair, "both": both_sides, "layers": layer, "own": own, "chains": chains, "forwards": forwards, "switches": switches}[fam](ctx, case)
