"""C31: every small array x every layout and number type x every way of making, converting, reshaping and classifying it."""
import itertools

import numpy as np
import torch
import thinc.api as T
from mc.util import LAYOUTS, close, layout, snap
from thinc.backends.ops import Ops
from thinc.types import ArgsKwargs, Padded, Pairs, Ragged
from thinc import util as U

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small arrays (shapes x number types x memory layouts x containers) through every conversion of the real code, each compared with the elementwise definition in plain Python, including that the source is unchanged and that the round trip is the identity"
NOTE = "All shapes with up to 3 (thorough 4) dimensions of size 0-2 (3); 10 number types, 5 layouts; NumPy arrays, nested lists and tuples, lists of arrays, ranges and PyTorch tensors, on 4 backends; all class vectors over up to 4 classes."
RULE = "state = (source, conversion, result); transition = one conversion"
ASSUMPTIONS = ["values that the target type cannot hold, tensors that require a gradient, number types that the other library does not have, and arrays of foreign byte order given to PyTorch are unspecified",
               "whether a conversion shares memory with its source is unspecified", "class ids below zero, and the width of an empty vector of ids, are unspecified"]

BACKENDS = {"base": Ops(), "numpy": T.NumpyOps(), "numpy-noblis": T.NumpyOps(use_blis=False), "get_ops": T.get_ops("cpu")}
FLOATS = ("float16", "float32", "float64")
INTS = ("int32", "int64", "uint32", "uint64", "int16", "uint8")
TORCH = {"float16": torch.float16, "float32": torch.float32, "float64": torch.float64, "int16": torch.int16, "int32": torch.int32, "int64": torch.int64, "uint8": torch.uint8, "bool": torch.bool}
POOL = [0, 1, 2, 7, 5, 3, 100, 64, 17, 33, 12, 90]  # held exactly by every type


def shapes(maxd, maxs, mind=1):
    for d in range(mind, maxd + 1):
        yield from itertools.product(range(maxs + 1), repeat=d)


def source(shape, dtype, lay):
    n = int(np.prod(shape)) if shape else 1
    a = np.array([POOL[i % len(POOL)] for i in range(n)]).reshape(shape).astype(dtype)
    return layout(a, lay) if shape else a


def tensor(a, lay):
    """A tensor with the values of an array, in another layout."""
    t = torch.tensor(a.tolist(), dtype=TORCH[str(a.dtype)]).reshape(a.shape)
    if lay == "F" and t.ndim > 1:
        order = list(range(t.ndim))[::-1]
        return t.permute(order).contiguous().permute(order)
    if lay == "strided" and t.ndim:
        big = torch.zeros(tuple(2 * n for n in t.shape), dtype=t.dtype)
        v = big[tuple(slice(0, None, 2) for _ in t.shape)]
        v[...] = t
        return v
    if lay == "offset" and t.ndim:
        return torch.cat([t[:0], torch.ones((1,) + tuple(t.shape[1:]), dtype=t.dtype), t])[1:]
    return t


def nest(a, kind):
    """The same values as nested Python sequences."""
    if kind == "list":
        return a.tolist()
    if kind == "tuple":
        return _tuples(a.tolist())
    if kind == "rows":
        return [x for x in a]
    if kind == "tuple-rows":
        return tuple(x for x in a)
    if kind == "lists-of-rows":
        return [list(x) for x in a]
    raise ValueError(kind)


def _tuples(x):
    return tuple(_tuples(y) for y in x) if isinstance(x, list) else x


def equal(ctx, sig, why, got, want, dtype, kind=np.ndarray):
    ok = isinstance(got, kind) and tuple(got.shape) == tuple(want.shape) and np.array_equal(np.asarray(got).astype("float64"), want.astype("float64"))
    if dtype is not None:
        ok = ok and got.dtype == (np.dtype(dtype) if kind is np.ndarray else dtype)
    ctx.require(ok, sig, lambda: f"{why()}: got {getattr(got, 'dtype', None)} {getattr(got, 'shape', None)} {got!r:.200}, should be {dtype} {want.tolist()!r:.200}")
    return ok


# ---- asarray, as_contig, reshape, to_numpy -------------------------------------------------------------------------
def array_cases(quick):
    for sh in shapes(3 if quick else 4, 2 if quick else 3):
        for dt in FLOATS + INTS + ("bool",):
            for lay in LAYOUTS:
                yield sh, dt, lay


def arrays(ctx, case):
    sh, dt, lay = case
    a = source(sh, dt, lay)
    saved, strides = a.copy(), a.strides
    why = lambda: f"{case}"
    kinds = [dt] + [d for d in ("float32", "float64", "int32", "int64") if d != dt] + ["f", "i", "uint64"]
    for be, ops in BACKENDS.items():
        ctx.step(8)
        equal(ctx, f"asarray:{be}:same", why, ops.asarray(a), saved, dt)
        for d in kinds:
            w = saved.astype(d)
            equal(ctx, f"asarray:{be}:dtype", why, ops.asarray(a, dtype=d), w, d)
            equal(ctx, f"as_contig:{be}:dtype", why, ops.as_contig(a, d), w, d)
            equal(ctx, f"as_contig:{be}:keyword", why, ops.as_contig(a, dtype=d), w, d)
        equal(ctx, f"as_contig:{be}", why, ops.as_contig(a), saved, dt)
        for k, default in (("f", "float32"), ("i", "int32")):
            for f in (getattr(ops, f"asarray_{k}"), getattr(ops, f"asarray{len(sh)}{k}")):
                equal(ctx, f"asarray_{k}:{be}", why, f(a), saved.astype(default), default)
                for d in (FLOATS if k == "f" else INTS[:4]):
                    equal(ctx, f"asarray_{k}:{be}:dtype", why, f(a, dtype=d), saved.astype(d), d)
        for order in (None, "<", ">", "="):
            r = ops.to_numpy(a, byte_order=order)
            w = np.dtype(dt).newbyteorder(order) if order else np.dtype(dt)
            equal(ctx, f"to_numpy:{be}", why, r, saved, None)
            ctx.require(r.dtype == w, f"to_numpy:{be}:order", lambda: f"{case} {order}: {r.dtype.str}")
            if order in ("<", ">"):
                ctx.require(np.ascontiguousarray(r).tobytes() == saved.astype(w).tobytes(), f"to_numpy:{be}:bytes", why)
                equal(ctx, f"to_numpy:{be}:back", why, ops.to_numpy(r, byte_order="="), saved, dt)
        # Reshaping: the same elements in the same order, for every shape that fits
        flat = saved.reshape(-1)
        for new in fits(a.size):
            for n, f in (("reshape", lambda: ops.reshape(a, new)), ("reshape_f", lambda: ops.reshape_f(a, new)), ("reshape_i", lambda: ops.reshape_i(a, new)),
                         ("reshapeN", lambda: getattr(ops, f"reshape{len(new)}")(a, *new)), ("reshapeNf", lambda: getattr(ops, f"reshape{len(new)}f")(a, *new)), ("reshapeNi", lambda: getattr(ops, f"reshape{len(new)}i")(a, *new))):
                equal(ctx, f"{n}:{be}", lambda: f"{case} to {new}", f(), flat.reshape(new), dt)
        equal(ctx, f"reshape:{be}:number", why, ops.reshape(a, a.size), flat, dt)
        for new in ((a.size + 1,), (a.size, 2) if a.size else (1, 1), (max(a.size - 1, 0),) if a.size else (2,)):
            try:
                r = ops.reshape(a, new)
                ctx.fail(f"reshape:{be}:misfit", f"{case} to {new}: {r!r}")
            except ValueError:
                pass
    equal(ctx, "util.to_numpy", why, T.to_numpy(a), saved, dt)
    ctx.require(a.dtype == np.dtype(dt) and a.strides == strides and np.array_equal(a, saved), "source:modified", why)
    ctx.seen(case)


def fits(size):
    out = [(size,), (1, size), (size, 1), (1, size, 1), (1, 1, size, 1)]
    for a in range(1, size + 1):
        if size and size % a == 0:
            out += [(a, size // a), (a, 1, size // a), (1, a, 1, size // a)]
    if size:
        out += [(-1,), (-1, size), (1, -1)]
    else:
        out += [(0, 3), (2, 0), (0, 2, 2)]
    return list(dict.fromkeys(out))


# ---- sequences -----------------------------------------------------------------------------------------------------------
def sequence_cases(quick):
    for sh in shapes(3 if quick else 4, 2):
        for dt in ("float32", "float64", "int32", "int64", "bool", "uint64"):
            for form in ("list", "tuple", "rows", "tuple-rows", "lists-of-rows"):
                if form == "lists-of-rows" and len(sh) < 2:
                    continue
                yield sh, dt, form


def sequences(ctx, case):
    sh, dt, form = case
    a = source(sh, dt, "C")
    want = np.array(a.tolist())  # an empty list has no inner shape
    if form in ("list", "tuple") or not a.shape[0]:
        want = a.reshape(want.shape)
    else:
        want = a
    if form == "lists-of-rows" and 0 in sh:
        want = np.array([list(x) for x in a], dtype=dt)
    why = lambda: f"{case}"
    for be, ops in BACKENDS.items():
        data = nest(a, form)
        saved = repr(data)
        ctx.step(6)
        r = ops.asarray(data)
        equal(ctx, f"sequence:{be}", why, r, want, None)
        for d in ("float32", "float64", "int32", "int64", "f", "i"):
            equal(ctx, f"sequence:{be}:dtype", why, ops.asarray(data, dtype=d), want.astype(d), d)
        for k, default in (("f", "float32"), ("i", "int32")):
            for f in [getattr(ops, f"asarray_{k}")] + [getattr(ops, f"asarray{n}{k}") for n in (want.ndim,) if 1 <= n <= 4]:
                equal(ctx, f"sequence_{k}:{be}", why, f(data), want.astype(default), default)
                for d in (FLOATS if k == "f" else INTS[:4]):
                    equal(ctx, f"sequence_{k}:{be}:dtype", why, f(data, dtype=d), want.astype(d), d)
        ctx.require(repr(data) == saved, f"sequence:{be}:modified", why)
    equal(ctx, "sequence:to_numpy", why, T.to_numpy(nest(a, form)), want, None)
    ctx.seen(case)


# ---- PyTorch ----------------------------------------------------------------------------------------------------------------
def torch_cases(quick):
    for sh in shapes(3 if quick else 4, 2 if quick else 3, 0):
        for dt in TORCH:
            for lay in LAYOUTS:
                yield sh, dt, lay


def tensors(ctx, case):
    sh, dt, lay = case
    a = source(sh, dt, lay)
    saved = a.copy()
    why = lambda: f"{case}"
    ctx.step(6)
    for grad in (False, True) if dt in FLOATS else (False,):
        for dev in ({}, {"device": torch.device("cpu")}):
            t = T.xp2torch(a, requires_grad=grad, **dev) if grad or dev else T.xp2torch(a)
            if not ctx.require(isinstance(t, torch.Tensor) and tuple(t.shape) == a.shape and t.dtype == TORCH[dt] and t.detach().tolist() == saved.tolist(), "xp2torch:value", lambda: f"{case}: {t!r:.200}"):
                continue
            ctx.require(t.requires_grad == grad and t.is_leaf and t.grad is None, "xp2torch:grad", lambda: f"{case}: requires_grad={t.requires_grad}")
            for ops in (None, T.NumpyOps()):
                equal(ctx, "xp2torch:back", why, T.torch2xp(t, ops=ops) if ops else T.torch2xp(t), saved, dt)
            if grad and a.size:
                (t * 2).sum().backward()
                equal(ctx, "xp2torch:gradient", why, T.torch2xp(t.grad), np.full(sh, 2.0), dt)
    ctx.require(np.array_equal(a, saved), "xp2torch:modified", why)
    t = tensor(saved, lay)
    tsaved = t.clone()
    for be, ops in BACKENDS.items():
        equal(ctx, f"asarray:{be}:tensor", why, ops.asarray(t), saved, dt)
        for d in ("float32", "float64", "int32", "int64", "f", "i"):
            equal(ctx, f"asarray:{be}:tensor-dtype", why, ops.asarray(t, dtype=d), saved.astype(d), d)
        for k, default in (("f", "float32"), ("i", "int32")):
            for f in [getattr(ops, f"asarray_{k}")] + [getattr(ops, f"asarray{n}{k}") for n in (len(sh),) if 1 <= n <= 4]:
                equal(ctx, f"asarray_{k}:{be}:tensor", why, f(t), saved.astype(default), default)
    for ops in (None, T.NumpyOps()):
        for x in [t, tensor(saved, lay).requires_grad_()] if dt in FLOATS else [t]:
            r = T.torch2xp(x, ops=ops)
            equal(ctx, "torch2xp", why, r, saved, dt)
            back = T.xp2torch(r)
            ctx.require(back.dtype == x.dtype and torch.equal(back, x.detach()), "torch2xp:back", why)
            if dt in FLOATS:
                equal(ctx, "torch2xp:computed", why, T.torch2xp(x * 1, ops=ops), saved, dt)
    ctx.require(torch.equal(t, tsaved), "torch2xp:modified", why)
    ctx.seen(case)


# ---- allocation ---------------------------------------------------------------------------------------------------------
def alloc_cases(quick):
    for be in BACKENDS:
        for sh in shapes(4, 2 if quick else 3):
            for k, dts in (("f", FLOATS + ("f",)), ("i", INTS[:4] + ("i",)), ("", FLOATS + INTS + ("bool",))):
                for d in (None,) + dts:
                    yield be, sh, k, d


def alloc(ctx, case):
    be, sh, k, d = case
    ops = BACKENDS[be]
    kw = {} if d is None else {"dtype": d}
    want = np.dtype(d or ("int32" if k == "i" else "float32"))
    fs = [lambda **z: ops.alloc(sh, **kw, **z)] if not k else [lambda **z: getattr(ops, f"alloc_{k}")(sh, **kw, **z), lambda **z: getattr(ops, f"alloc{len(sh)}{k}")(*sh, **kw, **z)]
    if not k and len(sh) == 1:
        fs.append(lambda **z: ops.alloc(sh[0], **kw, **z))
    for f in fs:
        # Leave behind used memory of the same size, then allocate
        for _ in range(3):
            np.full(sh, 1, dtype=want)
        for z in ({}, {"zeros": True}, {"zeros": False}):
            ctx.step()
            a, b = f(**z), f(**z)
            ctx.require(isinstance(a, np.ndarray) and a.shape == sh and a.dtype == want and a.flags.writeable and a.flags.c_contiguous, f"alloc:{be}:array", lambda: f"{case} {z}: {a.shape} {a.dtype}")
            if z.get("zeros", True):
                ctx.require(not a.any() and not b.any(), f"alloc:{be}:zeros", lambda: f"{case}: {a.tolist()}")
            a[...] = 1
            b[...] = 0
            ctx.require(bool(a.all()) and not np.shares_memory(a, b), f"alloc:{be}:shared", lambda: f"{case}")
    ctx.seen(case)


# ---- classes ---------------------------------------------------------------------------------------------------------------
SMOOTH = (0.0, 0.05, 0.1, 0.25, 0.3, 0.49, 0.5, 0.6, 0.66, 0.7, 0.75, 0.8, 1.0, -0.1)


def class_cases(quick):
    for n in range(0, 4 if quick else 5):
        for y in itertools.product(range(4), repeat=n):
            for nc in (None, 0, 1, 2, 3, 4, 5):
                yield y, nc


def classes(ctx, case):
    y, nc = case
    top = max(y) + 1 if y else None
    for shape in {(len(y),), (len(y), 1), (1, len(y)), (2, 1) if len(y) == 2 else (len(y),)}:
        for dt in ("int32", "int64", "uint64", "uint32", "int16", "uint8"):
            for lay in LAYOUTS if dt == "int32" else ("C",):
                for sm in SMOOTH if dt == "int32" and lay in ("C", "strided") else (0.0, 0.1):
                    Y = layout(np.array(y, dtype=dt).reshape(shape), lay)
                    saved = Y.copy()
                    kw = {} if nc is None else {"n_classes": nc}
                    n = top if nc is None else nc
                    bad = n is None or n == 0 or sm < 0 or (sm > 0 and n < 2) or (sm > 0 and sm >= (n - 1) / n) or (top is not None and top > n)
                    ctx.step()
                    try:
                        r = T.to_categorical(Y, **kw, label_smoothing=sm) if sm else T.to_categorical(Y, **kw)
                    except (ValueError, IndexError):
                        ctx.require(bad, "categorical:refused", lambda: f"{case} {shape} {dt} smoothing {sm}")
                        continue
                    if bad:
                        ctx.fail("categorical:accepted", f"{case} {shape} smoothing {sm}: {r.tolist()}")
                        continue
                    want = np.zeros(shape + (n,))
                    for i in np.ndindex(*shape):
                        for c in range(n):
                            want[i + (c,)] = 1 - sm if c == saved[i] else sm / (n - 1) if n > 1 else 0
                    ctx.require(isinstance(r, np.ndarray) and r.dtype.kind == "f" and close(r, want, 1e-6, 1e-7), "categorical:value", lambda: f"{case} {shape} {dt} {lay} smoothing {sm}: {r.tolist()}")
                    ctx.require(np.array_equal(Y, saved), "categorical:modified", lambda: f"{case}")
                    if r.size and len(y) > 1:  # rows belong to the caller: writing to one leaves the others alone
                        k = r.copy().reshape(-1, n)
                        r.reshape(-1, n)[0] = 9
                        ctx.require(np.array_equal(r.reshape(-1, n)[1:], k[1:]), "categorical:shared", lambda: f"{case}")
    ctx.seen(case)


# ---- widths and kinds ----------------------------------------------------------------------------------------------------
def width_cases(quick):
    for sh in shapes(4, 2 if quick else 3):
        for lay in ("C", "F", "strided"):
            for dt in ("float32", "int64"):
                yield sh, lay, dt


def widths(ctx, case):
    sh, lay, dt = case
    a = source(sh, dt, lay)
    why = lambda: f"{case}"

    def check(sig, x, want, **kw):
        ctx.step()
        got = T.get_width(x, **kw)
        ctx.require(got == want and isinstance(got, (int, np.integer)), f"width:{sig}", lambda: f"{case} {kw}: {got!r}, should be {want}")

    dims = [-1] + [d for d in range(-len(sh), len(sh))]
    for d in dims:
        kw = {} if d == -1 else {"dim": d}
        if len(sh) == 1:
            if not a.size:
                continue
            want = int(a.max()) + 1
        else:
            want = sh[d]
        check("array", a, want, **kw)
        check("list", [a], want, **kw)
        check("tuple", (a, a), want, **kw)
        check("first", [a, np.zeros((1,) * max(len(sh) - 1, 1) + (9,), "f")], want, **kw)
        check("nested", [[a], [a]], want, **kw)
        if len(sh) >= 2 and d == -1:
            r = Ragged(a, np.array([sh[0]], dtype="i"))
            check("ragged", r, int(np.prod(sh[1:])))
            check("tensor", torch.tensor(a.tolist()).reshape(sh), want)
        if len(sh) == 3:
            check("padded", Padded(a, np.zeros(sh[0], "i"), np.zeros(sh[1], "i"), np.arange(sh[1])), want, **kw)
    for empty in ([], ()):
        check("empty", empty, 0)
    check("scalar", np.array(3), 0)
    for bad in (3, "abc", None, 2.5, {"a": 1}, object(), {1, 2}):
        try:
            r = T.get_width(bad)
            ctx.fail("width:accepted", f"get_width({bad!r}) = {r}")
        except ValueError:
            pass
    ctx.seen(case)


class Impostor:
    """Looks like an array, but is none."""
    shape, ndim, dtype = (1,), 1, np.dtype("f")
    is_cuda = True

    def numpy(self):
        return np.zeros(1)

    get = detach = numpy


class Sub(np.ndarray):
    pass


def objects():
    a = np.ones((2, 1), "f")
    yield "array", a, "numpy"
    yield "array-0d", np.array(1.0), "numpy"
    yield "array-empty", np.zeros((0, 2)), "numpy"
    yield "array-int", np.ones(2, "i"), "numpy"
    yield "array-object", np.array([None]), "numpy"
    yield "array-str", np.array(["a"]), "numpy"
    yield "subclass", a.view(Sub), "numpy"
    yield "matrix", np.asmatrix(a), "numpy"
    yield "masked", np.ma.array(a), "numpy"
    yield "tensor", torch.ones(2), "torch"
    yield "tensor-grad", torch.ones(2, requires_grad=True), "torch"
    yield "tensor-int", torch.ones(2, dtype=torch.int32), "torch"
    yield "parameter", torch.nn.Parameter(torch.ones(1)), "torch"
    yield "tensor-0d", torch.tensor(1.0), "torch"
    yield "tensor-meta", torch.ones(2, device="meta"), "torch"
    for n, x in (("scalar", np.float32(1)), ("int", 3), ("float", 1.5), ("list", [a]), ("tuple", (a,)), ("dict", {"a": a}), ("none", None), ("str", "x"), ("bytes", b"x"), ("impostor", Impostor()), ("type", np.ndarray), ("torch-type", torch.Tensor), ("ragged", Ragged(a, np.array([2], "i"))),
                 ("pairs", Pairs([1], [2])), ("argskwargs", ArgsKwargs((a,), {})), ("buffer", memoryview(b"12")), ("module", np), ("dtype", np.dtype("f")), ("torch-module", torch.nn.Linear(1, 1)), ("generator", iter([a]))):
        yield n, x, None


def kinds(ctx, name):
    x, kind = {n: (x, k) for n, x, k in objects()}[name]
    want = {"is_numpy_array": kind == "numpy", "is_xp_array": kind == "numpy", "is_torch_array": kind == "torch", "is_cupy_array": False, "is_torch_cuda_array": False, "is_torch_gpu_array": False, "is_torch_mps_array": False,
            "is_tensorflow_array": False, "is_tensorflow_gpu_array": False, "is_mxnet_array": False, "is_mxnet_gpu_array": False}
    for f, w in want.items():
        ctx.step()
        got = getattr(U, f)(x)
        ctx.require(got is w, f"kind:{f}", lambda: f"{f} of {name}: {got!r}, should be {w}")
    try:
        m = T.get_array_module(x)
        ctx.require(kind == "numpy" and m is np, "module", lambda: f"get_array_module of {name}: {m}")
    except ValueError:
        ctx.require(kind != "numpy", "module:refused", name)
    ctx.seen(name)


# ---- copying into an array -----------------------------------------------------------------------------------------------
def copy_cases(quick):
    for sh in shapes(3, 2 if quick else 3):
        for l1, l2 in itertools.product(LAYOUTS, repeat=2):
            for d1, d2 in itertools.product(("float32", "float64", "int64"), repeat=2):
                yield sh, l1, l2, d1, d2


def copies(ctx, case):
    sh, l1, l2, d1, d2 = case
    dst, src = layout(np.zeros(sh, d1), l1), source(sh, d2, l2)
    saved = src.copy()
    ctx.step()
    U.copy_array(dst, src)
    equal(ctx, "copy_array", lambda: f"{case}", dst, saved.astype(d1), d1)
    ctx.require(np.array_equal(src, saved), "copy_array:source", lambda: f"{case}")
    dst[...] = 1
    ctx.require(np.array_equal(src, saved), "copy_array:shared", lambda: f"{case}")
    ctx.seen(case)


FAMILIES = {"array": arrays, "sequence": sequences, "torch": tensors, "alloc": alloc, "class": classes, "width": widths, "kind": kinds, "copy": copies}


def explore(ctx):
    q = ctx.quick
    ctx.each("array", lambda: array_cases(q), arrays)
    ctx.each("sequence", lambda: sequence_cases(q), sequences)
    ctx.each("torch", lambda: torch_cases(q), tensors)
    ctx.each("alloc", lambda: alloc_cases(q), alloc)
    ctx.each("class", lambda: class_cases(q), classes)
    ctx.each("width", lambda: width_cases(q), widths)
    ctx.each("kind", lambda: [n for n, _, _ in objects()], kinds)
    ctx.each("copy", lambda: copy_cases(q), copies)


def replay(ctx, family, case):
    ctx.run_case(family, FAMILIES[family], case)
