"""The modules cupy, cupyx, ... of the stand-in (see the package docstring)."""
import re
import sys
import types

import numpy as np

from . import native
from .native import POLICY, OutOfBounds, Race  # noqa: F401

IMPLICIT = "Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly."


class CUDARuntimeError(RuntimeError):
    pass


def w(x):
    """Wrap what numpy returned."""
    if isinstance(x, np.ndarray):
        return ndarray._of(x)
    if isinstance(x, np.generic):
        return ndarray._of(np.asarray(x))
    if isinstance(x, tuple) and type(x) is not tuple and hasattr(x, "_fields"):
        return tuple(w(y) for y in x)
    if isinstance(x, (tuple, list)):
        return type(x)(w(y) for y in x)
    return x


def u(x):
    """Unwrap an argument of a cupy function; host arrays are refused."""
    if isinstance(x, ndarray):
        return x._a
    if isinstance(x, np.ndarray) and x.ndim:
        raise TypeError(f"Unsupported type {type(x)}")
    if isinstance(x, (tuple, list)):
        return type(x)(u(y) for y in x) if type(x) in (tuple, list) else x
    if isinstance(x, dict):
        return {k: u(v) for k, v in x.items()}
    if isinstance(x, slice):
        return slice(u(x.start), u(x.stop), u(x.step)) if any(isinstance(v, ndarray) for v in (x.start, x.stop, x.step)) else x
    return x


def ui(x):
    """Unwrap an index: host index arrays are accepted."""
    if isinstance(x, tuple):
        return tuple(ui(y) for y in x)
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, list):
        return [int(y) if isinstance(y, ndarray) and y.ndim == 0 and y.dtype.kind in "iu" else u(y) for y in x]
    return u(x)


class _Memory:
    def __init__(self, a):
        self.ptr = a.__array_interface__["data"][0]
        self._keep = a

    def __int__(self):
        return self.ptr


class ndarray:
    __array_priority__ = 100
    __hash__ = None

    def __init__(self, shape, dtype=float, memptr=None, strides=None, order="C"):
        self._a = _empty(shape, np.dtype(dtype), order)

    @classmethod
    def _of(cls, a):
        self = object.__new__(cls)
        self._a = a
        return self

    # conversions ---------------------------------------------------------------------------------
    def __array__(self, *a, **k):
        raise TypeError(IMPLICIT)

    def get(self, stream=None, order="C", out=None, blocking=True):
        if out is not None:
            out[...] = self._a
            return out
        return np.array(self._a, copy=True, order="K" if self._a.flags.c_contiguous or self._a.flags.f_contiguous else "C")

    def set(self, arr, stream=None):
        if not isinstance(arr, np.ndarray):
            raise TypeError("Only numpy.ndarray can be set to cupy.ndarray")
        self._a[...] = arr

    def item(self, *args):
        return self._a.item(*args)

    def tolist(self):
        return self._a.tolist()

    def tobytes(self, order="C"):
        return self._a.tobytes(order)

    def dump(self, file):
        self._a.dump(file)

    def __reduce__(self):
        return _unpickle, (np.array(self._a),)

    def __copy__(self):
        return ndarray._of(self._a.copy())

    def __deepcopy__(self, memo):
        return ndarray._of(self._a.copy())

    def __bool__(self):
        return bool(self._a)

    def __int__(self):
        return int(self._a)

    def __float__(self):
        return float(self._a)

    def __complex__(self):
        return complex(self._a)

    def __index__(self):
        if self._a.ndim or self._a.dtype.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(self._a)

    def __len__(self):
        if not self._a.ndim:
            raise TypeError("len() of unsized object")
        return len(self._a)

    def __iter__(self):
        if not self._a.ndim:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(len(self._a)))

    def __contains__(self, x):
        raise TypeError("`in` is not supported by cupy.ndarray")

    def __repr__(self):
        return repr(self._a)

    def __str__(self):
        return str(self._a)

    def __format__(self, f):
        return format(self._a, f)

    # attributes ----------------------------------------------------------------------------------
    shape = property(lambda s: s._a.shape, lambda s, v: setattr(s._a, "shape", v))
    dtype = property(lambda s: s._a.dtype)
    ndim = property(lambda s: s._a.ndim)
    size = property(lambda s: s._a.size)
    itemsize = property(lambda s: s._a.itemsize)
    nbytes = property(lambda s: s._a.nbytes)
    strides = property(lambda s: s._a.strides)
    flags = property(lambda s: s._a.flags)
    T = property(lambda s: w(s._a.T))
    real = property(lambda s: w(s._a.real))
    base = property(lambda s: None if s._a.base is None else w(s._a.base) if isinstance(s._a.base, np.ndarray) else None)
    data = property(lambda s: _Memory(s._a))
    device = property(lambda s: Device(0))

    @property
    def __cuda_array_interface__(self):
        raise AttributeError("not available in the stand-in")

    def __getattr__(self, name):
        if name.startswith("__") or name in ("newbyteorder", "tofile", "setflags", "ctypes", "itemset", "byteswap"):
            raise AttributeError(f"'ndarray' object has no attribute '{name}'")
        attr = getattr(np.ndarray, name, None)
        if attr is None:
            raise AttributeError(f"'ndarray' object has no attribute '{name}'")
        bound = getattr(self._a, name)
        if not callable(bound):
            return w(bound)

        def method(*args, **kw):
            out = kw.get("out")
            r = bound(*u(args), **u(kw))
            return out if out is not None else w(r)

        return method

    # indexing ------------------------------------------------------------------------------------
    def __getitem__(self, i):
        i = ui(i)
        r = self._a[i]
        if isinstance(r, np.generic):
            r = self._a[(i if isinstance(i, tuple) else (i,)) + (Ellipsis,)]
        return ndarray._of(r)

    def __setitem__(self, i, v):
        if isinstance(v, np.ndarray) and v.ndim:
            raise ValueError("non-scalar numpy.ndarray cannot be used for fill")
        self._a[ui(i)] = u(v)

    def fill(self, v):
        if isinstance(v, np.ndarray) and v.ndim:
            raise ValueError("non-scalar numpy.ndarray cannot be used for fill")
        self._a.fill(u(v))

    # numpy's protocols ---------------------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop("out", None)
        for x in inputs + (out or ()):
            if isinstance(x, np.ndarray) and x.ndim:
                raise TypeError(f"Unsupported type {type(x)}")
        if out is not None:
            if not all(isinstance(o, ndarray) for o in out):
                raise TypeError("Unsupported type <class 'numpy.ndarray'>")
            kw["out"] = tuple(o._a for o in out)
        r = getattr(ufunc, method)(*u(inputs), **u(kw))
        if out is not None:
            return out[0] if len(out) == 1 else out
        return w(r)

    def __array_function__(self, func, types_, args, kw):
        mod = func.__module__.split(".")
        name = func.__name__
        target = globals()["cupy"]
        if len(mod) > 1 and mod[1] == "linalg":
            target = target.linalg
        f = getattr(target, name, None)
        if f is None or f is func:
            raise TypeError(f"no implementation found for 'numpy.{name}' on types that implement __array_function__: {types_}")
        return f(*args, **kw)


def _binary(name):
    op = getattr(np.ndarray, name)
    inplace = name.startswith("__i") and name != "__invert__"

    def f(self, other):
        if isinstance(other, np.ndarray) and other.ndim:
            raise TypeError(f"Unsupported type {type(other)}")
        if isinstance(other, (list, tuple)):
            raise TypeError(f"Unsupported type {type(other)}")
        r = op(self._a, u(other))
        if r is NotImplemented:
            return r
        return self if inplace else w(r)

    f.__name__ = name
    return f


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul", "and", "or", "xor", "lshift", "rshift"):
    for _p in ("", "r", "i"):
        if hasattr(np.ndarray, f"__{_p}{_n}__"):
            setattr(ndarray, f"__{_p}{_n}__", _binary(f"__{_p}{_n}__"))
for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(ndarray, f"__{_n}__", _binary(f"__{_n}__"))
for _n in ("neg", "pos", "abs", "invert"):
    setattr(ndarray, f"__{_n}__", (lambda o: lambda self: w(o(self._a)))(getattr(np.ndarray, f"__{_n}__")))


def _unpickle(a):
    return ndarray._of(a)


def _empty(shape, dtype, order="C"):
    a = np.empty(shape, dtype=dtype, order=order)
    _poison(a)
    return a


def _poison(a):
    if a.size and a.dtype != object:
        if a.dtype.kind == "f":
            a.fill(np.nan)
        elif a.dtype.kind in "iu":
            a.fill(np.array(0x5A5A5A5A5A5A5A5A, dtype="uint64").astype(a.dtype))


# ---- the cupy namespace -----------------------------------------------------------------------------
def _deep(x):
    """Constructor argument: host arrays and nested sequences of device arrays are accepted."""
    if isinstance(x, ndarray):
        return x._a
    if isinstance(x, (list, tuple)):
        return [_deep(y) for y in x]
    return x


def array(obj, dtype=None, copy=True, order="K", subok=False, ndmin=0, **kw):
    a = _deep(obj)
    if hasattr(a, "__cuda_array_interface__") and not isinstance(a, np.ndarray):
        raise TypeError("not a CUDA array of the stand-in")
    if not isinstance(a, np.ndarray):
        a = np.asarray(a) if dtype is None else np.asarray(a).astype(dtype)
        copy = False
    elif not isinstance(obj, ndarray):
        copy = True
    if a.dtype == object or a.dtype.kind in "USOMmV":
        raise ValueError(f"Unsupported dtype {a.dtype}")
    if not a.dtype.isnative:
        a = a.astype(a.dtype.newbyteorder("="))
    if dtype is not None and a.dtype != np.dtype(dtype):
        a = a.astype(dtype)
    elif copy or copy is None and not isinstance(obj, ndarray):
        a = np.array(a, copy=True, order=order, ndmin=ndmin)
    return ndarray._of(np.array(a, copy=None, ndmin=ndmin) if ndmin else a)


def asarray(a, dtype=None, order=None, **kw):
    if isinstance(a, ndarray) and (dtype is None or a.dtype == np.dtype(dtype)):
        return a
    return array(a, dtype=dtype)


def ascontiguousarray(a, dtype=None):
    a = asarray(a, dtype)
    return a if a._a.flags.c_contiguous and a.ndim else ndarray._of(np.ascontiguousarray(a._a))


def asnumpy(a, stream=None, order="C", out=None, **kw):
    return a.get() if isinstance(a, ndarray) else np.asarray(a)


def empty(shape, dtype=float, order="C"):
    return ndarray._of(_empty(u(shape), np.dtype(dtype or float), order))


def empty_like(a, dtype=None, order="K", subok=None, shape=None):
    r = np.empty_like(u(a), dtype=dtype, order=order, shape=shape)
    _poison(r)
    return ndarray._of(r)


def _split(name):
    def f(ary, indices_or_sections, axis=0):
        i = indices_or_sections
        if not isinstance(i, (int, np.integer)):
            if isinstance(i, ndarray):
                raise TypeError(f"{name} takes its indices from the host")
            i = [int(x) for x in i]
        return w(getattr(np, name)(u(ary), i, axis))

    f.__name__ = name
    return f


split, array_split = _split("split"), _split("array_split")


class _Ufunc:
    """A ufunc with its method at()."""

    def __init__(self, name):
        self._f, self.__name__ = _generic(name), name
        self._at = getattr(np, name).at

    def __call__(self, *args, **kw):
        return self._f(*args, **kw)

    def at(self, a, indices, b):
        if not isinstance(a, ndarray) or isinstance(b, np.ndarray) and b.ndim:
            raise TypeError("Unsupported type <class 'numpy.ndarray'>")
        self._at(a._a, ui(indices), u(b))


def unique(ar, *args, **kw):
    return w(np.unique(asarray(ar)._a.flatten(), *args, **kw))


def get_array_module(*args):
    return cupy if any(isinstance(a, (ndarray,)) for a in args) else np


def _generic(name):
    f = getattr(np, name)

    def g(*args, **kw):
        out = kw.get("out")
        if out is not None and not isinstance(out, ndarray):
            raise TypeError(f"Unsupported type {type(out)}")
        r = f(*u(args), **u(kw))
        return out if out is not None else w(r)

    g.__name__ = name
    return g


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(np, name, None)
        if v is None or name in ("ndarray", "matrix", "testing", "lib", "ma", "rec", "char"):
            raise AttributeError(f"module 'cupy' has no attribute '{name}'")
        if isinstance(v, type) or not callable(v):
            r = v
        else:
            r = _generic(name)
        setattr(self, name, r)
        return r


cupy = _Module("cupy")
cupy._is_standin = True
cupy.__path__ = []
cupy.__version__ = "13.0.0"


class _Random(types.ModuleType):
    """A generator of its own."""

    def __init__(self):
        super().__init__("cupy.random")
        self._state = np.random.RandomState(0)

    def seed(self, s=None):
        self._state.seed(s)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(self._state, name)

        def g(*args, **kw):
            dtype = kw.pop("dtype", None) if name in ("uniform", "normal", "rand", "randn", "random", "standard_normal") else None
            r = f(*u(args), **u(kw))
            if dtype is not None:
                r = np.asarray(r).astype(dtype)
            return w(r)

        return g


class Device:
    def __init__(self, device=0):
        self.id = device

    def use(self):
        if self.id != 0:
            raise CUDARuntimeError("cudaErrorInvalidDevice: invalid device ordinal")

    def synchronize(self):
        pass

    def __enter__(self):
        self.use()
        return self

    def __exit__(self, *a):
        pass

    def __eq__(self, o):
        return isinstance(o, Device) and o.id == self.id


class RawModule:
    def __init__(self, *, code=None, path=None, options=(), backend="nvrtc", translate_cucomplex=False, enable_cooperative_groups=False, name_expressions=None, jitify=False):
        self.code, self.names = code, list(name_expressions or [])
        self._fns = None

    def get_function(self, name):
        if self._fns is None:
            self._fns = native.module(self.code, self.names)
        if name not in self._fns:
            raise CUDARuntimeError(f"CUDA_ERROR_NOT_FOUND: named symbol not found: {name}")
        return _Kernel(self._fns[name])


class _Kernel:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, grid, block, args, **kw):
        host = []
        for a in args:
            if isinstance(a, ndarray):
                host.append(a._a)
            elif isinstance(a, np.ndarray):
                raise TypeError(f"Unsupported type {type(a)}")
            else:
                host.append(a)
        self.fn(grid, block, tuple(host))


class RawKernel(_Kernel):
    def __init__(self, code, name, options=(), backend="nvrtc", **kw):
        plain = '"C"' in code
        super().__init__(native.module(code, [] if plain else [name], [name] if plain else [])[name])


CTYPES = {"b": "bool", "bool": "bool", "int8": "signed char", "int16": "short", "int32": "int", "int64": "long long", "uint8": "unsigned char", "uint16": "unsigned short",
          "uint32": "unsigned int", "uint64": "unsigned long long", "float32": "float", "float64": "double", "float16": "_Float16"}


def _params(text):
    out = []
    for p in text.split(","):
        p = p.strip()
        if p:
            parts = p.split()
            out.append((parts[-2], parts[-1], "raw" in parts[:-2]))
    return out


class _Elementwise:
    def resolve(self, params, args):
        """Types of the kernel's parameters: arrays decide, numbers follow."""
        types_ = {}
        for (t, name, raw), a in zip(params, args):
            if isinstance(a, ndarray) and len(t) == 1:
                if t in types_ and types_[t] != a.dtype:
                    raise TypeError(f"Type is mismatched. {name} {types_[t]} {a.dtype} {t}")
                types_[t] = a.dtype
        for (t, name, raw), a in zip(params, args):
            if len(t) == 1 and t not in types_:
                types_[t] = np.asarray(u(a)).dtype
        return types_

    def ctype(self, t, types_):
        return CTYPES[types_[t].name] if t in types_ else {"bool": "bool", "int": "int", "float": "float", "double": "double"}.get(t) or CTYPES[np.dtype(t).name]


class ElementwiseKernel(_Elementwise):
    def __init__(self, in_params, out_params, operation, name="kernel", reduce_dims=True, preamble="", **kw):
        self.ins, self.outs, self.op, self.name, self.pre = _params(in_params), _params(out_params), operation, name, preamble
        self._cache = {}

    def __call__(self, *args, size=None, stream=None, block_size=128):
        params = self.ins + self.outs
        if len(args) not in (len(self.ins), len(params)):
            raise TypeError(f"Wrong number of arguments for {self.name}")
        for a in args:
            if isinstance(a, np.ndarray) and a.ndim:
                raise TypeError(f"Unsupported type {type(a)}")
        types_ = self.resolve(params, args)
        shape = np.broadcast_shapes(*[a.shape for a in args if isinstance(a, ndarray)])
        args = list(args)
        for t, name, raw in self.outs[len(args) - len(self.ins):] if len(args) < len(params) else []:
            args.append(empty(shape, types_[t] if t in types_ else np.dtype(t)))
        outs = args[len(self.ins):]
        for o in outs:
            if o.shape != shape:
                raise ValueError("Out shape is mismatched")
        host = []
        for (t, name, raw), a in zip(params, args):
            dt = types_[t] if t in types_ else np.dtype(t)
            host.append(np.array(np.broadcast_to(np.asarray(u(a)).astype(dt), shape), order="C", copy=True))
        n = int(np.prod(shape))
        key = tuple((k, v.str) for k, v in sorted(types_.items()))
        fn = self._cache.get(key)
        if fn is None:
            sig = ", ".join(f"{self.ctype(t, types_)}* _p{i}" for i, (t, _, _) in enumerate(params))
            body = "".join(f"{'const ' if i < len(self.ins) else ''}{self.ctype(t, types_)} &{name} = _p{i}[i];\n" for i, (t, name, _) in enumerate(params))
            tds = "".join(f"typedef {self.ctype(t, types_)} {t};\n" for t in types_)
            code = f"{self.pre}\n__global__ void kern({sig}, int _n) {{ {tds} int _s = blockDim.x * gridDim.x; for (int i = blockIdx.x * blockDim.x + threadIdx.x; i < _n; i += _s) {{ {body} {self.op}; }} }}"
            fn = self._cache[key] = native.module(code, ["kern"])["kern"]
        if n:
            fn((1,), (min(n, 128),), tuple(host) + (n,))
        for o, h in zip(outs, host[len(self.ins):]):
            o._a[...] = h
        return outs[0] if len(outs) == 1 else tuple(outs)


class ReductionKernel(_Elementwise):
    def __init__(self, in_params, out_params, map_expr, reduce_expr, post_map_expr, identity, name="reduce", reduce_type=None, reduce_dims=True, preamble="", options=()):
        self.ins, self.outs = _params(in_params), _params(out_params)
        self.map, self.red, self.post, self.identity, self.name = map_expr, reduce_expr, post_map_expr, identity, name
        self.rtype, self.pre = reduce_type, preamble
        self._cache = {}

    def __call__(self, *args, out=None, axis=None, keepdims=False, stream=None):
        if len(args) != len(self.ins):
            raise TypeError("Wrong number of arguments")
        if axis is not None or keepdims:
            raise NotImplementedError("stand-in: reductions over everything only")
        for a in args:
            if isinstance(a, np.ndarray) and a.ndim:
                raise TypeError(f"Unsupported type {type(a)}")
        types_ = self.resolve(self.ins, args)
        ot, oname, _ = self.outs[0]
        oc = self.ctype(ot, types_)
        shape = np.broadcast_shapes(*[a.shape for a in args if isinstance(a, ndarray)])
        host = [np.array(np.broadcast_to(np.asarray(u(a)).astype(types_[t] if t in types_ else np.dtype(t)), shape), order="C", copy=True) for (t, _, _), a in zip(self.ins, args)]
        odt = np.dtype(types_[ot] if ot in types_ else ot)
        res = np.zeros((1,), dtype=odt)
        key = tuple((k, v.str) for k, v in sorted(types_.items()))
        fn = self._cache.get(key)
        if fn is None:
            sig = ", ".join(f"{self.ctype(t, types_)}* _p{i}" for i, (t, _, _) in enumerate(self.ins))
            body = "".join(f"const {self.ctype(t, types_)} &{name} = _p{i}[i];\n" for i, (t, name, _) in enumerate(self.ins))
            rt = self.rtype or oc
            code = (f"{self.pre}\n__global__ void kern({sig}, {oc}* _out, int _n) {{ typedef {rt} _R; _R _acc = ({self.identity}); "
                    f"for (int i = 0; i < _n; ++i) {{ {body} _R _m = ({self.map}); {{ _R a = _acc, b = _m; _acc = ({self.red}); }} }} {{ _R a = _acc; {oc} &{oname} = _out[0]; {self.post}; }} }}")
            fn = self._cache[key] = native.module(code, ["kern"])["kern"]
        fn((1,), (1,), tuple(host) + (res, int(np.prod(shape))))
        return ndarray._of(res.reshape(()))


def scatter_add(a, slices, value):
    if isinstance(value, np.ndarray) and value.ndim:
        raise TypeError(f"Unsupported type {type(value)}")
    idx = ui(slices)
    np.add.at(a._a, idx, u(value))


def nrm2(x, out=None):
    if x.ndim != 1:
        raise ValueError("x must be a 1D array (actual: %d)" % x.ndim)
    if x.dtype.char not in "fdFD":
        raise TypeError("invalid dtype")
    return ndarray._of(np.asarray(np.sqrt(np.sum(x._a.astype("float64") ** 2))).astype(x.dtype))


class _Pool:
    def __init__(self, allocator=None):
        self.allocator = allocator

    def malloc(self, size):
        return self.allocator(size) if self.allocator else None

    def free_all_blocks(self):
        pass


def register():
    if "cupy" in sys.modules:
        return
    c = cupy
    for f in (array, asarray, ascontiguousarray, asnumpy, empty, empty_like, unique, get_array_module, split, array_split, RawModule, RawKernel, ElementwiseKernel, ReductionKernel, ndarray):
        setattr(c, f.__name__, f)
    c.add, c.subtract, c.maximum, c.minimum = (_Ufunc(n) for n in ("add", "subtract", "maximum", "minimum"))
    c.random = _Random()
    lin = types.ModuleType("cupy.linalg")

    def norm(x, *a, **k):
        return w(np.linalg.norm(u(x), *u(a), **u(k)))

    lin.norm = norm
    c.linalg = lin
    c.generic = np.generic
    cuda = types.ModuleType("cupy.cuda")
    cuda.__path__ = []
    runtime = types.ModuleType("cupy.cuda.runtime")
    runtime.getDeviceCount = lambda: 1
    runtime.CUDARuntimeError = CUDARuntimeError
    device = types.ModuleType("cupy.cuda.device")
    device.Device = Device
    nvtx = types.ModuleType("cupy.cuda.nvtx")
    nvtx.RangePush = lambda message, id_color=-1: None
    nvtx.RangePop = lambda: None
    memory = types.ModuleType("cupy.cuda.memory")
    memory.MemoryPointer = lambda mem, off: None
    memory.UnownedMemory = lambda *a: None
    cuda.runtime, cuda.device, cuda.Device, cuda.nvtx, cuda.memory = runtime, device, Device, nvtx, memory
    cuda.MemoryPool = _Pool
    cuda.set_allocator = lambda f=None: None
    cuda.get_current_stream = lambda: types.SimpleNamespace(ptr=0, synchronize=lambda: None)
    c.cuda = cuda
    c.get_default_memory_pool = lambda: _Pool()
    c.from_dlpack = lambda x: (_ for _ in ()).throw(NotImplementedError("dlpack"))
    cublas = types.ModuleType("cupy.cublas")
    cublas.nrm2 = nrm2
    c.cublas = cublas
    cx = types.ModuleType("cupyx")
    cx.scatter_add = scatter_add
    for n, m in (("cupy", c), ("cupy.cublas", cublas), ("cupy.linalg", lin), ("cupy.random", c.random), ("cupy.cuda", cuda), ("cupy.cuda.runtime", runtime), ("cupy.cuda.device", device),
                 ("cupy.cuda.nvtx", nvtx), ("cupy.cuda.memory", memory), ("cupyx", cx)):
        sys.modules[n] = m


def warm():
    """Compile everything once, before worker processes are started."""
    from thinc.api import CupyOps
    from thinc.backends import _custom_kernels as K

    ops = CupyOps()
    todo = [getattr(k, "_compile_kernel", None) for k in vars(K).values() if hasattr(k, "_compile_kernel") and not isinstance(k, type)]
    todo.append(lambda: ops.hash(ndarray._of(np.zeros(2, dtype="uint64")), 1))
    for dt in ("int32", "int64"):
        todo.append(lambda dt=dt: ops.gather_add(ndarray._of(np.zeros((2, 2), dtype="float32")), ndarray._of(np.zeros((1, 1), dtype=dt))))
    for f in todo:
        try:
            f()
        except native.CompileError:
            raise
        except Exception:  # judged by the checks, not here
            pass
