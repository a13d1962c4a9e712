"""Compile CUDA C++ with g++ and run kernels thread by thread."""
import atexit
import ctypes
import hashlib
import itertools
import os
import re
import shutil
import subprocess
import tempfile

import numpy as np

PRELUDE = r"""
#include <cmath>
#include <math.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <algorithm>
#include <type_traits>
#include <limits>
#include <utility>
"""

DRIVER = r"""
namespace vsim {
struct dim { int x, y, z; };
static dim threadIdx_, blockIdx_, blockDim_, gridDim_;
static char* atomics[4096]; static int n_atomics = 0;
template <typename T> static T note(T* p) { if (n_atomics < 4096) atomics[n_atomics++] = (char*)p; return *p; }
}
#define threadIdx vsim::threadIdx_
#define blockIdx vsim::blockIdx_
#define blockDim vsim::blockDim_
#define gridDim vsim::gridDim_
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __restrict__
#define __launch_bounds__(...)
template <typename T, typename V> static T atomicAdd(T* p, V v) { T o = vsim::note(p); *p = (T)(o + v); return o; }
template <typename T, typename V> static T atomicMax(T* p, V v) { T o = vsim::note(p); if ((T)v > o) *p = (T)v; return o; }
template <typename T, typename V> static T atomicMin(T* p, V v) { T o = vsim::note(p); if ((T)v < o) *p = (T)v; return o; }
template <typename T, typename V> static T atomicExch(T* p, V v) { T o = vsim::note(p); *p = (T)v; return o; }
template <typename T, typename C, typename V> static T atomicCAS(T* p, C c, V v) { T o = vsim::note(p); if (o == (T)c) *p = (T)v; return o; }
template <typename A, typename B> static inline typename std::common_type<A, B>::type max(A a, B b) {
    typedef typename std::common_type<A, B>::type C; return (C)a < (C)b ? (C)b : (C)a; }
template <typename A, typename B> static inline typename std::common_type<A, B>::type min(A a, B b) {
    typedef typename std::common_type<A, B>::type C; return (C)b < (C)a ? (C)b : (C)a; }
static inline float rsqrtf(float x) { return 1.0f / sqrtf(x); }
static inline double rsqrt(double x) { return 1.0 / sqrt(x); }
static inline float rsqrt(float x) { return 1.0f / sqrtf(x); }
template <typename T> static inline T __ldg(const T* p) { return *p; }
static inline float __expf(float x) { return expf(x); }
static inline float __logf(float x) { return logf(x); }
static inline float __fdividef(float x, float y) { return x / y; }
"""

LAUNCH = r"""
namespace vsim {
template <typename A> static A arg(void* p) { typename std::remove_const<A>::type a; memcpy(&a, p, sizeof(A)); return a; }
template <typename... A, size_t... I> static void call(void (*k)(A...), void** args, std::index_sequence<I...>) { k(arg<A>(args[I])...); }
template <typename... A> static int go(void (*k)(A...), int g, int b, const int* order, int n, void** args, int nargs) {
    if (nargs != (int)sizeof...(A)) return -1;
    gridDim_ = {g, 1, 1}; blockDim_ = {b, 1, 1};
    n_atomics = 0;
    for (int i = 0; i < n; ++i) {
        int t = order ? order[i] : i;
        blockIdx_ = {t / b, 0, 0}; threadIdx_ = {t % b, 0, 0};
        call(k, args, std::make_index_sequence<sizeof...(A)>());
    }
    return 0;
}
template <typename... A> static int widths(void (*)(A...), int* out) { int w[] = {(int)sizeof(A)..., 0}; for (size_t i = 0; i < sizeof...(A); ++i) out[i] = w[i]; return sizeof...(A); }
}
extern "C" int vsim_atomics(char** out) { for (int i = 0; i < vsim::n_atomics; ++i) out[i] = vsim::atomics[i]; return vsim::n_atomics; }
"""

_dir = None
_libs = {}


def _scratch():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix="verif-gpusim-")
        atexit.register(_clean, _dir, os.getpid())
    return _dir


def _clean(path, pid):
    if os.getpid() == pid and path.startswith(tempfile.gettempdir()):
        shutil.rmtree(path, ignore_errors=True)


class CompileError(Exception):
    pass


def build(source, std="c++17"):
    """The shared library of this C++ source."""
    key = hashlib.sha1((std + source).encode()).hexdigest()[:20]
    if key in _libs:
        return _libs[key]
    path = os.path.join(_scratch(), f"{key}.{os.getpid()}")  # workers may compile the same source at the same time
    with open(path + ".cpp", "w") as f:
        f.write(source)
    tmp = path + ".so"
    r = subprocess.run(["g++", "-O1", f"-std={std}", "-fpermissive", "-w", "-fPIC", "-shared", "-fno-strict-aliasing", "-ffp-contract=off", path + ".cpp", "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CompileError(r.stdout[:4000])
    _libs[key] = ctypes.CDLL(tmp)
    return _libs[key]


class OutOfBounds(Exception):
    """A kernel wrote outside the memory of its arguments."""


class Race(Exception):
    """The result depends on how the threads interleave."""


class Policy:
    """How launches run. order: 'forward', 'reverse' or a function (n) -> list; races: also run every thread alone."""
    order = "forward"
    races = False
    poison = 0xA5
    launches = 0
    threads = 0
    checked_threads = 0
    orders = 0


POLICY = Policy()
GUARD = 512


def _bounds(a):
    lo, hi = np.lib.array_utils.byte_bounds(a)
    return lo, max(hi, lo)


class Function:
    """One compiled kernel."""

    def __init__(self, lib, sym, name):
        self.lib, self.name = lib, name
        self.fn = getattr(lib, sym)
        self.fn.restype = ctypes.c_int

    def __call__(self, grid, block, args):
        """args: numpy arrays (by address) or numbers."""
        POLICY.launches += 1
        g = 1
        for d in grid if isinstance(grid, tuple) else (grid,):
            g *= int(d)
        b = 1
        for d in block if isinstance(block, tuple) else (block,):
            b *= int(d)
        if g < 1 or b < 1 or b > 1024:
            raise ValueError(f"{self.name}: invalid launch configuration {grid} x {block}")
        n = g * b
        POLICY.threads += n
        # memory areas, merged where they overlap
        areas = sorted({_bounds(a) for a in args if isinstance(a, np.ndarray) and a.size})
        merged = []
        for lo, hi in areas:
            if merged and lo < merged[-1][1]:
                merged[-1][1] = max(hi, merged[-1][1])
            else:
                merged.append([lo, hi])
        bufs = []
        for lo, hi in merged:
            size = hi - lo
            buf = np.full(size + 2 * GUARD + 64, POLICY.poison, dtype="uint8")
            off = GUARD + (-(buf.ctypes.data + GUARD) % 16) + lo % 16
            ctypes.memmove(buf.ctypes.data + off, lo, size)
            bufs.append((lo, hi, buf, off))

        def addr(a):
            if not a.size:
                return 0
            p = a.__array_interface__["data"][0]  # the first element, as cupy passes it
            for lo, hi, buf, off in bufs:
                if lo <= p < hi:
                    return buf.ctypes.data + off + (p - lo)
            raise AssertionError

        vals = []
        for a in args:
            if isinstance(a, np.ndarray):
                vals.append(ctypes.c_uint64(addr(a)))
            elif isinstance(a, (bool, np.bool_)):
                vals.append(ctypes.c_bool(bool(a)))
            elif isinstance(a, np.generic):
                raw = (ctypes.c_char * 16)()
                by = a.tobytes()
                raw[: len(by)] = by
                vals.append(raw)
            elif isinstance(a, int):
                vals.append(ctypes.c_int64(a) if a < 2 ** 63 else ctypes.c_uint64(a))
            elif isinstance(a, float):
                vals.append(ctypes.c_double(a))
            else:
                raise TypeError(f"{self.name}: unsupported kernel argument {type(a)}")
        ptrs = (ctypes.c_void_p * len(vals))(*[ctypes.cast(ctypes.pointer(v), ctypes.c_void_p) for v in vals])

        def run(order, count):
            o = None if order is None else (ctypes.c_int * max(1, count))(*order)
            r = self.fn(g, b, o, count, ptrs, len(vals))
            if r:
                raise TypeError(f"{self.name}: called with {len(vals)} arguments, which is not its number of parameters")

        order = POLICY.order
        if POLICY.races and merged:
            start = [buf.copy() for _, _, buf, _ in bufs]
            writers = [dict() for _ in bufs]
            for t in range(n):
                run([t], 1)
                for k, (_, _, buf, _) in enumerate(bufs):
                    for i in np.nonzero(buf != start[k])[0].tolist():
                        writers[k].setdefault(i, []).append((t, int(buf[i])))
                    buf[:] = start[k]
            POLICY.checked_threads += n
            atoms = (ctypes.c_void_p * 4096)()
            for od in ([list(range(n)), list(range(n))[::-1]] if n > 4 else [list(p) for p in itertools.permutations(range(n))]):
                POLICY.orders += 1
                for k, (_, _, buf, _) in enumerate(bufs):
                    buf[:] = start[k]
                run(od, n)
                na = self.lib.vsim_atomics(atoms)
                atomic = {p for i in range(na) for p in range(atoms[i], atoms[i] + 8)}
                for k, (_, _, buf, _) in enumerate(bufs):
                    for i in np.nonzero(buf != start[k])[0].tolist():
                        w = writers[k].get(i, [])
                        if {v for _, v in w} != {int(buf[i])} and buf.ctypes.data + i not in atomic:
                            raise Race(f"{self.name}: grid {g}, block {b}, thread order {od}: byte {i} of a result depends on the order of the threads; alone they write {w[:4]}, together {int(buf[i])}")
            for k, (_, _, buf, _) in enumerate(bufs):
                buf[:] = start[k]
        if callable(order):
            run(order(n), n)
        elif order == "reverse":
            run(list(range(n))[::-1], n)
        else:
            run(None, n)
        for lo, hi, buf, off in bufs:
            size = hi - lo
            if (buf[:off] != POLICY.poison).any() or (buf[off + size:] != POLICY.poison).any():
                raise OutOfBounds(f"{self.name}: wrote outside its arguments")
            ctypes.memmove(lo, buf.ctypes.data + off, size)


def module(code, names, plain=()):
    """Compile CUDA source; `names` are instantiations such as 'gelu<float>', `plain` extern "C" kernels."""
    own_ints = re.search(r"typedef[^;]*uint64_t\s*;", code) is not None
    src = [PRELUDE]
    if own_ints:  # the source declares the fixed-size types itself
        src.append("".join(f"#define {t} vsim_{t}\n" for t in ("uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t")))
    src += [DRIVER, '#line 1 "kernels.cu"\n', code, "\n", LAUNCH]
    syms = {}
    for i, name in enumerate(list(names) + list(plain)):
        syms[name] = f"vsim_k{i}"
        src.append(f'extern "C" int vsim_k{i}(int g, int b, const int* order, int n, void** args, int nargs) {{ return vsim::go(&{name}, g, b, order, n, args, nargs); }}\n')
    lib = build("".join(src))
    return {name: Function(lib, sym, name) for name, sym in syms.items()}
