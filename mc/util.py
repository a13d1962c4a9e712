"""Small helpers shared by the checks: operator backends, array layouts, compositions, comparisons."""
import itertools

import numpy as np
from thinc.api import NumpyOps
from thinc.backends.ops import Ops


class GenericOps(NumpyOps):
    """The generic backend: numpy arrays, with every numeric operation taken from the base class."""
    name = "numpy"


for _name in list(vars(Ops)):
    if not _name.startswith("_") and _name not in ("name", "xp", "cblas", "asarray", "alloc") and callable(getattr(Ops, _name)):
        setattr(GenericOps, _name, getattr(Ops, _name))


def backends(blis=False):
    out = {"numpy": NumpyOps(), "generic": GenericOps()}
    if blis:
        out = {"numpy-blis": NumpyOps(use_blis=True), "numpy-noblis": NumpyOps(use_blis=False), "generic": GenericOps()}
    return out


def layout(a, kind):
    """The same values in another memory layout."""
    a = np.array(a, order="C", copy=True)
    if kind == "C":
        return a
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "T":  # a transposed view
        return np.array(a.T, order="C", copy=True).T
    if kind == "strided":
        big = np.full(tuple(2 * n for n in a.shape), 77, dtype=a.dtype)
        v = big[tuple(slice(0, 2 * n, 2) for n in a.shape)]
        v[...] = a
        return v
    if kind == "rev":
        return np.array(a[::-1], order="C", copy=True)[::-1]
    if kind == "offset":  # contiguous view into the middle of a larger array
        big = np.full((a.shape[0] + 2,) + a.shape[1:], 77, dtype=a.dtype)
        v = big[1:1 + a.shape[0]]
        v[...] = a
        return v
    raise ValueError(kind)


LAYOUTS = ("C", "F", "strided", "rev", "offset")


def compositions(maxn, maxv, minv=0):
    """All tuples of at most maxn values in minv..maxv."""
    for n in range(maxn + 1):
        yield from itertools.product(range(minv, maxv + 1), repeat=n)


def values(shape, dtype="float32", salt=0, scale=1.0):
    """Distinct, deterministic, irregular values (a low-discrepancy sequence), roughly in (-1, 1) * scale."""
    n = int(np.prod(shape)) if len(shape) else 1
    i = np.arange(1, n + 1, dtype="float64") + salt * 31
    v = 2 * np.mod(i * 0.6180339887498949 + salt * 0.377, 1.0) - 1
    return (v * scale).reshape(shape).astype(dtype)


def close(got, want, rtol=1e-5, atol=1e-5):
    got, want = np.asarray(got, dtype="float64"), np.asarray(want, dtype="float64")
    if got.shape != want.shape:
        return False
    if got.size == 0:
        return True
    with np.errstate(all="ignore"):
        same = (got == want) | (np.isnan(got) & np.isnan(want))
        return bool(np.all(same | (np.abs(got - want) <= atol + rtol * np.abs(want))))


def snap(*arrays):
    return [np.array(a, copy=True) for a in arrays]


def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def long_compositions(sizes, longest=9):
    """Regular lists of lengths with many items: constant, rising, falling, up and down, one long one first/last/in the middle, mostly empty."""
    for n in sizes:
        yield (2,) * n
        yield tuple(i % (longest + 1) for i in range(n))
        yield tuple((n - i) % (longest + 1) for i in range(n))
        yield tuple((7 * i + 3) % (longest + 1) for i in range(n))
        yield (5 * longest,) + (1,) * (n - 1)
        yield (1,) * (n - 1) + (5 * longest,)
        yield (0,) * (n // 2) + (longest,) + (0,) * (n - 1 - n // 2)
        yield tuple(sorted(((5 * i + 1) % (longest + 1) for i in range(n)), reverse=True))
