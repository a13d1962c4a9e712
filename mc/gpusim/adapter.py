"""CupyOps behind an interface of host arrays, so that the operator checks of the CPU backends can be reused for it.

Arguments become device arrays over the same memory (in-place changes and aliasing stay visible); results become host
arrays over the result's memory.
"""
import numpy as np
from thinc.api import CupyOps
from thinc.types import ArgsKwargs, Padded, Ragged

from . import sim


def up(x):
    if isinstance(x, np.ndarray):
        return sim.ndarray._of(x)
    if type(x) in (list, tuple):
        return type(x)(up(y) for y in x)
    if isinstance(x, dict):
        return {k: up(v) for k, v in x.items()}
    if isinstance(x, Ragged):
        return Ragged(up(x.dataXd), up(x.lengths))
    if isinstance(x, Padded):
        return Padded(up(x.data), up(x.size_at_t), up(x.lengths), up(x.indices))
    if isinstance(x, ArgsKwargs):
        return ArgsKwargs(up(x.args), up(x.kwargs))
    return x


def down(x):
    if isinstance(x, sim.ndarray):
        return x._a
    if type(x) in (list, tuple):
        return type(x)(down(y) for y in x)
    if isinstance(x, dict):
        return {k: down(v) for k, v in x.items()}
    if isinstance(x, Ragged):
        return Ragged(down(x.dataXd), down(x.lengths))
    if isinstance(x, Padded):
        return Padded(down(x.data), down(x.size_at_t), down(x.lengths), down(x.indices))
    if isinstance(x, ArgsKwargs):
        return ArgsKwargs(down(x.args), down(x.kwargs))
    return x


def host_arrays(x):
    """Host arrays inside something that should be on the device."""
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [h for y in x for h in host_arrays(y)]
    if isinstance(x, dict):
        return host_arrays(list(x.values()))
    if isinstance(x, Ragged):
        return host_arrays([x.dataXd, x.lengths])
    if isinstance(x, Padded):
        return host_arrays([x.data, x.size_at_t, x.lengths, x.indices])
    if isinstance(x, ArgsKwargs):
        return host_arrays([x.args, x.kwargs])
    return []


class HostResult(Exception):
    """An operation of the GPU backend returned host arrays."""


class OnGpu:
    def __init__(self):
        self.ops = CupyOps()

    def __getattr__(self, name):
        f = getattr(self.ops, name)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*args, **kw):
            r = f(*up(args), **up(kw))
            if host_arrays(r) and name != "to_numpy":
                raise HostResult(f"CupyOps.{name} returned a host array")
            return down(r)

        g.__name__ = name
        return g
