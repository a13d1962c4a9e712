"""C29: the GPU backend on a stand-in for CuPy that compiles and runs the library's CUDA sources (mc/gpusim): every
operation against the same definitions as the CPU backends, and every kernel under all small launch configurations and
thread orders."""
import inspect
import itertools

import numpy as np

from mc.gpusim import adapter, native, sim
from mc.util import compositions, long_compositions, values
from thinc.backends import _custom_kernels as K

from . import c12, c14, c15

LEVEL = "model_checking"
TECHNIQUE = "the real CUDA kernels compiled for the CPU and run thread by thread: all inputs up to a bound against reference definitions; all launch configurations up to a bound, each thread alone, all thread orders (<= 4 threads) and both directions (more), on guarded memory with two poison patterns"
NOTE = "Exhaustive within the stated bounds. CuPy itself is a stand-in (array type without implicit conversions, poisoned `empty`, raw-memory kernel arguments); no GPU hardware, so rounding of the GPU's own math functions is not covered."
RULE = "state = one result (digest); transition = one operation or one launch; a thread order is an execution of all threads one after another, and threads whose writes never overlap or change when run alone commute under every interleaving"
ASSUMPTIONS = ["the stand-in behaves like CuPy 13 in what the library uses of it", "GPU float functions agree with the host's within the tolerance",
               "threads communicate only through the memory of the kernel arguments (checked by running each alone)"]

GPU = adapter.OnGpu()
for mod in (c12, c14, c15):
    mod.OPS = {"cupy": GPU}
c14.GEMM_OPS = {"cupy": GPU}
c14.TOL64 = 1e-9  # means are divided by length + 1e-10


# ---- kernels: every launch configuration and thread order ------------------------------------------
def f(shape, dtype, salt=0, scale=2.5):
    return sim.ndarray._of(values(shape, dtype, salt, scale))


def i32(x):
    return sim.ndarray._of(np.array(x, dtype="int32"))


def elementwise(n):
    return [(n,), (1, n)] if n else [(0,), (2, 0)]


def launches(quick):
    return [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1), (1, 4), (4, 1), (3, 2), (2, 3)] + ([] if quick else [(1, 7), (7, 1), (4, 2), (3, 3), (5, 2), (2, 5)])


UNARY = ("clipped_linear", "dish", "gelu", "mish", "swish")
BINARY = ("backprop_clipped_linear", "backprop_hard_swish", "backprop_hard_swish_mobilenet", "backprop_dish", "backprop_gelu", "backprop_mish", "backprop_swish")


def kernel_cases(quick):
    N = range(0, 7) if quick else range(0, 12)
    lens = [c for c in compositions(3 if quick else 4, 2 if quick else 3)]
    for conf in launches(quick):
        for dtype in ("float32", "float64"):
            for name in UNARY + BINARY:
                for n in N:
                    for inplace in (False, True):
                        yield (name, conf, dtype, n, inplace)
            for B, Kn, O in itertools.product((0, 1, 2, 3, 5), (0, 1, 2), (1, 2)):
                yield ("gather_add", conf, dtype, (B, Kn, O))
            for B, O, P in itertools.product((0, 1, 2, 3), (1, 2), (1, 2, 3)):
                yield ("maxout", conf, dtype, (B, O, P))
                yield ("backprop_maxout", conf, dtype, (B, O, P))
            for ls in lens:
                for O in (1, 2):
                    for name in ("reduce_sum", "reduce_mean", "backprop_reduce_sum", "backprop_reduce_mean", "reduce_max", "backprop_reduce_max"):
                        if "max" in name and 0 in ls:
                            continue
                        yield (name, conf, dtype, (ls, O))
                    for nW in (1, 2):
                        for name in ("seq2col", "backprop_seq2col"):
                            yield (name, conf, dtype, (ls, O, nW))
        for dtype in ("float32", "float64", "int32", "int64"):
            for ls in lens:
                if ls:
                    for feat in ((), (2,), (1, 2)):
                        for r in (1, 2):
                            yield ("pad", conf, dtype, (ls, feat, r))
        for n in N:
            yield ("hash", conf, "uint64", n)
    # larger regular arguments: several rounds of the grid, and rows of very different lengths
    for conf in ((1, 1), (2, 3), (4, 2), (7, 5)):
        for dtype in ("float32", "float64"):
            for name in UNARY + BINARY:
                for n in (29, 71):
                    for inplace in (False, True):
                        yield (name, conf, dtype, n, inplace)
            for dims in ((13, 5, 3), (3, 17, 2), (2, 1, 33), (37, 1, 1)):
                for name in ("gather_add", "maxout", "backprop_maxout"):
                    yield (name, conf, dtype, dims)
            for ls in long_compositions((11, 23)):
                for name in ("reduce_sum", "reduce_mean", "backprop_reduce_sum", "backprop_reduce_mean", "reduce_max", "backprop_reduce_max"):
                    yield (name, conf, dtype, (tuple(n or 1 for n in ls) if "max" in name else ls, 3))
                for name in ("seq2col", "backprop_seq2col"):
                    yield (name, conf, dtype, (ls, 2, 4))
                for feat in ((), (3,)):
                    yield ("pad", conf, dtype, (ls, feat, 4))


def arguments(case):
    name, conf, dtype = case[:3]
    kw = {}
    if name in UNARY:
        return [f((case[3],), dtype, 1, 8.0)], {"inplace": case[4]}
    if name in BINARY:
        a = [f((case[3],), dtype, 2), f((case[3],), dtype, 1, 8.0)]
        if name == "backprop_swish":
            a.append(f((case[3],), dtype, 3))
        return a, {"inplace": case[4]}
    if name == "gather_add":
        B, Kn, O = case[3]
        return [f((3, O), dtype), i32([[(b + k * 2) % 3 for k in range(Kn)] for b in range(B)]).reshape((B, Kn))], kw
    if name == "maxout":
        return [f(case[3], dtype)], kw
    if name == "backprop_maxout":
        B, O, P = case[3]
        return [f((B, O), dtype), i32([[(b + o) % P for o in range(O)] for b in range(B)]).reshape((B, O)), P], kw
    if "seq2col" in name:
        ls, O, nW = case[3]
        return [f((sum(ls), O * (2 * nW + 1) if name[0] == "b" else O), dtype), nW], {"lengths": i32(list(ls))}
    if "reduce" in name:
        ls, O = case[3]
        L = i32(list(ls))
        if name[0] != "b":
            return [f((sum(ls), O), dtype), L], kw
        d = f((len(ls), O), dtype)
        if name.endswith("max"):
            return [d, i32([[(b + o) % n for o in range(O)] for b, n in enumerate(ls)]).reshape((len(ls), O)), L], kw
        return [d, L], kw
    if name == "pad":
        ls, feat, r = case[3]
        return [[sim.ndarray._of((values((n,) + feat, "float64", k) * 50).astype(dtype)) for k, n in enumerate(ls)], r], kw
    if name == "hash":
        return [sim.ndarray._of(np.array([0, 1, 2 ** 64 - 1, 77, 2 ** 40, 5, 6, 7, 8, 9, 10, 11][:case[3]], dtype="uint64")), 3], kw
    raise KeyError(name)


def kernel(ctx, case):
    name, conf = case[:2]
    fn = getattr(K, name, None)
    if fn is None or not {"threads_per_block", "num_blocks"} <= set(inspect.signature(fn).parameters):
        return ctx.outcome("no launch parameters")  # the launch is the function's own business then
    pol = native.POLICY

    def run(order, races, poison, **dims):
        pol.order, pol.races, pol.poison = order, races, poison
        ctx.step()
        args, kw = arguments(case)
        try:
            r = fn(*args, **kw, **dims)
        finally:
            pol.order, pol.races, pol.poison = "forward", False, 0xA5
        return adapter.down(r if isinstance(r, tuple) else (r,)), adapter.down(args)

    # one thread alone defines the result; it is compared with the definition by the other families
    want, _ = run("forward", False, 0xA5, num_blocks=1, threads_per_block=1)
    dims = dict(num_blocks=conf[0], threads_per_block=conf[1])
    before = pol.checked_threads, pol.orders
    for order, races, poison in (("forward", True, 0xA5), ("reverse", False, 0x3C)):
        try:
            got, args = run(order, races, poison, **dims)
        except native.Race as e:
            ctx.fail(f"{name}:race", f"{case}: {e}")
            return
        except native.OutOfBounds as e:
            ctx.fail(f"{name}:stray-write", f"{case}: {e}")
            return
        for a, b in zip(got, want):
            ctx.require(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True) and (a.dtype.kind != "f" or not np.isnan(a).any()), f"{name}:launch",
                        lambda: f"{case}: with {conf[0]} blocks of {conf[1]} threads, threads in {order} order: {a.tolist()}; with a single thread: {b.tolist()}")
        ctx.seen((name, [np.asarray(a) for a in got]))
    ctx.note("threads run alone", pol.checked_threads - before[0])
    ctx.note("thread orders", pol.orders - before[1])


# ---- operations the CPU families do not reach -------------------------------------------------------
def other_cases():
    for name in ("reduce_sum", "reduce_mean", "reduce_max", "seq2col"):
        for back in (False, True):
            for xt in ("float32", "float64", "float16", "int32", "int64"):
                for lt in ("int32", "int64", "uint32"):
                    for ls in ((), (1,), (2, 1), (1, 2, 2), (3, 0, 1)):
                        if "max" in name and 0 in ls:
                            continue
                        yield ("lengths", name, back, xt, lt, ls)
    for n in range(0, 4):
        for m in range(0, 4):
            for dtype in ("float32", "float64"):
                for t in (0.1, 1.0, 100.0):
                    yield ("clip", n, m, dtype, t)
    for N in range(0, 5):
        for D in range(0, 6):
            yield ("position", N, D)
    for n in (0, 1, 3):
        for name in ("relu", "backprop_relu"):
            for ip in (False, True):
                yield ("relu", name, n, ip)


def other(ctx, case):
    kind = case[0]
    ops = GPU.ops
    ctx.step()
    if kind == "lengths":
        _, name, back, xt, lt, ls = case
        T = sum(ls)
        op = ("backprop_" if back else "") + name
        L = np.array(ls, dtype=lt)
        rows = len(ls) if back and "reduce" in name else T
        X = (values((rows, 6), "float64", 1) * 20).astype(xt)
        x = X.astype("float64")
        starts = np.cumsum((0,) + ls)
        if name == "seq2col":
            args = (X, 1)
            kw = {"lengths": L}
            want = np.zeros((T, 18)) if not back else np.zeros((T, 2))
            for b, n in enumerate(ls):
                for t in range(n):
                    for o in (-1, 0, 1):
                        if 0 <= t + o < n:
                            if back:
                                want[starts[b] + t + o] += x[starts[b] + t].reshape(3, 2)[o + 1]
                            else:
                                want[starts[b] + t, (o + 1) * 6:(o + 2) * 6] = x[starts[b] + t + o]
        else:
            kw = {}
            what = name.split("_")[1]
            if not back:
                args = (X, L)
                want = np.array([getattr(x[starts[b]:starts[b] + n], what)(0) if n else np.zeros(6) for b, n in enumerate(ls)]).reshape(len(ls), 6)
            elif what == "max":
                which = np.array([[(b + o) % n for o in range(6)] for b, n in enumerate(ls)], dtype="int32").reshape(len(ls), 6)
                args = (X, which, L)
                want = np.zeros((T, 6))
                for b, n in enumerate(ls):
                    for o in range(6):
                        want[starts[b] + which[b, o], o] = x[b, o]
            else:
                args = (X, L)
                want = np.array([x[b] / (n if what == "mean" else 1) for b, n in enumerate(ls) for _ in range(n)]).reshape(T, 6)
        try:
            r = getattr(GPU, op)(*args, **kw)
        except (ValueError, TypeError, AssertionError, IndexError, NotImplementedError) as e:
            return ctx.outcome((op, type(e).__name__))  # a type the operation does not take
        if isinstance(r, tuple):
            r = r[0]
        if not ctx.require(isinstance(r, np.ndarray), f"{op}:{xt}/{lt}:type", lambda: f"{case}: returned {r!r}"):
            return
        if xt in ("float32", "float64"):
            ctx.require(r.shape == want.shape and np.allclose(r, want, 1e-5, 1e-5), f"{op}:{lt}-lengths:value", lambda: f"{case}: {r.tolist()}, expected {want.tolist()}")
        ctx.seen((op, r))
    elif kind == "clip":
        _, n, m, dtype, t = case
        g = values((n, m), dtype, 3, 2.0)
        norm = max(float(np.sqrt((g.astype("float64") ** 2).sum())), 1e-12)
        want = g.astype("float64") * min(t, norm) / norm
        d = sim.ndarray._of(g.copy())
        r = ops.clip_gradient(d, t)
        ctx.require(np.allclose(r._a, want, 1e-5, 1e-7), "clip_gradient:value", lambda: f"{case}: {r}, expected {want.tolist()}")
        ctx.require(r.dtype == np.dtype(dtype), "clip_gradient:dtype", lambda: f"{case}: {r.dtype}")
        ctx.seen(r._a)
    elif kind == "position":
        from thinc.api import NumpyOps

        _, N, D = case
        try:
            want = NumpyOps().position_encode(N, D)
        except (ValueError, ZeroDivisionError) as e:
            return ctx.outcome(type(e).__name__)
        r = GPU.position_encode(N, D)
        ctx.require(r.shape == want.shape and np.allclose(r, want, 1e-5, 1e-6), "position_encode:value", lambda: f"{case}: {r.tolist()}, expected {want.tolist()}")
        ctx.seen(r)
    elif kind == "relu":
        _, name, n, ip = case
        X = values((n, 2), "float32", 1)
        d = values((n, 2), "float32", 2)
        a = (X.copy(),) if name == "relu" else (d.copy(), X.copy())
        r = getattr(GPU, name)(*a, inplace=ip)
        want = np.where(X > 0, X if name == "relu" else d, 0)
        ctx.require(np.array_equal(r, want) and (np.shares_memory(r, a[0]) or not n) == (ip or not n), f"{name}:value", lambda: f"{case}: {r.tolist()}")
        ctx.seen(r)


FAMILIES = dict(kernel=kernel, other=other, **{"op." + k: v for k, v in c14.FAMILIES.items()},
                **{"seq.flat": c12.flat, "seq.padded": c12.padded, "id.hash": c15.hashing, "id.table": c15.gs})


def explore(ctx):
    q = ctx.quick
    try:
        sim.warm()
    except native.CompileError as e:  # CUDA features the stand-in does not have: nothing can be decided
        ctx.capped.append(f"the CUDA source does not compile for the stand-in: {str(e)[:500]}")
        return
    ctx.each("kernel", lambda: kernel_cases(q), kernel)
    ctx.each("other", other_cases, other)
    gens = dict(act=c14.act_cases, act_mismatch=c14.act_mismatch_cases, misc=c14.misc_cases, alloc=c14.alloc_cases, gemm=lambda: c14.gemm_cases(3 if q else 6), gemm_bad=c14.gemm_bad_cases,
                softmax=c14.softmax_cases, reductions=lambda: c14.red_cases(4, 3) if q else c14.red_cases(5, 4), badlen=c14.badlen_cases, maxout=c14.maxout_cases,
                windows=lambda: c14.col_cases(4, 3) if q else c14.col_cases(5, 4))
    gens["long"] = lambda: c14.long_cases(q)
    for name, g in gens.items():
        ctx.each("op." + name, g, c14.FAMILIES[name])
    ctx.each("seq.flat", c12.flat_cases(q), c12.flat)
    ctx.each("seq.padded", c12.pad_cases(q), c12.padded)
    ctx.each("id.hash", c15.hash_cases(q), c15.hashing)
    ctx.each("id.table", c15.gs_cases(q), c15.gs)
    ctx.note("kernel launches", native.POLICY.launches)


def replay(ctx, family, case):
    sim.warm()
    ctx.each(family, lambda: [case], FAMILIES[family], parallel=False)
