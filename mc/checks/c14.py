"""C14: exhaustive small shapes x layouts x dtypes x backends for every numeric op, against float64 definitions."""
import itertools
import math

import numpy as np
import torch
from mc.util import LAYOUTS, backends, close, compositions, layout, long_compositions, same, snap, values

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of shapes, length vectors, layouts, dtypes and value patterns run on both backends against float64 reference definitions"
NOTE = "Exhaustive up to the stated shape bounds (dims <= 3-4, <= 3-4 sequences) plus block-boundary sizes; values from a fixed grid with kinks, ties and magnitudes up to 1000."
RULE = "state = one op result (digest of values and type); transition = one op call on the compiled or generic backend"
ASSUMPTIONS = ["torch float64 autograd defines the derivative of the activation formulas", "non-contiguous arguments may be refused with ValueError instead of being computed",
               "NaN and infinite inputs are not explored"]

OPS = backends()
TOL64 = 1e-11  # reductions in double precision
GRID = [-60.0, -20.5, -20.0, -5.0, -3.0, -2.5, -2.0, -1.0, -0.7, -1e-3, -0.0, 0.0, 1e-3, 0.3, 1.0, 1.7, 2.5, 3.0, 4.9, 5.0, 6.0, 6.5, 19.9, 20.0, 20.5, 60.0]
S2P = math.sqrt(2 / math.pi)


def clipped(slope, offset, lo, hi):
    return lambda x: torch.clamp(x * slope + offset, lo, hi)


def mish_def(th):
    return lambda x: torch.where(x >= th, x, x * torch.tanh(torch.log1p(torch.exp(torch.clamp(x, max=60.0)))))


# name -> (definition in float64, forward kwargs, backward maker(ops, dY, X, Y, inplace), float64 tolerance)
ACT = {
    "sigmoid": (torch.sigmoid, {}, lambda o, dY, X, Y, ip: o.backprop_sigmoid(dY, Y, inplace=ip), 1e-8),
    "relu": (torch.relu, {}, lambda o, dY, X, Y, ip: o.backprop_relu(dY, Y, inplace=ip), 1e-9),
    "relu_k": (clipped(1, 0, 0, 6), {}, lambda o, dY, X, Y, ip: o.backprop_relu_k(dY, X, inplace=ip), 1e-9),
    "relu_k:2.5": (clipped(1, 0, 0, 2.5), {"n": 2.5}, lambda o, dY, X, Y, ip: o.backprop_relu_k(dY, X, n=2.5, inplace=ip), 1e-9),
    "hard_sigmoid": (clipped(0.2, 0.5, 0, 1), {}, lambda o, dY, X, Y, ip: o.backprop_hard_sigmoid(dY, X, inplace=ip), 1e-9),
    "hard_tanh": (clipped(1, 0, -1, 1), {}, lambda o, dY, X, Y, ip: o.backprop_hard_tanh(dY, X, inplace=ip), 1e-9),
    "clipped_linear": (clipped(1, 0, 0, 1), {}, lambda o, dY, X, Y, ip: o.backprop_clipped_linear(dY, X, inplace=ip), 1e-9),
    "clipped_linear:b": (clipped(0.7, -0.4, -1.5, 2.0), dict(slope=0.7, offset=-0.4, min_val=-1.5, max_val=2.0),
                         lambda o, dY, X, Y, ip: o.backprop_clipped_linear(dY, X, slope=0.7, offset=-0.4, min_val=-1.5, max_val=2.0, inplace=ip), 1e-9),
    "swish": (lambda x: x * torch.sigmoid(x), {}, lambda o, dY, X, Y, ip: o.backprop_swish(dY, X, Y, inplace=ip), 1e-6),
    "hard_swish": (lambda x: x * clipped(0.2, 0.5, 0, 1)(x), {}, lambda o, dY, X, Y, ip: o.backprop_hard_swish(dY, X, inplace=ip), 1e-9),
    "hard_swish_mobilenet": (lambda x: x * clipped(1, 0, 0, 6)(x + 3) / 6, {}, lambda o, dY, X, Y, ip: o.backprop_hard_swish_mobilenet(dY, X, inplace=ip), 1e-9),
    "dish": (lambda x: 0.5 * x * (x / torch.sqrt(1 + x * x) + 1), {}, lambda o, dY, X, Y, ip: o.backprop_dish(dY, X, inplace=ip), 1e-9),
    "gelu": (lambda x: x * 0.5 * torch.erfc(-x / math.sqrt(2)), {}, lambda o, dY, X, Y, ip: o.backprop_gelu(dY, X, inplace=ip), 2e-5),
    "gelu_approx": (lambda x: 0.5 * x * (1 + torch.tanh(S2P * (x + 0.044715 * x ** 3))), {}, lambda o, dY, X, Y, ip: o.backprop_gelu_approx(dY, X, inplace=ip), 2e-5),
    "mish": (mish_def(20.0), {}, lambda o, dY, X, Y, ip: o.backprop_mish(dY, X, inplace=ip), 1e-9),
    "mish:5": (mish_def(5.0), {"threshold": 5.0}, lambda o, dY, X, Y, ip: o.backprop_mish(dY, X, threshold=5.0, inplace=ip), 1e-9),
}


def act_ref(f, X, dY):
    """value, and the derivative from both sides (equal except at kinks)"""
    def grad(x):
        x = torch.tensor(x, dtype=torch.float64, requires_grad=True)
        y = f(x)
        (g,) = torch.autograd.grad(y.sum(), x)
        return g.numpy()

    x64 = np.asarray(X, dtype="float64")
    y = f(torch.tensor(x64)).numpy()
    d = np.asarray(dY, dtype="float64")
    eps = 3e-6 * (1 + np.abs(x64)) if X.dtype == np.float32 else 1e-11 * (1 + np.abs(x64))
    a, b, c = grad(x64 - eps) * d, grad(x64 + eps) * d, grad(x64) * d
    return y, np.minimum(np.minimum(a, b), c), np.maximum(np.maximum(a, b), c)


def call(ctx, sig, fn, refuse=()):
    ctx.step()
    try:
        return fn(), None
    except refuse as e:
        ctx.outcome((sig, type(e).__name__))
        return None, e


def ran(ctx, case, got, want, tol, dtype, sig, why):
    ok = ctx.require(isinstance(got, np.ndarray), f"{sig}:type", lambda: f"{why}: returned {type(got)}")
    if not ok:
        return
    ctx.require(got.shape == want.shape, f"{sig}:shape", lambda: f"{why}: shape {got.shape}, expected {want.shape}")
    ctx.require(got.dtype == np.dtype(dtype), f"{sig}:dtype", lambda: f"{why}: dtype {got.dtype}, expected {dtype}")
    if got.shape == want.shape:
        ctx.require(close(got, want, tol, tol), f"{sig}:value", lambda: f"{why}: got {got.tolist()}, expected {np.asarray(want).tolist()}")
    ctx.seen((sig, got))


def unchanged(ctx, sig, why, *pairs):
    for name, a, b in pairs:
        ctx.require(same(a, b), f"{sig}:argument-changed", lambda: f"{why}: argument {name} was changed from {b.tolist()} to {a.tolist()}")


# ---- activations of inputs far from zero (where a naive exponential overflows) -------------------------------
FAR = [s * v for v in (60.0, 80.0, 87.0, 88.5, 89.0, 100.0, 104.0, 300.0, 700.0, 709.0, 710.0, 745.0, 1000.0) for s in (1, -1)] + [1e-10, -1e-10, 1e-30, -1e-30, 1e-45, -1e-45]


def far_cases():
    for name in ACT:
        for be in OPS:
            for dtype in ("float32", "float64"):
                for k in (1, 3, len(FAR)):
                    for start in range(0, len(FAR), k):
                        yield name, be, dtype, start, k


def far(ctx, case):
    name, be, dtype, start, k = case
    f, kw, bwd, tol = ACT[name]
    op, ops, why = name.split(":")[0], OPS[be], f"far {case}"
    X = np.array(FAR[start:start + k], dtype=dtype).reshape(1, -1)
    d = values(X.shape, dtype, 3)
    tol = max(2e-5 if dtype == "float32" else tol, 1e-8) * (1 + np.abs(X.astype("float64")))
    y, lo, hi = act_ref(f, X, d)
    for ip in (False, True):
        ctx.step(2)
        got = getattr(ops, op)(X.copy(), inplace=ip, **kw)
        ctx.require(bool(np.all(np.abs(got.astype("float64") - y) <= tol)), f"{op}:far", lambda: f"{why} inplace {ip}: {X.tolist()} gives {got.tolist()}, should be {y.tolist()}")
        back = bwd(ops, d.copy(), X.copy(), y.astype(dtype), ip)
        ctx.require(bool(np.all((back >= lo - tol) & (back <= hi + tol))), f"backprop_{op}:far", lambda: f"{why} inplace {ip}: gradient at {X.tolist()} is {back.tolist()}, should be within {lo.tolist()} .. {hi.tolist()}")
        ctx.seen((op, be, got, back))


# ---- activations ---------------------------------------------------------------------------------
SHAPES = [(0, 0), (0, 3), (3, 0), (1, 1), (1, 26), (26, 1), (2, 13), (13, 2), (2, 3, 4), (26,), (0,)]


def act_cases():
    for name in ACT:
        for be in OPS:
            for dtype in ("float32", "float64"):
                for shape in SHAPES:
                    for lay in LAYOUTS:
                        for lay2 in (("C",) if lay == "C" else (lay, "C")) + (("F",) if lay == "C" else ()):
                            for ip in (False, True):
                                yield (name, be, dtype, shape, lay, lay2, ip)


def act(ctx, case):
    name, be, dtype, shape, lay, lay2, ip = case
    f, kw, bwd, tol64 = ACT[name]
    op = name.split(":")[0]
    ops = OPS[be]
    n = int(np.prod(shape))
    X0 = np.array([GRID[i % len(GRID)] for i in range(n)]).reshape(shape).astype(dtype)
    d0 = values(shape, dtype, 3)
    tol = 2e-5 if dtype == "float32" else tol64
    y, lo, hi = act_ref(f, X0, d0)
    scale = 1 + np.abs(X0.astype("float64"))
    X = layout(X0, lay)
    why = f"{op} {case}"
    r, e = call(ctx, op, lambda: getattr(ops, op)(X, inplace=ip, **kw), (ValueError,) if lay in ("F", "strided", "rev") or len(shape) != 2 else ())
    if e is None:
        ran(ctx, case, r, y, tol, dtype, op, why)
        if not ip:
            unchanged(ctx, op, why, ("X", X, X0))
            if r.size:
                ctx.require(not np.shares_memory(r, X), f"{op}:alias", lambda: f"{why}: result shares memory with the argument")
    # backward
    dY, X, Y = layout(d0, lay2), layout(X0, lay), layout(y.astype(dtype), lay)
    dYs, Xs, Ys = snap(dY, X, Y)
    sig = "backprop_" + op
    r, e = call(ctx, sig, lambda: bwd(ops, dY, X, Y, ip), (ValueError,) if (lay, lay2) != ("C", "C") or len(shape) != 2 else ())
    if e is None:
        ok = ctx.require(r.shape == X0.shape, f"{sig}:shape", lambda: f"{why}: {r.shape}")
        ctx.require(r.dtype == np.dtype(dtype), f"{sig}:dtype", lambda: f"{why}: {r.dtype}")
        if ok:
            t = tol * scale * 2
            good = (r >= lo - t) & (r <= hi + t)
            ctx.require(bool(np.all(good)), f"{sig}:value", lambda: f"{why}: at X={X0[~good].tolist()} dY={d0[~good].tolist()}: got {r[~good].tolist()}, expected {lo[~good].tolist()}..{hi[~good].tolist()}")
            ctx.seen((sig, r))
        if not ip:
            unchanged(ctx, sig, why, ("dY", dY, dYs), ("X", X, Xs), ("Y", Y, Ys))
            if r.size:
                ctx.require(not np.shares_memory(r, dY), f"{sig}:alias", lambda: f"{why}: result shares memory with the argument")


def act_mismatch_cases():
    for be in OPS:
        for op in ("backprop_relu", "backprop_mish"):
            for a, b in (((2, 3), (3, 2)), ((2, 3), (2, 4)), ((3, 3), (2, 3)), ((2, 3), (3, 3)), ((4,), (5,)), ((0, 3), (2, 3))):
                for dtype in ("float32", "float64"):
                    yield (be, op, a, b, dtype)


def act_mismatch(ctx, case):
    be, op, a, b, dtype = case
    ctx.step()
    try:
        r = getattr(OPS[be], op)(values(a, dtype), values(b, dtype))
    except (ValueError, IndexError):
        return ctx.outcome("refused")
    ctx.fail(f"{op}:mismatch-accepted", f"{case}: arrays of shapes {a} and {b} accepted, result shape {r.shape}")


# ---- small definitions -----------------------------------------------------------------------------
def misc_cases():
    for be in OPS:
        for dtype in ("float32", "float64"):
            for shape in ((0, 2), (2, 0), (1, 1), (2, 3), (3, 2)):
                for lay in LAYOUTS:
                    for op in ("dsigmoid", "dtanh", "erf", "sechsq", "tile", "as_contig", "asarray", "affine"):
                        for ip in (False, True):
                            yield (be, op, dtype, shape, lay, ip)


def misc(ctx, case):
    be, op, dtype, shape, lay, ip = case
    ops = OPS[be]
    X0 = values(shape, dtype, 5)
    X = layout(X0, lay)
    x = X0.astype("float64")
    tol = 2e-5 if dtype == "float32" else 1e-9
    why = f"{op} {case}"
    ctx.step()
    if op in ("dsigmoid", "dtanh"):
        r = getattr(ops, op)(X, inplace=ip)
        ran(ctx, case, r, x * (1 - x) if op == "dsigmoid" else 1 - x * x, tol, dtype, op, why)
        if ip:
            return
    elif op == "erf":
        ran(ctx, case, ops.erf(X), torch.erf(torch.tensor(x)).numpy(), max(tol, 1e-6), dtype, op, why)
    elif op == "sechsq":
        ran(ctx, case, ops.sechsq(X), 1 / np.cosh(x) ** 2, tol, dtype, op, why)
    elif op == "tile":
        for k in range(0, 4):
            want = np.concatenate([x] * k, axis=1) if k else x[:, :0]
            ran(ctx, case, ops.tile(X, k), want, tol, dtype, op, why)
    elif op == "as_contig":
        r = ops.as_contig(X)
        ran(ctx, case, r, x, 0, dtype, op, why)
        ctx.require(r.flags["C_CONTIGUOUS"], "as_contig:layout", why)
        ran(ctx, case, ops.as_contig(X, dtype="float32"), x.astype("float32"), 0, "float32", op, why)
    elif op == "asarray":
        ran(ctx, case, ops.asarray(X), x, 0, dtype, op, why)
        for d2 in ("float32", "float64", "int32"):
            ran(ctx, case, ops.asarray(X, dtype=d2), X0.astype(d2), 0, d2, op, why)
            ran(ctx, case, ops.asarray((X0 * 9).tolist(), dtype=d2), np.array((X0 * 9).tolist(), dtype=d2).reshape(ops.asarray((X0 * 9).tolist()).shape), 1e-7, d2, op, why)
    elif op == "affine":
        for nO in (0, 1, 3):
            W, b = values((nO, shape[1]), dtype, 7), values((nO,), dtype, 8)
            Ws, bs = snap(W, b)
            want = x @ W.astype("float64").T + b.astype("float64")
            ran(ctx, case, ops.affine(X, W, b), want, tol, dtype, op, why)
            unchanged(ctx, op, why, ("W", W, Ws), ("b", b, bs))
    unchanged(ctx, op, why, ("X", X, X0))


def alloc_cases():
    fl = ("float32", "float64")
    it = ("int32", "int64", "uint64", "int16")
    for be in OPS:
        for n in (1, 2, 3, 4):
            for dims in itertools.product((0, 1, 2), repeat=n):
                for kind, dts in (("f", fl), ("i", it)):
                    for dt in dts + (None,):
                        yield (be, n, dims, kind, dt)


def alloc(ctx, case):
    be, n, dims, kind, dt = case
    ops = OPS[be]
    kw = {} if dt is None else {"dtype": dt}
    want = dt or ("float32" if kind == "f" else "int32")
    for r in (getattr(ops, f"alloc{n}{kind}")(*dims, **kw), getattr(ops, f"alloc_{kind}")(dims, **kw), ops.alloc(dims, dtype=want)):
        ctx.step()
        ran(ctx, case, r, np.zeros(dims), 0, want, "alloc", f"alloc {case}")
    r = getattr(ops, f"alloc{n}{kind}")(*dims, zeros=False, **kw)
    ctx.require(r.shape == dims and r.dtype == np.dtype(want), "alloc:empty", lambda: f"{case}: {r.shape} {r.dtype}")
    size = int(np.prod(dims))
    src = np.arange(size).astype(want)
    for r in (getattr(ops, f"reshape{n}")(src, *dims), getattr(ops, f"reshape{n}{kind}")(src, *dims), ops.reshape(src, dims), getattr(ops, f"reshape_{kind}")(src, dims)):
        ran(ctx, case, r, np.arange(size).reshape(dims), 0, want, "reshape", f"reshape {case}")
    data = np.arange(size).reshape(dims).astype("float64").tolist()
    for r in (getattr(ops, f"asarray{n}{kind}")(data, **kw), getattr(ops, f"asarray_{kind}")(data, **kw)):
        ctx.require(r.dtype == np.dtype(want) and np.array_equal(r.ravel(), np.arange(size)), "asarray:list", lambda: f"{case}: {r!r}")


# ---- matrix products -------------------------------------------------------------------------------
GEMM_OPS = backends(blis=True)


def gemm_cases(maxd):
    for be in GEMM_OPS:
        for m, k, n in itertools.product(range(0, maxd + 1), repeat=3):
            for t1, t2 in itertools.product((False, True), repeat=2):
                for dtype in ("float32", "float64"):
                    for l1, l2 in (("C", "C"), ("F", "F"), ("strided", "C"), ("C", "strided"), ("rev", "offset")):
                        for out in (None, "C") + (("F", "strided", "rev") if (l1, l2) == ("C", "C") else ()):
                            yield (be, m, k, n, t1, t2, dtype, l1, l2, out)


def gemm(ctx, case):
    be, m, k, n, t1, t2, dtype, l1, l2, useout = case
    ops = GEMM_OPS[be]
    A, B = values((m, k), dtype, 1), values((k, n), dtype, 2)
    want = A.astype("float64") @ B.astype("float64")
    x, y = layout(A.T if t1 else A, l1), layout(B.T if t2 else B, l2)
    xs, ys = snap(x, y)
    out = layout(np.full((m, n), np.nan, dtype=dtype), useout) if useout else None
    ctx.step()
    tol = (1e-5 if dtype == "float32" else 1e-12) * max(1, k / 8)
    why = f"gemm {case}"
    try:
        r = ops.gemm(x, y, out=out, trans1=t1, trans2=t2)
    except ValueError:
        # NumPy only writes to contiguous arrays
        ctx.require(useout and not out.flags.c_contiguous and np.isnan(out).all(), "gemm:refused", why)
        unchanged(ctx, "gemm", why, ("x", x, xs), ("y", y, ys))
        return
    ran(ctx, case, r, want, tol, dtype, "gemm", why)
    if useout:
        ran(ctx, case, out, want, tol, dtype, "gemm-out", why)
    unchanged(ctx, "gemm", why, ("x", x, xs), ("y", y, ys))


def gemm_bad_cases():
    for be in GEMM_OPS:
        for dtype in ("float32", "float64"):
            for (m, k), (k2, n) in itertools.product(itertools.product((1, 2, 3), repeat=2), repeat=2):
                for t1, t2 in itertools.product((False, True), repeat=2):
                    if k != k2:
                        yield ("inner", be, dtype, (m, k), (k2, n), t1, t2, None)
                    elif not (t1 or t2):
                        for o in itertools.product((1, 2, 3), repeat=2):
                            if o != (m, n):
                                yield ("out", be, dtype, (m, k), (k2, n), t1, t2, o)


def gemm_bad(ctx, case):
    kind, be, dtype, a, b, t1, t2, o = case
    ctx.step()
    x, y = values(a, dtype, 1), values(b, dtype, 2)
    x, y = (x.T.copy() if t1 else x), (y.T.copy() if t2 else y)
    room = np.zeros((16, 16), dtype=dtype)  # memory around `out`, so that a stray write stays inside
    out = None
    if o is not None:
        out = room.ravel()[64:64 + o[0] * o[1]].reshape(o)
    try:
        GEMM_OPS[be].gemm(x, y, out=out, trans1=t1, trans2=t2)
    except (ValueError, IndexError):
        ctx.outcome("refused")
        if o is not None:
            ctx.require(not np.delete(room.ravel(), np.arange(64, 64 + out.size)).any(), "gemm:stray-write", f"{case}")
        return
    ctx.fail(f"gemm:{kind}-mismatch-accepted", f"{case}")


# ---- softmax ---------------------------------------------------------------------------------------
def softmax_cases():
    for be in OPS:
        for dtype in ("float32", "float64"):
            for shape in ((0, 2), (1, 1), (1, 3), (2, 2), (3, 2), (2, 1), (2, 2, 2), (1, 3, 2), (3,)):
                for axis in range(-len(shape), len(shape)):
                    if shape[axis] == 0:
                        continue
                    for temp in (1.0, 0.5, 3.0):
                        for scale in (1.0, 30.0, 2000.0):
                            for lay in LAYOUTS:
                                yield (be, dtype, shape, axis, temp, scale, lay)


def softmax(ctx, case):
    be, dtype, shape, axis, temp, scale, lay = case
    ops = OPS[be]
    X0 = values(shape, dtype, 1, scale)
    X = layout(X0, lay)
    tol = 2e-5 if dtype == "float32" else 1e-10
    t = torch.tensor(X0.astype("float64"), requires_grad=True)
    Yt = torch.softmax(t / temp, dim=axis)
    why = f"softmax {case}"
    ctx.step(2)
    for ip in (False, True):
        Xc = layout(X0, lay)
        r = ops.softmax(Xc, axis=axis, temperature=temp, inplace=ip)
        ran(ctx, case, r, Yt.detach().numpy(), tol * max(1, scale / 30), dtype, "softmax", why)
        if not ip:
            unchanged(ctx, "softmax", why, ("x", Xc, X0))
    Y0 = Yt.detach().numpy().astype(dtype)
    d0 = values(shape, dtype, 4)
    (want,) = torch.autograd.grad((Yt * torch.tensor(d0.astype("float64"))).sum(), t)
    Y, dY = layout(Y0, lay), layout(d0, lay)
    r = ops.backprop_softmax(Y, dY, axis=axis, temperature=temp)
    ran(ctx, case, r, want.numpy(), tol, dtype, "backprop_softmax", why)
    unchanged(ctx, "backprop_softmax", why, ("Y", Y, Y0), ("dY", dY, d0))


# ---- sequence reductions ---------------------------------------------------------------------------
def seqs(X, lengths):
    out, i = [], 0
    for n in lengths:
        out.append(X[i:i + n])
        i += n
    return out


def red_cases(maxn, maxlen):
    for be in OPS:
        for dtype in ("float32", "float64"):
            for lengths in compositions(maxn, maxlen):
                for width in (0, 1, 2, 3):
                    for lay in ("C", "offset", "F", "strided"):
                        if lay in ("F", "strided") and (len(lengths) > 2 or max(lengths, default=0) > 2):
                            continue
                        yield (be, dtype, lengths, width, lay)


def red(ctx, case):
    be, dtype, lengths, width, lay = case
    ops = OPS[be]
    T, B = sum(lengths), len(lengths)
    L = np.array(lengths, dtype="int32")
    pos = all(n > 0 for n in lengths)
    tol = 2e-5 if dtype == "float32" else TOL64
    refuse = (ValueError,) if lay in ("F", "strided") else ()
    # two value patterns: distinct values, and ties
    for salt, X0 in enumerate((values((T, width), dtype, 1, 3.0), np.round(values((T, width), dtype, 2, 1.4)) - 2)):
        x = X0.astype("float64")
        parts = seqs(x, lengths)
        zero = np.zeros(width)
        want = {
            "sum": np.array([p.sum(0) if len(p) else zero for p in parts]).reshape(B, width),
            "mean": np.array([p.mean(0) if len(p) else zero for p in parts]).reshape(B, width),
        }
        if pos:
            want["max"] = np.array([p.max(0) for p in parts]).reshape(B, width)
            want["first"] = np.array([p[0] for p in parts]).reshape(B, width)
            want["last"] = np.array([p[-1] for p in parts]).reshape(B, width)
        d0 = values((B, width), dtype, 6)
        for kind in ("sum", "mean", "max", "first", "last"):
            X, Lc, dY = layout(X0, lay), L.copy(), layout(d0, lay)
            sig = f"reduce_{kind}"
            why = f"{sig} {case} X={X0.tolist()}"
            if kind not in want:
                ctx.step()
                try:
                    r = getattr(ops, sig)(X, Lc)
                except (ValueError, IndexError):
                    ctx.outcome((sig, "refused"))
                else:
                    ctx.fail(f"{sig}:empty-accepted", f"{why}: an empty sequence was accepted: {r!r}")
                continue
            r, e = call(ctx, sig, lambda: getattr(ops, sig)(X, Lc), refuse)
            if e is not None:
                continue
            aux = None
            if kind in ("max", "first", "last"):
                r, aux = r
            ran(ctx, case, r, want[kind], tol, dtype, sig, why)
            unchanged(ctx, sig, why, ("X", X, X0), ("lengths", Lc, L))
            if kind == "max" and T * width:
                ok = aux.shape == (B, width) and all(0 <= aux[b, o] < lengths[b] and parts[b][aux[b, o], o] == want["max"][b, o] for b in range(B) for o in range(width))
                if not ctx.require(ok, f"{sig}:which", lambda: f"{why}: which={aux.tolist()}"):
                    continue
            # backward
            dX = np.zeros((T, width))
            i = 0
            for b, n in enumerate(lengths):
                g = d0[b].astype("float64")
                if kind == "sum":
                    dX[i:i + n] = g
                elif kind == "mean" and n:
                    dX[i:i + n] = g / n
                elif kind == "first":
                    dX[i] = g
                elif kind == "last":
                    dX[i + n - 1] = g
                elif kind == "max":
                    for o in range(width):
                        dX[i + aux[b, o], o] = g[o]
                i += n
            sig = f"backprop_reduce_{kind}"
            if kind in ("sum", "mean"):
                fn = lambda: getattr(ops, sig)(dY, Lc)
            elif kind == "max":
                which = aux.astype("int32")
                fn = lambda: ops.backprop_reduce_max(dY, which, Lc)
            else:
                fn = lambda: getattr(ops, sig)(dY, aux)
            r, e = call(ctx, sig, fn, refuse)
            if e is None:
                ran(ctx, case, r, dX, tol, dtype, sig, why)
                unchanged(ctx, sig, why, ("dY", dY, d0), ("lengths", Lc, L))
        # softmax over sequences
        if lay in ("C", "offset"):
            X, Lc = layout(X0, lay), L.copy()
            ctx.step(2)
            r = ops.softmax_sequences(X, Lc)
            e = [np.exp(p) / np.exp(p).sum(0) if len(p) else p for p in parts]
            want_s = np.concatenate(e) if e else np.zeros((0, width))
            ran(ctx, case, r, want_s, tol, dtype, "softmax_sequences", f"softmax_sequences {case}")
            unchanged(ctx, "softmax_sequences", str(case), ("X", X, X0), ("lengths", Lc, L))
            d = values((T, width), dtype, 9)
            Y = want_s.astype(dtype)
            g = [y * (dd - (y * dd).sum(0)) for y, dd in zip(e, seqs(d.astype("float64"), lengths))]
            r = ops.backprop_softmax_sequences(d, Y, Lc)
            ran(ctx, case, r, np.concatenate(g) if g else np.zeros((0, width)), tol, dtype, "backprop_softmax_sequences", str(case))


def badlen_cases():
    for be in OPS:
        for dtype in ("float32", "float64"):
            for T in range(0, 4):
                for lengths in compositions(3, 3, -1):
                    if sum(lengths) == T and min(lengths, default=0) >= 0:
                        continue
                    for width in (1, 2):
                        yield (be, dtype, T, lengths, width)
            for T, lengths in ((3, (2 ** 31 - 1, 4)), (4, (2 ** 31 - 1, -2 ** 31 + 1, 4)), (3, (2 ** 31 - 1,)), (2, (2 ** 31 - 1, 2 ** 31 - 1, 4))):
                yield (be, dtype, T, lengths, 1)


def badlen(ctx, case):
    be, dtype, T, lengths, width = case
    ops = OPS[be]
    L = np.array(lengths, dtype="int32")
    for kind in ("sum", "mean", "max", "first", "last"):
        ctx.step()
        sig = f"reduce_{kind}"
        try:
            r = getattr(ops, sig)(values((T, width), dtype, 1), L)
        except (ValueError, IndexError):
            ctx.outcome((sig, "refused"))
        else:
            ctx.fail(f"{sig}:bad-lengths-accepted", f"{sig} {case}: lengths {lengths} accepted for {T} rows: {r!r}")
    if be == "numpy" and max(lengths, default=0) < 100:
        for sig in ("seq2col", "backprop_seq2col"):
            ctx.step()
            try:
                r = getattr(ops, sig)(values((T, width * (3 if sig[0] == "b" else 1)), dtype, 1), 1, lengths=L)
            except (ValueError, IndexError, AssertionError):
                ctx.outcome((sig, "refused"))
            else:
                ctx.fail(f"{sig}:bad-lengths-accepted", f"{sig} {case}: lengths {lengths} accepted for {T} rows: {r!r}")
    # backward: a gradient for a wrong number of sequences, or negative lengths
    if be == "numpy" and max(lengths, default=0) < 100:
        for kind in ("sum", "mean", "max"):
            if min(lengths, default=0) >= (kind == "max") and T == len(lengths):
                continue
            if T == len(lengths) and min(lengths, default=0) >= 0 and kind != "max":
                continue
            ctx.step()
            sig = f"backprop_reduce_{kind}"
            args = (values((T, width), dtype, 1),) + ((np.zeros((T, width), "int32"),) if kind == "max" else ()) + (L,)
            try:
                getattr(ops, sig)(*args)
            except (ValueError, IndexError):
                ctx.outcome((sig, "refused"))
            else:
                ctx.fail(f"{sig}:bad-lengths-accepted", f"{sig} {case}: {T} gradient rows accepted for lengths {lengths}")


# ---- maxout ----------------------------------------------------------------------------------------
def maxout_cases():
    for be in OPS:
        for dtype in ("float32", "float64"):
            for B, O, P in itertools.product((0, 1, 2, 3), (0, 1, 2, 3), (1, 2, 3, 4)):
                for lay in ("C", "offset", "F"):
                    yield (be, dtype, B, O, P, lay, None)
            for P in (1, 2, 3):
                for pat in itertools.product((-2.0, -1.0, 0.0, 1.0), repeat=P):
                    yield (be, dtype, 2, 1, P, "C", pat)


def maxout(ctx, case):
    be, dtype, B, O, P, lay, pat = case
    ops = OPS[be]
    X0 = values((B, O, P), dtype, 1) - 0.5
    if pat:
        X0[:] = np.array(pat, dtype=dtype)
        X0[1] = X0[1, :, ::-1]
    X = layout(X0, lay)
    why = f"maxout {case}"
    r, e = call(ctx, "maxout", lambda: ops.maxout(X), (ValueError,) if lay == "F" else ())
    if e is None:
        best, which = r
        ran(ctx, case, best, X0.max(-1), 0, dtype, "maxout", why)
        ok = which.shape == (B, O) and all(0 <= which[b, o] < P and X0[b, o, which[b, o]] == X0[b, o].max() for b in range(B) for o in range(O))
        ctx.require(ok, "maxout:which", lambda: f"{why}: {which.tolist()}")
        unchanged(ctx, "maxout", why, ("X", X, X0))
    for sel in (range(P) if B * O else (0,)):
        which = np.full((B, O), sel, dtype="int32")
        if B and O:
            which[0, 0] = (sel + 1) % P
        d0 = values((B, O), dtype, 3)
        dY = layout(d0, lay)
        want = np.zeros((B, O, P))
        for b in range(B):
            for o in range(O):
                want[b, o, which[b, o]] = d0[b, o]
        ws = which.copy()
        r, e = call(ctx, "backprop_maxout", lambda: ops.backprop_maxout(dY, which, P), (ValueError,) if lay == "F" else ())
        if e is None:
            ran(ctx, case, r, want, 0, dtype, "backprop_maxout", why)
            unchanged(ctx, "backprop_maxout", why, ("dY", dY, d0), ("which", which, ws))
    if B * O and be == "numpy":
        for badp in (P, P + 3, -1):
            which = np.zeros((B, O), dtype="int32")
            which[-1, -1] = badp
            ctx.step()
            try:
                ops.backprop_maxout(values((B, O), dtype, 3), which, P)
            except (ValueError, IndexError):
                ctx.outcome("refused")
            else:
                if badp >= P:
                    ctx.fail("backprop_maxout:invalid-piece-accepted", f"{why}: piece {badp} of {P}")


# ---- windows ---------------------------------------------------------------------------------------
def col_cases(maxn, maxlen):
    for be in OPS:
        for dtype in ("float32", "float64"):
            for lengths in compositions(maxn, maxlen):
                for width in ((0, 1, 2) if be == "numpy" else (1, 2)):
                    for nW in ((0, 1, 2, 3, 5) if be == "numpy" else (1,)):
                        for given in ((True, False) if be == "numpy" else (False,)):
                            yield (be, dtype, lengths, width, nW, given)


def cols(ctx, case):
    be, dtype, lengths, width, nW, given = case
    ops = OPS[be]
    T = sum(lengths)
    if not given:
        if len(lengths) > 1:
            return
        lengths = (T,)
    X0 = values((T, width), dtype, 1)
    nF = 2 * nW + 1
    want = np.zeros((T, nF, width))
    back = np.zeros((T, width))
    d0 = values((T, nF * width), dtype, 2)
    d3 = d0.astype("float64").reshape((T, nF, width))
    i = 0
    for n in lengths:
        for t in range(n):
            for w in range(-nW, nW + 1):
                if 0 <= t + w < n:
                    want[i + t, w + nW] = X0[i + t + w]
                    back[i + t + w] += d3[i + t, w + nW]
        i += n
    L = np.array(lengths, dtype="int32") if given else None
    Ls = None if L is None else L.copy()
    X, dY = X0.copy(), d0.copy()
    kw = {"lengths": L} if given else {}
    why = f"seq2col {case}"
    ctx.step(2)
    ran(ctx, case, ops.seq2col(X, nW, **kw), want.reshape((T, nF * width)), 0, dtype, "seq2col", why)
    ran(ctx, case, ops.backprop_seq2col(dY, nW, **kw), back, 2e-5 if dtype == "float32" else 1e-12, dtype, "backprop_seq2col", why)
    unchanged(ctx, "seq2col", why, ("X", X, X0), ("dY", dY, d0))
    if given:
        unchanged(ctx, "seq2col", why, ("lengths", L, Ls))


FAMILIES = dict(act=act, far=far, act_mismatch=act_mismatch, misc=misc, alloc=alloc, gemm=gemm, gemm_bad=gemm_bad, softmax=softmax, reductions=red, badlen=badlen, maxout=maxout, windows=cols)


# ---- large regular arguments: what depends on a size that the exhaustive families do not reach ----------------
def long_cases(quick):
    """(family, case) pairs for the functions above"""
    sizes = (13, 33, 70) if quick else (11, 13, 33, 64, 70, 128, 129, 300)
    for be in OPS:
        for dtype in ("float32", "float64"):
            for shape in ((1, 257), (257, 1), (17, 19), (33, 64)) + (() if quick else ((5, 1025), (1025, 5), (129, 128))):
                for name in ACT:
                    for ip in (False, True):
                        yield "act", (name, be, dtype, shape, "C", "C", ip)
            for shape in ((1, 70), (70, 1), (33, 17), (17, 33), (5, 7, 11)) + (() if quick else ((2, 1030), (300, 3))):
                for axis in range(-1, len(shape)):
                    for temp in (1.0, 0.5):
                        yield "softmax", (be, dtype, shape, axis, temp, 1.0, "C")
            for lengths in long_compositions(sizes):
                pos = tuple(n or 1 for n in lengths)
                for ls in {lengths: 0, pos: 0}:
                    for width in (1, 5) if quick else (1, 5, 8, 17, 64):
                        yield "reductions", (be, dtype, ls, width, "C")
                    for nW in (1, 4) if be != "generic" else ():
                        yield "windows", (be, dtype, ls, 3, nW, True)
            for T in sizes:
                for nW in (1, 2, 7):
                    if be != "generic" or nW == 1:
                        yield "windows", (be, dtype, (T,), 9, nW, False)
            for B, O, P in ((1, 1, 64), (2, 3, 17), (70, 3, 2), (3, 70, 3), (33, 17, 5)) + (() if quick else ((2, 2, 257), (300, 2, 3), (5, 130, 9))):
                yield "maxout", (be, dtype, B, O, P, "C", None)
    dims = [(1, 1, 70), (70, 1, 1), (1, 70, 1), (17, 33, 9), (33, 9, 17), (9, 17, 33), (64, 64, 64), (65, 31, 66)] + ([] if quick else [(128, 129, 130), (5, 300, 7), (300, 5, 7), (7, 5, 300)])
    for be in GEMM_OPS:
        for m, k, n in dims:
            for t1, t2 in itertools.product((False, True), repeat=2):
                for dtype in ("float32", "float64"):
                    for l1, l2, out in (("C", "C", None), ("C", "C", "C"), ("F", "strided", None)):
                        yield "gemm", (be, m, k, n, t1, t2, dtype, l1, l2, out)


def long_case(ctx, case):
    FAMILIES[case[0]](ctx, case[1])


FAMILIES["long"] = long_case


def explore(ctx):
    q = ctx.quick
    ctx.each("act", act_cases, act)
    ctx.each("far", far_cases, far)
    ctx.each("act_mismatch", act_mismatch_cases, act_mismatch)
    ctx.each("misc", misc_cases, misc)
    ctx.each("alloc", alloc_cases, alloc)
    ctx.each("gemm", lambda: gemm_cases(4 if q else 7), gemm)
    ctx.each("gemm_bad", gemm_bad_cases, gemm_bad)
    ctx.each("softmax", softmax_cases, softmax)
    ctx.each("reductions", lambda: red_cases(4, 3) if q else red_cases(5, 5), red)
    ctx.each("badlen", badlen_cases, badlen)
    ctx.each("maxout", maxout_cases, maxout)
    ctx.each("windows", lambda: col_cases(4, 3) if q else col_cases(5, 4), cols)
    ctx.each("long", lambda: long_cases(q), long_case)


def replay(ctx, family, case):
    ctx.each(family, lambda: [case], FAMILIES[family], parallel=False)
