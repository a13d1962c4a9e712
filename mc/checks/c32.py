"""C32: the C BLAS table, called from C: every routine on every small argument, every short history of replacing routines, and the operations that use the table."""
import itertools

import numpy as np
import thinc.api as T
from mc import target
from mc.cblas import gen
from mc.util import close, values
from thinc.backends.cblas import CBlas

LEVEL = "model_checking"
TECHNIQUE = "a Cython harness compiled against the current tree calls the table's function pointers: exhaustive enumeration of the routines' arguments against their definition, of all short histories of replacing routines in two tables in lockstep with a reference, and of the operations that run on a table whose routines are replaced by checking stand-ins"
NOTE = "Vectors of up to 5 elements with strides 1-3, matrices of up to 4 rows and columns with padded leading dimensions, 4 factors; histories of up to 2 replacements over all routines, up to 3 (thorough 4) over every pair of routines."
RULE = "state = (which implementation each routine of each table has) or (routine, arguments, result); transition = one call or replacement"
ASSUMPTIONS = ["negative strides and leading dimensions smaller than a row are outside of the routines' contract", "the stand-ins follow the reference BLAS definition: with beta = 0 the output is not read"]

H = gen.build(target.REPO)
NAMES = gen.NAMES
DT = {"s": "float32", "d": "float64"}
FACTORS = (1.0, 0.0, -0.5, 2.0, 0.1)  # 0.1 is no float32 number
PAD = 7.25  # around and between the elements


def table(kind):
    """A table with the routines that come with it (None) or the stand-ins."""
    c = CBlas()
    if kind is not None:
        for n in NAMES:
            H.put(c, n, kind)
    return c


# ---- 1. every routine ---------------------------------------------------------------------------------
def routine_cases(quick):
    def gen_():
        for kind in (None, "ops", 0):
            for s in "sd":
                for N, ix, alpha in itertools.product(range(6), (1, 2, 3), FACTORS):
                    yield kind, s + "scal", (N, ix, alpha)
                    for iy in (1, 2, 3):
                        yield kind, s + "axpy", (N, ix, iy, alpha)
                top = 4 if quick else 6
                for M, N, K in itertools.product(range(top), repeat=3):
                    for tA, tB in itertools.product((False, True), repeat=2):
                        for alpha, beta in itertools.product(FACTORS, (0.0, 1.0, -0.5)):
                            for pad in (0, 2):
                                yield kind, s + "gemm", (M, N, K, tA, tB, alpha, beta, pad)
                for n in (9, 33, 70):
                    yield kind, s + "scal", (n, 1, -0.5)
                    yield kind, s + "axpy", (n, 1, 1, -0.5)
                    for tA, tB in itertools.product((False, True), repeat=2):
                        yield kind, s + "gemm", (n, 5, n + 1, tA, tB, 2.0, 1.0, 1)
                        yield kind, s + "gemm", (3, n, 2, tA, tB, 1.0, 0.0, 0)
    return gen_


def routine(ctx, case):
    kind, name, args = case
    c = T.NumpyOps().cblas() if kind == "ops" else table(kind)
    why = f"{name}{tuple(args)} of " + {None: "CBlas()", "ops": "NumpyOps.cblas()"}.get(kind, "the harness")
    ctx.step()
    dt = DT[name[0]]
    tol = 1e-5 if dt == "float32" else 1e-12

    def spread(n, inc, salt):
        a = np.full(3 + max(1, n * inc) + 3, PAD, dtype=dt)
        at = [3 + i * inc for i in range(n)]
        a[at] = values((n,), dt, salt)
        return a, at

    if name[1:] == "scal":
        N, inc, alpha = args
        X, at = spread(N, inc, 1)
        want = X.copy()
        want[at] = alpha * X[at]
        getattr(H, f"run_{name}")(c, N, alpha, X, 3, inc)
        ctx.require(close(X, want, tol, tol), f"{name}:value", lambda: f"{why}: gives {X.tolist()}, should be {want.tolist()}")
        ctx.seen((name, args, X))
        return
    if name[1:] == "axpy":
        N, ix, iy, alpha = args
        X, atx = spread(N, ix, 1)
        Y, aty = spread(N, iy, 2)
        X0, want = X.copy(), Y.copy()
        want[aty] = Y[aty] + alpha * X[atx]
        getattr(H, f"run_{name}")(c, N, alpha, X, 3, ix, Y, 3, iy)
        ctx.require(close(Y, want, tol, tol), f"{name}:value", lambda: f"{why}: gives {Y.tolist()}, should be {want.tolist()}")
        ctx.require(np.array_equal(X, X0), f"{name}:argument-changed", lambda: f"{why}: changed X")
        ctx.seen((name, args, Y))
        return
    M, N, K, tA, tB, alpha, beta, pad = args
    A, B, C = values((M, K), dt, 1), values((K, N), dt, 2), values((M, N), dt, 3)

    def stored(a):
        full = np.full((a.shape[0], a.shape[1] + pad), PAD, dtype=dt)
        full[:, :a.shape[1]] = a
        return np.concatenate([full.ravel(), np.full(1, PAD, dtype=dt)]), max(1, full.shape[1])

    a, lda = stored(A.T if tA else A)
    b, ldb = stored(B.T if tB else B)
    cc, ldc = stored(C)
    cc = np.concatenate([np.full(3, PAD, dtype=dt), cc])
    if beta == 0.0:
        if M and N:
            cc[3:3 + M * ldc].reshape(M, ldc)[:, :N] = np.nan  # must not be read
    want = cc.copy()
    if M and N:
        want[3:3 + M * ldc].reshape(M, ldc)[:, :N] = alpha * (A.astype("float64") @ B.astype("float64")) + (beta * C if beta else 0)
    a0, b0 = a.copy(), b.copy()
    if K == 0 and beta == 0.0 and M and N:
        want = None  # an empty product: zero by the definition, and implementations differ in whether they write it
    getattr(H, f"run_{name}")(c, tA, tB, M, N, K, alpha, a, lda, b, ldb, beta, cc, 3, ldc)
    if want is not None:
        ctx.require(close(cc, want, tol * (1 + K / 8), tol), f"{name}:value", lambda: f"{why}: gives {cc.tolist()}, should be {want.tolist()}")
    ctx.require(np.array_equal(a, a0) and np.array_equal(b, b0), f"{name}:argument-changed", lambda: f"{why}: changed an input matrix")
    ctx.seen((name, args, cc))


# ---- 2. replacing routines ------------------------------------------------------------------------------
def run_one(c, name):
    """Call the table's routine once; returns the index of the stand-in that ran, None for the built-in routine, or what is wrong."""
    H.reset()
    dt = DT[name[0]]
    if name[1:] == "scal":
        X = np.array([3, 5], dtype=dt)
        getattr(H, f"run_{name}")(c, 2, 2.0, X, 0, 1)
        ok = X.tolist() == [6, 10]
    elif name[1:] == "axpy":
        X, Y = np.array([3, 5], dtype=dt), np.array([1, 2], dtype=dt)
        getattr(H, f"run_{name}")(c, 2, 2.0, X, 0, 1, Y, 0, 1)
        ok = Y.tolist() == [7, 12] and X.tolist() == [3, 5]
    else:
        A, B, C = np.array([3, 5], dtype=dt), np.array([1, 2], dtype=dt), np.array([1], dtype=dt)
        getattr(H, f"run_{name}")(c, False, False, 1, 1, 2, 2.0, A, 2, B, 1, 1.0, C, 0, 1)
        ok = C.tolist() == [27]
    counts, bad = H.counts()
    ran = [(NAMES[i // gen.KINDS], i % gen.KINDS) for i, n in enumerate(counts) for _ in range(n)]
    if not ok:
        return "wrong result"
    if not ran:
        return None
    return ran[0][1] if len(ran) == 1 and ran[0][0] == name else f"{ran} ran"


def history_cases(quick):
    def ops(names):
        for t in (0, 1):
            for n in names:
                for k in range(gen.KINDS):
                    yield ("put", t, n, k)
                yield ("move", t, n)
                yield ("restore", t, n)
        yield ("new",)
        yield ("ops",)

    def gen_():
        for n in (1, 2):
            yield from itertools.product(list(ops(NAMES)), repeat=n)
        for pair in itertools.combinations(NAMES, 2):
            for h in itertools.product(list(ops(pair)), repeat=3 if quick else 4):
                if h[0] <= ("put", 1, "zzz"):  # the tables are alike: start with the first
                    yield h
    return gen_


def history(ctx, case):
    tabs = [CBlas(), T.NumpyOps().cblas()]
    want = [dict.fromkeys(NAMES) for _ in tabs]
    why = " ".join(":".join(map(str, op)) for op in case)
    touched = {op[2] for op in case if len(op) > 2} or set(NAMES)
    for op in case:
        ctx.step()
        if op[0] == "put":
            H.put(tabs[op[1]], op[2], op[3])
            want[op[1]][op[2]] = op[3]
        elif op[0] == "move":
            H.move(tabs[op[1]], tabs[1 - op[1]], op[2])
            want[op[1]][op[2]] = want[1 - op[1]][op[2]]
        elif op[0] == "restore":
            H.move(tabs[op[1]], CBlas(), op[2])
            want[op[1]][op[2]] = None
        else:
            c = CBlas() if op[0] == "new" else T.NumpyOps().cblas()
            for n in NAMES:
                r = run_one(c, n)
                ctx.require(r is None, f"{n}:new-table", lambda: f"{why}: the {n} of a new table is {r}, not the built-in one")
    for i, c in enumerate(tabs):
        for n in NAMES:
            r = run_one(c, n)
            ctx.require(r == want[i][n], f"{n}:replaced", lambda: f"{why}: the {n} of table {i} is {r}, should be {want[i][n]} (None: the built-in one)")
    X = np.ones((2, 2), dtype="float32")
    H.reset()
    Y = T.NumpyOps().gemm(X, X)
    ctx.require(Y.tolist() == [[2, 2], [2, 2]] and not any(H.counts()[0]), "gemm:other-backend", lambda: f"{why}: NumpyOps.gemm gives {Y.tolist()} and runs a routine of the replaced tables")
    ctx.seen((sorted(touched), [sorted(w.items()) for w in want]))


# ---- 3. operations on a backend with a table of its own ----------------------------------------------------
class OwnOps(T.NumpyOps):
    name = "own"
    kind = 0

    def cblas(self):
        return table(self.kind)


def user_cases(quick):
    def gen_():
        for kind in range(gen.KINDS):
            for dt in ("float32", "float64"):
                for m, k, n in itertools.product((0, 1, 2, 3, 5) if quick else range(7), repeat=3):
                    for t1, t2, out in itertools.product((False, True), repeat=3):
                        yield kind, "gemm", (dt, m, k, n, t1, t2, out)
                for rows, ids, width, K in itertools.product((1, 3), (0, 1, 4), (1, 3), (1, 4)):
                    yield kind, "gather_add", (dt, rows, ids, width, K)
            for rows, ids, width in itertools.product((1, 3), (0, 1, 4), (1, 3)):
                yield kind, "scatter_add", (rows, ids, width)
            for n, steps in itertools.product((0, 1, 3, 9, 40), (1, 2, 3)):
                yield kind, "adam", (n, steps)
            for depth, dirs, nO, nI in itertools.product((1, 2), (1, 2), (2, 4), (1, 3)):
                for lengths in ((1,), (2,), (3, 1), (2, 2, 1)) + (() if quick else ((4, 3, 3, 1),)):
                    yield kind, "lstm", (depth, dirs, nO, nI, lengths)
            for layer in ("Linear", "Maxout", "HashEmbed", "Softmax"):
                yield kind, "train", (layer,)
    return gen_


def user(ctx, case):
    kind, what, a = case
    plain, own = T.NumpyOps(), OwnOps()
    own.kind = kind
    why = f"{what}{tuple(a)} on a backend with its own table"
    ctx.step(2)

    marks = []  # the number of calls after each operation

    def mark(*r):
        marks.append(sum(H.counts()[0]))
        return r if len(r) > 1 else r[0]

    def run(ops):
        marks.clear()
        if what == "gemm":
            dt, m, k, n, t1, t2, out = a
            x, y = values((k, m) if t1 else (m, k), dt, 1), values((n, k) if t2 else (k, n), dt, 2)
            o = np.full((m, n), np.nan, dtype=dt) if out else None
            r = ops.gemm(x, y, out=o, trans1=t1, trans2=t2)
            return [r] + ([o] if out else [])
        if what == "gather_add":
            dt, rows, ids, width, K = a
            return [ops.gather_add(values((rows, width), dt, 1), (np.arange(ids * K).reshape(ids, K) * 5 % rows).astype("uint32"))]
        if what == "scatter_add":
            rows, ids, width = a
            t = values((rows, width), "float32", 1)
            ops.scatter_add(t, (np.arange(ids) * 2 % rows).astype("int32"), values((ids, width), "float32", 2))
            return [t]
        if what == "adam":
            n, steps = a
            w, m1, m2 = values((n,), "float32", 1), np.zeros(n, "float32"), np.zeros(n, "float32")
            for i in range(steps):
                w, g, m1, m2 = ops.adam(w, values((n,), "float32", 2 + i), m1, m2, 0.9, 0.99, 1e-8, 0.1)
            return [w, m1, m2]
        if what == "lstm":
            depth, dirs, nO, nI, lengths = a
            h = nO // dirs
            size = 0
            for d in range(depth):
                size += dirs * (4 * h * (nI if d == 0 else nO) + 4 * h + 4 * h * h + 4 * h)
            params = values((size,), "float32", 1)
            at_t = np.array([sum(x > t for x in lengths) for t in range(max(lengths))], dtype="int32")
            X = values((int(at_t.sum()), nI), "float32", 2)
            H0, C0 = values((depth, dirs, h), "float32", 3), values((depth, dirs, h), "float32", 4)
            Y, state = mark(*ops.lstm_forward_training(params, H0, C0, X, at_t))
            Z = mark(ops.lstm_forward_inference(params, H0, C0, X, at_t))
            dX, dp = mark(*ops.backprop_lstm(values(Y.shape, "float32", 5), at_t, params, state))
            return [Y, Z, dX, dp]
        m = {"Linear": lambda: T.chain(T.Linear(3, 2), T.Linear(2, 3)), "Maxout": lambda: T.Maxout(3, 2, normalize=True), "HashEmbed": lambda: T.chain(T.HashEmbed(3, 5, seed=1), T.Linear(2, 3)), "Softmax": lambda: T.Softmax(3, 2)}[a[0]]()
        for node in m.walk():
            node.ops = ops
        T.fix_random_seed(0)
        m.initialize()
        X = np.arange(4, dtype="uint64") if a[0] == "HashEmbed" else values((4, 2), "float32", 1)
        opt, out = T.Adam(0.1), []
        for i in range(3):
            Y, bp = m.begin_update(X)
            dX = bp(values(Y.shape, "float32", 2))
            m.finish_update(opt)
            out += [Y] + ([dX] if isinstance(dX, np.ndarray) else [])
        return out + [m.predict(X)]

    H.reset()
    want = run(plain)
    ctx.require(not any(H.counts()[0]), f"{what}:foreign-table", lambda: f"{why}: a plain backend ran a routine of the other backend's table")
    H.reset()
    got = run(own)
    counts, bad = H.counts()
    ctx.require(len(got) == len(want) and all(close(x, y, 1e-4, 1e-4) for x, y in zip(got, want)), f"{what}:value", lambda: f"{why}: gives {[x.tolist() for x in got]}, the plain backend {[x.tolist() for x in want]}")
    ctx.require(not bad, f"{what}:contract", lambda: f"{why}: a routine was called with a leading dimension or stride that does not fit")
    work = {"gemm": lambda: a[1] and a[2] and a[3], "gather_add": lambda: a[2], "scatter_add": lambda: a[1], "adam": lambda: a[0]}.get(what, lambda: what == "lstm")()
    if work:
        ctx.require(any(counts), f"{what}:table-unused", lambda: f"{why}: the table of the backend was not used")
        ctx.require(all(x < y for x, y in zip([0] + marks, marks)), f"{what}:table-unused", lambda: f"{why}: the table of the backend was not used by the forward pass, the inference or the backward pass ({marks} calls)")
    ctx.require(all(i % gen.KINDS == kind for i, n in enumerate(counts) if n), f"{what}:wrong-table", lambda: f"{why}: routines of another table ran")
    ctx.seen((what, a, got))


def none_cases():
    yield from (("Ops",), ("own",), ("CupyOps",))


def none(ctx, case):
    """Backends without a table say so; a table cannot be mistaken for another type."""
    from thinc.backends.ops import Ops

    class Bare(Ops):
        name = "bare"

    ctx.step()
    cls = {"Ops": Ops, "own": Bare, "CupyOps": T.CupyOps}[case[0]]
    o = cls.__new__(cls)
    try:
        c = o.cblas()
        ctx.fail("none:accepted", f"{case[0]}.cblas() returns {c!r}")
    except NotImplementedError:
        pass
    ctx.seen(case)


FAM = {"routine": routine, "history": history, "user": user, "none": none}


def explore(ctx):
    ctx.each("routine", routine_cases(ctx.quick), routine)
    ctx.each("history", history_cases(ctx.quick), history)
    ctx.each("user", user_cases(ctx.quick), user)
    ctx.each("none", none_cases, none)


def replay(ctx, family, case):
    ctx.run_case(family, FAM[family], case)
