"""C08: every layer and composition x every small input, against central differences of the forward pass."""
import itertools

import numpy as np
from mc import zoo
from mc.zoo import size
from mc.util import close, values

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of layers, layer compositions and small batches run on the real code; every input and parameter derivative compared with central differences of the forward pass"
NOTE = "All layers of the library that run on CPU, all binary trees of up to 2 (quick) or 3 (thorough) leaf layers, every batch up to 3 items of length up to 2-3; one grid of irregular values per input."
RULE = "state = (composition, input) and its gradients; transition = one forward or backward pass of the real model"
ASSUMPTIONS = ["central differences in double precision (single precision for float32-only layers) define the derivative; points where two step sizes disagree (kinks) are not judged",
               "layers that end in a softmax are compared with the derivative with respect to the logits, as documented"]


def check_grads(ctx, sig, why, model, X, f32, ref=None, no_param=(), params_only=False, salt=5, tol=None):
    dtype = "float32" if f32 else "float64"
    tol = tol or (6e-3 if f32 else 2e-6)
    steps = (2e-2, 1e-2) if f32 else (1e-5, 3e-6)
    X0 = zoo.copy(X)
    ctx.step()
    Y, bp = model(X, is_train=True)
    dY = zoo.gradient_for(Y, salt)
    # gradients that are already there have to be added to
    pre = {}
    for k, (label, n, name) in enumerate(zoo.params(model)):
        if k % 2 == 0:
            g = values(n.get_param(name).shape, dtype, 77 + k)
            n.set_grad(name, g.copy())
            pre[label] = g
    ctx.step()
    dX = bp(dY)
    got = zoo.grads(model)
    if ref is None:
        func = model
        scale = 1.0
    else:
        func, scale = ref

    def loss(x):
        ctx.step()
        y, _ = func(x, is_train=True)
        return zoo.dot(y, dY) * scale

    def derivative(arr, i, x):
        old = arr.flat[i]
        ds = []
        for h in steps:
            arr.flat[i] = old + h
            hi = loss(x)
            arr.flat[i] = old - h
            lo = loss(x)
            arr.flat[i] = old
            ds.append((hi - lo) / (2 * h))
        return ds

    def compare(name, g, arr, x, mask=None, extra=None):
        g = np.asarray(g)
        ok = ctx.require(g.shape == arr.shape, f"{sig}:{name}:shape", lambda: f"{why}: gradient of {name} has shape {g.shape}, expected {arr.shape}")
        if not ok:
            return
        bad = []
        for i in range(arr.size):
            if mask is not None and not mask.flat[i]:
                if g.flat[i] != 0:
                    bad.append((i, float(g.flat[i]), 0.0))
                continue
            d1, d2 = derivative(arr, i, x)
            have = float(g.flat[i]) - (float(extra.flat[i]) if extra is not None else 0.0)
            if abs(d1 - d2) > tol * (1 + abs(d2)):
                ctx.note("kinks", 1)
                lo, hi = min(d1, d2), max(d1, d2)
                continue
            if not abs(have - d2) <= tol * (1 + abs(d2)):
                bad.append((i, have, d2))
        ctx.note("derivatives", arr.size)
        ctx.require(not bad, f"{sig}:{name}", lambda: f"{why}: gradient of {name} is wrong at (index, got, expected) {bad[:6]}; X={zoo.show(X0)}; dY={zoo.show(dY)}")

    xl = zoo.leaves(X)
    if xl and not params_only:
        nothing = size(X0) == 0  # the width of an empty batch can be lost
        ok = ctx.require(zoo.struct(dX, dtype=False) == zoo.struct(X0, dtype=False) or nothing and type(dX) is type(X0), f"{sig}:dX:form",
                         lambda: f"{why}: the input gradient is {zoo.struct(dX)}, the input was {zoo.struct(X0)}")
        if ok and not nothing:
            Xw = zoo.copy(X0)
            for k, ((arr, mask), (g, _)) in enumerate(zip(zoo.leaves(Xw), zoo.leaves(dX))):
                compare(f"dX{k if len(xl) > 1 else ''}", g, arr, Xw, mask=mask)
    for label, n, name in zoo.params(model):
        if name in no_param:
            continue
        g = got[label]
        arr = n.get_param(name)
        base = pre.get(label)
        if g is None:
            g = np.zeros_like(arr)
        if ref is not None:  # the reference model shares the arrays
            pass
        compare(name, g, arr, X0, extra=base)
    ctx.seen((sig, zoo.full(Y), zoo.full(dX) if xl else None, [got[k] for k in sorted(got)]))
    return Y, dX, got, dY


def reference(entry, model):
    """A model computing the logits, sharing the parameter arrays of `model`."""
    if entry.ref is None:
        return None
    lin = entry.ref()
    lin.set_dim("nI", model.get_dim("nI"))
    lin.initialize()
    lin.set_param("W", model.get_param("W"))
    lin.set_param("b", model.get_param("b"))
    return lin, entry.ref.scale


def layer_cases(quick):
    def cases():
        for name, e in zoo.ENTRIES.items():
            for spec in e.specs(quick):
                yield (name, spec, 0, 1.0)
                if not quick or "rowwise" in e.tags:
                    yield (name, spec, 1, 4.0)  # large values: saturated units
                if not quick:
                    yield (name, spec, 2, 1.0)
    return cases


def layer(ctx, case):
    name, spec, salt, scale = case
    e = zoo.ENTRIES[name]
    f32 = e.f32
    dtype = "float32" if f32 else "float64"
    m = e.build(dtype, salt)
    X = e.data(spec, dtype, salt)
    if scale != 1.0:
        X = zoo.rebuild(X, iter([a * scale for a, _ in zoo.leaves(X)]))
    ref = reference(e, m)
    why = f"{name} on {spec} (values {salt}, scale {scale})"
    if "lstm" in e.tags:
        r = lstm_check(ctx, f"layer:{name}", why, m, X)
    elif "torch" in e.tags:
        r = torch_check(ctx, f"layer:{name}", why, m, X)
    else:
        r = check_grads(ctx, f"layer:{name}", why, m, X, f32, ref=ref, params_only=e.params_only)
    if f32 or r is None:
        return
    # the same in single precision, against the double precision result
    Y, dX, got, dY = r
    m32 = e.build("float32", salt)
    X32 = e.data(spec, "float32", salt)
    if scale != 1.0:
        X32 = zoo.rebuild(X32, iter([a * np.float32(scale) for a, _ in zoo.leaves(X32)]))
    ctx.step(2)
    Y32, bp32 = m32(X32, is_train=True)
    ok = ctx.require(zoo.struct(Y32, dtype=False) == zoo.struct(Y, dtype=False), f"layer:{name}:float32:form", lambda: f"{why}: {zoo.struct(Y32)} vs {zoo.struct(Y)}")
    if not ok:
        return
    for a, _ in zoo.leaves(Y32):
        ctx.require(a.dtype == np.float32, f"layer:{name}:float32:dtype", lambda: f"{why}: float32 input gives {a.dtype} output")
    dX32 = bp32(zoo.cast(dY, "float32"))
    for k, ((a, _), (b, _)) in enumerate(zip(zoo.leaves(Y32), zoo.leaves(Y))):
        ctx.require(close(a, b, 2e-4, 2e-4), f"layer:{name}:float32:Y", lambda: f"{why}: float32 {a.tolist()} float64 {b.tolist()}")
    for k, ((a, _), (b, _)) in enumerate(zip(zoo.leaves(dX32), zoo.leaves(dX))):
        ctx.require(close(a, b, 1e-3, 1e-3), f"layer:{name}:float32:dX", lambda: f"{why}: float32 {a.tolist()} float64 {b.tolist()}")
    # parameter gradients: `got` had some preset gradients
    for k, (label, n, pname) in enumerate(zoo.params(m32)):
        b = got[label]
        if b is None:
            b = np.zeros(n.get_param(pname).shape)
        if k % 2 == 0:
            b = b - values(n.get_param(pname).shape, "float64", 77 + k)
        a = n.get_grad(pname) if n.has_grad(pname) else np.zeros(n.get_param(pname).shape)
        ctx.require(close(a, b, 1e-3, 1e-3), f"layer:{name}:float32:d{pname}", lambda: f"{why}: float32 {a.tolist()} float64 {b.tolist()}")


def lstm_check(ctx, sig, why, m, X):
    """float32 only: the recurrence is checked against float64 in C25; here dX and the parameter gradient by differences."""
    lst = [n for n in m.walk() if n.has_param("LSTM")]
    hid = {}
    X0 = zoo.copy(X)
    ctx.step(2)
    Y, bp = m(X, is_train=True)
    dY = zoo.gradient_for(Y, 5)
    dX = bp(dY)

    def loss(x):
        ctx.step()
        y, _ = m(x, is_train=True)
        return zoo.dot(y, dY)

    def der(arr, i, x, h=1e-2):
        old = arr.flat[i]
        arr.flat[i] = old + h
        hi = loss(x)
        arr.flat[i] = old - h
        lo = loss(x)
        arr.flat[i] = old
        return (hi - lo) / (2 * h)

    if zoo.leaves(X):
        nothing = size(X0) == 0  # the width of an empty batch can be lost
        ok = ctx.require(zoo.struct(dX, dtype=False) == zoo.struct(X0, dtype=False) or nothing and type(dX) is type(X0), f"{sig}:dX:form", lambda: f"{why}: {zoo.struct(dX)} for {zoo.struct(X0)}") if size(X0) else False
        if ok:
            Xw = zoo.copy(X0)
            for (arr, mask), (g, _) in zip(zoo.leaves(Xw), zoo.leaves(dX)):
                bad = []
                for i in range(arr.size):
                    want = der(arr, i, Xw) if mask.flat[i] else 0.0
                    if not abs(want - g.flat[i]) <= 6e-3 * (1 + abs(want)):
                        bad.append((i, float(g.flat[i]), want))
                ctx.require(not bad, f"{sig}:dX", lambda: f"{why}: (index, got, expected) {bad[:6]}")
    for n in lst:
        g = n.get_grad("LSTM") if n.has_grad("LSTM") else np.zeros_like(n.get_param("LSTM"))
        p = n.get_param("LSTM")
        bad = []
        # the second bias of each layer is kept at zero by design: its gradient is either true or zero
        bh = lstm_bh_mask(n)
        for i in range(p.size):
            want = der(p, i, X0)
            if not abs(want - g[i]) <= 6e-3 * (1 + abs(want)) and not (bh[i] and g[i] == 0):
                bad.append((i, float(g[i]), want))
        ctx.note("derivatives", p.size)
        ctx.require(not bad, f"{sig}:LSTM", lambda: f"{why}: (index, got, expected) {bad[:6]} lengths {[len(a) for a, _ in zoo.leaves(X0)]}")
    ctx.seen((sig, zoo.full(Y), zoo.full(dX)))
    return None


def lstm_bh_mask(n):
    depth, dirs = n.get_dim("depth"), n.get_dim("dirs")
    nO = n.get_dim("nO") // dirs
    nI = n.get_dim("nI")
    m = []
    for d in range(depth):
        w = nI if d == 0 else nO * dirs
        for _ in range(dirs):
            m += [False] * (4 * nO * w + 4 * nO + 4 * nO * nO) + [True] * (4 * nO)
    assert len(m) == n.get_param("LSTM").size, (len(m), n.get_param("LSTM").size)
    return m


def torch_check(ctx, sig, why, m, X):
    shims = [s for n in m.walk() for s in n.shims]
    X0 = zoo.copy(X)
    ctx.step(2)
    Y, bp = m(X, is_train=True)
    dY = zoo.gradient_for(Y, 5)
    dX = bp(dY)

    def loss(x):
        ctx.step()
        y, _ = m(x, is_train=True)
        return zoo.dot(y, dY)

    ok = ctx.require(zoo.struct(dX, dtype=False) == zoo.struct(X0, dtype=False), f"{sig}:dX:form", lambda: f"{why}: {zoo.struct(dX)} for {zoo.struct(X0)}") if size(X0) else False
    if not ok:
        return
    h = 1e-2
    Xw = zoo.copy(X0)
    for (arr, mask), (g, _) in zip(zoo.leaves(Xw), zoo.leaves(dX)):
        for i in range(arr.size):
            old = arr.flat[i]
            arr.flat[i] = old + h
            hi = loss(Xw)
            arr.flat[i] = old - h
            lo = loss(Xw)
            arr.flat[i] = old
            want = (hi - lo) / (2 * h)  # torch sees the padding too: C11 looks at what that means
            ctx.require(abs(want - g.flat[i]) <= 6e-3 * (1 + abs(want)), f"{sig}:dX", lambda: f"{why}: index {i}: got {g.flat[i]}, expected {want}")
    for s in shims:
        for k, p in enumerate(s._model.parameters()):
            g = p.grad.numpy().ravel() if p.grad is not None else np.zeros(p.numel())
            flat = p.data.numpy().reshape(-1)
            for i in range(0, flat.size):
                old = flat[i]
                flat[i] = old + h
                hi = loss(X0)
                flat[i] = old - h
                lo = loss(X0)
                flat[i] = old
                want = (hi - lo) / (2 * h)
                ctx.require(abs(want - g[i]) <= 6e-3 * (1 + abs(want)), f"{sig}:param", lambda: f"{why}: parameter {k} index {i}: got {g[i]}, expected {want}")
    ctx.seen((sig, zoo.full(Y), zoo.full(dX)))
    return None


# ---- compositions --------------------------------------------------------------------------------
def tree_cases(quick):
    leaf = ("L", "R", "M", "m", "N", "I", "r", "w", "n")

    def cases():
        for n in ((1, 2) if quick else (1, 2, 3)):
            for t in zoo.trees(leaf if n < 3 else ("L", "M", "N", "r", "w", "I"), n):
                for o in (2, 3):
                    for rows in ((2,) if quick or n == 3 else (0, 1, 2, 3)):
                        yield (t, o, rows)
    return cases


def sized(t, o):
    try:
        m, _ = zoo.tree_model(t, o)
    except ValueError:
        return None
    return m


def tree(ctx, case):
    t, o, rows = case
    m = sized(t, o)
    if m is None:
        return
    m.initialize(X=zoo.rows(3))
    zoo.fill(m, "float64")
    X = zoo.rows(rows, zoo.W, "float64")
    check_grads(ctx, "tree:" + shape_of(t), f"{t} width {o} rows {rows}", m, X, False)


def shape_of(t):
    return t if isinstance(t, str) else f"({shape_of(t[1])}{t[0]}{shape_of(t[2])})"


WRAP = {
    "with_array": lambda m: zoo.T.with_array(m), "with_array:1": lambda m: zoo.T.with_array(m, pad=1), "with_array2d": lambda m: zoo.T.with_array2d(m),
    "with_list(map_list)": lambda m: zoo.T.with_list(zoo.T.map_list(m)), "with_padded(with_array)": lambda m: zoo.T.with_padded(zoo.T.with_array(m)),
    "with_ragged(with_array)": lambda m: zoo.T.with_ragged(zoo.T.with_array(m)),
}


def wrapped_cases(quick):
    specs = [(2, 1), (1, 2), (1, 0, 2), (0,), (0, 0)] if quick else [s for s in zoo.compositions(3, 2) if s]

    def cases():
        for t in zoo.trees(("L", "M", "w", "I") if quick else ("L", "M", "w", "I", "N", "r"), 2):
            for w in WRAP:
                for rep in ("list", "ragged", "padded"):
                    for spec in specs:
                        yield (t, w, rep, spec)
    return cases


def has(t, x):
    return t == x if isinstance(t, str) else has(t[1], x) or has(t[2], x)


def wrapped(ctx, case):
    t, w, rep, spec = case
    m = sized(t, 3)
    if m is None or (w in ("with_padded(with_array)", "with_array", "with_array:1") and rep == "padded" and not pointwise(t)) or (
            w == "with_padded(with_array)" and not pointwise(t)):
        return  # layers for 2d arrays cannot take the 3d array of a padded batch
    if w == "with_array2d" and rep == "padded" and has(t, "w"):
        return  # the window would look across sequences
    m = WRAP[w](m)
    m.initialize(X=zoo.as_rep(zoo.seqs((2, 1)), rep))
    zoo.fill(m, "float64")
    X = zoo.as_rep(zoo.seqs(spec, dtype="float64"), rep)
    if rep == "padded" and X.data.size == 0:
        X = zoo.as_rep(zoo.seqs(spec, dtype="float64"), rep)
    X = zoo.cast(X, "float64")
    check_grads(ctx, f"wrapped:{w}:{rep}:{shape_of(t)}", f"{w} of {t}, {rep} {spec}", m, X, False)


def pointwise(t):
    if isinstance(t, str):
        return t == "I"
    return t[0] == ">" and pointwise(t[1]) and pointwise(t[2]) or t[0] in ("+", "=") and pointwise(t[1]) and pointwise(t[2])


def explore(ctx):
    ctx.each("layer", layer_cases(ctx.quick), layer)
    ctx.each("tree", tree_cases(ctx.quick), tree)
    ctx.each("wrapped", wrapped_cases(ctx.quick), wrapped)


def replay(ctx, family, case):
    ctx.run_case(family, {"layer": layer, "tree": tree, "wrapped": wrapped}[family], case)
