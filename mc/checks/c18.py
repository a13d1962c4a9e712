"""C18: every small batch of symbolic targets x every way of writing it x every loss setting, against the definition."""
import itertools
import warnings

import numpy as np
from mc.util import LAYOUTS, close, layout, values
from thinc.api import CategoricalCrossentropy, CosineDistance, L2Distance, SequenceCategoricalCrossentropy, registry

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all small batches of symbolic targets (a class, a negated class, missing) written in every accepted form, under every combination of loss settings and of sequence nesting, executed on the real losses against the defining formula in float64; exhaustive enumeration of malformed inputs"
NOTE = "1-3 classes, batches up to 3 rows (thorough 4) over all classes, negations and missing entries, and regular batches of up to 130 rows (thorough 300) and 40 classes (64); 7 target forms; 11 missing-value / name / prefix settings; smoothing 0, 0.1, 0.3; sequences of up to 3 batches; all grid-valued target distributions; L2 and cosine on all pairs of grid rows."
RULE = "state = (settings, predictions, targets) and gradient; transition = one loss or gradient computation"
ASSUMPTIONS = ["float32 rounding: relative tolerance 1e-5", "negative class ids other than the missing value, ties in the largest value of a target row and missing values given as strings together with numeric targets are unspecified",
               "the cosine of a zero prediction is unspecified (a constant is added to avoid dividing by zero)", "the loss is the sum of the squared gradient entries (as documented by the tests)"]

NAMES = ["A", "Bb", "!x"] + [f"n{i}" for i in range(3, 64)]


def guess(rows, n, k=0):
    G = [0.0, 1.0, 0.25, 0.5, 0.1, 0.9, 0.4, 0.75]
    return np.array([[G[(i * 3 + j * 5 + k * (i + 1)) % 8] for j in range(n)] for i in range(rows)], dtype="float32").reshape(rows, n)


def reference(G, rows, smoothing, normalize):
    """Gradient from symbolic rows: ("is", c), ("not", c), ("missing",), ("dist", values)."""
    n = G.shape[1]
    g = np.zeros(G.shape)
    for i, r in enumerate(rows):
        for j in range(n):
            p = float(G[i, j])
            if r[0] == "is":
                t = 1 - smoothing if j == r[1] else (smoothing / (n - 1) if n > 1 else 0)
                g[i, j] = p - t
            elif r[0] == "not":
                g[i, j] = p if j == r[1] else 0.0
            elif r[0] == "dist":
                g[i, j] = p - r[1][j]
    if normalize and len(rows):
        g /= len(rows)
    return g


def verify(ctx, loss, G, T, want, sig, how):
    g0, t0 = G.copy(), T.copy() if isinstance(T, np.ndarray) else list(T)
    ctx.step(3)
    try:
        grad, val, both = loss.get_grad(G, T), loss.get_loss(G, T), loss(G, T)
    except Exception as e:
        ctx.fail(f"{sig}:raised:{type(e).__name__}", f"{how()}: {e}")
        return None
    ctx.require(isinstance(grad, np.ndarray) and grad.shape == want.shape and grad.dtype.kind == "f" and close(grad, want, 1e-5, 1e-6), f"{sig}:gradient",
                lambda: f"{how()}: gradient {grad.tolist()}, should be {want.tolist()}")
    ctx.require(close(val, (want ** 2).sum(), 1e-5, 1e-6), f"{sig}:loss", lambda: f"{how()}: loss {val}, should be {(want ** 2).sum()}")
    ctx.require(isinstance(both, tuple) and len(both) == 2 and np.array_equal(both[0], grad) and both[1] == val, f"{sig}:call", lambda: f"{how()}: calling the loss gives {both}, not {grad, val}")
    ctx.require(np.array_equal(G, g0) and (np.array_equal(T, t0) if isinstance(T, np.ndarray) else list(T) == t0), f"{sig}:modified", lambda: f"{how()}: the arguments were modified")
    return grad


# ---- settings: how a symbolic row is written ----------------------------------------------------------
# (name, names?, missing_value, neg_prefix)
SETTINGS = [("plain", False, None, None), ("names", True, None, None), ("missing-in", False, 0, None), ("missing-last", False, "last", None), ("missing-neg", False, -1, None),
            ("missing-out", False, 7, None), ("missing-str", True, "", None), ("missing-name", True, "A", None), ("missing-in-names", True, 0, None), ("prefix", True, None, "~"), ("prefix-missing", True, "", "not "), ("prefix-missing-name", True, "A", "~")]
FORMS = ("int32", "int64", "list", "strings", "onehot", "onehot64", "F-order")


def write(rows, form, n, names, missing, neg):
    """The targets in the given form, or None when it cannot express them."""
    last = n - 1
    missing = last if missing == "last" else missing
    out = []
    for r in rows:
        if r[0] == "is":
            if form == "strings":
                if not names or missing == NAMES[r[1]]:
                    return None
                out.append(NAMES[r[1]])
            else:
                if missing == r[1]:
                    return None
                out.append(r[1])
        elif r[0] == "not":
            if form != "strings" or not neg:
                return None
            out.append(neg + NAMES[r[1]])
        else:
            if missing is None or isinstance(missing, str) != (form == "strings"):
                return None
            if form.startswith(("onehot", "F")) and not (0 <= missing < n):
                return None
            out.append(missing)
    if form == "list":
        return out
    if form == "strings":
        return out if names else None
    if form in ("int32", "int64"):
        return np.array(out, dtype=form)
    M = np.zeros((len(rows), n), "float64" if form == "onehot64" else "float32")
    for i, c in enumerate(out):
        M[i, c] = 1
    return layout(M, "F") if form == "F-order" else M


def cc_cases(quick):
    def gen():
        for n in (1, 2, 3):
            for st in range(len(SETTINGS)):
                for smoothing in (0.0, 0.1, 0.3):
                    for normalize in (True, False):
                        if not (n == 1 and smoothing):
                            yield n, st, smoothing, normalize, 3 if quick else 4
    return gen


def cc(ctx, case):
    n, st, smoothing, normalize, size = case
    name, named, missing, neg = SETTINGS[st]
    alpha = [("is", c) for c in range(n)] + ([("missing",)] if missing is not None else []) + ([("not", c) for c in range(n)] if neg else [])
    loss = CategoricalCrossentropy(normalize=normalize, names=NAMES[:n] if named else None, missing_value=n - 1 if missing == "last" else missing, neg_prefix=neg, label_smoothing=smoothing)
    for rows in itertools.chain.from_iterable(itertools.product(alpha, repeat=k) for k in range(size + 1)):
        for form in FORMS:
            T = write(rows, form, n, named, missing, neg)
            if T is None or (smoothing and form.startswith(("onehot", "F"))):
                continue
            for k in (0, 1):
                G = guess(len(rows), n, k)
                if k:
                    G = layout(G, "F" if len(rows) % 2 else "strided")
                want = reference(G, rows, smoothing, normalize)
                how = lambda: f"CategoricalCrossentropy({name}, normalize={normalize}, smoothing={smoothing}) on {G.tolist()}, targets {T!r}"
                verify(ctx, loss, G, T, want, f"cc:{name}:{form}" + (":smoothing" if smoothing else "") + (":negative" if any(r[0] == "not" for r in rows) else ""), how)
                ctx.seen((case, rows, form, k))


def long_cases(quick):
    def gen():
        for n in (2, 7, 17, 40) if quick else (2, 5, 7, 9, 16, 17, 33, 40, 64):
            for st in range(len(SETTINGS)):
                for smoothing in (0.0, 0.1) if n < 9 else (0.0, 0.01):
                    for normalize in (True, False):
                        yield "cc", n, st, smoothing, normalize, (6, 17, 130) if quick else (5, 6, 9, 17, 33, 65, 130, 300)
            for rows in (6, 33, 130):
                for zeros in (False, True):
                    for normalize in (True, False):
                        yield "distance", n * 3, rows, zeros, normalize
    return gen


def long(ctx, case):
    """Many rows and many classes, in regular patterns."""
    if case[0] == "distance":
        _, w, n, zeros, normalize = case
        for lay in LAYOUTS:
            G, T = layout(values((n, w), "float32", 3, 2.0), lay), values((n, w), "float32", 11, 1.5)
            T[::4] = 0
            T[1::5] = G[1::5]
            T = layout(T, lay)
            ctx.step(2)
            wg, wl = cosref(G, T, zeros, normalize)
            C, L = CosineDistance(normalize=normalize, ignore_zeros=zeros), L2Distance(normalize=normalize)
            ctx.require(close(C.get_grad(G, T), wg, 1e-4, 2e-6) and close(C.get_loss(G, T), wl, 1e-4, 1e-5), "cosine:long", lambda: f"{case} {lay}")
            want = (G.astype("float64") - T) / (n if normalize else 1)
            ctx.require(close(L.get_grad(G, T), want, 1e-5, 1e-6) and close(L.get_loss(G, T), (want ** 2).sum(), 1e-5, 1e-6), "L2:long", lambda: f"{case} {lay}")
            ctx.seen((case, lay))
        return
    _, n, st, smoothing, normalize, sizes = case
    name, named, missing, neg = SETTINGS[st]
    kw = dict(normalize=normalize, names=NAMES[:n] if named else None, missing_value=n - 1 if missing == "last" else missing, neg_prefix=neg, label_smoothing=smoothing)
    loss, sloss = CategoricalCrossentropy(**kw), SequenceCategoricalCrossentropy(**kw)
    use = [c for c in range(n) if kw["missing_value"] not in (c, NAMES[c])]
    for size in sizes:
        pats = {
            "mixed": [("not", i % n) if neg and i % 5 == 1 else ("missing",) if missing is not None and i % 7 == 3 else ("is", use[(3 * i + 1) % len(use)]) for i in range(size)],
            "last": [("is", use[-1])] * size,
            "missing at the end": [("is", use[i % len(use)]) for i in range(size - 1)] + ([("missing",)] if missing is not None else [("is", use[0])]),
            "mostly missing": [("missing",) if missing is not None and i != size // 2 else ("is", use[-1]) for i in range(size)],
        }
        for pat, rows in pats.items():
            for form in FORMS:
                T = write(rows, form, n, named, missing, neg)
                if T is None or (smoothing and form.startswith(("onehot", "F"))):
                    continue
                G = guess(size, n, 1)
                how = lambda: f"CategoricalCrossentropy({name}, normalize={normalize}, smoothing={smoothing}) on {size} rows of {n} classes, {pat}, {form}"
                verify(ctx, loss, G, T, reference(G, rows, smoothing, normalize), f"cc:{name}:{form}:long", how)
                # the same rows as a batch of sequences
                cuts = [(a, min(a + 1 + k % 6, size)) for k, a in enumerate(np.cumsum([0] + [1 + k % 6 for k in range(size)]).tolist()) if a < size] + [(0, 0)]
                Gs, Ts = [G[a:b].copy() for a, b in cuts], [T[a:b] for a, b in cuts]
                want = [reference(G[a:b], rows[a:b], smoothing, False) / (len(cuts) if normalize else 1) for a, b in cuts]
                ctx.step(2)
                try:
                    grads, val = sloss.get_grad(Gs, Ts), sloss.get_loss(Gs, Ts)
                except Exception as e:
                    ctx.fail(f"seq:{name}:long:raised:{type(e).__name__}", f"{how()} in {len(cuts)} sequences: {e}")
                    continue
                ctx.require(len(grads) == len(cuts) and all(a.shape == b.shape and close(a, b, 1e-5, 1e-6) for a, b in zip(grads, want)), f"seq:{name}:long:gradient", lambda: f"{how()} in {len(cuts)} sequences")
                ctx.require(close(val, sum((w ** 2).sum() for w in want), 1e-5, 1e-6), f"seq:{name}:long:loss", lambda: f"{how()} in {len(cuts)} sequences: loss {val}")
                ctx.seen((case[:5], size, pat, form))


# ---- distributions as targets ---------------------------------------------------------------------------
def dist_cases():
    for n in (1, 2, 3):
        for named in (False, True):
            for missing in (None, 0, n - 1, -1, 9):
                yield n, named, missing


def dist(ctx, case):
    n, named, missing = case
    for normalize, neg in ((True, None), (False, "!")):
        loss = CategoricalCrossentropy(normalize=normalize, names=["p", "q", "r"][:n] if named else None, missing_value=missing, neg_prefix=neg)
        grid = list(itertools.product((0.0, 0.25, 0.5, 1.0), repeat=n))
        for a in grid:
            for rows in ((a,), (a, grid[-1]), (grid[1], a, a)):
                if missing is not None and any(r.count(max(r)) > 1 for r in rows):
                    continue
                for dt in ("float32", "float64"):
                    T = np.array(rows, dtype=dt)
                    G = guess(len(rows), n, len(rows))
                    sym = [("missing",) if missing is not None and int(np.argmax(r)) == missing else ("dist", r) for r in rows]
                    how = lambda: f"CategoricalCrossentropy(names={named}, missing={missing}) on {G.tolist()}, targets {T.tolist()}"
                    verify(ctx, loss, G, T, reference(G, sym, 0, normalize), "cc:distribution", how)
                    ctx.seen((case, rows, dt, normalize))


# ---- sequences --------------------------------------------------------------------------------------------
def seq_cases():
    for st in range(len(SETTINGS)):
        for smoothing in (0.0, 0.1):
            for normalize in (True, False):
                yield st, smoothing, normalize


def seq(ctx, case):
    st, smoothing, normalize = case
    name, named, missing, neg = SETTINGS[st]
    n = 3
    kinds = [("is", 1), ("is", 2)] + ([("missing",)] if missing is not None else []) + ([("not", 0), ("not", 1)] if neg else [])
    loss = SequenceCategoricalCrossentropy(normalize=normalize, names=NAMES[:n] if named else None, missing_value=n - 1 if missing == "last" else missing, neg_prefix=neg, label_smoothing=smoothing)
    items = [()] + [(k,) for k in kinds] + [(kinds[0], k) for k in kinds] + [(kinds[-1], kinds[0], kinds[1])]
    forms = [f for f in FORMS if not (smoothing and f.startswith(("onehot", "F")))]
    for m in range(4):
        for batch in itertools.product(items, repeat=m) if m < 3 else itertools.product(items[:4], repeat=3):
            for fi in range(len(forms)):
                Ts = [write(rows, forms[(fi + i) % len(forms)] if named else forms[(fi + i) % len(forms)], n, named, missing, neg) for i, rows in enumerate(batch)]
                if any(T is None for T in Ts):
                    continue
                Gs = [guess(len(rows), n, i + 1) for i, rows in enumerate(batch)]
                G0 = [g.copy() for g in Gs]
                want = [reference(g, rows, smoothing, False) / (m if normalize else 1) for g, rows in zip(Gs, batch)]
                how = lambda: f"SequenceCategoricalCrossentropy({name}, normalize={normalize}, smoothing={smoothing}) on {[g.tolist() for g in Gs]}, targets {Ts}"
                sig = f"seq:{name}" + (":smoothing" if smoothing else "") + (":negative" if any(r[0] == "not" for rows in batch for r in rows) else "")
                ctx.step(3)
                try:
                    grads, val, both = loss.get_grad(Gs, Ts), loss.get_loss(Gs, Ts), loss(Gs, Ts)
                except Exception as e:
                    ctx.fail(f"{sig}:raised:{type(e).__name__}", f"{how()}: {e}")
                    continue
                ctx.require(isinstance(grads, list) and len(grads) == m and all(a.shape == b.shape and close(a, b, 1e-5, 1e-6) for a, b in zip(grads, want)), f"{sig}:gradient", lambda: f"{how()}: {grads}, should be {want}")
                ctx.require(close(val, sum((w ** 2).sum() for w in want), 1e-5, 1e-6), f"{sig}:loss", lambda: f"{how()}: loss {val}")
                ctx.require(close(both[1], val) and len(both[0]) == m and all(np.array_equal(a, b) for a, b in zip(both[0], grads)), f"{sig}:call", lambda: f"{how()}: calling the loss gives {both}")
                ctx.require(all(np.array_equal(a, b) for a, b in zip(Gs, G0)), f"{sig}:modified", how)
                ctx.seen((case, batch, fi))


# ---- malformed -----------------------------------------------------------------------------------------------
BADG = [np.array([[0.5, 1.5]], "f"), np.array([[-0.1, 0.5]], "f"), np.array([[0.5, 0.5], [0.0, 1.0001]], "f"), np.array([[0.5, 0.5], [0.0, -1e-3]], "f")]


def bad_cases():
    yield from range(2)


def bad(ctx, which):
    for normalize in (True, False):
        for named in (False, True):
            for neg in (None, "!"):
                kw = dict(normalize=normalize, names=["a", "b"] if named else None, neg_prefix=neg)
                ok = np.array([[0.5, 0.25], [0.0, 1.0]], "f")
                probes = []
                for g in BADG:
                    for t in (np.arange(len(g)).astype("i") % 2, [1] * len(g), np.eye(2, dtype="f")[[0] * len(g)]) + ((["b"] * len(g),) if named else ()):
                        probes.append(("predictions outside [0, 1]", g, t, {}))
                for t in ([[1.5, 0.0], [0.0, 1.0]], [[-0.5, 0.0], [0.0, 1.0]], [[1.0, 0.0], [0.0, -1.0]], [[0.0, -1.0], [-1.0, 1.0]], [[2.0, 0.0], [0.0, 1.0]]):
                    probes.append(("targets outside [0, 1]", ok, np.array(t, "f"), {}))
                for t in ([0], [0, 1, 0], np.array([0], "i"), np.array([0, 1, 1], "i"), np.eye(3, dtype="f")[:2], np.eye(2, dtype="f")[:1], np.ones((2, 1), "f"), np.ones((3, 2), "f")):
                    probes.append(("mismatched shapes", ok, t, {}))
                probes += [("class out of range", ok, t, {}) for t in ([0, 2], np.array([2, 0], "i"), [5, 1])]
                if not named:
                    probes.append(("names missing", ok, ["a", "b"], {}))
                else:
                    probes += [("unknown name", ok, t, {}) for t in (["a", "c"], ["", "a"], ["a", "B"])]
                    if neg:
                        probes += [("unknown negated name", ok, t, {}) for t in (["a", "!c"], ["!", "a"])]
                probes += [("smoothing of a matrix", ok, np.eye(2, dtype="f"), {"label_smoothing": 0.1}), ("smoothing too large", ok, [0, 1], {"label_smoothing": 0.5}), ("smoothing too large", ok, [0, 1], {"label_smoothing": 0.9}),
                           ("negative smoothing", ok, [0, 1], {"label_smoothing": -0.1}), ("smoothing of one class", np.ones((1, 1), "f"), [0], {"label_smoothing": 0.1})]
                if which:
                    probes += [("lengths", [ok], None, {}), ("lengths", [], [0], {})]
                for what, g, t, extra in probes:
                    loss = (SequenceCategoricalCrossentropy if which else CategoricalCrossentropy)(**kw, **extra)
                    if what == "lengths":
                        pairs = [([ok], [[0, 1], [0, 1]]), ([ok, ok], [[0, 1]]), ([], [[0]]), ([ok], [])]
                    else:
                        pairs = [([g], [t]), ([ok, g], [t if extra else [0, 1], t])] if which else [(g, t)]
                    for gs, ts in pairs:
                        for f in (loss.get_grad, loss.get_loss, loss):
                            ctx.step()
                            saved = np.array(t) if isinstance(t, np.ndarray) else None
                            try:
                                with warnings.catch_warnings():
                                    warnings.simplefilter("ignore")
                                    r = f(gs, ts)
                            except (ValueError, KeyError, IndexError, TypeError):
                                ctx.require(saved is None or np.array_equal(saved, t), "malformed:modified", lambda: f"refusing {what} modified the targets {saved.tolist()} to {t}")
                                continue
                            ctx.fail(f"accepted:{what}", f"{type(loss).__name__}({kw} {extra}): {what} accepted: {gs}, {ts} gives {r}")
                        ctx.seen((which, str(kw), what, str(gs), str(ts)))


# ---- distances -------------------------------------------------------------------------------------------------
GRID = (-1.0, 0.0, 0.5, 2.0)


def distance_cases():
    for w in (1, 2, 3):
        for lay in LAYOUTS:
            for dt in ("float32", "float64"):
                yield w, lay, dt


def cosref(G, T, zeros, normalize):
    G, T = G.astype("float64"), T.astype("float64")
    loss, grad = 0.0, np.zeros(G.shape)
    for i in range(len(G)):
        if zeros and not T[i].any():
            continue
        a, b = G[i] + 1e-8, T[i] + 1e-8
        na, nb = np.sqrt((a * a).sum()), np.sqrt((b * b).sum())
        c = (a * b).sum() / (na * nb)
        loss += abs(c - 1)
        grad[i] = -(b / (na * nb) - c * a / na ** 2)
    n = len(G) if normalize and len(G) else 1
    return grad / n, loss / n


def distance(ctx, case):
    w, lay, dt = case
    grid = list(itertools.product(GRID, repeat=w))
    if w == 3:
        grid = grid[::3]
    pairs = list(itertools.product(grid, grid))
    batches = [()] + [(p,) for p in pairs] + [(p, pairs[(i * 7) % len(pairs)]) for i, p in enumerate(pairs)] + [(p, pairs[(i * 5 + 1) % len(pairs)], pairs[(i * 11 + 2) % len(pairs)]) for i, p in enumerate(pairs)]
    for b in batches:
        G = layout(np.array([x for x, _ in b], dtype=dt).reshape(len(b), w), lay)
        T = layout(np.array([y for _, y in b], dtype=dt).reshape(len(b), w), lay)
        snap = G.copy(), T.copy()
        for normalize in (True, False):
            n = len(b) if normalize and b else 1
            want = (G.astype("float64") - T) / n
            ctx.step(2)
            L = L2Distance(normalize=normalize)
            grad, val, both = L.get_grad(G, T), L.get_loss(G, T), L(G, T)
            how = lambda: f"normalize={normalize} on {G.tolist()} vs {T.tolist()} ({lay})"
            ctx.require(grad.shape == G.shape and close(grad, want, 1e-5, 1e-6), "L2:gradient", lambda: f"L2Distance {how()}: {grad.tolist()}")
            ctx.require(close(val, (want ** 2).sum(), 1e-5, 1e-6), "L2:loss", lambda: f"L2Distance {how()}: {val}")
            ctx.require(np.array_equal(both[0], grad) and both[1] == val, "L2:call", how)
            if all(any(x) for x, _ in b):
                for zeros in (False, True):
                    C = CosineDistance(normalize=normalize, ignore_zeros=zeros)
                    wg, wl = cosref(G, T, zeros, normalize)
                    grad, val, both = C.get_grad(G, T), C.get_loss(G, T), C(G, T)
                    ctx.require(grad.shape == G.shape and close(grad, wg, 1e-4, 2e-6), "cosine:gradient", lambda: f"CosineDistance ignore_zeros={zeros} {how()}: {grad.tolist()}, should be {wg.tolist()}")
                    sim = np.asarray(C.get_similarity(G, T))
                    ctx.require(sim.size == len(b) and close(sim.ravel(), [1 - cosref(G[i:i + 1], T[i:i + 1], False, False)[1] for i in range(len(b))], 1e-5, 2e-6), "cosine:similarity", lambda: f"CosineDistance.get_similarity {how()}: {sim.tolist()}")
                    ctx.require(close(val, wl, 1e-5, 2e-6), "cosine:loss", lambda: f"CosineDistance ignore_zeros={zeros} {how()}: {val}, should be {wl}")
                    ctx.require(np.array_equal(both[0], grad) and both[1] == val, "cosine:call", how)
            ctx.require(np.array_equal(G, snap[0]) and np.array_equal(T, snap[1]), "distance:modified", how)
        ctx.seen((case, b))
    for D in (L2Distance(), CosineDistance(), CosineDistance(ignore_zeros=True), L2Distance(normalize=False)):
        for sa, sb in itertools.product([(1, w), (2, w), (2, w + 1), (1, w + 1), (3, 1)], repeat=2):
            if sa != sb:
                for f in (D.get_grad, D.get_loss, D) + ((D.get_similarity,) if isinstance(D, CosineDistance) else ()):
                    try:
                        f(np.ones(sa, dt), np.ones(sb, dt))
                    except ValueError:
                        continue
                    ctx.fail("distance:mismatch", f"{type(D).__name__} accepts shapes {sa} and {sb}")


# ---- versions in the registry --------------------------------------------------------------------------------------
def reg_cases():
    for name, keys in (("CategoricalCrossentropy.v1", "nm"), ("CategoricalCrossentropy.v2", "nmp"), ("CategoricalCrossentropy.v3", "nmps"), ("SequenceCategoricalCrossentropy.v1", "n"),
                       ("SequenceCategoricalCrossentropy.v2", "np"), ("SequenceCategoricalCrossentropy.v3", "nmps")):
        for opts in itertools.product((False, True), repeat=len(keys)):
            for normalize in (None, True, False):
                yield name, [k for k, o in zip(keys, opts) if o], normalize


def reg(ctx, case):
    name, opts, normalize = case
    kw = {}
    if normalize is not None:
        kw["normalize"] = normalize
    for o in opts:
        kw.update({"n": {"names": ["a", "b", "c"]}, "m": {"missing_value": ""}, "p": {"neg_prefix": "!"}, "s": {"label_smoothing": 0.25}}[o])
    if "m" in opts and "n" not in opts:
        kw["missing_value"] = 2
    loss = registry.resolve({"l": dict({"@losses": name}, **kw)})["l"]
    T = [1, 0] if "n" not in opts else ["b", "a"]
    rows = [("is", 1), ("is", 0)]
    if "m" in opts:
        T, rows = T + [kw["missing_value"]], rows + [("missing",)]
    if "p" in opts and "n" in opts:
        T, rows = T + ["!c"], rows + [("not", 2)]
    G = guess(len(T), 3, 1)
    sm = 0.25 if "s" in opts else 0.0
    s = name.startswith("Seq")
    want = reference(G, rows, sm, normalize is not False and not s)
    try:
        got = loss.get_grad([G], [T])[0] if s else loss.get_grad(G, T)
    except Exception as e:
        ctx.fail(f"registry:{name}:{''.join(opts)}:raised", f"{case}: {e}")
        return
    ctx.step()
    ctx.seen((case, got))
    ctx.require(close(got, want, 1e-5, 1e-6), f"registry:{name}:{''.join(opts)}", lambda: f"{name}({kw}) on {G.tolist()}, {T}: {got.tolist()}, should be {want.tolist()}")


def explore(ctx):
    ctx.each("cc", cc_cases(ctx.quick), cc)
    ctx.each("long", long_cases(ctx.quick), long)
    ctx.each("dist", dist_cases, dist)
    ctx.each("seq", seq_cases, seq)
    ctx.each("bad", bad_cases, bad)
    ctx.each("distance", distance_cases, distance)
    ctx.each("reg", reg_cases, reg)


def replay(ctx, fam, case):
    {"cc": cc, "long": long, "dist": dist, "seq": seq, "bad": bad, "distance": distance, "reg": reg}[fam](ctx, case)
