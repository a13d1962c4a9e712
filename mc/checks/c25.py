"""C25: the LSTM against a scalar recurrence, one sequence at a time, and its derivative."""
import itertools

import numpy as np
import torch
from mc import zoo
from mc.util import backends, compositions, values
from thinc import api as T
from thinc.layers.lstm import PyTorchLSTM

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of batch shapes on the real LSTM: every vector of sequence lengths (empty sequences and empty batches included) in every order and representation, for each depth, direction, width, initial state and backend, and every interleaving of two training passes; oracle: the recurrence written out one sequence, step and unit at a time in double precision, and its exact derivative"
NOTE = "up to 3 sequences of 0-3 steps (thorough 4 of 0-4); depth 1-2 (thorough 3), one and two directions, 3 widths, zero and non-zero initial states, both backends; widths 1-17; saturated gates; interleavings of two forward and two backward passes."
RULE = "state = (weights, batch); transition = one forward or backward pass"
ASSUMPTIONS = ["weights are stored per layer and direction as input weights, input biases, hidden weights, hidden biases, with the gates in the order forget, input, output, cell", "the gradient of the two biases of a gate may be put on one of them", "the initial state is not trained", "float32 arithmetic: compared with a relative tolerance of 2e-4"]


# ---- the oracle -----------------------------------------------------------------------------------------------
def take(vec, at, *shape):
    n = int(np.prod(shape))
    return vec[at:at + n].reshape(shape), at + n


def cell(x, h, c, Wx, bx, Wh, bh):
    """One step for one sequence: gates forget, input, output, cell."""
    a = [Wx[g] @ x + bx[g] + Wh[g] @ h + bh[g] for g in range(4)]
    f, i, o = torch.sigmoid(a[0]), torch.sigmoid(a[1]), torch.sigmoid(a[2])
    c2 = f * c + i * torch.tanh(a[3])
    return o * torch.tanh(c2), c2


def recurrence(params, HC0, seqs, nI, nH, depth, dirs):
    """The outputs for every sequence on its own. All torch float64."""
    at = 0
    layers = [list(s) for s in seqs]
    for l in range(depth):
        nin = nI if l == 0 else nH * dirs
        outs = [[[] for _ in s] for s in layers]
        for d in range(dirs):
            Wx, at = take(params, at, 4, nH, nin)
            bx, at = take(params, at, 4, nH)
            Wh, at = take(params, at, 4, nH, nH)
            bh, at = take(params, at, 4, nH)
            for s, seq in enumerate(layers):
                h, c = HC0[0, l, d], HC0[1, l, d]
                order = range(len(seq)) if d == 0 else reversed(range(len(seq)))
                for t in order:
                    h, c = cell(seq[t], h, c, Wx, bx, Wh, bh)
                    outs[s][t].append(h)
        layers = [[torch.cat(o) for o in out] for out in outs]
    return layers


def hidden_bias(nI, nH, depth, dirs):
    """Positions of the hidden biases and of the input biases of the same gates."""
    at, bh, bx = 0, [], []
    for l in range(depth):
        nin = nI if l == 0 else nH * dirs
        for d in range(dirs):
            at += 4 * nH * nin
            bx += list(range(at, at + 4 * nH))
            at += 4 * nH + 4 * nH * nH
            bh += list(range(at, at + 4 * nH))
            at += 4 * nH
    return bh, bx


def expected(W, HC0, xs, dys, nI, nH, depth, dirs):
    """Outputs per sequence, and the gradient for inputs and weights given output gradients (or None)."""
    P = torch.tensor(W.astype("float64"), requires_grad=True)
    H = torch.tensor(HC0.astype("float64"))
    X = [torch.tensor(x.astype("float64"), requires_grad=True) for x in xs]
    outs = recurrence(P, H, [[x[t] for t in range(len(x))] for x in X], nI, nH, depth, dirs)
    ys = [torch.stack(o).detach().numpy() if o else np.zeros((0, nH * dirs)) for o in outs]
    if dys is None:
        return ys, None, None
    total = sum((torch.tensor(dy[t].astype("float64")) * o[t]).sum() for o, dy in zip(outs, dys) for t in range(len(o)))
    if not isinstance(total, torch.Tensor):
        return ys, [np.zeros(x.shape) for x in xs], np.zeros(W.shape)
    total.backward()
    return ys, [x.grad.numpy() if x.grad is not None else np.zeros(x.shape) for x in X], P.grad.numpy()


TOL = 1.0


def close(a, b, scale=1.0):
    scale = scale * TOL
    a, b = np.asarray(a, dtype="float64"), np.asarray(b, dtype="float64")
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 2e-5 * scale + 2e-4 * np.abs(b)))


def same_weights_gradient(got, want, nI, nH, depth, dirs):
    """Biases: both, or the whole on either one of the pair (their derivatives are equal)."""
    bh, bx = hidden_bias(nI, nH, depth, dirs)
    rest = np.ones(len(want), dtype=bool)
    rest[bh] = False
    rest[bx] = False
    scale = 1.0 + float(np.abs(want).max(initial=0.0))
    if got.shape != want.shape or not close(got[rest], want[rest], scale):
        return False
    w = want[bx]
    return any(close(got[bx], a, scale) and close(got[bh], b, scale) for a, b in ((w, w), (w, 0 * w), (0 * w, w)))


# ---- models ---------------------------------------------------------------------------------------------------
def make(cfg):
    nI, nO, depth, bi, init, scale, backend = cfg
    m = T.LSTM(nO, nI, depth=depth, bi=bool(bi))
    m.ops = backends()[backend]
    m.initialize()
    W = values(m.get_param("LSTM").shape, salt=7, scale=scale).astype("float32")
    m.set_param("LSTM", W)
    shape = m.get_param("HC0").shape
    if init:
        m.set_param("HC0", values(shape, salt=9, scale=0.8).astype("float32"))
    return m, W.copy(), np.array(m.get_param("HC0")).copy()


def wrap(m, rep):
    return m if rep == "padded-direct" else T.with_padded(m)


def sequences(lengths, nI, salt=0):
    flat = values((sum(lengths) + 1, nI), salt=salt + 1).astype("float32")
    out, at = [], 0
    for n in lengths:
        out.append(flat[at:at + n].copy())
        at += n
    return out


def as_input(xs, rep):
    return zoo.as_rep(xs, "padded" if rep == "padded-direct" else rep)


def as_list(Y, widths=None):
    from thinc.types import Padded, Ragged

    if isinstance(Y, Padded):
        return [np.asarray(y) for y in T.NumpyOps().padded2list(Y)]
    if isinstance(Y, Ragged):
        return [np.asarray(y) for y in T.NumpyOps().unflatten(Y.data, np.asarray(Y.lengths))]
    return [np.asarray(y) for y in Y]


def pad_gradient(Y, dys):
    """The given rows in the form of Y; the padding gets numbers that must not matter."""
    from thinc.types import Padded, Ragged

    if isinstance(Y, Padded):
        data = np.full(Y.data.shape, 9.0, dtype="float32")
        for col, seq in enumerate(np.asarray(Y.indices)):
            data[: len(dys[seq]), col] = dys[seq]
        return Padded(data, Y.size_at_t, Y.lengths, Y.indices)
    if isinstance(Y, Ragged):
        return Ragged(np.concatenate(dys).astype("float32"), Y.lengths)
    return [d.copy() for d in dys]


REPS = ("list", "padded-direct", "padded", "ragged")


def check_batch(ctx, sig, why, m, W, HC0, lengths, rep, dims, salt=0, grad0=None):
    """One forward and backward pass. Returns the weight gradient it should have added."""
    nI, nH, depth, dirs = dims
    xs = sequences(lengths, nI, salt)
    dys = [values((n, nH * dirs), salt=40 + salt + i).astype("float32") for i, n in enumerate(lengths)]
    ys, dxs, dW = expected(W, HC0, xs, dys, *dims)
    model = wrap(m, rep)
    Xin = as_input(xs, rep)
    ctx.step(3)
    Yi = as_list(model.predict(zoo.copy(Xin)))
    Yt, back = model(zoo.copy(Xin), is_train=True)
    for label, Y in (("predict", Yi), ("train", as_list(Yt))):
        ctx.require(len(Y) == len(ys) and all(close(a, b) for a, b in zip(Y, ys)), f"{sig}:{label}", lambda: f"{why} lengths {lengths} as {rep}: output {[y.tolist() for y in Y]}, the recurrence gives {[np.round(y, 5).tolist() for y in ys]}")
    before = np.array(m.get_grad("LSTM")) if m.has_grad("LSTM") else 0.0
    dX = as_list(back(pad_gradient(Yt, dys)))
    ctx.require(len(dX) == len(dxs) and all(close(a, b, 1 + np.abs(b).max(initial=0)) for a, b in zip(dX, dxs)), f"{sig}:input-gradient", lambda: f"{why} lengths {lengths} as {rep}: input gradient {[np.round(d, 5).tolist() for d in dX]}, expected {[np.round(d, 5).tolist() for d in dxs]}")
    got = (np.array(m.get_grad("LSTM")) if m.has_grad("LSTM") else np.zeros_like(W)) - before
    ctx.require(same_weights_gradient(got, dW, *dims), f"{sig}:weight-gradient", lambda: f"{why} lengths {lengths} as {rep}: weight gradient off at {[(i, float(got[i]), float(dW[i])) for i in range(len(dW)) if not close(got[i], dW[i], 1)][:8]}")
    ctx.require(np.array_equal(m.get_param("LSTM"), W) and np.array_equal(m.get_param("HC0"), HC0), f"{sig}:weights-changed", lambda: f"{why}: the pass changed the weights")
    ctx.outcome(zoo.full(Yi))
    return dW


# ---- families -------------------------------------------------------------------------------------------------
def configs(quick):
    for (nI, nO), depth, bi, init, b in itertools.product(((2, 2), (3, 4), (1, 2)), (1, 2) if quick else (1, 2, 3), (0, 1), (0, 1), ("numpy", "generic")):
        yield [nI, nO, depth, bi, init, 0.8, b]


def batch_cases(quick):
    n, v = (3, 3) if quick else (4, 4)
    for cfg in configs(quick):
        for lengths in compositions(n, v):
            # the order of the sequences and the representation matter once per depth and direction
            full = cfg[:2] == [2, 2]
            if not full and list(lengths) != sorted(lengths, reverse=True) and quick:
                continue
            for rep in REPS if full and (cfg[4] or not quick) else ("list",):
                if not lengths and rep != "ragged" or (rep == "padded-direct" and not sum(lengths)):
                    continue  # an empty list has no width
                if not quick and not full and len(lengths) == 4 and list(lengths) != sorted(lengths):
                    continue
                yield [cfg, list(lengths), rep]


def run_batch(ctx, case):
    global TOL
    TOL = 1.0
    cfg, lengths, rep = case
    if rep == "ragged" and not lengths:
        return
    m, W, HC0 = make(cfg)
    dirs = 1 + cfg[3]
    ctx.seen((tuple(cfg), tuple(lengths), rep))
    check_batch(ctx, f"LSTM-{cfg[2]}{'bi' if cfg[3] else ''}-{cfg[6]}", f"LSTM {cfg}", m, W, HC0, tuple(lengths), rep, (cfg[0], cfg[1] // dirs, cfg[2], dirs))


def width_cases(quick):
    """Every width across the unrolled loops; saturated and tiny weights."""
    for nH in range(1, 10 if quick else 18):
        for nI in (1, 4, 5) if quick else range(1, 9):
            for bi in (0, 1):
                for scale in (0.6, 0.01, 10.0):
                    for b in ("numpy", "generic"):
                        yield [[nI, nH * (1 + bi), 1, bi, 1, scale, b], [2, 3, 1]]


def run_width(ctx, case):
    cfg, lengths = case
    m, W, HC0 = make(cfg)
    dirs = 1 + cfg[3]
    ctx.seen(tuple(cfg))
    global TOL
    TOL = 20.0 if cfg[5] > 1 else 1.0  # saturated gates in single precision
    check_batch(ctx, f"LSTM-width-{cfg[6]}-{cfg[5]}", f"LSTM {cfg}", m, W, HC0, tuple(lengths), "list", (cfg[0], cfg[1] // dirs, cfg[2], dirs))


def big_cases(quick):
    """Longer and wider batches: one long sequence among short ones, in each place."""
    for b in ("numpy", "generic"):
        for bi in (0, 1):
            for depth in (1, 2):
                for place in range(4):
                    for long in (9, 17) if quick else (9, 17, 33):
                        lengths = [2, 1, 3]
                        lengths.insert(place, long)
                        yield [[2, 2, depth, bi, 1, 0.8, b], lengths]
                yield [[2, 2, depth, bi, 1, 0.8, b], [1] * 9]
                yield [[2, 2, depth, bi, 1, 0.8, b], [2, 1, 2, 1, 3, 1, 2, 2, 1]]


def interleave_cases(quick):
    """Two passes, their backward calls in either order, with a third forward in between."""
    for cfg in configs(quick):
        if cfg[:2] != [2, 2] or cfg[4] != 1:
            continue
        for la, lb in itertools.product(((1,), (2, 1), (1, 3)), repeat=2):
            for order in ("ab", "ba", "aab", "a", "b"):
                for between in (False, True):
                    yield [cfg, list(la), list(lb), order, between]


def run_interleave(ctx, case):
    cfg, la, lb, order, between = case
    m, W, HC0 = make(cfg)
    dirs = 1 + cfg[3]
    dims = (cfg[0], cfg[1] // dirs, cfg[2], dirs)
    ctx.seen(repr(case))
    model = T.with_padded(m)
    passes = {}
    for k, (name, lengths) in enumerate((("a", la), ("b", lb))):
        xs = sequences(lengths, cfg[0], salt=5 * k)
        dys = [values((n, cfg[1]), salt=60 + 9 * k + i).astype("float32") for i, n in enumerate(lengths)]
        ys, dxs, dW = expected(W, HC0, xs, dys, *dims)
        Y, back = model([x.copy() for x in xs], is_train=True)
        passes[name] = (Y, back, dys, ys, dxs, dW)
    if between:
        model.predict(sequences((3, 2), cfg[0], salt=11))
    total = np.zeros(W.shape)
    for name in order:
        Y, back, dys, ys, dxs, dW = passes[name]
        ctx.step()
        ctx.require(all(close(a, b) for a, b in zip(Y, ys)), "interleaved:output", lambda: f"{case}: the output of pass {name} is {Y}, expected {ys}")
        dX = back([d.copy() for d in dys])
        ctx.require(all(close(a, b) for a, b in zip(dX, dxs)), "interleaved:input-gradient", lambda: f"{case}: pass {name}: {dX} expected {dxs}")
        total += dW
        got = np.array(m.get_grad("LSTM"))
        ctx.require(same_weights_gradient(got, total, *dims), "interleaved:weight-gradient", lambda: f"{case}: after {name} the weight gradient is off")


def bidirectional_cases(quick):
    for inner in ("LSTM", "LSTM2", "copy"):
        for b in ("numpy", "generic"):
            for lengths in compositions(3, 3):
                if sum(lengths) and (len(lengths) < 3 or not quick or sorted(lengths, reverse=True) == list(lengths)):
                    yield [inner, b, list(lengths)]


def run_bidirectional(ctx, case):
    """bidirectional(): one layer on the sequence, the other on the reversed sequence, side by side."""
    inner, b, lengths = case
    depth = 2 if inner == "LSTM2" else 1
    f, Wf, Hf = make([2, 2, depth, 0, 1, 0.8, b])
    g, Wg, Hg = make([2, 2, depth, 0, 1, 0.8, b])
    if inner == "copy":
        m = T.bidirectional(f)
        g = m.layers[1]
    else:
        Wg = -Wg[::-1].copy()
        g.set_param("LSTM", Wg.copy())
        m = T.bidirectional(f, g)
    ctx.seen(repr(case))
    ctx.step(2)
    dims = (2, 2, depth, 1)
    xs = sequences(lengths, 2)
    dys = [values((n, 4), salt=40 + i).astype("float32") for i, n in enumerate(lengths)]
    yf, dxf, dWf = expected(Wf, Hf, xs, [d[:, :2] for d in dys], *dims)
    yg, dxg, dWg = expected(Wg, Hg, [x[::-1].copy() for x in xs], [d[::-1, 2:].copy() for d in dys], *dims)
    Y, back = m(zoo.as_rep(xs, "padded"), is_train=True)
    want = [np.concatenate((a, c[::-1]), axis=1) for a, c in zip(yf, yg)]
    ctx.require(all(close(a, c) for a, c in zip(as_list(Y), want)), "bidirectional:output", lambda: f"{case}: {as_list(Y)} expected {want}")
    dX = as_list(back(pad_gradient(Y, dys)))
    ctx.require(all(close(a, p + q[::-1], 2) for a, p, q in zip(dX, dxf, dxg)), "bidirectional:input-gradient", lambda: f"{case}: {dX}")
    for n, dW in ((f, dWf), (g, dWg)):
        ctx.require(same_weights_gradient(np.array(n.get_grad("LSTM")), dW, *dims), "bidirectional:weight-gradient", lambda: f"{case}: weight gradient off")


def torch_cases(quick):
    for depth in (1, 2):
        for bi in (0, 1):
            for (nI, nO) in ((2, 2), (3, 4)):
                for lengths in compositions(3, 3):
                    if not sum(lengths) or 0 in lengths:
                        continue  # refused by torch, or of unknown width
                    for rep in ("list", "padded", "ragged") if (nI, nO) == (2, 2) else ("list",):
                        yield [depth, bi, nI, nO, list(lengths), rep]


def run_torch(ctx, case):
    """The layer around PyTorch's LSTM, whose gates are stored as input, forget, cell, output."""
    depth, bi, nI, nO, lengths, rep = case
    torch.manual_seed(1)
    m = PyTorchLSTM(nO, nI, depth=depth, bi=bool(bi))
    m.initialize()
    dirs = 1 + bi
    nH = nO // dirs
    pt = next(s for n in m.walk() for s in n.shims)._model
    flat = []
    with torch.no_grad():
        for l in range(depth):
            for d in range(dirs):
                suffix = f"_l{l}" + ("_reverse" if d else "")
                for name in ("weight_ih", "bias_ih", "weight_hh", "bias_hh"):
                    a = getattr(pt, name + suffix).numpy()
                    a = a.reshape((4, nH) + a.shape[1:])
                    flat.append(a[[1, 0, 3, 2]].ravel())
    W = np.concatenate(flat).astype("float32")
    HC0 = np.zeros((2, depth, dirs, nH), dtype="float32")
    ctx.seen(repr(case))
    ctx.step(2)
    xs = sequences(lengths, nI)
    dys = [values((n, nO), salt=40 + i).astype("float32") for i, n in enumerate(lengths)]
    ys, dxs, _ = expected(W, HC0, xs, dys, nI, nH, depth, dirs)
    Xin = zoo.as_rep(xs, rep)
    Y, back = m(Xin, is_train=True)
    sig = "PyTorchLSTM"
    if bi and len(set(lengths)) > 1:
        # the recurrence over each sequence with the padding of the batch: a finding of its own
        n = max(lengths)
        xp = [np.concatenate((x, np.zeros((n - len(x), nI), "float32"))) for x in xs]
        dp = [np.concatenate((d, np.zeros((n - len(d), nO), "float32"))) for d in dys]
        yp, dxp, _ = expected(W, HC0, xp, dp, nI, nH, depth, dirs)
        over = all(close(a, b[: len(a)]) for a, b in zip(as_list(Y), yp))
        if over:
            ctx.require(all(close(a, b) for a, b in zip(as_list(Y), ys)), "PyTorchLSTM-bi:runs-over-padding", lambda: f"{case}: {as_list(Y)} is the recurrence over the padded sequences; over each sequence alone it is {ys}")
            return
    ctx.require(all(close(a, b) for a, b in zip(as_list(Y), ys)), f"{sig}:output", lambda: f"{case}: {as_list(Y)} expected {ys}")
    dX = as_list(back(pad_zero(Y, dys)))
    ctx.require(all(close(a, b) for a, b in zip(dX, dxs)), f"{sig}:input-gradient", lambda: f"{case}: {dX} expected {dxs}")


def pad_zero(Y, dys):
    g = pad_gradient(Y, dys)
    if hasattr(g, "size_at_t"):
        for col, n in enumerate(np.asarray(g.lengths)):
            g.data[n:, col] = 0
    return g


FAMILIES = {"batch": run_batch, "width": run_width, "big": run_width, "interleave": run_interleave, "bidirectional": run_bidirectional, "torch": run_torch}


def explore(ctx):
    q = ctx.quick
    ctx.each("batch", lambda: batch_cases(q), run_batch)
    ctx.each("width", lambda: width_cases(q), run_width)
    ctx.each("big", lambda: big_cases(q), run_width)
    ctx.each("interleave", lambda: interleave_cases(q), run_interleave)
    ctx.each("bidirectional", lambda: bidirectional_cases(q), run_bidirectional)
    ctx.each("torch", lambda: torch_cases(q), run_torch)


def replay(ctx, fam, case):
    FAMILIES[fam](ctx, case)
