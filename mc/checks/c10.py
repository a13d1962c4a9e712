"""C10: all operation sequences of predictions and training passes on every layer; predictions leave everything alone and agree."""
import itertools

import numpy as np
from mc import zoo
from mc.util import close

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operation sequences (predict on several inputs, training forward passes, forward+backward passes, gradient updates) on every layer, with the full observable state digested before and after every prediction"
NOTE = "All layers of the zoo, all sequences of up to 3 (quick) or 4 (thorough) operations over 2 inputs, followed by predictions of all inputs."
RULE = "state = (layer, sequence prefix, observable state digest); transition = one operation on the real model"
ASSUMPTIONS = ["the observable state is: dimensions, parameters, gradients, attributes, references, layer names, the serialized form, and the weights and mode of wrapped modules"]


def state(m):
    out = []
    for n in m.walk():
        out.append((n.name, n.id, [(d, n.maybe_get_dim(d)) for d in sorted(n.dim_names)],
                    [(p, None if n.maybe_get_param(p) is None else (n.get_param(p).dtype.str, n.get_param(p).shape, n.get_param(p).tobytes())) for p in sorted(n.param_names)],
                    [(p, None if n.maybe_get_grad(p) is None else n.get_grad(p).tobytes()) for p in sorted(n.param_names)],
                    sorted((k, repr(v)) for k, v in n.attrs.items()), sorted((r, getattr(n.maybe_get_ref(r), "id", None)) for r in n.ref_names), [c.id for c in n.layers]))
        for s in n.shims:
            out.append([b.numpy().tobytes() for b in s._model.buffers()])
            out.append([(p.data.numpy().tobytes(), None if p.grad is None else p.grad.numpy().tobytes()) for p in s._model.parameters()])
    return out


def blob(m):
    try:
        return m.to_bytes()
    except (TypeError, NotImplementedError):  # attributes that cannot be serialized
        return None


OPS = [("P", 0), ("P", 1), ("F", 0), ("F", 1), ("T", 0), ("T", 1), ("U", 0)]
# P predict, F training forward pass only, T forward and backward, U finish_update with SGD, I call with is_train=False


def cases(quick):
    def gen():
        for name, e in {**zoo.ENTRIES, **zoo.NOISY}.items():
            for dtype in (("float32",) if e.f32 or quick else ("float32", "float64")):
                specs = e.specs(True)
                good = [s for s in specs if e.empty(s) == ""]
                empt = [s for s in specs if e.empty(s) != ""]
                pairs = [(good[-1], good[len(good) // 2])] + ([(empt[0], good[-1])] if empt else [])
                for pair in pairs:
                    for n in range(1, 4 if quick else 5):
                        for seq in itertools.product(range(len(OPS)), repeat=n):
                            # only sequences that end in a prediction, or a training pass followed by the final predictions
                            if OPS[seq[-1]][0] in "PI" and n > 1 and OPS[seq[-2]][0] in "PI" and n > 2:
                                continue
                            if quick and n == 3 and pair is not pairs[0] and seq[0] > 3:
                                continue
                            yield (name, dtype, pair, seq)
    return gen


def one(ctx, case):
    name, dtype, pair, seq = case
    e = zoo.ENTRIES.get(name) or zoo.NOISY[name]
    why = f"{name} {dtype} inputs {pair} operations {' '.join(OPS[i][0] + str(OPS[i][1]) for i in seq)}"
    tol = 1e-6 if dtype == "float32" else 1e-12
    m = e.build(dtype)
    X = [e.data(s, dtype, salt=3 * i) for i, s in enumerate(pair)]
    snapX = [zoo.full(x) for x in X]
    opt = zoo.T.SGD(0.1)
    known = {}  # outputs for the current parameters

    def predict(i, how):
        before = state(m)
        ctx.step()
        Y = m.predict(X[i]) if how == "P" else m(X[i], is_train=False)[0]
        ctx.require(state(m) == before, f"{name}:changed", lambda: f"{why}: predicting input {i} changed the model")
        ctx.require(zoo.full(X[i]) == snapX[i], f"{name}:changed-input", lambda: f"{why}: predicting changed input {i}")
        if i in known:
            ctx.require(zoo.full(known[i]) == zoo.full(Y), f"{name}:not-repeatable", lambda: f"{why}: predicting input {i} again gives {zoo.show(Y)} instead of {zoo.show(known[i])}")
        known[i] = zoo.copy(Y)
        ctx.seen((name, dtype, pair, i, zoo.full(Y)))

    for k in seq:
        op, i = OPS[k]
        if op in "PI":
            predict(i, op)
        elif op in "FT":
            ctx.step()
            Y, bp = m(X[i], is_train=True)
            if "torch" in e.tags and "noise" in e.tags:
                known.clear()  # batch norm statistics moved on
            if "noise" in e.tags:
                pass
            elif i in known:
                ctx.require(zoo.struct(Y) == zoo.struct(known[i]) and all(close(a, b, tol, tol) for (a, _), (b, _) in zip(zoo.leaves(Y), zoo.leaves(known[i]))),
                            f"{name}:train", lambda: f"{why}: training forward pass on input {i} gives {zoo.show(Y)}, prediction gave {zoo.show(known[i])}")
            else:
                before = zoo.copy(Y)
                predict(i, "P")
                ctx.require(zoo.struct(before) == zoo.struct(known[i]) and all(close(a, b, tol, tol) for (a, _), (b, _) in zip(zoo.leaves(before), zoo.leaves(known[i]))),
                            f"{name}:train", lambda: f"{why}: prediction of input {i} gives {zoo.show(known[i])}, the training forward pass gave {zoo.show(before)}")
            if op == "T":
                ctx.step()
                bp(zoo.gradient_for(Y, 5))
        else:
            ctx.step()
            m.finish_update(opt)
            known.clear()
    before = blob(m)
    for i in (0, 1):
        predict(i, "P")
        predict(i, "I")
    ctx.require(blob(m) == before, f"{name}:serialized", lambda: f"{why}: predicting changed the serialized form")
    # a fresh model with the same parameters predicts the same
    m2 = e.build(dtype)
    for (_, a, p), (_, b, _) in zip(zoo.params(m), zoo.params(m2)):
        b.set_param(p, a.get_param(p).copy())
    for a, b in zip(m.walk(), m2.walk()):
        for s, t in zip(a.shims, b.shims):
            for p, q in zip(s._model.parameters(), t._model.parameters()):
                q.data = p.data.clone()
            for p, q in zip(s._model.buffers(), t._model.buffers()):
                q.data = p.data.clone()
    for i in (1, 0):
        ctx.step()
        Y = m2.predict(X[i])
        ctx.require(zoo.struct(Y) == zoo.struct(known[i]) and all(close(a, b, tol, tol) for (a, _), (b, _) in zip(zoo.leaves(Y), zoo.leaves(known[i]))),
                    f"{name}:history", lambda: f"{why}: a fresh model with the same parameters predicts {zoo.show(Y)} for input {i}, this one {zoo.show(known[i])}")
    ctx.seen((name, dtype, pair, state(m)[0][2:5]))


TRAIN = [("F", 0), ("T", 0), ("T", 1), ("U", 0)]


def interleavings(quick):
    """Training histories, with every way of putting predictions in front of their passes."""
    def gen():
        for name, e in {**zoo.ENTRIES, **zoo.NOISY}.items():
            good = [s for s in e.specs(True) if e.empty(s) == ""]
            pair = (good[-1], good[len(good) // 2])
            for n in range(1, 3 if quick else 4):
                for seq in itertools.product(range(len(TRAIN)), repeat=n):
                    if all(TRAIN[i][0] == "U" for i in seq):
                        continue
                    # before each pass nothing, a prediction of input 0 or one of input 1
                    for where in itertools.product(*[(0, 1, 2) if not quick or n == 1 else (0, 1 + k) for k in range(n)]):
                        if any(where):
                            yield (name, pair, seq, where)
    return gen


def interleave(ctx, case):
    """The same training history, with the same random numbers, with and without predictions in between."""
    name, pair, seq, where = case
    e = zoo.ENTRIES.get(name) or zoo.NOISY[name]
    why = f"{name} inputs {pair} " + " ".join(("" if not w else f"predict{w - 1} ") + "".join(map(str, TRAIN[i])) for i, w in zip(seq, where))

    def history(predictions):
        m = e.build("float32")
        X = [e.data(s, "float32", salt=3 * i) for i, s in enumerate(pair)]
        opt = zoo.T.SGD(0.1)
        log = []
        for k, (i, w) in enumerate(zip(seq, where)):
            ctx.step()
            if w and predictions:
                m.predict(X[w - 1])
            zoo.T.fix_random_seed(k)
            op, x = TRAIN[i]
            if op == "U":
                m.finish_update(opt)
                continue
            Y, bp = m(X[x], is_train=True)
            log.append(zoo.full(Y))
            if op == "T":
                log.append(zoo.full(bp(zoo.gradient_for(Y, 5))))
        return log, state(m)

    one, other = history(False), history(True)
    ctx.require(one[0] == other[0], f"{name}:training-after-prediction", lambda: f"{why}: the training passes return something else than without the predictions")
    # identifiers of models differ
    strip = lambda st: [t[:1] + t[2:-2] if isinstance(t, tuple) else t for t in st]
    ctx.require(strip(one[1]) == strip(other[1]), f"{name}:state-after-prediction", lambda: f"{why}: the model ends up in another state than without the predictions")
    ctx.seen((name, seq, where))


def unnormalized_cases():
    for temperature in (0.5, 1.0, 2.0):
        for nO, rows in itertools.product((1, 3), (0, 1, 4)):
            for seq in itertools.product("PIT", repeat=3):
                yield temperature, nO, rows, seq


def unnormalized(ctx, case):
    """Softmax_v2 that does not normalize its predictions: those are the scores, training passes are not affected, and predictions cannot be trained on."""
    temperature, nO, rows, seq = case
    m = zoo.T.Softmax_v2(nO, 2, temperature=temperature, normalize_outputs=False)
    m.initialize()
    W = (np.arange(nO * 2, dtype="float32").reshape(nO, 2) - 2) / 4
    m.set_param("W", W.copy())
    b = np.arange(nO, dtype="float32") / 2
    m.set_param("b", b.copy())
    X = (np.arange(rows * 2, dtype="float32").reshape(rows, 2) - 3) / 2
    scores = X @ W.T + b
    e = np.exp((scores - scores.max(axis=1, keepdims=True)) / temperature)
    probs = e / e.sum(axis=1, keepdims=True)
    why = f"Softmax_v2({nO}, temperature={temperature}, normalize_outputs=False), {rows} rows, {' '.join(seq)}"
    for op in seq:
        ctx.step()
        if op == "T":
            Y, bp = m(X, is_train=True)
            ctx.require(close(Y, probs, 1e-6, 1e-6), "unnormalized:train", lambda: f"{why}: the training pass gives {Y.tolist()}, should be {probs.tolist()}")
            dX = bp(Y - 1)
            ctx.require(close(dX, ((probs - 1) / temperature) @ W, 1e-5, 1e-5), "unnormalized:gradient", lambda: f"{why}: the gradient is {dX.tolist()}")
        else:
            Y, bp = (m.predict(X), None) if op == "P" else m(X, is_train=False)
            ctx.require(close(Y, scores, 1e-6, 1e-6), "unnormalized:predict", lambda: f"{why}: the prediction is {Y.tolist()}, should be {scores.tolist()}")
            if bp is not None:
                try:
                    bp(Y)
                    ctx.fail("unnormalized:backprop", f"{why}: the callback of an unnormalized prediction runs")
                except ValueError:
                    pass
        ctx.seen((temperature, nO, rows, op))


def explore(ctx):
    ctx.each("ops", cases(ctx.quick), one)
    ctx.each("unnormalized", unnormalized_cases, unnormalized)
    ctx.each("interleave", interleavings(ctx.quick), interleave)


def replay(ctx, family, case):
    ctx.run_case(family, {"interleave": interleave, "unnormalized": unnormalized}.get(family, one), case)
