"""C30: models on the GPU backend (stand-in for CuPy, mc/gpusim) against the same models on the CPU."""
import copy
import itertools

import numpy as np
from mc import graphs, zoo
from mc.gpusim import adapter, native, sim
from mc.gpusim.adapter import down, host_arrays, up
from mc.util import close, values
from thinc import api as T
from thinc.util import is_cupy_array, is_numpy_array, is_xp_array

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of layers x small batches x ways to bring a model to the device, of operation sequences (moves, copies, training, saving, loading) up to a depth, run on the real code in lock-step on both backends; the GPU side runs the real CUDA sources on a stand-in that refuses to mix host and device arrays"
NOTE = "Every native layer and wrapper of the library with every batch up to 3 items; sequences of up to 3 (quick) or 4 (thorough) operations. Wrapped PyTorch/TensorFlow/MXNet models are covered by a wrapper of the harness only (no GPU build here)."
RULE = "state = (model state digest, device); transition = one operation on both sides"
ASSUMPTIONS = ["the stand-in behaves like CuPy 13 in what the library uses of it: arrays of its own type, no implicit conversion, TypeError when host and device arrays meet",
               "token-level results agree with the CPU up to float32 rounding"]

TOL = 2e-5


def digest_of(x):
    return zoo.full(down(x))


def on_device(ctx, sig, why, x):
    h = host_arrays(x)
    return ctx.require(not h, sig, lambda: f"{why}: holds {len(h)} host arrays: {h[0]!r}")


def same_batch(ctx, sig, why, got, want, tol=TOL):
    got, want = down(got), want
    g, w = zoo.struct(got), zoo.struct(want)
    if not ctx.require(g == w, f"{sig}:structure", lambda: f"{why}: {g} on the GPU, {w} on the CPU"):
        return False
    for (a, m), (b, _) in zip(zoo.leaves(got), zoo.leaves(want)):
        if not ctx.require(close(np.where(m, a, 0), np.where(m, b, 0), tol, tol), f"{sig}:value", lambda: f"{why}: {a.tolist()} on the GPU, {b.tolist()} on the CPU"):
            return False
    gi, wi = ints(got), ints(want)
    return ctx.require(gi == wi, f"{sig}:integers", lambda: f"{why}: {gi} on the GPU, {wi} on the CPU")


def ints(x):
    if isinstance(x, np.ndarray):
        return x.tolist() if x.dtype.kind in "iu" else None
    if isinstance(x, (list, tuple)):
        return [ints(y) for y in x]
    return None


def params_of(model):
    out = {}
    for i, n in enumerate(model.walk()):
        for name in sorted(n.param_names):
            if n.has_param(name):
                out[(i, n.name, name)] = n.get_param(name)
    return out


def grads_of(model):
    out = {}
    for i, n in enumerate(model.walk()):
        for name in sorted(n.param_names):
            if n.has_param(name) and n.has_grad(name):
                out[(i, n.name, name)] = n.get_grad(name)
    return out


def same_dict(ctx, sig, why, got, want, tol=TOL):
    if not ctx.require(list(got) == list(want), f"{sig}:names", lambda: f"{why}: {list(got)} on the GPU, {list(want)} on the CPU"):
        return
    on_device(ctx, f"{sig}:host", why, list(got.values()))
    for k in want:
        a, b = down(got[k]), want[k]
        ctx.require(a.shape == b.shape and a.dtype == b.dtype, f"{sig}:shape", lambda: f"{why}: {k}: {a.shape} {a.dtype} on the GPU, {b.shape} {b.dtype} on the CPU")
        if a.shape == b.shape:
            ctx.require(close(a, b, tol, tol), f"{sig}:value", lambda: f"{why}: {k}: {a.tolist()} on the GPU, {b.tolist()} on the CPU")


# ---- layers ----------------------------------------------------------------------------------------
# CPU-only implementations: SparseLinear is written in Cython for host arrays and refuses others; remap_ids.v1 takes
# sequences of hashable keys (arrays are taken by v2)
CPU_ONLY = {"SparseLinear", "SparseLinear_v2", "remap>Embed"}
ENTRIES = {n: e for n, e in zoo.ENTRIES.items() if not e.has_torch() and n not in CPU_ONLY}
WAYS = ("to_gpu", "built", "loaded", "copied")


def layer_cases(quick):
    for name, e in ENTRIES.items():
        for way in WAYS:
            specs = e.specs(quick)
            for spec in specs if way == "to_gpu" else specs[-3:]:
                yield (name, way, spec)


def gpu_build(e):
    with T.use_ops("cupy"):
        np.random.seed(0)
        m = e._build()
        if e._init:
            m.initialize(X=up(e.sample()))
    return m


def bring(e, cpu, way):
    """The same model on the device."""
    if way == "to_gpu":
        m = e.build("float32")
        m.to_gpu(0)
        return m
    if way == "copied":
        m = e.build("float32")
        m.to_gpu(0)
        return m.copy()
    m = gpu_build(e)
    if way == "loaded":
        return m.from_bytes(cpu.to_bytes())
    for (k, p), n in zip(params_of(cpu).items(), params_of(m)):
        list(m.walk())[n[0]].set_param(n[2], m.ops.asarray(p))
    return m


def run_both(ctx, sig, why, cpu, gpu, X, params_only=False):
    Xd = up(zoo.copy(X))
    before = digest_of(Xd)
    ctx.step()
    Yp = gpu.predict(Xd)
    on_device(ctx, f"{sig}:host-output", why, Yp)
    same_batch(ctx, f"{sig}:predict", why, Yp, cpu.predict(zoo.copy(X)))
    ctx.step(2)
    Yc, bc = cpu(zoo.copy(X), is_train=True)
    Yg, bg = gpu(Xd, is_train=True)
    on_device(ctx, f"{sig}:host-output", why, Yg)
    if not same_batch(ctx, f"{sig}:forward", why, Yg, Yc):
        return
    dY = zoo.gradient_for(Yc, 3)
    ctx.step(2)
    dXc = bc(zoo.copy(dY))
    dXg = bg(up(zoo.copy(dY)))
    ctx.require(digest_of(Xd) == before, f"{sig}:changed-input", why)
    if not params_only:
        on_device(ctx, f"{sig}:host-gradient", why, dXg)
        same_batch(ctx, f"{sig}:dX", why, dXg, dXc)
    same_dict(ctx, f"{sig}:gradients", why, grads_of(gpu), grads_of(cpu))
    ctx.seen((sig, digest_of(Yg), [down(g) for g in grads_of(gpu).values()]))


def layer(ctx, case):
    name, way, spec = case
    e = ENTRIES[name]
    why = f"{name} ({way}) on {spec!r}"
    cpu = e.build("float32")
    gpu = bring(e, cpu, way)
    on_device(ctx, f"{way}:{name}:host-parameters", why, list(params_of(gpu).values()))
    ctx.require(all(n.ops.name == "cupy" for n in gpu.walk()), f"{way}:ops", lambda: f"{why}: {[(n.name, n.ops.name) for n in gpu.walk()]}")
    ctx.require([n.name for n in gpu.walk()] == [n.name for n in cpu.walk()], f"{way}:layers", why)
    same_dict(ctx, f"{way}:params", why, params_of(gpu), params_of(cpu), 0)
    X = e.data(spec)
    run_both(ctx, f"{name}", why, cpu, gpu, X, e.params_only or "ids" in e.tags)
    # and back
    gpu.to_cpu()
    ctx.step()
    ctx.require(all(n.ops.name == "numpy" for n in gpu.walk()), "to_cpu:ops", lambda: f"{why}: {[(n.name, n.ops.name) for n in gpu.walk()]}")
    for k, p in params_of(gpu).items():
        ctx.require(isinstance(p, np.ndarray), "to_cpu:param", lambda: f"{why}: {k} is {type(p)}")
    for k, g in grads_of(gpu).items():
        ctx.require(isinstance(g, np.ndarray) and close(g, grads_of(cpu)[k], TOL, TOL), "to_cpu:gradient", lambda: f"{why}: {k}: {g!r}")
    Y = gpu.predict(zoo.copy(X))
    ctx.require(zoo.full(Y) == zoo.full(cpu.predict(zoo.copy(X))), "to_cpu:predict", lambda: f"{why}: predictions after the way back differ")


# ---- initialization --------------------------------------------------------------------------------
def init_cases():
    for name in ENTRIES:
        for given in ("X", "XY"):
            yield (name, given)


def init(ctx, case):
    """Dimensions and shapes follow from device samples as from host samples; random parameters are seeded."""
    name, given = case
    e = ENTRIES[name]
    if not e._init:
        return ctx.outcome("no init")
    X = e.sample()
    Y0 = e.build().predict(zoo.copy(X)) if given == "XY" else None
    runs = []
    for where in ("cpu", "gpu", "gpu"):
        with T.use_ops("numpy" if where == "cpu" else "cupy"):
            T.fix_random_seed(5)
            m = e._build()
            ctx.step()
            Y = None if Y0 is None else zoo.copy(Y0)
            m.initialize(X=zoo.copy(X) if where == "cpu" else up(zoo.copy(X)), Y=Y if where == "cpu" else up(Y))
            runs.append(m)
    cpu, gpu, again = runs
    why = f"{name} initialized with {given}"
    for a, b in zip(cpu.walk(), gpu.walk()):
        da = {d: a.maybe_get_dim(d) for d in a.dim_names}
        db = {d: b.maybe_get_dim(d) for d in b.dim_names}
        ctx.require(da == db, "init:dims", lambda: f"{why}: {a.name}: {da} on the CPU, {db} on the GPU")
    pc, pg, pa = params_of(cpu), params_of(gpu), params_of(again)
    ctx.require(list(pc) == list(pg), "init:params", lambda: f"{why}: {list(pc)} on the CPU, {list(pg)} on the GPU")
    on_device(ctx, f"init:{name}:host", why, list(pg.values()))
    for k in pg:
        ctx.require(k not in pc or (pg[k].shape == pc[k].shape and pg[k].dtype == pc[k].dtype), "init:shape", lambda: f"{why}: {k}")
        ctx.require(np.array_equal(down(pg[k]), down(pa[k])), "init:seed", lambda: f"{why}: {k} differs between two runs with the same seed")
        ctx.require(not np.isnan(down(pg[k])).any(), "init:value", lambda: f"{why}: {k} is {pg[k]}")
    ctx.seen((name, given, [down(p) for p in pg.values()]))


# ---- sequences of operations -----------------------------------------------------------------------
MODELS = {
    "maxout": (lambda: T.chain(T.Maxout(3, nP=2, normalize=True), T.Linear(2)), "rows", 3),
    "embed": (lambda: T.chain(T.Embed(3, 6), T.Relu(2)), "ids", (0, 5, 3)),
    "pooled": (lambda: T.chain(T.with_array(T.chain(T.expand_window(1), T.Mish(2))), T.list2ragged(), T.concatenate(T.reduce_max(), T.reduce_mean()), T.Softmax(2)), "list", (2, 1)),
    "lstm": (lambda: T.chain(T.with_padded(T.LSTM(2, zoo.W)), T.with_array(T.Gelu(2))), "list", (1, 2)),
}
OPTS = {
    "sgd": lambda: T.SGD(0.1), "sgd-l2": lambda: T.SGD(0.1, L2=0.01, grad_clip=0.5), "adam": lambda: T.Adam(0.05), "adam-avg": lambda: T.Adam(0.05, use_averages=True, L2=0.02, L2_is_weight_decay=True),
    "adam-l2": lambda: T.Adam(0.05, L2=0.02, L2_is_weight_decay=False, grad_clip=0.3), "radam": lambda: T.RAdam(0.05),
}
EVENTS = ("step", "gpu", "cpu", "copy", "save", "averages", "accumulate")


def history_cases(quick):
    for m in MODELS:
        for o in OPTS:
            n = 3 if quick else 4
            ev = EVENTS if not quick or o in ("adam-avg", "sgd-l2") else ("step", "gpu", "cpu")
            for k in range(1, n + 1):
                for h in itertools.product(ev, repeat=k):
                    if "step" not in h and "accumulate" not in h:
                        continue
                    yield (m, o, h)


def history(ctx, case):
    """A training history that moves between devices, in lock-step with the same history on the CPU alone."""
    mname, oname, events = case
    build, kind, spec = MODELS[mname]
    X = zoo.KINDS[kind].make(spec, 0)

    def fresh():
        np.random.seed(0)
        m = build()
        m.initialize(X=zoo.copy(X))
        zoo.fill(m, "float32", 1)
        return m

    ref, oref = fresh(), OPTS[oname]()
    m, opt = fresh(), OPTS[oname]()
    m.to_gpu(0)
    opt.to_gpu()
    where = "gpu"
    why = f"{mname} with {oname}: {events}"
    for k, ev in enumerate(events):
        ctx.step()
        Xm = up(zoo.copy(X)) if where == "gpu" else zoo.copy(X)
        if ev in ("step", "accumulate"):
            Yr, br = ref(zoo.copy(X), is_train=True)
            Y, b = m(Xm, is_train=True)
            dY = zoo.gradient_for(Yr, k)
            br(zoo.copy(dY))
            b(up(dY) if where == "gpu" else dY)
            if ev == "step":
                ref.finish_update(oref)
                m.finish_update(opt)
                oref.step_schedules()
                opt.step_schedules()
        elif ev == "gpu":
            m.to_gpu(0)
            opt.to_gpu()
            where = "gpu"
        elif ev == "cpu":
            m.to_cpu()
            opt.to_cpu()
            where = "cpu"
        elif ev == "copy":
            # a copy has its own ids: optimizer state starts over on both sides
            m, ref = m.copy(), ref.copy()
        elif ev == "save":
            a, c = m.to_bytes(), ref.to_bytes()
            other = fresh()
            if where == "gpu":
                other.to_gpu(0)
            other.from_bytes(a)
            other2 = fresh()
            other2.from_bytes(a)
            for side, x in (("same device", other), ("CPU", other2)):
                for (kk, p), q in zip(params_of(x).items(), params_of(m).values()):
                    ctx.require(isinstance(p, np.ndarray) == (x is other2 or where == "cpu"), "save:device", lambda: f"{why}: loaded on {side}: {kk} is {type(p)}")
                    ctx.require(np.array_equal(down(p), down(q)), "save:value", lambda: f"{why}: loaded on {side}: {kk}")
        elif ev == "averages":
            avg, avgr = dict(opt.averages), dict(oref.averages)
            with m.use_params(avg), ref.use_params(avgr):
                if where == "gpu":
                    on_device(ctx, "averages:host", why, [p for p in params_of(m).values()])
                same_batch(ctx, "averages:predict", f"{why} at {k}", m.predict(Xm), ref.predict(zoo.copy(X)), 2e-4)
        ps = params_of(m)
        if where == "gpu":
            on_device(ctx, f"{ev}:host-parameters", f"{why} at {k}", list(ps.values()) + list(grads_of(m).values()))
        else:
            ctx.require(not any(is_cupy_array(p) for p in list(ps.values()) + list(grads_of(m).values())), f"{ev}:device-parameters", f"{why} at {k}")
        for kk, p in params_of(ref).items():
            ctx.require(close(down(ps[kk]), p, 2e-4, 2e-4), f"{oname}:parameters", lambda: f"{why}: after {events[:k + 1]}: {kk} is {down(ps[kk]).tolist()}, on the CPU alone {p.tolist()}")
        gs = grads_of(m)
        for kk, g in grads_of(ref).items():
            ctx.require(kk in gs and close(down(gs[kk]), g, 2e-4, 2e-4), f"{oname}:gradients", lambda: f"{why}: after {events[:k + 1]}: gradient of {kk}")
        same_batch(ctx, "history:predict", f"{why} at {k}", m.predict(up(zoo.copy(X)) if where == "gpu" else zoo.copy(X)), ref.predict(zoo.copy(X)), 5e-4)
    ctx.seen((mname, oname, where, [down(p) for p in params_of(m).values()]))


# ---- losses ----------------------------------------------------------------------------------------
def loss_cases():
    for n in range(0, 4):
        for k in (1, 2, 3):
            for name in ("CategoricalCrossentropy", "CategoricalCrossentropy:smooth", "CategoricalCrossentropy:missing", "L2Distance", "L2Distance:n", "CosineDistance", "CosineDistance:n"):
                for form in ("array", "ids", "id-array", "names", "id-list-none"):
                    yield (name, n, k, form)
    for lens in ((), (1,), (2, 1), (0, 2), (1, 0, 2)):
        for norm in (False, True):
            for form in ("array", "id-array", "names"):
                yield ("Sequence", lens, norm, form)


def truths(n, k, form, salt=0):
    """(host form, device form) of the same targets"""
    idx = [(i * 2 + 1 + salt) % k for i in range(n)]
    names = [f"n{j}" for j in range(k)]
    hot = np.zeros((n, k), dtype="float32")
    for i, j in enumerate(idx):
        hot[i, j] = 1
    return {
        "array": (hot, up(hot.copy())), "ids": (idx, list(idx)), "id-array": (np.array(idx, dtype="int32"), up(np.array(idx, dtype="int32"))), "names": ([names[i] for i in idx],) * 2,
        "id-list-none": ([None if i == 0 else names[j] for i, j in enumerate(idx)],) * 2,
    }[form], names


def guess(n, k, salt=0):
    g = np.abs(values((n, k), "float32", 4 + salt)) + 0.1
    return (g / g.sum(1, keepdims=True)).astype("float32") if n else g


def loss(ctx, case):
    name = case[0]
    ctx.step()
    if name == "Sequence":
        _, lens, norm, form = case
        k = 2
        tr = [truths(n, k, form, i)[0] for i, n in enumerate(lens)]
        f = T.SequenceCategoricalCrossentropy(normalize=norm, names=["n0", "n1"] if form == "names" else None)
        G = [guess(n, k, i) for i, n in enumerate(lens)]
        th, td = [t[0] for t in tr], [t[1] for t in tr]
        Gd = up([g.copy() for g in G])
    else:
        _, n, k, form = case
        cls, _, var = name.partition(":")
        if cls != "CategoricalCrossentropy" and form != "array":
            return ctx.outcome("not a target form")
        (th, td), names = truths(n, k, form)
        kw = {"normalize": False} if cls == "CategoricalCrossentropy" else {"normalize": var == "n"}
        if cls == "CategoricalCrossentropy":
            kw["names"] = names if form in ("names", "id-list-none") else None
            if var == "smooth":
                kw["label_smoothing"] = 0.1
            if var == "missing":
                kw["missing_value"] = 0 if form in ("ids", "id-array") else "n0"
        f = getattr(T, cls)(**kw)
        G = guess(n, k)
        Gd = up(G.copy())
    try:
        want = f.get_grad(G, th), f.get_loss(G, th)
    except (ValueError, TypeError, ZeroDivisionError, IndexError, KeyError) as e:
        return ctx.outcome((name, type(e).__name__))
    why = f"{case}"
    g = f.get_grad(Gd, td)
    on_device(ctx, f"{name}:host", why, g)
    same_batch(ctx, f"{name}:gradient", why, g, want[0])
    lo = f.get_loss(Gd, td)
    ctx.require(close(float(lo), float(want[1]), TOL, TOL), f"{name}:loss", lambda: f"{why}: {lo} on the GPU, {want[1]} on the CPU")
    g2, l2 = f(Gd, td)
    same_batch(ctx, f"{name}:call", why, g2, want[0])
    ctx.require(np.allclose(down(g2) if not isinstance(g2, list) else 0, down(g) if not isinstance(g, list) else 0) and close(float(l2), float(want[1]), TOL, TOL), f"{name}:call", why)
    ctx.seen((name, digest_of(g)))


# ---- devices, data and helpers ---------------------------------------------------------------------
def device_cases(quick):
    acts = ("require_gpu", "prefer_gpu", "require_cpu", "use_cupy", "use_numpy", "set_cupy", "set_numpy", "leave")
    for k in range(1, (4 if quick else 5) + 1):
        for h in itertools.product(acts, repeat=k):
            depth = 0
            for a in h:
                depth += a.startswith("use_") - (a == "leave")
                if depth < 0:
                    break
            else:
                yield h


def device(ctx, case):
    """The current backend follows require_gpu, prefer_gpu, require_cpu, set_current_ops and use_ops."""
    T.set_current_ops(T.NumpyOps())
    cur, stack = "numpy", []
    for a in case:
        ctx.step()
        if a == "require_gpu":
            ctx.require(T.require_gpu() is True, "require_gpu:result", str(case))
            cur = "cupy"
        elif a == "prefer_gpu":
            ctx.require(T.prefer_gpu() is True, "prefer_gpu:result", str(case))
            cur = "cupy"
        elif a == "require_cpu":
            T.require_cpu()
            cur = "numpy"
        elif a.startswith("set_"):
            cur = a[4:]
            T.set_current_ops(T.get_ops(cur))
        elif a.startswith("use_"):
            c = T.use_ops(a[4:])
            c.__enter__()
            stack.append((c, cur))
            cur = a[4:]
        else:
            c, cur = stack.pop()
            c.__exit__(None, None, None)
        got = T.get_current_ops().name
        ctx.require(got == cur, f"{a}:current", lambda: f"{case}: after {a} the current backend is {got}, expected {cur}")
        m = T.Linear(2, 2).initialize()
        W = m.get_param("W")
        ctx.require(m.ops.name == cur and is_cupy_array(W) == (cur == "cupy"), "current:model", lambda: f"{case}: a new model uses {m.ops.name}, its parameters are {type(W)}")
        ctx.seen((cur, len(stack)))
    for c, _ in reversed(stack):
        c.__exit__(None, None, None)
    T.set_current_ops(T.NumpyOps())


def helper_cases():
    for n in range(0, 4):
        for dt in ("float32", "float64", "int32", "int64"):
            for k in ("to_numpy", "asarray", "copy_array", "categorical", "width", "arrays", "convert", "minibatch", "multibatch", "module", "seed", "dropout", "getitem", "unique", "range"):
                yield (k, n, dt)


def helper(ctx, case):
    k, n, dt = case
    cops, gops = T.NumpyOps(), T.CupyOps()
    H = (values((n, 2), "float64", 2) * 9).astype(dt)
    D = up(H.copy())
    why = str(case)
    ctx.step()
    if k == "to_numpy":
        for f in (T.to_numpy, gops.to_numpy):
            r = f(D)
            ctx.require(isinstance(r, np.ndarray) and r.dtype == H.dtype and np.array_equal(r, H), "to_numpy:value", why)
            if n:
                r[:] = 0
                ctx.require(np.array_equal(down(D), H), "to_numpy:alias", why)
        for order in "<>":
            r = gops.to_numpy(D, byte_order=order)
            ctx.require(np.array_equal(r, H) and r.dtype == H.dtype.newbyteorder(order), "to_numpy:order", lambda: f"{why}: {r.dtype}")
        r = gops.to_numpy(H)
        ctx.require(isinstance(r, np.ndarray) and np.array_equal(r, H), "to_numpy:host", why)
    elif k == "asarray":
        for src in (H, D, H.tolist(), [row for row in D], up(H[::-1])[::-1]):
            for want in (None, "float32", "int64"):
                if n == 0 and isinstance(src, list):
                    continue
                r = gops.asarray(src, dtype=want)
                ctx.require(is_cupy_array(r) and (want is None or r.dtype == want), "asarray:type", lambda: f"{why}: {type(r)} {getattr(r, 'dtype', None)}")
                ctx.require(np.array_equal(down(r), H.astype(want) if want else H), "asarray:value", lambda: f"{why}: {r}")
        r = gops.asarray_f(D)
        ctx.require(r.dtype == "float32", "asarray_f", lambda: f"{why}: {r.dtype}")
        r = gops.asarray_i(D)
        ctx.require(r.dtype == "int32", "asarray_i", lambda: f"{why}: {r.dtype}")
    elif k == "copy_array":
        from thinc.util import copy_array

        dst = up(np.zeros_like(H))
        copy_array(dst, D)
        ctx.require(np.array_equal(down(dst), H), "copy_array:device", why)
        dst = up(np.zeros_like(H))
        copy_array(dst, H)
        ctx.require(np.array_equal(down(dst), H), "copy_array:host-to-device", why)
    elif k == "categorical":
        ids = (np.arange(n) * 2 % 3).astype("int32")
        for nc in (None, 3, 5):
            for sm in (0.0, 0.1):
                try:
                    want = T.to_categorical(ids, n_classes=nc, label_smoothing=sm)
                except ValueError:
                    continue
                r = T.to_categorical(up(ids), n_classes=nc, label_smoothing=sm)
                ctx.require(is_cupy_array(r) and close(down(r), want, TOL, TOL) and r.dtype == want.dtype, "categorical", lambda: f"{why} {nc} {sm}: {r}")
    elif k == "width":
        for x, d in ((H, D), ([H, H], [D, D]), (T.Ragged(H, np.array([n], dtype="i")), T.Ragged(D, up(np.array([n], dtype="i"))))):
            ctx.require(T.get_width(x) == T.get_width(d), "get_width", lambda: f"{why}: {T.get_width(d)} for {d!r}")
    elif k == "arrays":
        ctx.require(is_xp_array(D) and is_xp_array(H) and is_cupy_array(D) and not is_cupy_array(H) and not is_numpy_array(D) and is_numpy_array(H), "is_array", why)
        ctx.require(T.get_array_module(D) is sim.cupy and T.get_array_module(H) is np, "get_array_module", why)
    elif k == "convert":
        from thinc.util import convert_recursive

        r = convert_recursive(is_cupy_array, T.to_numpy, {"a": [D, (D, 1)], "b": "x"})
        ctx.require(isinstance(r["a"][0], np.ndarray) and isinstance(r["a"][1][0], np.ndarray) and r["b"] == "x", "convert_recursive", lambda: f"{why}: {r!r}")
    elif k in ("minibatch", "multibatch"):
        for size in (1, 2, 3):
            if k == "minibatch":
                got = list(gops.minibatch(size, D))
                want = list(cops.minibatch(size, H))
            else:
                got = [list(b) for b in gops.multibatch(size, D, D)]
                want = [list(b) for b in cops.multibatch(size, H, H)]
            on_device(ctx, f"{k}:host", why, got)
            same_batch(ctx, k, why, got, want)
    elif k == "module":
        r = T.Ragged(D, up(np.array([n], dtype="i")))
        c = r.copy() if hasattr(r, "copy") else r
        ctx.require(np.array_equal(down(c.dataXd), H) and is_cupy_array(c.dataXd), "ragged:copy", why)
        d2 = copy.deepcopy(T.Ragged(D, up(np.array([n], dtype="i"))))
        ctx.require(np.array_equal(down(d2.dataXd), H), "ragged:deepcopy", why)
    elif k == "seed":
        runs = []
        for _ in range(2):
            T.fix_random_seed(n)
            with T.use_ops("cupy"):
                m = T.chain(T.Linear(2, 2), T.Dropout(0.5)).initialize()
                Y, _ = m(up(np.ones((4, 2), dtype="float32")), is_train=True)
                runs.append((down(m.layers[0].get_param("W")).tolist(), down(Y).tolist(), down(gops.get_dropout_mask((5,), 0.5)).tolist()))
        ctx.require(runs[0] == runs[1], "seed:replay", lambda: f"{why}: {runs}")
    elif k == "dropout":
        for rate in (0.0, 0.25, 0.5):
            m = gops.get_dropout_mask((n, 3), rate)
            v = down(m)
            ctx.require(is_cupy_array(m) and v.shape == (n, 3) and all(x == 0 or abs(x - 1 / (1 - rate)) < 1e-6 for x in v.ravel()), "dropout:mask", lambda: f"{why}: {v.tolist()}")
        with T.use_ops("cupy"):
            for rep, x in (("array", D), ("list", [D, D]), ("ragged", T.Ragged(D, up(np.array([n], dtype="i"))))):
                if dt != "float32":
                    continue
                Y, b = T.Dropout(0.5)(x, is_train=True)
                on_device(ctx, f"dropout:{rep}:host", why, Y)
                on_device(ctx, f"dropout:{rep}:host", why, b(Y))
    elif k == "getitem":
        idx = [0, n - 1] if n else []
        for i in (slice(0, 1), slice(None, None, -1), slice(1, None), np.array(idx, dtype="i"), idx):
            lens = np.array([1] * n, dtype="i")
            want = T.Ragged(H, lens)[i]
            got = T.Ragged(D, up(lens))[i]
            same_batch(ctx, "ragged:getitem", f"{why} {i!r}", got, want)
            on_device(ctx, "ragged:getitem:host", f"{why} {i!r}", got.dataXd)
        if n:
            P, Pd = cops.list2padded([H, H[:1]]), gops.list2padded([D, D[:1]])
            same_batch(ctx, "padded", why, Pd, P)
            for i in (0, 1, slice(0, 1), [1, 0]):
                same_batch(ctx, "padded:getitem", f"{why} {i!r}", Pd[i], P[i])
    elif k == "unique":
        ids = (values((n, 2), "float64", 1) * 3).astype("int32")
        got = T.uniqued(T.Embed(2, 9, column=0), column=0)
        del got
        ctx.require(gops.xp is sim.cupy, "xp", why)
        for width in (1, 2):
            want = cops.ngrams(width, (np.arange(n) * 7).astype("uint64"))
            got = gops.ngrams(width, up((np.arange(n) * 7).astype("uint64")))
            ctx.require(is_cupy_array(got) and down(got).tolist() == want.tolist() and got.dtype == want.dtype, "ngrams", lambda: f"{why}: {got}, expected {want}")
        del ids
    elif k == "range":
        m = T.with_nvtx_range(T.Linear(2, 2)).initialize()
        m.to_gpu(0)
        if dt == "float32":
            Y, b = m(D, is_train=True)
            on_device(ctx, "nvtx:host", why, [Y, b(Y)])


# ---- the CPU island --------------------------------------------------------------------------------
def island_cases():
    for n in range(0, 4):
        for inner in ("Mish", "Maxout", "LayerNorm", "Linear"):
            for place in ("alone", "first", "middle", "last"):
                for rep in ("array", "list"):
                    yield (n, inner, place, rep)


def island(ctx, case):
    """with_cpu runs its layer on the host inside a model on the device."""
    n, inner, place, rep = case
    W = 3
    mk = {"Mish": lambda: T.Mish(W, W), "Maxout": lambda: T.Maxout(W, W, nP=2), "LayerNorm": lambda: T.LayerNorm(W), "Linear": lambda: T.Linear(W, W)}[inner]

    def build(wrap):
        core = mk()
        if rep == "list":
            core = T.map_list(core)
        mid = wrap(core)
        if rep == "list":
            dense = lambda: T.map_list(T.Linear(W, W))
        else:
            dense = lambda: T.Linear(W, W)
        m = {"alone": lambda: mid, "first": lambda: T.chain(mid, dense()), "last": lambda: T.chain(dense(), mid), "middle": lambda: T.chain(dense(), mid, dense())}[place]()
        return m

    X = values((n, W), "float32", 1)
    X = [X, X[:1].copy()] if rep == "list" else X
    cpu = build(lambda x: x).initialize()
    zoo.fill(cpu, "float32", 3)
    with T.use_ops("cupy"):
        gpu = build(lambda x: T.with_cpu(x, T.get_current_ops()))
        gpu.initialize()
    inner_nodes = [x for x in gpu.walk() if x.name.startswith("with_cpu") and ">>" not in x.name]
    island_ids = {id(y) for x in inner_nodes for l in x.layers for y in l.walk()}
    plain = [x for x in gpu.walk() if x not in inner_nodes]
    # same parameters, in the order of the layers that have any
    a = [x for x in depth(cpu) if x.param_names]
    b = [x for x in depth(gpu) if x.param_names]
    for x, y in zip(a, b):
        for name in x.param_names:
            y.set_param(name, y.ops.asarray(x.get_param(name)))
    why = str(case)
    for x in plain:
        want = "numpy" if id(x) in island_ids else "cupy"
        ctx.require(x.ops.name == want, "with_cpu:ops", lambda: f"{why}: {x.name} runs on {x.ops.name}")
    ctx.step(2)
    Yc, bc = cpu(zoo.copy(X), is_train=True)
    Yg, bg = gpu(up(zoo.copy(X)), is_train=True)
    on_device(ctx, "with_cpu:host-output", why, Yg)
    same_batch(ctx, "with_cpu:forward", why, Yg, Yc)
    dY = zoo.gradient_for(Yc, 3)
    dXc = bc(zoo.copy(dY))
    dXg = bg(up(zoo.copy(dY)))
    same_batch(ctx, "with_cpu:dX", why, dXg, dXc)
    on_device(ctx, "with_cpu:host-gradient", why, dXg)
    for x, y in zip(a, b):
        for name in x.param_names:
            ctx.require(close(down(y.get_grad(name)), x.get_grad(name), TOL, TOL), "with_cpu:gradient", lambda: f"{why}: {x.name}.{name}")
            ctx.require(is_cupy_array(y.get_grad(name)) == (id(y) not in island_ids), "with_cpu:gradient-device", lambda: f"{why}: {x.name}.{name}")
    # saving, loading and copying keep every layer where it is
    for how in ("bytes", "copy", "own"):
        ctx.step()
        with T.use_ops("numpy" if how == "bytes" else "cupy"):
            if how == "copy":
                other = gpu.copy()
            else:
                other = gpu
                other.from_bytes(gpu.to_bytes())
        for x, y in zip(depth(gpu), depth(other)):
            ctx.require(x.ops.name == y.ops.name, f"with_cpu:{how}:ops", lambda: f"{why}: {x.name} runs on {y.ops.name}")
            for name in x.param_names:
                p = y.get_param(name)
                ctx.require(is_cupy_array(p) == (x.ops.name == "cupy"), f"with_cpu:{how}:device", lambda: f"{why}: {x.name}.{name} of a layer on {x.ops.name} is {type(p)}")
        same_batch(ctx, f"with_cpu:{how}:predict", why, other.predict(up(zoo.copy(X))), Yc)
    ctx.seen((case, digest_of(Yg)))


# ---- values and types survive the move ---------------------------------------------------------------
def move_cases():
    for dt in ("float32", "float64", "float16", "int32", "int64"):
        for start in ("cpu", "gpu"):
            for h in itertools.chain.from_iterable(itertools.product(("gpu", "cpu", "copy", "bytes"), repeat=k) for k in (1, 2, 3)):
                yield (dt, start, h)


def move(ctx, case):
    """Parameters and gradients of any type, also shared and missing ones, survive moves unchanged."""
    dt, start, h = case
    V = (values((3, 2), "float64", 1) * 11).astype(dt)
    G = (values((3, 2), "float64", 2) * 11).astype(dt)

    def mk(p, g, inner=()):
        return T.Model("m", lambda m, X, is_train: (X, lambda d: d), params={"p": p, "q": None}, layers=inner)

    with T.use_ops("cupy" if start == "gpu" else "numpy"):
        ops = T.get_current_ops()
        leaf = mk(None, None)
        m = mk(None, None, [leaf, leaf, mk(None, None)])
        for n in (m, leaf):
            n.set_param("p", ops.asarray(V.copy()))
        leaf.set_grad("p", ops.asarray(G.copy()))
    where, has_grad = start, True
    for a in h:
        ctx.step()
        if a == "gpu":
            d = m.to_gpu(0)
            where = "gpu"
            ctx.require(getattr(d, "id", None) == 0, "to_gpu:device", lambda: f"{case}: to_gpu(0) returned {d!r}")
        elif a == "cpu":
            m.to_cpu()
            where = "cpu"
        elif a == "copy":
            m = m.copy()
        else:
            data = m.to_bytes()
            m.from_bytes(data)
            has_grad = has_grad and m.layers[0].has_grad("p")
        leafs = [m.layers[0], m.layers[1]]
        ctx.require(len(m.layers) == 3, "move:layers", str(case))
        for n in [m] + leafs:
            p = n.get_param("p")
            ctx.require(is_cupy_array(p) == (where == "gpu") and n.ops.name == ("cupy" if where == "gpu" else "numpy"), f"move:{a}:device", lambda: f"{case}: {type(p)} with {n.ops.name}")
            ctx.require(p.dtype == V.dtype, f"move:{a}:type", lambda: f"{case}: a parameter of {V.dtype} became {p.dtype}")
            ctx.require(down(p).tolist() == V.tolist(), f"move:{a}:value", lambda: f"{case}: {V.tolist()} became {down(p).tolist()}")
            ctx.require(not n.has_param("q"), f"move:{a}:unset", str(case))
        if has_grad:
            g = leafs[0].get_grad("p")
            ctx.require(is_cupy_array(g) == (where == "gpu") and g.dtype == G.dtype and down(g).tolist() == G.tolist(), f"move:{a}:gradient", lambda: f"{case}: gradient {G.tolist()} {G.dtype} became {g} {g.dtype}")
        ctx.require(not m.has_grad("p"), f"move:{a}:no-gradient", str(case))
    ctx.seen((dt, where, h[-1]))


# ---- wrapped models move along ------------------------------------------------------------------------
class Moving(T.Shim):
    """A wrapped model with one weight vector, which is where the last move put it."""

    def to_device(self, device_type, device_id):
        self._model["w"] = (T.CupyOps() if device_type == "gpu" else T.NumpyOps()).asarray(self._model["w"])
        self.at = (device_type, device_id)

    def copy(self):
        c = super().copy()
        c.at = getattr(self, "at", None)
        return c


def wrapped_cases(quick):
    def gen():
        for n in (1, 2, 3):
            for dag in graphs.dags(n, maxlen=2):
                for counts in itertools.product((0, 1, 2) if n < 3 else (0, 1), repeat=n):
                    if not any(counts):
                        continue
                    for shared in (False, True) if sum(counts) > 1 else (False,):
                        for h in itertools.chain.from_iterable(itertools.product(("gpu", "cpu", "copy"), repeat=k) for k in ((1, 2) if quick else (1, 2, 3))):
                            yield dag, counts, shared, h
    return gen


def wrapped(ctx, case):
    """Every wrapped model in the tree moves with the layer that holds it."""
    dag, counts, shared, h = case
    one = Moving({"w": np.array([1.0, 2.0], "float32")})
    nodes = [None] * len(dag)
    for i in reversed(range(len(dag))):
        shims = [one if shared else Moving({"w": np.array([1.0, 2.0], "float32")}) for _ in range(counts[i])]
        nodes[i] = T.Model(f"n{i}", lambda m, X, is_train: (X, lambda d: d), layers=[nodes[j] for j in dag[i]], shims=shims)
    m, where = nodes[0], None
    for a in h:
        ctx.step()
        if a == "gpu":
            m.to_gpu(0)
            where = "gpu"
        elif a == "cpu":
            m.to_cpu()
            where = "cpu"
        else:
            m = m.copy()
        if where is None:
            continue
        for node in m.walk():
            for s in node.shims:
                w = s._model["w"]
                ctx.require(is_cupy_array(w) == (where == "gpu") and down(w).tolist() == [1.0, 2.0], f"wrapped:{a}:device", lambda: f"{case}: the model wrapped by {node.name} holds {type(w)} after {a}")
                want = (where, 0 if where == "gpu" else node.ops.device_id)
                ctx.require(getattr(s, "at", None) == want, f"wrapped:{a}:told", lambda: f"{case}: the model wrapped by {node.name} was last moved to {getattr(s, 'at', None)}, should be {want}")
    ctx.seen((dag, counts, shared, where))


# ---- ids on the device -------------------------------------------------------------------------------
def ids_cases(quick):
    for n in range(0, 4 if quick else 5):
        for ks in itertools.product((0, 3, 7), repeat=n):
            for kind in ("remap", "remap:column", "premap", "premap:column", "embed", "embed:column", "hash:column", "uniqued"):
                for dt in ("int32", "int64", "uint64"):
                    yield (kind, ks, dt)


def ids(ctx, case):
    """Layers over ids take device arrays of every integer type and compute what they compute on the CPU."""
    kind, ks, dt = case
    kind, _, col = kind.partition(":")
    tab = {0: 2, 3: 1}
    mk = {
        "remap": lambda c: T.remap_ids_v2(tab, default=4, column=c), "premap": lambda c: T.premap_ids({0: 2, 3: 1, 7: 0}, default=4, column=c),
        "embed": lambda c: T.Embed(2, 9, column=c), "hash": lambda c: T.HashEmbed(2, 9, seed=1, column=c), "uniqued": lambda c: T.uniqued(T.Embed(2, 9, column=0), column=0),
    }[kind]
    H = np.array(ks, dtype=dt)
    c = None
    if col or kind == "uniqued":
        H, c = np.stack([np.arange(len(ks)).astype(dt), H], 1), 1
        if kind == "uniqued":
            H, c = np.ascontiguousarray(H[:, ::-1]), 0
    cpu = mk(c)
    if kind in ("embed", "hash", "uniqued"):
        cpu.initialize()
        zoo.fill(cpu, "float32", 3)
    try:
        Yc, bc = cpu(H.copy(), is_train=True)
    except Exception as e:  # whatever the CPU does not take is not asked of the GPU
        return ctx.outcome((kind, type(e).__name__))
    ctx.step(2)
    gpu = cpu.copy()
    gpu.to_gpu(0)
    why = str(case)
    Yg, bg = gpu(up(H.copy()), is_train=True)
    on_device(ctx, f"{kind}:host-output", why, Yg)
    same_batch(ctx, f"{kind}:forward", why, Yg, Yc)
    ctx.require(Yg.dtype == Yc.dtype, f"{kind}:dtype", lambda: f"{why}: {Yg.dtype} on the GPU, {Yc.dtype} on the CPU")
    dY = (values(Yc.shape, "float32", 2)).astype(Yc.dtype)
    try:
        bc(dY.copy())
    except Exception as e:
        return ctx.outcome((kind, "backprop", type(e).__name__))
    on_device(ctx, f"{kind}:host-gradient", why, bg(up(dY.copy())))
    same_dict(ctx, f"{kind}:gradients", why, grads_of(gpu), grads_of(cpu))
    ctx.seen((case, digest_of(Yg)))


def depth(m):
    return list(m.walk(order="dfs_pre"))


FAMILIES = dict(layer=layer, init=init, history=history, loss=loss, device=device, helper=helper, island=island, move=move, wrapped=wrapped, ids=ids)


def explore(ctx):
    q = ctx.quick
    try:
        sim.warm()
    except native.CompileError as e:
        ctx.capped.append(f"the CUDA source does not compile for the stand-in: {str(e)[:500]}")
        return
    ctx.each("layer", lambda: layer_cases(q), layer)
    ctx.each("init", init_cases, init)
    ctx.each("history", lambda: history_cases(q), history)
    ctx.each("loss", loss_cases, loss)
    ctx.each("device", lambda: device_cases(q), device)
    ctx.each("helper", helper_cases, helper)
    ctx.each("island", island_cases, island)
    ctx.each("move", move_cases, move)
    ctx.each("wrapped", wrapped_cases(q), wrapped)
    ctx.each("ids", lambda: ids_cases(q), ids)


def replay(ctx, family, case):
    sim.warm()
    ctx.each(family, lambda: [case], FAMILIES[family], parallel=False)
