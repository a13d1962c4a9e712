"""C17: every schedule x every short query history x nesting, against the documented closed forms; plateau as a state machine."""
import copy
import itertools
import math
import pickle

import numpy as np

from thinc.api import Adam, SGD, registry
from thinc import schedules as S

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of query histories on the real schedules (every sequence of steps, every generator start and stride, every nesting), against closed forms; breadth-first exploration of all evaluation histories of the plateau schedule in lockstep with a reference state machine"
NOTE = "Every parameter setting of a grid for 8 schedules, all step sequences up to length 3 over 6 steps, steps 0-60 densely and around the turning points; nestings of two levels; plateau histories up to depth 6 (thorough 8) over 9 operations."
RULE = "state = (schedule settings, queries so far, values); transition = one query"
ASSUMPTIONS = ["closed forms are compared with relative tolerance 1e-9", "slanted_triangular is checked where the paper defines it (at least one warm-up step, cut_frac below 1)",
               "plateau: patience of at least one; an improved score for an already seen step is unspecified"]


def tri(max_rate, num_steps, cut_frac, ratio, t, i):
    cut = math.floor(num_steps * cut_frac)
    i = i + t + 1
    p = i / cut if i < cut else 1 - (i - cut) / (cut * (1 / cut_frac - 1))
    return max_rate * (1 + p * (ratio - 1)) / ratio


def cyc(lo, hi, period, i):
    """A triangle wave: rises from lo to hi within `period` steps, falls again in the next `period`; step counts from one."""
    pos = (i + 1) % (2 * period)
    return lo + (hi - lo) * (pos / period if pos <= period else 2 - pos / period)


def settings():
    R = (0.0, 0.001, 0.1, 1.0, 3.0)
    for r in R + (7, -0.5):
        yield ("constant", (r,), {}), lambda i, r=r: r
    for b, d in itertools.product(R, (0.0, 1e-4, 0.1, 1.0)):
        for t in (None, 0.0, 0.5, 3, 10):
            yield ("decaying", (b, d), {} if t is None else {"t": t}), lambda i, b=b, d=d, t=t or 0: b / (1 + d * (i + t))
    for a, z, c in itertools.product((1.0, 0.5, 4, 10.0), (1.0, 0.1, 8, 32.0), (1.5, 1.001, 0.5, 1.0, 2)):
        for t in (None, 0.0, 2, 1.5):
            def f(i, a=a, z=z, c=c, t=t or 0):
                x = a * c ** (i + t)
                return max(x, z) if a > z else min(x, z)
            yield ("compounding", (a, z, c), {} if t is None else {"t": t}), f
    for r, w, n in itertools.product((0.01, 1.0), (0, 1, 2, 5, 10), (0, 1, 2, 5, 6, 12, 40)):
        def f(i, r=r, w=w, n=n):
            if i < w:
                return r * i / w
            return 0.0 if i >= n else r * (n - i) / (n - w)
        if n >= w:
            yield ("warmup_linear", (r, w, n), {}), f
    for m, n, kw in itertools.product((0.1, 2.0), (10, 11, 25, 40, 100), [dict(), dict(cut_frac=0.5), dict(cut_frac=0.2, ratio=4), dict(ratio=1), dict(t=2), dict(t=0.5, ratio=10), dict(cut_frac=0.9, t=1), dict(cut_frac=0.33)]):
        yield ("slanted_triangular", (m, n), kw), lambda i, m=m, n=n, kw=kw: tri(m, n, kw.get("cut_frac", 0.1), kw.get("ratio", 32), kw.get("t", 0), i)
    for lo, hi, p in itertools.product((0.0, 0.1, 0.005), (1.0, 0.1, 0.001), (1, 2, 3, 5, 10, 7)):
        yield ("cyclic_triangular", (lo, hi, p), {}), lambda i, lo=lo, hi=hi, p=p: cyc(lo, hi, p, i)


def near(a, b, tol=1e-9):
    return not isinstance(a, complex) and abs(a - b) <= tol * max(1.0, abs(a), abs(b))


ALL = list(settings())
STEPS = (0, 1, 2, 7, 10, 31)


def closed(ctx, n):
    (name, args, kw), f = ALL[n]
    how = f"{name}{args}{kw or ''}"
    s = getattr(S, name)(*args, **kw)
    ctx.require(isinstance(s, S.Schedule) and s.name == name, f"{name}:type", how)
    attrs = copy.deepcopy(s.attrs)
    for i in list(range(0, 62)) + [99, 100, 101, 1000]:
        ctx.step()
        got = s(i)
        ctx.require(near(got, f(i)), f"{name}:value", lambda: f"{how}: step {i} gives {got}, should be {f(i)}")
        ctx.seen((n, i, got))
        ctx.require(near(s(step=i, key=(1, "W"), last_score=(1, 0.5)), f(i)), f"{name}:extra", lambda: f"{how}: step {i} with extra arguments differs")
    for seq in itertools.product(STEPS, repeat=3):  # the value does not depend on what was asked before
        t = getattr(S, name)(*args, **kw)
        got = [t(i) for i in seq]
        ctx.step(3)
        ctx.require(all(near(g, f(i)) for g, i in zip(got, seq)), f"{name}:history", lambda: f"{how}: asked for {seq}, gives {got}, should be {[f(i) for i in seq]}")
    for start, size in itertools.product((0, 1, 5), (0, 1, 2, 7)):
        for g, what in ((s.to_generator(start, size), "positional"), (s.to_generator(start=start, step_size=size, last_score=(3, 0.5)), "keywords")) + (((s.to_generator(), "defaults"),) if (start, size) == (0, 1) else ()):
            got = [next(g) for _ in range(6)]
            want = [f(start + k * size) for k in range(6)]
            ctx.step(6)
            ctx.require(all(near(a, b) for a, b in zip(got, want)), f"{name}:to_generator", lambda: f"{how}.to_generator({start}, {size}) ({what}) gives {got}, should be {want}")
    g1, g2 = s.to_generator(), s.to_generator(2)  # two iterations at once
    got = [next(x) for x in (g1, g2, g1, g1, g2, g1)]
    ctx.require(all(near(a, f(i)) for a, i in zip(got, (0, 2, 1, 2, 3, 3))), f"{name}:two-generators", lambda: f"{how}: interleaved generators give {got}")
    ctx.require(s.attrs == attrs, f"{name}:attrs", lambda: f"{how}: the attributes changed from {attrs} to {s.attrs}")
    for bad in (lambda: s(-1), lambda: s.to_generator(-1), lambda: s.to_generator(0, -1), lambda: s.to_generator(-3, 2)):
        refuse(ctx, bad, ValueError, f"{name}:negative", f"{how}: a negative step is accepted")
    for c, what in ((copy.deepcopy(s), "deepcopy"), (pickle.loads(pickle.dumps(s)), "pickle")):
        ctx.require(all(near(c(i), f(i)) for i in (0, 1, 5, 20)), f"{name}:{what}", lambda: f"{how}: differs after {what}")
    r = registry.resolve({"x": dict({"@schedules": name + ".v1"}, **named(name, args), **kw)})["x"]
    ctx.require(all(near(r(i), f(i)) for i in range(20)), f"{name}:registry", lambda: f"{how}: differs when built from a config")


def named(name, args):
    return dict(zip({"constant": ("rate",), "decaying": ("base_rate", "decay"), "compounding": ("start", "stop", "compound"), "warmup_linear": ("initial_rate", "warmup_steps", "total_steps"),
                     "slanted_triangular": ("max_rate", "num_steps"), "cyclic_triangular": ("min_lr", "max_lr", "period")}[name], args))


def refuse(ctx, fn, exc, sig, msg):
    try:
        fn()
    except exc:
        return True
    ctx.fail(sig, msg)


# ---- nesting ------------------------------------------------------------------------------------
def leaf():
    return {("constant", 2.0): (lambda: S.constant(2.0), lambda i: 2.0), "decay": (lambda: S.decaying(1.0, 0.5), lambda i: 1 / (1 + 0.5 * i)),
            "warm": (lambda: S.warmup_linear(1.0, 3, 9), lambda i: i / 3 if i < 3 else max(0.0, (9 - i) / 6)), "own": (lambda: S.Schedule("own", lambda s, step, **kw: s.attrs["k"] * step + len(kw), attrs={"k": 3.0}), None)}


def nest_cases():
    for outer in itertools.product(("then", "plateau", "call"), repeat=2):
        for inner in leaf():
            for n, m in itertools.product((0, 1, 4), (0, 2, 6)):
                yield outer, inner, n, m


def nest(ctx, case):
    outer, inner, n, m = case
    inner = tuple(inner) if isinstance(inner, list) else inner
    mk, f = leaf()[inner]
    s = mk()
    if f is None:
        f = lambda i: 3.0 * i + 2  # two extra arguments are passed through
    sizes = [n, m]
    for o, k in zip(outer, sizes):
        if o == "then":
            s, f = S.constant_then(5.5 + k, k, s), (lambda i, f=f, k=k: 5.5 + k if i < k else f(i))
        elif o == "plateau":
            s = S.plateau(k + 1, 0.5, s)
        else:
            s = S.Schedule("call", lambda sch, step, **kw: 2 * sch.attrs["s"](step + 1, **kw), attrs={"s": s})
            f = lambda i, f=f: 2 * f(i + 1)
    # scores improve at every step, so that no plateau scales anything
    for seq in itertools.product((0, 1, 2, 3, 5, 8), repeat=2):
        for i in seq:
            ctx.step()
            got = s(i, key=(0, "W"), last_score=(0, 1.0))
            ctx.require(near(got, f(i)), f"nested:{outer}", lambda: f"{outer} over {inner} with {n}, {m}: asked {seq}, step {i} gives {got}, should be {f(i)}")
            ctx.seen((outer, inner, n, m, i, got))


# ---- plateau ---------------------------------------------------------------------------------------
class Plateau:
    def __init__(self, patience, scale):
        self.patience, self.scale = patience, scale
        self.best = self.last = None
        self.bad = self.n = 0

    def see(self, step, score):
        """False when the evaluation is older than the latest one."""
        if self.last is not None and step < self.last:
            return False
        if self.last is not None and step == self.last:
            return True  # the same evaluation again
        self.last = step
        if self.best is None or score > self.best:
            self.best, self.bad = score, 0
        else:
            self.bad += 1
            if self.bad == self.patience:
                self.n, self.bad = self.n + 1, 0
        return True

    def key(self):
        return (self.best, self.last, self.bad, self.n)


POPS = [("new", -1), ("new", 0), ("new", 1), ("again",), ("none",), ("old", -1), ("old", 1), ("skip", 0), ("wait",)]


def plateau_cases(quick):
    def gen():
        depth = 6 if quick else 8
        for patience, scale, inner in itertools.product((1, 2, 3), (0.5, 0.1, 2.0), ("constant", "decaying")):
            if not quick or scale == 0.5 or inner == "decaying":
                for first in itertools.product(POPS, repeat=2):
                    yield patience, scale, inner, first, depth
    return gen


def plateau(ctx, case):
    patience, scale, inner, first, depth = case
    f = {"constant": lambda i: 0.25, "decaying": lambda i: 1 / (1 + 0.5 * i)}[inner]
    mk = {"constant": lambda: S.constant(0.25), "decaying": lambda: S.decaying(1.0, 0.5)}[inner]

    def run(hist):
        """Execute a history from scratch; returns the abstract state."""
        s, ref = S.plateau(patience, scale, mk()), Plateau(patience, scale)
        other = S.plateau(patience, scale, mk())
        step, score, last = 0, 5.0, None
        asked = []
        for o in hist:
            o = tuple(o)
            ok = True
            if o[0] in ("new", "skip"):
                step += 1 if o[0] == "new" else 3
                score = (ref.best if ref.best is not None else 5.0) + o[1]
                last = (step, score)
            elif o[0] == "wait":
                step += 1
            if o[0] == "none":
                ls = None
            elif o[0] == "old":
                if last is None or last[0] == 0:
                    return None
                ls = (last[0] - 1, ref.best + o[1])
            elif last is None:
                return None
            else:
                ls = last
            asked.append((step, ls))
            how = lambda: f"plateau({patience}, {scale}, {inner}) asked (step, last_score) {asked}"
            if ls is not None:
                ok = ref.see(*ls)
            ctx.step()
            if not ok:
                refuse(ctx, lambda: s(step, last_score=ls), ValueError, "plateau:older-score" + (":better" if o[1] > 0 else ""), f"{how()}: a score from an earlier step than the last one is accepted")
                continue
            got = s(step, last_score=ls, key=(0, "b"))
            want = scale ** ref.n * f(step)
            if not ctx.require(near(got, want), "plateau:rate", lambda: f"{how()}: gives {got}, should be {want} ({ref.n} plateaus)"):
                return None
            ctx.require(near(other(step), f(step)), "plateau:shared", lambda: f"{how()}: another plateau schedule is affected")
        rel = (patience, scale, inner, None if ref.best is None else ref.best - score, None if ref.last is None else step - ref.last, ref.bad, ref.n, min(step, 4))
        return rel

    done = set()
    todo = [tuple(first)]
    while todo:
        h = todo.pop()
        k = run(h)
        if k is None:
            continue
        ctx.seen(k)
        if len(h) < depth and (k, depth - len(h)) not in done:
            done.add((k, depth - len(h)))
            todo += [h + (o,) for o in POPS]


# ---- a plateau schedule as the learning rate of an optimizer that is told scores ----------------------------
def evaluated_cases(quick):
    def gen():
        for patience, inner, nparams in itertools.product((1, 2, 3), ("constant", "decaying"), (1, 2)):
            for first in itertools.product((None, -1, 0, 1), repeat=2):
                yield patience, inner, nparams, first, 6 if quick else 8
    return gen


def evaluated(ctx, case):
    """Every history of evaluations (none, a worse, an equal, a better score) between training steps: each parameter is updated with the plateau's rate."""
    patience, inner, nparams, first, depth = case
    f = {"constant": lambda i: 0.25, "decaying": lambda i: 1 / (1 + 0.5 * i)}[inner]
    for rest in itertools.product((None, -1, 0, 1), repeat=depth - len(first)):
        hist = tuple(first) + rest
        opt = SGD(S.plateau(patience, 0.5, {"constant": lambda: S.constant(0.25), "decaying": lambda: S.decaying(1.0, 0.5)}[inner]()), L2=0.0, grad_clip=0.0)
        ref = Plateau(patience, 0.5)
        score = 5.0
        for i, e in enumerate(hist):
            ctx.step()
            if e is not None:
                score = (ref.best if ref.best is not None else 5.0) + e
                opt.last_score = score
                ref.see(i, score)
                ctx.require(opt.last_score == (i, score), "evaluated:last_score", lambda: f"evaluations {hist[:i + 1]}: last_score is {opt.last_score}, should be {(i, score)}")
            want = 0.5 ** ref.n * f(i)
            for p in range(nparams):
                w, _ = opt((p, "W"), np.zeros(1, "float32"), np.ones(1, "float32"))
                if not ctx.require(near(-float(w[0]), want, 1e-6), "evaluated:rate",
                                   lambda: f"plateau({patience}, 0.5, {inner}) in an optimizer, evaluations {hist[:i + 1]} (score relative to the best, None: no evaluation), step {i}, parameter {p}: updated at the rate {-float(w[0])}, should be {want} ({ref.n} plateaus)"):
                    return
            ctx.seen((patience, inner, nparams, ref.key(), i))
            opt.step_schedules()


# ---- lists, generators and everything else as optimizer settings -----------------------------------------
def wrap_cases():
    for kind in ("list", "generator", "endless"):
        for n in (1, 2, 3, 5):
            yield kind, n


def wrapped(ctx, case):
    kind, n = case
    items = [0.5, 0.25, 0.75, 0.1, 0.3][:n]

    def mk():
        return {"list": lambda: list(items), "generator": lambda: (x for x in items), "endless": lambda: (items[i % n] for i in itertools.count())}[kind]()

    for seq in itertools.product(range(5), repeat=4):
        s = SGD(mk()).learn_rate
        lasts = -1
        for i in seq:
            ctx.step()
            if i < lasts:
                refuse(ctx, lambda: s(i), ValueError, f"{kind}:decreasing", f"a {kind} of {n} items asked for steps {seq}: the step may not decrease")
                continue
            lasts = i
            got, want = s(i), items[i % n] if kind == "endless" else items[min(i, n - 1)]
            if not ctx.require(got == want, f"{kind}:value", lambda: f"a {kind} {items} asked for steps {seq}: step {i} gives {got}, should be {want}"):
                break
        ctx.seen((kind, n, seq))
    # as each setting of an optimizer
    for attr in ("L2", "grad_clip", "beta1", "beta2", "eps", "learn_rate"):
        opt = Adam(**dict({"learn_rate": 0.1}, **{attr: mk()}))
        for i in range(7):
            want = items[i % n] if kind == "endless" else items[min(i, n - 1)]
            for key in ((1, "W"), (1, "b"), (2, "W")):  # every parameter sees the value of the step
                got = getattr(opt, {"beta1": "b1", "beta2": "b2"}.get(attr, attr))(opt.step, key=key, last_score=None)
                ctx.step()
                ctx.require(got == want, f"{kind}:optimizer:{attr}", lambda: f"{attr} given as a {kind} {items}: step {i}, parameter {key} sees {got}, should be {want}")
            opt.step_schedules()
    for v in (0.3, 2, S.constant(0.3), S.decaying(0.1, 0.5)):
        opt = Adam(v, L2=v, beta1=v)
        for i in range(4):
            want = v(i) if isinstance(v, S.Schedule) else v
            for a in ("learn_rate", "L2", "b1"):
                ctx.require(near(getattr(opt, a)(opt.step, key=(1, "W"), last_score=None), want), f"setting:{a}", lambda: f"{a}={v}: wrong value at step {i}")
            opt.step_schedules()
    for v in ("0.1", [], (x for x in ()), {"a": 1}, None):
        refuse(ctx, lambda: SGD(v), ValueError, "invalid", f"{v!r} is accepted as a learning rate")


def explore(ctx):
    ctx.each("closed", lambda: range(len(ALL)), closed)
    ctx.each("nest", nest_cases, nest)
    ctx.each("plateau", plateau_cases(ctx.quick), plateau)
    ctx.each("evaluated", evaluated_cases(ctx.quick), evaluated)
    ctx.each("wrapped", wrap_cases, wrapped)


def replay(ctx, fam, case):
    {"closed": closed, "nest": nest, "plateau": plateau, "evaluated": evaluated, "wrapped": wrapped}[fam](ctx, case)
