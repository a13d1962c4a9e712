"""C07: real threads under a controlled scheduler, all schedules up to a preemption bound."""
import contextvars
import itertools
import operator

import numpy as np
import torch
from mc import sched, zoo
from mc.modelspec import freeze, observe, torch_module
from mc.util import values
from thinc.api import (Adam, Linear, Mish, Model, NumpyOps, PyTorchShim, SGD, add, chain, clone, concatenate, data_validation, get_current_ops, set_current_ops, use_ops)
from thinc.backends import contextvars_eq_thread_ops
from thinc.model import context_operators
from thinc.shims import Shim
from thinc.util import DATA_VALIDATION, DataValidationError

LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of the real code: real threads under a controlled scheduler, all schedules up to a preemption bound at bytecode or line granularity"
NOTE = "Preemption points are the bytecode instructions (id creation, context state) or lines (predictions, training) of thinc's Python code; compiled kernels are atomic. Preemption bound 2 (two threads) or 1 (three threads, predictions)."
RULE = "state = (schedule trace, results of all threads); transition = one scheduling step"
ASSUMPTIONS = ["a thread is preempted between bytecode instructions only (the GIL)", "instructions that touch only local variables are not preemption points"]

sched.adopt_locks("thinc")
FILES = ("/thinc/",)


def fwd(m, X, is_train):
    return X, lambda d: d


# ---- programs: functions run by the threads; they return a list of observations -------------------------------
class Box(Shim):
    def __init__(self):
        super().__init__(None)


def p_models(n):
    def run():
        return {"models": [Model("m", fwd).id for _ in range(n)]}
    return run


def p_chain():
    m = chain(Linear(2, 2), Linear(2, 2))
    return {"models": [x.id for x in m.walk()]}


def p_shims(n):
    def run():
        return {"shims": [Box().id for _ in range(n)]}
    return run


def p_copy(m):
    def run():
        c = m.copy()
        return {"models": [x.id for x in c.walk()], "shims": [s.id for x in c.walk() for s in x.shims]}
    return run


def p_clone(m):
    def run():
        c = clone(m, 2)
        return {"models": [x.id for x in c.walk()], "shims": [s.id for x in c.walk() for s in x.shims]}
    return run


def id_scenarios():
    two = lambda: Model("a", fwd, layers=[Model("b", fwd, shims=[Box()])], shims=[Box()])
    return {
        "model|model": lambda: ([p_models(1), p_models(1)], []),
        "2models|2models": lambda: ([p_models(2), p_models(2)], []),
        "shim|shim": lambda: ([p_shims(1), p_shims(1)], []),
        "2shims|2shims": lambda: ([p_shims(2), p_shims(2)], []),
        "chain|model": lambda: ([p_chain, p_models(1)], []),
        "model|model|model": lambda: ([p_models(1)] * 3, []),
        "shim|shim|shim": lambda: ([p_shims(1)] * 3, []),
        "copy|copy": lambda: (lambda m: ([p_copy(m), p_copy(m)], [m]))(two()),
        "copy|shim": lambda: (lambda m: ([p_copy(m), p_shims(1)], [m]))(two()),
        "copy|model": lambda: (lambda m: ([p_copy(m), p_models(1)], [m]))(Model("a", fwd)),
    }


def check_ids(ctx, tag, why, results, existing):
    for kind in ("models", "shims"):
        ids = [i for r in results for i in r.get(kind, [])]
        if kind == "models":
            ids += [x.id for m in existing for x in m.walk()]
        else:
            ids += [s.id for m in existing for x in m.walk() for s in x.shims]
        ctx.require(len(set(ids)) == len(ids), f"{tag}:{kind}-share-an-id", lambda: f"{why}: {sorted(ids)}")
    for kind, cls in (("models", Model), ("shims", Shim)):
        new = cls if kind == "shims" else None
    a, b = Model("x", fwd).id, Box().id
    ctx.require(a not in [i for r in results for i in r.get("models", [])] and b not in [i for r in results for i in r.get("shims", [])], f"{tag}:later-id-repeats", why)


SCEN = id_scenarios()


# ---- programs over the context state --------------------------------------------------------------------------
def look():
    return (id(get_current_ops()), get_current_ops().use_blis, contextvars_eq_thread_ops(), tuple(sorted((k, v.__name__) for k, v in context_operators.get().items())), DATA_VALIDATION.get())


def p_ops(flag):
    def run():
        out = []
        first = get_current_ops()
        with use_ops("numpy", use_blis=flag):
            mine = get_current_ops()
            out.append(mine.use_blis is flag)
            m = Linear(2, 2)
            out.append(m.ops is mine and get_current_ops() is mine)
        out.append(get_current_ops() is first)
        return out
    return run


def p_set_ops(flag):
    def run():
        mine = NumpyOps(use_blis=flag)
        set_current_ops(mine)
        out = [get_current_ops() is mine]
        m = Model("m", fwd)
        out.append(m.ops is mine)
        out.append(contextvars_eq_thread_ops() and get_current_ops() is mine)
        return out
    return run


def p_default_ops():
    a = get_current_ops()
    m = Model("m", fwd)
    b = get_current_ops()
    return [type(a) is type(b), a is b, m.ops is a]


def tagged(name):
    def f(a, b):
        return (name, a, b)
    f.__name__ = name
    return f


def p_operators(names):
    def run():
        a, b = Model("a", fwd), Model("b", fwd)
        out = []
        with Model.define_operators({k: tagged(f"{names}{k}") for k in names}):
            for _ in range(2):
                for sym, op in ((">", operator.rshift), ("+", operator.add)):
                    k = ">>" if sym == ">" else sym
                    try:
                        r = op(a, b)
                        out.append(k in names and r[0] == f"{names}{k}")
                    except TypeError:
                        out.append(k not in names)
        try:
            a >> b
            out.append(False)
        except TypeError:
            out.append(True)
        return out
    return run


def p_validation(value):
    def run():
        out = []
        with data_validation(value):
            out.append(DATA_VALIDATION.get() is value)
            m = Linear(2, 2)
            try:
                m.initialize(X="wrong")
                out.append(False)
            except DataValidationError:
                out.append(value)
            except Exception:
                out.append(not value)
            out.append(DATA_VALIDATION.get() is value)
        out.append(DATA_VALIDATION.get() is False)
        return out
    return run


def context_scenarios():
    return {
        "use_ops|use_ops": [p_ops(True), p_ops(False)],
        "use_ops|set_ops": [p_ops(True), p_set_ops(False)],
        "set_ops|set_ops": [p_set_ops(True), p_set_ops(False)],
        "use_ops|default": [p_ops(False), p_default_ops],
        "set_ops|default": [p_set_ops(False), p_default_ops],
        "default|default": [p_default_ops, p_default_ops],
        "operators|operators": [p_operators((">>",)), p_operators(("+", ">>"))],
        "operators|none": [p_operators((">>", "+")), p_operators(())],
        "validation|validation": [p_validation(True), p_validation(False)],
        "operators|ops": [p_operators(("+",)), p_ops(False)],
        "operators x3": [p_operators((">>",)), p_operators(("+",)), p_operators(())],
        "ops x3": [p_ops(True), p_ops(False), p_default_ops],
    }


CONTEXT = context_scenarios()


# ---- running a schedule ---------------------------------------------------------------------------------------
def execute(ctx, tag, why, programs, plan, first, opcodes):
    s = sched.Sched(programs, dict(plan), first, FILES, opcodes).run()
    ctx.step(s.switches)
    ctx.note("scheduling_points", s.steps)
    if s.abort:
        ctx.fail(f"{tag}:{s.abort}", f"{why}: threads {sorted(s.alive)} did not finish")
        return None
    for i, e in enumerate(s.errors):
        if e is not None:
            import traceback

            ctx.fail(f"{tag}:thread-raised:{type(e).__name__}", f"{why}: thread {i}: {e}\n{''.join(traceback.format_exception(e))[-1500:]}")
            return None
    return s


def ids(ctx, case):
    name, first, plan = case
    programs, existing = SCEN[name]()
    s = execute(ctx, f"ids:{name}", f"{case}", programs, plan, first, True)
    if s:
        check_ids(ctx, f"ids:{name}", f"{case}", s.results, existing)
        ctx.seen((name, first, tuple(s.trace)))
        base = min([i for r in s.results for v in r.values() for i in v])
        ctx.outcome((name, [{k: [i - base for i in v] for k, v in r.items()} for r in s.results]))


def context(ctx, case):
    name, first, plan = case
    before = look()
    s = execute(ctx, f"context:{name}", f"{case}", CONTEXT[name], plan, first, True)
    if s:
        for i, r in enumerate(s.results):
            ctx.require(all(r), f"context:{name}:seen-by-other-thread", lambda: f"{case}: thread {i}: {r}")
        ctx.require(look() == before, f"context:{name}:main-thread-changed", lambda: f"{case}: {before} {look()}")
        ctx.seen((name, first, tuple(s.trace)))
        ctx.outcome((name, s.results))


def length(programs, first, opcodes):
    return sched.Sched(programs, {}, first, FILES, opcodes).run().steps


_LEN = {}


def schedules(name, programs, bound, opcodes, firsts=None, cap=None):
    n = len(programs)
    for first in firsts or range(n):
        k = (name, first, opcodes)
        if k not in _LEN:
            _LEN[k] = length(programs, first, opcodes)
        for p in sched.plans(_LEN[k], n, bound):
            yield (name, first, p)


def useful(case, n):
    """A preemption to the thread that is running anyway does nothing; with two threads the target is determined."""
    name, first, plan = case
    cur = first
    for s, t in plan:
        if n == 2 and t == cur:
            return False
        cur = t
    return True


def id_cases(quick):
    for name in SCEN:
        n = len(SCEN[name]()[0])
        bound = 2 if n == 2 and (not quick or name in ("model|model", "shim|shim")) else (1 if quick else 2)
        for c in schedules(name, SCEN[name]()[0], bound, True, firsts=(0,) if len(set(name.split("|"))) == 1 else None):
            if useful(c, n):
                yield c


def context_cases(quick):
    for name in CONTEXT:
        n = len(CONTEXT[name])
        bound = 1 if quick or n == 3 else 2
        for c in schedules(name, CONTEXT[name], bound, True):
            if useful(c, n):
                yield c


# ---- predictions ------------------------------------------------------------------------------------------------
_MODELS = {}


def prediction_setup(name):
    if name not in _MODELS:
        e = zoo.ENTRIES.get(name) or zoo.NOISY[name]
        m = e.build()
        specs = [s for s in e.specs(True) if e.empty(s) == ""]
        xs = [e.data(specs[-1], salt=1), e.data(specs[len(specs) // 2], salt=2), e.data(specs[-1], salt=9)]
        alone = [zoo.full(m.predict(zoo.copy(x))) for x in xs]
        _MODELS[name] = (m, xs, alone, observe(m))
    return _MODELS[name]


def predict_programs(name, n):
    m, xs, _, _ = prediction_setup(name)

    def make(x):
        def run():
            return zoo.full(m.predict(zoo.copy(x)))
        return run

    return [make(xs[i]) for i in range(n)]


def predictions(ctx, case):
    (name, n, opcodes), first, plan = case
    m, xs, alone, obs = prediction_setup(name)
    s = execute(ctx, f"predict:{name}", f"{case}", predict_programs(name, n), plan, first, opcodes)
    if s:
        for i, r in enumerate(s.results):
            ctx.require(r == alone[i], f"predict:{name}:differs", f"{case}: thread {i}: its prediction is not the one it makes alone")
        ctx.require(observe(m) == obs, f"predict:{name}:model-changed", f"{case}")
        ctx.seen((name, n, first, tuple(s.trace)))
        ctx.outcome(repr(s.results))


def predict_cases(quick):
    names = list(zoo.ENTRIES) + list(zoo.NOISY)
    for name in names:
        for c in schedules((name, 2, False), predict_programs(name, 2), 1, False):
            if useful(c, 2):
                yield c
    small = ("Linear", "Relu", "LayerNorm", "Softmax", "Embed", "PyTorchWrapper", "PyTorch+drop", "HashEmbed", "reduce_max", "noop")
    for name in small if quick else names:
        if not quick:
            for c in schedules((name, 2, True), predict_programs(name, 2), 1, True):
                if useful(c, 2):
                    yield c
    for name in small if not quick else ("Linear", "Softmax", "PyTorchWrapper"):
        for c in schedules((name, 2, False), predict_programs(name, 2), 2, False, firsts=(0,)):
            if useful(c, 2):
                yield c
        if not quick:
            for c in schedules((name, 3, False), predict_programs(name, 3), 2, False, firsts=(0,)):
                yield c


# ---- training two independent models -----------------------------------------------------------------------------
def train_programs(name):
    e = zoo.ENTRIES[name]
    spec = [s for s in e.specs(True) if e.empty(s) == ""][-1]

    def make(salt):
        m = e.build(salt=salt)
        X = e.data(spec, salt=salt)
        opt = Adam(0.01) if salt else SGD(0.1)

        def run():
            out = []
            for k in range(2):
                Y, bp = m.begin_update(zoo.copy(X))
                dX = bp(zoo.gradient_for(Y, 5))
                m.finish_update(opt)
                out.append((zoo.full(Y), zoo.full(dX)))
            return out + [observe(m)]
        return run

    return [make(0), make(1)]


_ALONE = {}


def training(ctx, case):
    name, first, plan = case
    if name not in _ALONE:
        _ALONE[name] = [p() for p in train_programs(name)]
    s = execute(ctx, f"train:{name}", f"{case}", train_programs(name), plan, first, False)
    if s:
        for i, r in enumerate(s.results):
            ctx.require(r == _ALONE[name][i], f"train:{name}:differs", f"{case}: thread {i}: training its own model gives another result than alone")
        ctx.seen((name, "train", first, tuple(s.trace)))


def train_cases(quick):
    names = ("Maxout2+norm", "embed-features", "PyTorchWrapper") if quick else [n for n in zoo.ENTRIES]
    for name in names:
        for c in schedules(name, train_programs(name), 1, False, firsts=(0, 1) if not quick else (0,)):
            if useful(c, 2):
                yield c


FAMILIES = {"ids": ids, "context": context, "predict": predictions, "train": training}


def explore(ctx):
    q = ctx.quick
    # a tiny program with a known race: the scheduler must find it
    ctx.each("selftest", lambda: [("lost-update",)], selftest, parallel=False)
    for fam, gen, fn in (("ids", id_cases, ids), ("context", context_cases, context), ("predict", predict_cases, predictions), ("train", train_cases, training)):
        cases = list(gen(q))
        ctx.each(fam, lambda: cases, fn)


class _Counter:
    value = 0


def selftest(ctx, case):
    def inc():
        _Counter.value = _Counter.value + 1

    outcomes = set()
    old = globals()["FILES"]
    n = sched.Sched([inc, inc], {}, 0, ("checks/c07",), True).run().steps
    for plan in sched.plans(n, 2, 1):
        _Counter.value = 0
        sched.Sched([inc, inc], dict(plan), 0, ("checks/c07",), True).run()
        outcomes.add(_Counter.value)
    if outcomes != {1, 2}:
        raise RuntimeError(f"the scheduler does not reach the lost update: {outcomes}")
    ctx.note("selftest_lost_update_found", 1)


def replay(ctx, family, case):
    ctx.run_case(family, {**FAMILIES, "selftest": selftest}[family], case)
