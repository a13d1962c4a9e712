"""C06: all nestings of override blocks x ways to end x bodies, on models with shared layers and wrapped modules."""
import itertools
import operator
import os

import numpy as np
import torch
from mc.modelspec import freeze, torch_state
from mc.util import values
from thinc.api import (Adam, Linear, Model, Mish, NumpyOps, PyTorchWrapper, SGD, PyTorchShim, add, chain, data_validation, get_current_ops,
                       noop, set_current_ops, tuplify, use_ops)
from thinc.backends import contextvars_eq_thread_ops
from thinc.model import context_operators
from thinc.util import DATA_VALIDATION, make_tempfile, use_nvtx_range

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of nested block programs (block kinds x nesting x body actions x exits) on the real code, comparing the observed state with a stack model"
NOTE = "All programs of the block alphabet up to the stated nesting depth; four model trees with shared layers, unset parameters and wrapped PyTorch modules."
RULE = "state = (parameters of every layer and wrapped model, backend, operators, validation switch); transition = entering or leaving a block, or a body action"
ASSUMPTIONS = ["a parameter that has no value yet may be refused by use_params"]


class Boom(Exception):
    pass


def torch_mod(salt, bn=False):
    mods = [torch.nn.Linear(3, 3)] + ([torch.nn.BatchNorm1d(3)] if bn else [])
    m = torch.nn.Sequential(*mods)
    for i, p in enumerate(m.parameters()):
        p.data = torch.tensor(values(tuple(p.shape), "float32", salt + i))
    return m


def tied(salt):
    a, b = torch.nn.Linear(3, 3, bias=False), torch.nn.Linear(3, 3, bias=False)
    b.weight = a.weight
    a.weight.data = torch.tensor(values((3, 3), "float32", salt))
    return torch.nn.Sequential(a, b)


def fwd_two(model, X, is_train):
    Y = X
    for s in model.shims:
        with torch.no_grad():
            Y = s._model(torch.tensor(Y)).numpy()
    return Y + (model.get_param("b") if model.has_param("b") else 0), lambda d: d


def make(name):
    if name == "native":
        inner = Mish(3, 3)
        m = chain(Linear(3, 3), add(inner, inner), chain(inner, Linear(3, 3)))
    elif name == "torch":
        m = chain(Linear(3, 3), PyTorchWrapper(torch_mod(3, bn=True)), Linear(3, 3))
    elif name == "two-shims":
        m = chain(Model("two", fwd_two, params={"b": values((3,), "float32", 3), "c": None}, shims=[PyTorchShim(torch_mod(5)), PyTorchShim(torch_mod(9))]), Linear(3, 3))
    elif name == "tied":
        m = chain(PyTorchWrapper(tied(4)), Linear(3, 3))
    elif name == "unset":
        m = chain(Linear(3, 3), Model("unset", fwd_two, params={"c": None, "d": values((2,), "float32", 3)}), Linear(3, 3))
    for k, n in enumerate(m.walk()):
        if n.name in ("linear", "mish"):
            n.initialize()
            n.set_param("W", values((3, 3), "float32", k))
            n.set_param("b", values((3,), "float32", k + 20))
    return m


MODELS = ("native", "torch", "two-shims", "tied", "unset")


def override(m, kind, salt):
    """A params dict; returns (params, expected replacements {label: array}, raises)."""
    nodes = list(m.walk())
    nat = [(i, n, k) for i, n in enumerate(nodes) for k in n.param_names if n.has_param(k)]
    shims = [(i, j, s) for i, n in enumerate(nodes) for j, s in enumerate(n.shims)]
    P, exp, bad = {}, {}, False

    def native(sel):
        for i, n, k in sel:
            v = values(n.get_param(k).shape, "float32", 100 + salt + i)
            P[(n.id, k)] = v
            exp[(i, k)] = v.copy()

    def torch_(sel, how, which):
        for i, j, s in sel:
            names = [k for k, _ in s._model.named_parameters()]
            for k in which(names):
                v = values(tuple(dict(s._model.named_parameters())[k].shape), "float32", 200 + salt + j + len(k))
                P[(s.id, k) if how == "tuple" else f"pytorch_{s.id}_{k}"] = v
                for k2, t in s._model.state_dict().items():  # tied parameters change together
                    if t.data_ptr() == dict(s._model.named_parameters())[k].data_ptr():
                        exp[(i, j, k2)] = v.copy()

    if kind == "none":
        pass
    elif kind == "all":
        native(nat)
        torch_(shims, "str", lambda ks: ks)
    elif kind == "first":
        native(nat[:1])
    elif kind == "last":
        native(nat[-1:])
    elif kind == "middle":
        native(nat[2:4])
    elif kind == "torch-all":
        torch_(shims, "str", lambda ks: ks)
    elif kind == "torch-one":
        torch_(shims[-1:], "str", lambda ks: ks[:1])
    elif kind == "optimizer-keys":
        native(nat)
        torch_(shims, "tuple", lambda ks: ks)
    elif kind == "foreign":
        P[(10**9, "W")] = values((3, 3))
        P["pytorch_999999999_weight"] = values((3, 3))
        P["something"] = values((1,))
        if nat:
            P[(nat[0][1].id, "no such")] = values((1,))
    elif kind == "torch-bad-shape":
        if not shims:
            return None
        native(nat)
        torch_(shims, "str", lambda ks: ks)
        s = shims[-1][2]
        k = [k for k, _ in s._model.named_parameters()][-1]
        P[f"pytorch_{s.id}_{k}"] = values((7, 7))
        bad = True
    elif kind == "torch-unknown":
        if not shims:
            return None
        native(nat)
        torch_(shims, "str", lambda ks: ks[:1])
        P[f"pytorch_{shims[-1][2].id}_nothing"] = values((2,))
        bad = True
    elif kind == "into-unset":
        un = [(i, n, k) for i, n in enumerate(nodes) for k in n.param_names if not n.has_param(k)]
        if not un:
            return None
        native(nat)
        torch_(shims, "str", lambda ks: ks)
        for i, n, k in un:
            P[(n.id, k)] = values((3,))
        bad = "maybe"
    else:
        raise ValueError(kind)
    return P, exp, bad


OVERRIDES = ("none", "all", "first", "last", "middle", "torch-all", "torch-one", "optimizer-keys", "foreign", "torch-bad-shape", "torch-unknown", "into-unset")


def look(m):
    out = {}
    if m is not None:
        for i, n in enumerate(m.walk()):
            for k in n.param_names:
                out[(i, k)] = freeze(n.get_param(k)) if n.has_param(k) else None
            for j, s in enumerate(n.shims):
                for k, v in torch_state(s._model).items():
                    out[(i, j, k)] = freeze(v)
    ops = get_current_ops()
    out["ops"] = (id(ops), ops.name, getattr(ops, "use_blis", None))
    out["ops-agree"] = contextvars_eq_thread_ops()
    out["operators"] = tuple(sorted((k, id(v)) for k, v in context_operators.get().items()))
    out["validation"] = DATA_VALIDATION.get()
    return out


OPERATORS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "@": operator.matmul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow,
             "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_, "^": operator.xor, "|": operator.or_}


def operators_work(ctx, bound, why):
    a, b = Model("a", fwd_two), Model("b", fwd_two)
    for sym, f in OPERATORS.items():
        try:
            r = f(a, b)
            ok = sym in bound and r == (bound[sym], a, b)
        except TypeError:
            ok = sym not in bound
        ctx.require(ok, f"operators:{sym}", f"{why}: bound {sorted(bound)}")


def maker(tag):
    def f(a, b):
        return (f, a, b)
    return f


BINDINGS = [{}, {"+": maker(1), ">>": maker(2)}, {">>": maker(3), "|": maker(4), "**": maker(5)}, {k: maker(k) for k in OPERATORS}]


def enter(ctx, m, block, state, tag):
    """Returns (context manager, expected state inside or None when entering must raise, extra check)."""
    kind, arg = block
    if kind == "params":
        o = override(m, arg, 7 * tag)
        if o is None:
            return None
        P, exp, bad = o
        inside = dict(state)
        for k, v in exp.items():
            inside[k] = freeze(v)
        return m.use_params(P), inside, bad
    if kind == "ops":
        if arg == "bad":
            return use_ops("no-such-backend"), None, True
        if arg == "badarg":
            return use_ops("numpy", no_such_argument=1), None, True
        if arg in ("numpy", "cpu"):
            return use_ops(arg), {**state, "ops": ("new", "numpy", True)}, False
        return use_ops("numpy", use_blis=arg), {**state, "ops": ("new", "numpy", arg)}, False
    if kind == "operators":
        d = dict(BINDINGS[arg])
        cm = Model.define_operators(d)
        return cm, {**state, "operators": tuple(sorted((k, id(v)) for k, v in d.items()))}, False
    if kind == "validation":
        return data_validation(arg), {**state, "validation": arg}, False
    if kind == "nvtx":
        return use_nvtx_range("x"), dict(state), False
    raise ValueError(kind)


def same_state(got, want):
    if want.get("ops", ())[:1] == ("new",):
        g = dict(got)
        w = dict(want)
        return g.pop("ops")[1:] == w.pop("ops")[1:] and g == w
    return got == want


def differ(got, want):
    return [(k, got.get(k), want.get(k)) for k in want if got.get(k) != want.get(k)][:2]


def body(m, act):
    if act == "nothing":
        return
    if act == "set-ops":
        set_current_ops(NumpyOps(use_blis=False))
    elif act == "validate":
        DATA_VALIDATION.set(not DATA_VALIDATION.get())
    elif act == "predict" and m is not None:
        m.predict(values((2, 3)))
    elif act == "train" and m is not None:
        for n in m.walk():
            for k in n.param_names:
                if n.has_param(k):
                    n.set_grad(k, np.ones_like(n.get_param(k)))
            for s in n.shims:
                for p in s._model.parameters():
                    p.grad = torch.ones_like(p)
        m.finish_update(SGD(0.5))
    elif act == "set" and m is not None:
        for n in m.walk():
            for k in n.param_names:
                if n.has_param(k):
                    n.set_param(k, n.get_param(k) * 2)


# which parts of the state a body action may change for good (outside blocks that restore them)
def program(ctx, case):
    model, blocks, exits, act = case
    base_ops, base_val = get_current_ops(), DATA_VALIDATION.get()
    m = make(model) if model else None
    why = f"{model} {blocks} exits={exits} body={act}"
    try:
        start = look(m)
        ctx.seen(start)

        def go(level, state):
            if level == len(blocks):
                ctx.step()
                body(m, act)
                if exits[-1] == "raise":
                    raise Boom
                if exits[-1] == "interrupt":
                    raise KeyboardInterrupt
                return
            r = enter(ctx, m, blocks[level], state, level)
            if r is None:
                return
            cm, inside, bad = r
            kind = blocks[level][0]
            entered = [False]

            def in_block():
                now = look(m)
                entered[0] = True
                ctx.step()
                ctx.require(bad is not True, f"{kind}:{blocks[level][1]}:accepted", why)
                if inside is not None and bad is False:
                    ctx.require(same_state(now, inside), f"{kind}:not-in-effect", lambda: f"{why}: level {level}: {differ(now, inside)}")
                    if kind == "operators":
                        operators_work(ctx, BINDINGS[blocks[level][1]], why)
                go(level + 1, now)
                if exits[level] == "raise-after":
                    raise Boom

            before = look(m)
            try:
                if exits[level] == "generator":
                    def gen():
                        with cm:
                            in_block()
                            yield 1
                    g = gen()
                    next(g)
                    g.close()
                elif exits[level] == "return":
                    def ret():
                        with cm:
                            in_block()
                            return 1
                    ret()
                else:
                    with cm:
                        in_block()
            except (Boom, KeyboardInterrupt):
                check_after(level, before, kind, act)
                raise
            except Exception as e:
                if entered[0] or bad is False:
                    raise
                check_after(level, before, kind, "nothing")
                ctx.outcome((blocks[level], type(e).__name__))
                return
            check_after(level, before, kind, act)

        def check_after(level, before, kind, act):
            ctx.step()
            now = look(m)
            ctx.seen(now)
            keys = set(before)
            # what the body changed and this block (and no block around the body) does not restore
            if act in ("train", "set"):
                restored = set()
                for b in blocks[level:]:
                    if b[0] == "params":
                        o = override(make(model), b[1], 0)
                        restored |= set(o[1]) if o else set()
                keys = {k for k in keys if not isinstance(k, tuple) or k in restored}
                if act == "train":
                    keys = {k for k in keys if not (isinstance(k, tuple) and "num_batches" in str(k))}
            if act == "set-ops" and not any(b[0] == "ops" for b in blocks[level:]):
                keys -= {"ops"}
            if act == "validate" and not any(b[0] == "validation" for b in blocks[level:]):
                keys -= {"validation"}
            bad = [(k, now.get(k), before[k]) for k in keys if now.get(k) != before[k]]
            ctx.require(not bad, f"{kind}:not-restored:{exits[level] if exits[-1] not in ('raise', 'interrupt') else exits[-1]}", lambda: f"{why}: level {level}: {bad[:2]}")

        try:
            go(0, start)
        except (Boom, KeyboardInterrupt):
            pass
        ctx.outcome((blocks, look(None)["ops"][1:], look(None)["validation"]))
    finally:
        set_current_ops(base_ops)
        DATA_VALIDATION.set(base_val)


EXITS = ("end", "return", "raise-after", "generator")
LAST = ("end", "raise", "interrupt")


def exit_combos(n, quick):
    for lv in itertools.product(EXITS if n < 3 or not quick else ("end", "raise-after"), repeat=n):
        for last in LAST:
            if last == "end" or set(lv) <= {"end", "return"} or n == 1:
                yield lv + (last,)


OTHER = [("ops", True), ("ops", False), ("ops", "numpy"), ("ops", "cpu"), ("ops", "bad"), ("ops", "badarg"), ("operators", 0), ("operators", 1), ("operators", 2), ("operators", 3), ("validation", True), ("validation", False), ("nvtx", 0)]
ACTS = ("nothing", "set-ops", "validate", "predict", "train", "set")


def param_cases(quick):
    P = [("params", o) for o in OVERRIDES]
    for model in MODELS:
        for b in P:
            for ex in exit_combos(1, quick):
                for act in ("nothing", "predict", "train", "set"):
                    yield (model, (b,), ex, act)
        for bs in itertools.product(P, repeat=2):
            for ex in exit_combos(2, quick):
                for act in ("nothing", "train") if quick else ("nothing", "predict", "train", "set"):
                    yield (model, bs, ex, act)
        if not quick:
            for bs in itertools.product(P, repeat=3):
                for ex in exit_combos(3, True):
                    yield (model, bs, ex, "nothing")
        for b, o in itertools.product(P, OTHER):
            for ex in exit_combos(2, quick):
                yield (model, (b, o), ex, "nothing")
                yield (model, (o, b), ex, "nothing")


def other_cases(quick):
    for n in range(1, 4):
        for bs in itertools.product(OTHER, repeat=n):
            for ex in exit_combos(n, quick):
                for act in ("nothing", "set-ops", "validate") if n < 3 else ("nothing",):
                    yield (None, bs, ex, act)


# ---- averages: the documented use ------------------------------------------------------------------------
def averages(ctx, case):
    model, steps, ex = case
    m = make(model)
    opt = Adam(0.1, use_averages=True)
    for k in range(steps):
        for i, n in enumerate(m.walk()):
            for name in n.param_names:
                if n.has_param(name):
                    n.set_grad(name, values(n.get_param(name).shape, "float32", k + i))
            for s in n.shims:
                for p in s._model.parameters():
                    p.grad = torch.tensor(values(tuple(p.shape), "float32", k + i + 50))
        m.finish_update(opt)
        ctx.step()
    before = look(m)
    try:
        with m.use_params(opt.averages):
            for i, n in enumerate(m.walk()):
                for name in n.param_names:
                    if n.has_param(name):
                        ctx.require(np.array_equal(n.get_param(name), opt.averages[(n.id, name)]), "averages:not-in-effect", f"{case} {n.name}.{name}")
                for s in n.shims:
                    for name, p in s._model.named_parameters():
                        ctx.require(np.array_equal(p.detach().numpy(), opt.averages[(s.id, name)]), "averages:not-in-effect-in-wrapped-model", f"{case} {name}")
            ctx.seen(look(m))
            if ex == "raise":
                raise Boom
    except Boom:
        pass
    after = look(m)
    ctx.require(after == before, "averages:not-restored", lambda: f"{case}: {differ(after, before)}")


# ---- temporary files --------------------------------------------------------------------------------------
def tempfiles(ctx, case):
    modes, ex = case
    names = []

    def go(k):
        if k == len(modes):
            if ex == "raise":
                raise Boom
            return
        with make_tempfile(modes[k]) as f:
            names.append(f.name)
            ctx.require(os.path.exists(f.name), "tempfile:missing-inside", f"{case}")
            if ex == "closed":
                f.close()
            go(k + 1)
            ctx.require(os.path.exists(f.name), "tempfile:missing-inside", f"{case}")

    try:
        go(0)
    except Boom:
        pass
    ctx.step(len(modes))
    ctx.seen(case)
    ctx.require(len(set(names)) == len(modes) and not any(os.path.exists(n) for n in names), "tempfile:left-behind", f"{case}")


FAMILIES = {"params": program, "blocks": program, "averages": averages, "tempfiles": tempfiles}


def explore(ctx):
    q = ctx.quick
    ctx.each("params", lambda: param_cases(q), program)
    ctx.each("blocks", lambda: other_cases(q), program)
    ctx.each("averages", lambda: [(m, s, e) for m in MODELS for s in (1, 2, 3) for e in ("end", "raise")], averages)
    ctx.each("tempfiles", lambda: [(ms, e) for n in (1, 2) for ms in itertools.product(("r", "w", "wb", "r+"), repeat=n) for e in ("end", "raise", "closed")], tempfiles)


def replay(ctx, family, case):
    ctx.run_case(family, FAMILIES[family], case)
