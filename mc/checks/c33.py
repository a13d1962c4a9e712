"""C33: every point at which a layer (or the optimizer) can raise, in every layer and composition; the failure leaves no trace."""
import itertools
import os
import tempfile
from pathlib import Path

import numpy as np
import thinc.api as T
import torch
from mc import zoo
from mc.checks.c10 import state
from mc.checks.c23 import pretend_cuda
from mc.util import values
from thinc.shims.pytorch_grad_scaler import PyTorchGradScaler
from thinc.model import serialize_attr
from thinc.util import DATA_VALIDATION

LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault injection: in every layer and composition, a failure before or after the work of every node's forward pass, backprop callback, initialization and parameter update, in every operation and after every short history; the full observable state is compared with the one before, and the repeated operation with one that never failed"
NOTE = "All layers of the zoo, every node, before and after its work, for predictions, training passes, backprop, initialization and updates (SGD and Adam), an ordinary exception and a keyboard interrupt; histories of up to 1 (thorough 2) earlier operations."
RULE = "state = (layer, history, failure point, observable state afterwards); transition = one failed or repeated operation"
ASSUMPTIONS = ["parameter gradients that a failed backward pass already added, and running statistics of PyTorch modules after a failed training pass, may stay"]


class Fault(Exception):
    pass


class Stop(KeyboardInterrupt):
    pass


ERRORS = {"error": Fault, "interrupt": Stop}
ALL = {**zoo.ENTRIES, **zoo.NOISY}


def surroundings():
    ops = T.get_current_ops()
    return (type(ops), id(ops), DATA_VALIDATION.get(), torch.is_grad_enabled(), sorted(np.geterr().items()))


def strip(st):
    """The state without the gradients."""
    return [t[:4] + t[5:] if isinstance(t, tuple) else t if len(t) == 0 or not isinstance(t[0], tuple) else [x[0] for x in t] for t in st]


class Broken:
    """Makes a node's forward function or callback raise, before or after its work."""

    def __init__(self, node, where, err):
        self.node, self.where, self.err, self.func, self.on, self.hits = node, where, err, node._func, True, 0

    def __enter__(self):
        def func(model, X, is_train):
            if self.where == "forward:before":
                self.fail()
            Y, bp = self.func(model, X, is_train=is_train)
            if self.where == "forward:after":
                self.fail()
            if not self.where.startswith("backprop"):
                return Y, bp

            def backprop(dY):
                if self.where == "backprop:before":
                    self.fail()
                dX = bp(dY)
                if self.where == "backprop:after":
                    self.fail()
                return dX

            return Y, backprop

        self.node._func = func
        return self

    def fail(self):
        self.hits += 1
        raise self.err

    def __exit__(self, *a):
        self.node._func = self.func


OPS = ["P", "F", "T"]  # prediction, training forward pass only, forward and backward


def one_op(m, op, X, seed):
    """Run one operation; returns everything it hands out."""
    T.fix_random_seed(seed)
    if op == "P":
        return [zoo.full(m.predict(X))]
    Y, bp = m(X, is_train=True)
    out = [zoo.full(Y)]
    if op == "T":
        out.append(zoo.full(bp(zoo.gradient_for(Y, 5))))
    return out


def clear(m):
    for _, n, p in zoo.params(m):
        if n.has_grad(p):
            n.set_grad(p, np.zeros_like(n.get_grad(p)))
    for n in m.walk():
        for s in n.shims:
            for p in s._model.parameters():
                p.grad = None


def grads(m):
    out = [None if g is None or not g.any() else (g + 0.0).tobytes()  # no negative zeros
           for _, g in sorted(zoo.grads(m).items())]
    for n in m.walk():
        for s in n.shims:
            out += [None if p.grad is None else p.grad.numpy().tobytes() for p in s._model.parameters()]
    return out


def pass_cases(quick):
    def gen():
        for name, e in ALL.items():
            good = [s for s in e.specs(True) if e.empty(s) == ""]
            specs = [good[-1]] if quick else [good[-1], good[len(good) // 2]]
            n = len(list(e.build("float32").walk()))
            for spec in specs:
                for i in range(n):
                    for where in ("forward:before", "forward:after", "backprop:before", "backprop:after"):
                        for op in ("T",) if where.startswith("backprop") else OPS:
                            for err in ERRORS:
                                if quick and err == "interrupt" and (op != "T" or where.endswith("after")):
                                    continue
                                for hist in ((), ("P",), ("T",)) if quick else itertools.chain.from_iterable(itertools.product(OPS, repeat=k) for k in (0, 1, 2)):
                                    if quick and err == "interrupt" and hist != ("T",):
                                        continue
                                    yield name, spec, i, where, op, err, hist
    return gen


def failing_pass(ctx, case):
    name, spec, i, where, op, err, hist = case
    e = ALL[name]
    noisy_torch = "torch" in e.tags and "noise" in e.tags
    m, control = e.build("float32"), e.build("float32")
    X = e.data(spec, "float32")
    X0 = zoo.full(X)
    why = f"{name} on {spec}, after {' '.join(hist) or 'nothing'}: {where} of node {i} ({list(m.walk())[i].name}) raises in operation {op}"
    for k, h in enumerate(hist):
        one_op(m, h, X, k)
        one_op(control, h, X, k)
    clear(m)
    clear(control)
    before, around = state(m), surroundings()
    error = ERRORS[err]("injected")
    node = list(m.walk())[i]
    ctx.step()
    with Broken(node, where, error) as b:
        try:
            one_op(m, op, X, 7)
        except BaseException as caught:
            ctx.require(caught is error, f"{name}:other-error", lambda: f"{why}: the caller gets {caught!r}")
        else:
            ctx.require(not b.hits, f"{name}:swallowed", lambda: f"{why}: the failure does not reach the caller")
        if not b.hits:
            ctx.seen((name, i, where, "not reached"))
            return
    ctx.require(surroundings() == around, f"{name}:surroundings", lambda: f"{why}: the backend, validation switch, gradient mode or error state is left changed: {surroundings()} instead of {around}")
    ctx.require(zoo.full(X) == X0, f"{name}:input-changed", lambda: f"{why}: the input is left changed")
    if not (noisy_torch and op != "P"):
        after = state(m)
        same = strip(after) == strip(before) if where.startswith("backprop") else after == before
        ctx.require(same, f"{name}:changed", lambda: f"{why}: the model is left changed")
    clear(m)
    for k, again in enumerate(("T", "P")):
        ctx.step()
        if noisy_torch:
            one_op(m, again, X, 20 + k)
            continue
        got, want = one_op(m, again, X, 20 + k), one_op(control, again, X, 20 + k)
        ctx.require(got == want, f"{name}:later-pass", lambda: f"{why}: a later {again} returns something else than without the failure")
        if again == "T":
            ctx.require(grads(m) == grads(control), f"{name}:later-gradient", lambda: f"{why}: a later training pass gives other parameter gradients than without the failure")
    ctx.seen((name, i, where, op, err))


# ---- initialization ---------------------------------------------------------------------------------------
def init_cases(quick):
    def gen():
        for name, e in ALL.items():
            if not e._init or ("torch" in e.tags and "noise" in e.tags):
                continue
            for i in range(len(list(e._build().walk()))):
                for when in ("before", "after"):
                    for err in ERRORS if not quick else ("error",):
                        yield name, i, when, err
    return gen


def failing_init(ctx, case):
    name, i, when, err = case
    e = ALL[name]
    control = e._build()
    control.initialize(X=e.sample())
    m = e._build()
    node = list(m.walk())[i]
    if node.init is None:
        return
    why = f"{name}: the initialization of node {i} ({node.name}) raises {when} its work"
    error, init, around = ERRORS[err]("injected"), node.init, surroundings()
    hits = []

    def broken(model, X=None, Y=None):
        if when == "after":
            init(model, X=X, Y=Y)
        hits.append(1)
        raise error

    node.init = broken
    ctx.step()
    try:
        m.initialize(X=e.sample())
    except BaseException as caught:
        ctx.require(caught is error, f"{name}:init:other-error", lambda: f"{why}: the caller gets {caught!r}")
    else:
        ctx.require(not hits, f"{name}:init:swallowed", lambda: f"{why}: the failure does not reach the caller")
    node.init = init
    if not hits:
        return
    ctx.require(surroundings() == around, f"{name}:init:surroundings", lambda: f"{why}: the backend, validation switch, gradient mode or error state is left changed")
    ctx.step()
    m.initialize(X=e.sample())
    shape = lambda mm: [(n.name, [(d, n.maybe_get_dim(d)) for d in sorted(n.dim_names)], [(p, n.get_param(p).shape if n.has_param(p) else n.has_param(p)) for p in sorted(n.param_names)]) for n in mm.walk()]
    ctx.require(shape(m) == shape(control), f"{name}:init:again", lambda: f"{why}: initializing again gives {shape(m)}, without the failure it is {shape(control)}")
    for mm in (m, control):
        zoo.fill(mm)
    if "torch" not in e.tags and "HashEmbed" not in name:
        X = e.data([s for s in e.specs(True) if e.empty(s) == ""][-1], "float32")
        a, b = m.predict(X), control.predict(X)
        ctx.require(zoo.full(a) == zoo.full(b), f"{name}:init:predict", lambda: f"{why}: after initializing again the model predicts {zoo.show(a)} instead of {zoo.show(b)}")
    ctx.seen((name, i, when))


# ---- updates ------------------------------------------------------------------------------------------------
class BrokenOptimizer:
    def __init__(self, opt, at, err):
        self.opt, self.at, self.err, self.n = opt, at, err, 0

    def __call__(self, *args, **kwargs):
        self.n += 1
        if self.n > self.at:
            raise self.err
        return self.opt(*args, **kwargs)

    def __getattr__(self, name):
        return getattr(self.opt, name)


def update_cases(quick):
    def gen():
        for name, e in ALL.items():
            m = e.build("float32")
            n = len(zoo.params(m)) + sum(len(list(s._model.parameters())) for x in m.walk() for s in x.shims)
            for opt in ("SGD", "Adam"):
                for at in range(n):
                    for hist in ((1,), (2,)) if quick else ((1,), (2,), (1, 1), (2, 1)):
                        yield name, opt, at, hist
    return gen


def failing_update(ctx, case):
    """hist: numbers of training passes before each update, the last of which fails."""
    name, kind, at, hist = case
    e = ALL[name]
    X = e.data([s for s in e.specs(True) if e.empty(s) == ""][-1], "float32")
    why = f"{name}: update {len(hist)} after {hist} training passes, {kind} raises at parameter {at}"
    error = Fault("injected")
    models = []
    for broken in (False, True):
        m = e.build("float32")
        opt = getattr(T, kind)(0.1)
        for j, n in enumerate(hist):
            for k in range(n):
                one_op(m, "T", X, k)
            last = j == len(hist) - 1
            before = [(l, n.get_param(p).copy(), None if not n.has_grad(p) else n.get_grad(p).copy()) for l, n, p in zoo.params(m)]
            ctx.step()
            if broken and last:
                around = surroundings()
                try:
                    m.finish_update(BrokenOptimizer(opt, at, error))
                except BaseException as caught:
                    ctx.require(caught is error, "update:other-error", lambda: f"{why}: the caller gets {caught!r}")
                else:
                    return  # fewer parameters have a gradient
                ctx.require(surroundings() == around, "update:surroundings", lambda: f"{why}: the backend, validation switch, gradient mode or error state is left changed")
            else:
                m.finish_update(opt)
        models.append([(l, n.get_param(p).copy(), None if not n.has_grad(p) else n.get_grad(p).copy()) for l, n, p in zoo.params(m)])
    done, half = models
    if "noise" in e.tags and "torch" in e.tags:
        return
    order, kept = [], False
    for (l, p0, g0), (_, p1, g1), (_, p, g) in zip(before, done, half):
        if g0 is None:
            ctx.require(np.array_equal(p, p0), "update:no-gradient", lambda: f"{why}: {l} changed without a gradient")
            continue
        untouched = np.array_equal(p, p0) and g is not None and np.array_equal(g, g0)
        whole = np.array_equal(p, p1) and (g is None or not g.any())
        ctx.require(untouched or whole, "update:half-done", lambda: f"{why}: {l} is {p.tolist()} with gradient {None if g is None else g.tolist()}: neither as before ({p0.tolist()}, {g0.tolist()}) nor updated ({p1.tolist()})")
        order.append("-" if untouched else "+")
    n_done = sum(c == "+" for c in order)
    if "torch" not in e.tags and all(g0 is not None and g0.any() for _, _, g0 in before):
        ctx.require(n_done == at, "update:count", lambda: f"{why}: {n_done} parameters are updated, {at} calls of the optimizer succeeded")
    ctx.seen((name, kind, at, "".join(order)))


# ---- saving and copying ---------------------------------------------------------------------------------
class Uncopyable:
    """An attribute value whose copying or serializing raises when told to."""
    error = None

    def __deepcopy__(self, memo):
        if self.error is not None:
            raise self.error
        return self


def save_cases(quick):
    def gen():
        for name, e in ALL.items():
            m = e.build("float32")
            ns = list(m.walk())
            for err in ERRORS if not quick else ("error",):
                for what in ("attr", "shim", "ref", "copy"):
                    if what == "shim" and not any(n.shims for n in ns):
                        continue
                    for i in range(len(ns)):
                        if what == "shim" and not ns[i].shims:
                            continue
                        for how in ("to_bytes", "to_disk", "to_dict") if what != "copy" else ("copy",):
                            yield name, what, i, how, err
    return gen


def failing_save(ctx, case):
    name, what, i, how, err = case
    e = ALL[name]
    m = e.build("float32")
    node = list(m.walk())[i]
    why = f"{name}: {how} while " + {"attr": "serializing an attribute of", "shim": "saving the wrapped model of", "ref": "a reference to a model outside of the tree is set on", "copy": "copying an attribute of"}[what] + f" node {i} ({node.name}) fails"
    node.attrs["mc_extra"] = Uncopyable()
    X = e.data([s for s in e.specs(True) if e.empty(s) == ""][-1], "float32")
    one_op(m, "T", X, 1)
    error = ERRORS[err]("injected")
    with tempfile.TemporaryDirectory() as d:
        path = Path(d) / "model"
        fail_attr = []

        @serialize_attr.register(Uncopyable)
        def _(_, value, name, model):
            if fail_attr:
                raise error
            return b""

        try:
            m.to_disk(path)
        except NotImplementedError:
            return  # wrapped models that cannot be saved
        saved, before, around = path.read_bytes(), state(m), surroundings()
        shims = node.shims[:]
        if what == "attr":
            fail_attr.append(1)
        elif what == "ref":
            node._refs["mc_out"] = T.Linear(1, 1)
            before = state(m)
        elif what == "shim":
            def broken(*a):
                raise error
            shims[0].to_bytes = broken
        else:
            node.attrs["mc_extra"].error = error
        ctx.step()
        try:
            m.to_disk(path) if how == "to_disk" else getattr(m, how)()
        except BaseException as caught:
            ctx.require(caught is error or (what == "ref" and isinstance(caught, ValueError)), f"save:{what}:other-error", lambda: f"{why}: the caller gets {caught!r}")
        else:
            ctx.fail(f"save:{what}:swallowed", f"{why}: the failure does not reach the caller")
        ctx.require(state(m) == before, f"save:{what}:changed", lambda: f"{why}: the model is left changed")
        ctx.require(surroundings() == around, f"save:{what}:surroundings", lambda: f"{why}: the backend, validation switch, gradient mode or error state is left changed")
        ctx.require(path.read_bytes() == saved, f"save:{what}:file-lost", lambda: f"{why}: the file saved before now has {len(path.read_bytes())} bytes of {len(saved)}")
        ctx.require(len(os.listdir(d)) == 1, f"save:{what}:left-over", lambda: f"{why}: files are left over: {os.listdir(d)}")
        # without the failure
        fail_attr.clear()
        node.attrs["mc_extra"].error = None
        if what == "ref":
            del node._refs["mc_out"]
        if what == "shim":
            del shims[0].to_bytes
        ctx.step()
        m.to_disk(path)
        ctx.require(path.read_bytes() == saved or "torch" in e.tags, f"save:{what}:again", lambda: f"{why}: saving again gives other data")
        if how == "copy":
            c = m.copy()
            ctx.require([n.name for n in c.walk()] == [n.name for n in m.walk()], "save:copy:again", lambda: f"{why}: copying again gives another model")
    ctx.seen((name, what, i, how))


# ---- failures inside of a wrapped PyTorch module ------------------------------------------------------------
class _Raise(torch.autograd.Function):
    @staticmethod
    def forward(ctx, x, module):
        ctx.module = module
        return x.clone()

    @staticmethod
    def backward(ctx, d):
        ctx.module.fail("backward")
        return d, None


class _Module(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.a, self.b = torch.nn.Linear(2, 2), torch.nn.Linear(2, 2)
        self.n = torch.nn.Dropout(0.5)
        self.where = self.error = None

    def fail(self, where):
        if self.where == where:
            raise self.error

    def forward(self, x):
        self.fail("forward:first")
        y = _Raise.apply(torch.tanh(self.a(x)), self)
        y = self.n(self.b(y))
        self.fail("forward:last")
        return y


def module_cases(quick):
    def gen():
        for mixed, around, where, err in itertools.product((False, True), ("bare", "chain", "residual"), ("forward:first", "forward:last", "backward"), ERRORS):
            for op in ("T",) if where == "backward" else OPS:
                for n in range(3 if quick else 4):
                    for hist in itertools.product(("P", "T", "U"), repeat=n):
                        if mixed and "P" in hist and quick:
                            continue
                        yield mixed, around, where, err, op, hist
    return gen


def failing_module(ctx, case):
    mixed, around, where, err, op, hist = case
    why = f"PyTorch module{' in mixed precision' if mixed else ''} ({around}), after {' '.join(hist) or 'nothing'}: {where} raises in operation {op}"

    def build():
        torch.manual_seed(0)
        mod = _Module()
        for k, p in enumerate(mod.parameters()):
            p.data = torch.tensor(values(tuple(p.shape), "float32", 3 * k))
        m = T.PyTorchWrapper_v2(mod, mixed_precision=mixed, grad_scaler=PyTorchGradScaler(mixed, init_scale=4.0, growth_interval=2))
        if around == "chain":
            lin = T.Linear(2, 2)
            lin.initialize()
            zoo.fill(lin)
            m = T.chain(lin, m)
        elif around == "residual":
            m = T.residual(m)
        return m, mod

    (m, mod), (control, _) = build(), build()
    X = values((3, 2), "float32", 1)
    opts = {id(m): T.Adam(0.1), id(control): T.Adam(0.1)}
    with pretend_cuda():
        for k, h in enumerate(hist):
            for x in (m, control):
                x.finish_update(opts[id(x)]) if h == "U" else one_op(x, h, X, k)
        before, around_, grads0 = state(m), surroundings(), [None if p.grad is None else p.grad.clone() for p in mod.parameters()]
        mod.where, mod.error = where, ERRORS[err]("injected")
        ctx.step()
        try:
            one_op(m, op, X, 7)
        except BaseException as caught:
            ctx.require(caught is mod.error, "module:other-error", lambda: f"{why}: the caller gets {caught!r}")
        else:
            ctx.require(where == "backward", "module:swallowed", lambda: f"{why}: the failure does not reach the caller")
        mod.where = None
        ctx.require(surroundings() == around_, "module:surroundings", lambda: f"{why}: the backend, validation switch, gradient mode or error state is left changed")
        if where != "backward":
            ctx.require(state(m) == before, "module:changed", lambda: f"{why}: the model is left changed")
        else:
            ctx.require([x[0] if isinstance(x, tuple) else x for y in state(m) if not isinstance(y, tuple) for x in y] == [x[0] if isinstance(x, tuple) else x for y in before if not isinstance(y, tuple) for x in y],
                        "module:changed", lambda: f"{why}: the module's weights are left changed")
            for (n, p), g in zip(mod.named_parameters(), grads0):
                if n.startswith("a."):  # not reached by the backward pass
                    ctx.require((p.grad is None or not p.grad.any()) if g is None else p.grad is not None and bool(torch.equal(p.grad, g)),
                                "module:gradient-lost", lambda: f"{why}: the gradient of {n} is {p.grad}, was {g}")
        clear(m)
        clear(control)
        for k, again in enumerate(("T", "U", "P", "T")):
            ctx.step()
            if again == "U":
                for x in (m, control):
                    x.finish_update(opts[id(x)])
                continue
            got, want = one_op(m, again, X, 20 + k), one_op(control, again, X, 20 + k)
            ctx.require(got == want, "module:later-pass", lambda: f"{why}: a later {again} returns something else than without the failure")
            ctx.require(grads(m) == grads(control), "module:later-gradient", lambda: f"{why}: a later {again} gives other parameter gradients than without the failure")
    ctx.seen((mixed, around, where, op, hist))


FAM = {"module": failing_module, "save": failing_save, "pass": failing_pass, "init": failing_init, "update": failing_update}


def explore(ctx):
    ctx.each("pass", pass_cases(ctx.quick), failing_pass)
    ctx.each("init", init_cases(ctx.quick), failing_init)
    ctx.each("module", module_cases(ctx.quick), failing_module)
    ctx.each("save", save_cases(ctx.quick), failing_save)
    ctx.each("update", update_cases(ctx.quick), failing_update)


def replay(ctx, family, case):
    ctx.run_case(family, FAM[family], case)
