"""C23: wrapped PyTorch models against torch itself and against native layers with the same weights."""
import contextlib
import copy
import itertools
import tempfile
import warnings
from pathlib import Path
from unittest import mock

import numpy as np
import torch
from mc import zoo
from mc.util import LAYOUTS, layout, values
from thinc import api as T
from thinc.layers.torchscriptwrapper import pytorch_to_torchscript_wrapper
from thinc.shims import pytorch_grad_scaler
from thinc.shims.pytorch import PyTorchShim
from thinc.shims.pytorch_grad_scaler import PyTorchGradScaler
from thinc.types import ArgsKwargs, Padded
from thinc.util import convert_recursive, iterate_recursive

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration on the real code: every nesting of inputs and outputs up to depth 2, every history of training/averaging/copying/saving events in lockstep with a native twin model, every overflow history of the gradient scaler (CUDA being pretended for the scaler only); oracle: torch autograd on a copy of the module, a native twin, and the documented grow/back-off rule"
NOTE = "1800+ input nestings x outputs x gradient patterns; event histories of length <= 4 (thorough 5) over 9 events for three twin pairs; scaler histories of length <= 6 (thorough 8); 14 module kinds x 6 wrappers x batch sizes x layouts."
RULE = "state = (weights, gradients, optimizer state, averages, scale); transition = one event of the history, or one forward/backward pass"
ASSUMPTIONS = ["there is no CUDA device: the scaler's device check is answered with yes while it scales, everything else runs on the CPU and autocast is off", "list inputs get their gradients as a tuple, integer inputs get None", "arrays with negative strides are not accepted by torch"]

warnings.filterwarnings("ignore")


# ---- 1. nesting -------------------------------------------------------------------------------------------
LEAVES = ("f", "i", "n", "s")


def trees(depth, small):
    """Subtrees: a leaf, or [container, child, ...]."""
    if depth == 0:
        return list(LEAVES)
    leaves1 = ("f", "i") if small else LEAVES
    subs = list(LEAVES)
    if depth == 2:
        subs += [[c, *k] for c in ("tuple", "list", "dict") for n in (1, 2) for k in itertools.product(("f", "i"), repeat=n)]
    else:
        subs = list(leaves1)
    return subs


OUTS = ("T", ["tuple", "T", "T"], ["tuple", "T"], ["list", "T", "T"], ["dict", "T", "T"], ["tuple", "T", ["tuple", "T", "T"]], ["tuple", "T", "I"], ["tuple", "T", "N"], ["tuple", ["list", "T"], ["dict", "T", "I"]], "same", ["tuple", "same", "T"])


def nesting_cases(quick):
    tops = []
    for n in (1, 2, 3):
        for k in itertools.product(LEAVES if n < 3 else ("f", "i"), repeat=n):
            tops += [[c, *k] for c in ("tuple", "list", "dict")]
    for a in range(3):
        for k in range(3):
            for x in itertools.product(("f", "i") if a + k > 2 else LEAVES, repeat=a + k):
                tops.append(["ak", a, *x])
    tops.append("f")
    tops.append("i")
    for t in tops:
        for o in OUTS:
            yield [t, o, "all"]
            if o[0] in ("tuple", "dict", "list"):
                yield [t, o, "drop-first"]
                yield [t, o, "drop-last"]
    subs = trees(2, True)
    for c in ("tuple", "list", "dict"):
        for n in (1, 2) if quick else (1, 2, 3):
            for k in itertools.product(subs if n < 3 else subs[:10], repeat=n):
                if any(isinstance(x, list) for x in k):
                    yield [[c, *k], "T", "all"]


def make(t, k):
    """Data for the tree t."""
    if t == "f":
        return values((2, 3), salt=next(k))
    if t == "i":
        return (np.arange(4, dtype="int64") + next(k)) % 3
    if t == "n":
        return None
    if t == "s":
        return 0.5
    kids = [make(x, k) for x in t[(2 if t[0] == "ak" else 1):]]
    if t[0] == "tuple":
        return tuple(kids)
    if t[0] == "list":
        return kids
    if t[0] == "dict":
        return {f"k{i}": x for i, x in enumerate(kids)}
    return ArgsKwargs(tuple(kids[: t[1]]), {f"k{i}": x for i, x in enumerate(kids[t[1]:])})


def flat(x, kind=torch.Tensor):
    if isinstance(x, kind):
        return [x]
    if isinstance(x, ArgsKwargs):
        return flat(list(x.args), kind) + flat(x.kwargs, kind)
    if isinstance(x, dict):
        return [z for y in x.values() for z in flat(y, kind)]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y, kind)]
    return []


def tmap(f, x, kind):
    if isinstance(x, kind):
        return f(x)
    if isinstance(x, ArgsKwargs):
        return ArgsKwargs(tuple(tmap(f, y, kind) for y in x.args), {k: tmap(f, y, kind) for k, y in x.kwargs.items()})
    if isinstance(x, dict):
        return {k: tmap(f, y, kind) for k, y in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(tmap(f, y, kind) for y in x)
    return x


class Nest(torch.nn.Module):
    def __init__(self, out):
        super().__init__()
        self.a = torch.nn.Linear(3, 2)
        self.b = torch.nn.Linear(3, 2)
        self.out = out
        with torch.no_grad():
            for i, p in enumerate(self.parameters()):
                p.copy_(torch.tensor(values(tuple(p.shape), salt=i + 1)))

    def forward(self, *args, **kwargs):
        self.got = (args, kwargs)
        ts = flat([list(args), kwargs])
        fl = [t for t in ts if t.is_floating_point()]
        total = torch.tanh(self.a.weight.sum()).reshape(1, 1) * torch.ones(2, 2)
        for i, t in enumerate(ts):
            if t.is_floating_point():
                total = total + torch.tanh(self.a(t)) * (i + 1)
            else:
                total = total * (1 + t.sum().float() / 7)
        n = itertools.count(1)

        def build(o):
            if o == "T":
                k = next(n)
                return total * k + self.b(fl[0] if fl else torch.ones(2, 3)) ** k
            if o == "I":
                return total.argmax(1)
            if o == "N":
                return None
            if o == "same":
                return fl[0] if fl else total
            kids = [build(x) for x in o[1:]]
            return tuple(kids) if o[0] == "tuple" else kids if o[0] == "list" else {f"o{i}": x for i, x in enumerate(kids)}

        return build(self.out)


def call(m, X):
    if isinstance(X, ArgsKwargs):
        return m(*X.args, **X.kwargs)
    if isinstance(X, dict):
        return m(**X)
    if isinstance(X, (list, tuple)):
        return m(*X)
    return m(X)


def shape_of(x):
    return tmap(lambda a: ("array", a.shape), x, (np.ndarray, torch.Tensor))


def eq(a, b, tol=1e-5):
    """Same nesting, arrays close."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
    if type(a) is not type(b):
        return False
    if isinstance(a, ArgsKwargs):
        return eq(tuple(a.args), tuple(b.args), tol) and eq(a.kwargs, b.kwargs, tol)
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y, tol) for x, y in zip(a, b))
    return a == b


def nesting(ctx, case):
    t, o, pattern = case
    k = itertools.count(1)
    X = make(t, k)
    before = tmap(lambda a: a.copy(), X, np.ndarray)
    module = Nest(o)
    ref = copy.deepcopy(module)
    model = T.PyTorchWrapper(module)
    # the reference: torch alone
    Xr = tmap(lambda a: torch.tensor(a, requires_grad=a.dtype.kind == "f"), X, np.ndarray)
    Yr = call(ref, Xr)
    want_Y = tmap(lambda a: a.detach().numpy(), Yr, torch.Tensor)
    Yp = model.predict(X)
    ctx.step()
    ctx.require(eq(Yp, want_Y), "nest:predict", lambda: f"{case}: {Yp}, expected {want_Y}")
    ctx.require(all(not x.requires_grad for x in flat(module.got)), "nest:grad-in-predict", f"{case}")
    Y, bp = model(X, True)
    ctx.step()
    if not ctx.require(eq(Y, want_Y), "nest:output", lambda: f"{case}: {Y}, expected {want_Y}"):
        return
    got = tmap(lambda a: a.detach().numpy(), [list(module.got[0]), module.got[1]], torch.Tensor)
    args = [list(X.args), X.kwargs] if isinstance(X, ArgsKwargs) else [[], X] if isinstance(X, dict) else [list(X), {}] if isinstance(X, (list, tuple)) else [[X], {}]
    ctx.require(eq(got, args), "nest:arguments", lambda: f"{case}: the module was called with {got}")
    s = itertools.count(3)
    dY = tmap(lambda a: values(a.shape, "float32", next(s)) if a.dtype.kind == "f" else np.zeros(a.shape, "float32"), Y, np.ndarray)
    if pattern != "all":
        i = 0 if pattern == "drop-first" else -1
        if isinstance(dY, dict):
            dY[list(dY)[i]] = None
        else:
            lst = list(dY)
            lst[i] = None
            dY = type(dY)(lst)
    pairs = []

    def collect(y, d):
        if d is None or y is None:
            return
        if isinstance(y, torch.Tensor):
            if y.requires_grad:
                pairs.append((y, torch.tensor(d)))
        elif isinstance(y, dict):
            for k in y:
                collect(y[k], d[k])
        else:
            for a, b in zip(y, d):
                collect(a, b)

    collect(Yr, dY)
    if not pairs:
        return
    params = list(ref.parameters())
    ins = [x for x in flat(Xr) if x.requires_grad]
    gs = torch.autograd.grad([y for y, _ in pairs], params + ins, [d for _, d in pairs], allow_unused=True)
    dbefore = tmap(lambda a: a.copy(), dY, np.ndarray)
    dX = bp(dY)
    ctx.step()
    ctx.require(eq(dY, dbefore) and eq(X, before), "nest:arguments-changed", lambda: f"{case}")
    it = iter([None if g is None else g.numpy() for g in gs[len(params):]])
    want = tmap(lambda x: next(it) if x.requires_grad else None, Xr, torch.Tensor)
    if isinstance(want, list):
        want = tuple(want)

    def norm(got, want):
        """Unused inputs may come back as None or as zeros, other values as they are."""
        if isinstance(want, ArgsKwargs):
            return isinstance(got, ArgsKwargs) and norm(tuple(got.args), tuple(want.args)) and norm(got.kwargs, want.kwargs)
        if isinstance(want, dict):
            return isinstance(got, dict) and list(got) == list(want) and all(norm(got[k], want[k]) for k in want)
        if isinstance(want, (list, tuple)):
            return isinstance(got, (list, tuple)) and len(got) == len(want) and all(norm(a, b) for a, b in zip(got, want))
        if want is None:
            return got is None or (isinstance(got, np.ndarray) and not got.any())
        return eq(got, want, 1e-4)

    ctx.require(norm(dX, want), "nest:input-gradient", lambda: f"{case}: {dX}, expected {want}")
    for (name, p), g in zip(module.named_parameters(), gs):
        have = np.zeros(tuple(p.shape), "float32") if p.grad is None else p.grad.numpy()
        ctx.require(np.allclose(have, 0 if g is None else g.numpy(), rtol=1e-4, atol=1e-4), "nest:weight-gradient", lambda: f"{case}: {name}: {have}, expected {g}")
    ctx.seen((case, want_Y))


# ---- 2. kinds of modules and wrappers -----------------------------------------------------------------------
class Two(torch.nn.Module):
    """Tied weights, a frozen parameter and a buffer."""

    def __init__(self):
        super().__init__()
        self.a = torch.nn.Linear(3, 3)
        self.b = torch.nn.Linear(3, 3)
        self.b.weight = self.a.weight
        self.frozen = torch.nn.Parameter(torch.ones(3), requires_grad=False)
        self.register_buffer("scale", torch.full((1,), 1.5))
        self.unused = torch.nn.Linear(2, 2)

    def forward(self, x: torch.Tensor) -> torch.Tensor:
        return self.b(torch.tanh(self.a(x))) * self.frozen * self.scale


MODULES = {
    "linear": lambda: torch.nn.Linear(3, 2),
    "no-bias": lambda: torch.nn.Linear(3, 2, bias=False),
    "mlp": lambda: torch.nn.Sequential(torch.nn.Linear(3, 4), torch.nn.ReLU(), torch.nn.Linear(4, 2)),
    "batchnorm": lambda: torch.nn.Sequential(torch.nn.Linear(3, 2), torch.nn.BatchNorm1d(2)),
    "layernorm": lambda: torch.nn.LayerNorm(3),
    "dropout0": lambda: torch.nn.Sequential(torch.nn.Linear(3, 2), torch.nn.Dropout(0.5)),
    "conv": lambda: torch.nn.Sequential(torch.nn.Unflatten(1, (1, 3)), torch.nn.Conv1d(1, 2, 2), torch.nn.Flatten()),
    "inplace": lambda: torch.nn.Sequential(torch.nn.Linear(3, 2), torch.nn.ReLU(inplace=True)),
    "tied": Two,
    "no-weights": lambda: torch.nn.Tanh(),
    "identity": lambda: torch.nn.Identity(),
    "prelu": lambda: torch.nn.PReLU(),
    "double": lambda: torch.nn.Linear(3, 2).double(),
    "bilinear": lambda: torch.nn.Sequential(torch.nn.Linear(3, 2), torch.nn.Softmax(dim=1)),
}


def module_of(kind):
    torch.manual_seed(0)
    m = MODULES[kind]()
    with torch.no_grad():
        for i, p in enumerate(m.parameters()):
            p.copy_(torch.tensor(values(tuple(p.shape), "float64", i + 1)))
    return m


WRAPPERS = {
    "v1": lambda m: T.PyTorchWrapper(m),
    "v2": lambda m: T.PyTorchWrapper_v2(m),
    "v3": lambda m: T.PyTorchWrapper_v3(m),
    "registry": lambda m: T.registry.get("layers", "PyTorchWrapper.v3")(m, mixed_precision=False),
    "script": lambda m: T.TorchScriptWrapper_v1(torch.jit.script(m)),
    "to-script": lambda m: pytorch_to_torchscript_wrapper(T.PyTorchWrapper(m)),
}


def module_cases(quick):
    for kind in MODULES:
        for w in WRAPPERS:
            for n in (1, 2, 3) if quick else (0, 1, 2, 3, 5):
                for lay in ("C", "F", "strided", "offset", "readonly"):
                    if n == 1 and kind == "batchnorm" or (w in ("script", "to-script") and quick and lay not in ("C", "strided")):
                        continue
                    yield [kind, w, n, lay]


def torch_params(model):
    return {k: p for s in (sh for n in model.walk() for sh in n.shims) for k, p in s._model.named_parameters()}


def modules(ctx, case):
    kind, w, n, lay = case
    dtype = "float64" if kind == "double" else "float32"
    X = layout(values((n, 3), dtype, 5), "C" if lay == "readonly" else lay)
    if lay == "readonly":
        X.setflags(write=False)
    ref = module_of(kind)
    model = WRAPPERS[w](module_of(kind))
    inner = model.shims[0]._model
    before = X.copy()
    ref.eval()
    with torch.no_grad():
        want = ref(torch.tensor(X.copy())).numpy()
    for rep in (1, 2):
        Y = model.predict(X)
        ctx.step()
        ctx.require(eq(Y, want), "module:predict", lambda: f"{case}: {Y}, expected {want}")
    ctx.require(not inner.training, "module:eval-mode", f"{case}")
    ref.train()
    if kind == "dropout0":
        torch.manual_seed(3)
    Xt = torch.tensor(X.copy(), requires_grad=True)
    Yt = ref(Xt)
    if kind == "dropout0":
        torch.manual_seed(3)
    Y, bp = model(X, True)
    ctx.step()
    ctx.require(inner.training, "module:train-mode", f"{case}")
    ctx.require(eq(Y, Yt.detach().numpy()), "module:output", lambda: f"{case}: {Y}, expected {Yt}")
    ctx.require(np.array_equal(X, before), "module:input-changed", f"{case}")
    if kind != "identity":
        ctx.require(not np.shares_memory(X, Y), "module:output-aliases-input", f"{case}")
    # a prediction in between must not disturb the pending backward pass
    if kind != "batchnorm":
        mid = model.predict(X)
        ctx.require(eq(mid, want), "module:predict-between", lambda: f"{case}")
    dY = layout(values(Y.shape, dtype, 9), "C" if lay == "readonly" else lay)
    if lay == "readonly":
        dY.setflags(write=False)
    dX = bp(dY)
    ctx.step()
    Yt.backward(torch.tensor(dY.copy()))
    ctx.require(eq(dX, Xt.grad.numpy(), 1e-4), "module:input-gradient", lambda: f"{case}: {dX}, expected {Xt.grad}")
    ctx.require(np.array_equal(dY, values(Y.shape, dtype, 9)), "module:gradient-changed", f"{case}")
    grads = {k: (None if p.grad is None else p.grad.numpy()) for k, p in ref.named_parameters()}
    for k, p in inner.named_parameters():
        g = None if p.grad is None else p.grad.numpy()
        ctx.require((g is None) == (grads[k] is None) and (g is None or np.allclose(g, grads[k], rtol=1e-4, atol=1e-5)), "module:weight-gradient", lambda: f"{case}: {k}: {g}, expected {grads[k]}")
    # accumulate, then one step of plain gradient descent
    if kind not in ("dropout0", "batchnorm"):
        Y2, bp2 = model(X, True)
        bp2(dY)
        ref(Xt).backward(torch.tensor(dY.copy()))
    start = {k: p.detach().numpy().copy() for k, p in inner.named_parameters()}
    count = []

    def sgd(key, p, g, **kw):
        count.append(key)
        return p - 0.5 * g, g * 0

    model.finish_update(sgd)
    ctx.step()
    have = dict(inner.named_parameters())
    for k, p in ref.named_parameters():
        want_p = start[k] if p.grad is None else start[k] - 0.5 * p.grad.numpy()
        ctx.require(np.allclose(have[k].detach().numpy(), want_p, rtol=1e-5, atol=1e-6), "module:update", lambda: f"{case}: {k} is {have[k]}, expected {want_p}")
        ctx.require(have[k].grad is None or not have[k].grad.numpy().any(), "module:gradient-cleared", lambda: f"{case}: {k}")
        ctx.require(have[k].requires_grad == p.requires_grad, "module:requires-grad", lambda: f"{case}: {k}")
    ctx.require(sorted(count) == sorted({(model.shims[0].id, k) for k, p in ref.named_parameters() if p.grad is not None}), "module:one-update-each", lambda: f"{case}: {count}")
    for (ka, a), (kb, b) in zip(ref.named_buffers(), inner.named_buffers()):
        ctx.require(ka == kb and np.allclose(a.numpy(), b.numpy(), rtol=1e-5, atol=1e-6), "module:buffers", lambda: f"{case}: {ka}: {b}, expected {a}")
    if kind == "tied":
        ctx.require(np.array_equal(inner.a.weight.detach().numpy(), inner.b.weight.detach().numpy()), "module:tied", f"{case}")
    # saving and copying keep everything
    Yn = model.predict(X)
    blob = model.to_bytes()
    ctx.require(eq(model.predict(X), Yn), "module:saving-changes", f"{case}")
    other = WRAPPERS[w](MODULES[kind]())
    other.from_bytes(blob)
    ctx.require(eq(other.predict(X), Yn), "module:from-bytes", f"{case}")
    cp = model.copy()
    ctx.require(eq(cp.predict(X), Yn), "module:copy", f"{case}")
    ctx.require(cp.shims[0].id != model.shims[0].id, "module:copy-id", f"{case}")
    with tempfile.TemporaryDirectory(prefix="c23-") as d:
        model.to_disk(Path(d) / "m")
        third = WRAPPERS[w](MODULES[kind]())
        third.from_disk(Path(d) / "m")
    ctx.require(eq(third.predict(X), Yn), "module:from-disk", f"{case}")
    # the copies are independent
    for m in (cp, other, third):
        if not (kind == "batchnorm"):
            Yc, bpc = m(X, True)
            bpc(dY)
            m.finish_update(lambda key, p, g, **kw: (p - 0.25 * g, g * 0))
    ctx.require(eq(model.predict(X), Yn), "module:copies-share", f"{case}")
    ctx.seen((case, Yn))


# ---- 3. histories with a native twin --------------------------------------------------------------------------
def native():
    return T.chain(T.Linear(3, 3), T.Relu(2, 3), T.Linear(2, 2))


def linear_from(n):
    m = torch.nn.Linear(n.get_dim("nI"), n.get_dim("nO"))
    with torch.no_grad():
        m.weight.copy_(torch.tensor(n.get_param("W")))
        m.bias.copy_(torch.tensor(n.get_param("b")))
    return m


def twins(kind):
    n = native()
    n.initialize()
    zoo.fill(n)
    a, b, c = n.layers
    if kind == "all":
        t = T.PyTorchWrapper(torch.nn.Sequential(linear_from(a), linear_from(b), torch.nn.ReLU(), linear_from(c)))
    elif kind == "middle":
        t = T.chain(a.copy(), T.PyTorchWrapper_v2(torch.nn.Sequential(linear_from(b), torch.nn.ReLU())), c.copy())
    elif kind == "split":
        t = T.chain(T.PyTorchWrapper_v3(linear_from(a)), T.PyTorchWrapper(torch.nn.Sequential(linear_from(b), torch.nn.ReLU())), T.PyTorchWrapper_v2(linear_from(c)))
    elif kind == "script":
        t = T.TorchScriptWrapper_v1(torch.jit.script(torch.nn.Sequential(linear_from(a), linear_from(b), torch.nn.ReLU(), linear_from(c))))
    return n, t


def weights(m):
    """All weights in order, wherever they live, with gradients."""
    out = []
    for n in m.walk():
        for p in ("W", "b"):
            if p in n.param_names:
                out.append((n.get_param(p), n.get_grad(p) if n.has_grad(p) else np.zeros_like(n.get_param(p))))
        for s in n.shims:
            for p in s._model.parameters():
                out.append((p.detach().numpy(), p.grad.numpy() if p.grad is not None else np.zeros(tuple(p.shape), "float32")))
    return out


def torch_shims(m):
    return [s for n in m.walk() for s in n.shims]


def pending(m):
    return [p.grad for s in torch_shims(m) for p in s._model.parameters()]


def keep_pending(grads, m):
    """Whether copying and loading keep pending gradients is left open: put them back where they are gone."""
    for g, q in zip(grads, [p for s in torch_shims(m) for p in s._model.parameters()]):
        if q.grad is None and g is not None:
            q.grad = g.clone()


OPTS = {
    "sgd": lambda: T.Optimizer(0.25, beta1=0.0, beta2=0.0, L2=0.0, grad_clip=0.0, use_averages=True),
    "adam": lambda: T.Adam(0.1, L2=0.01, grad_clip=1.0, use_averages=True),
    "radam": lambda: T.RAdam(0.1, use_averages=True, L2=0.01, L2_is_weight_decay=True),
}
EVENTS = ("step", "two", "predict-between", "update", "averages", "averages-raise", "copy", "bytes", "disk")


def twin_cases(quick):
    n = 4 if quick else 5
    for kind in ("all", "middle", "split", "script"):
        for opt in OPTS:
            for k in range(1, n + 1):
                for h in itertools.product(EVENTS, repeat=k):
                    if h[-1] in ("predict-between",) or not any(e in ("step", "two", "predict-between") for e in h):
                        continue
                    if quick and k == n and (h[-1] in ("step", "copy", "bytes", "disk", "two") or kind == "script" or opt == "sgd" or "update" not in h or (opt, kind) not in (("adam", "split"), ("radam", "middle"))):
                        continue
                    if not quick and k == n and (h[-1] not in ("update", "averages") or "update" not in h or kind == "script"):
                        continue
                    if quick and k == 3 and (kind == "script" and opt != "adam" or h[-1] in ("copy", "bytes", "disk")):
                        continue
                    yield [kind, opt, list(h)]


def twin(ctx, case):
    kind, optname, h = case
    n, t = twins(kind)
    optn, optt = OPTS[optname](), OPTS[optname]()
    P = values((2, 3), salt=17)
    k = 0
    for i, e in enumerate(h):
        where = f"{kind}, {optname}, {h}, step {i} ({e})"
        ctx.step()
        if e in ("step", "two", "predict-between"):
            k += 1
            X = [values((2 + j, 3), salt=k + 3 * j) for j in range(2 if e == "two" else 1)]
            Yn, Yt = [n(x, True) for x in X], [t(x, True) for x in X]
            if e == "predict-between":
                n.predict(P), t.predict(P)
            for x, (yn, bn), (yt, bt) in list(zip(X, Yn, Yt)):
                ctx.require(np.allclose(yn, yt, rtol=1e-4, atol=1e-5), "twin:output", lambda: f"{where}: {yt}, native {yn}")
                dY = values(yn.shape, salt=k + 1)
                dn, dt = bn(dY), bt(dY)
                ctx.require(np.allclose(dn, dt, rtol=1e-4, atol=1e-5), "twin:input-gradient", lambda: f"{where}: {dt}, native {dn}")
        elif e == "update":
            n.finish_update(optn)
            t.finish_update(optt)
            optn.step_schedules()
            optt.step_schedules()
        elif e.startswith("averages"):
            wn, wt = [w.copy() for w, _ in weights(n)], [w.copy() for w, _ in weights(t)]
            try:
                with n.use_params(optn.averages), t.use_params(optt.averages):
                    yn, yt = n.predict(P), t.predict(P)
                    ctx.require(np.allclose(yn, yt, rtol=1e-3, atol=1e-5), "twin:averages", lambda: f"{where}: {yt}, native {yn}")
                    if e == "averages-raise":
                        raise KeyError("x")
            except KeyError:
                pass
            ctx.require(all(np.array_equal(a, b) for a, (b, _) in zip(wt, weights(t))), "twin:not-restored", lambda: f"{where}")
        elif e == "copy":
            old = t
            n, t = n.copy(), t.copy()
            keep_pending(pending(old), t)
        elif e == "bytes":
            n.from_bytes(n.to_bytes())
            old = pending(t)
            t.from_bytes(t.to_bytes())
            keep_pending(old, t)
        elif e == "disk":
            with tempfile.TemporaryDirectory(prefix="c23-") as d:
                old = pending(t)
                t.to_disk(Path(d) / "t")
                t.from_disk(Path(d) / "t")
                keep_pending(old, t)
            n.from_bytes(n.to_bytes())
        wn, wt = weights(n), weights(t)
        for j, ((a, ga), (b, gb)) in enumerate(zip(wn, wt)):
            if not ctx.require(a.shape == b.shape and np.allclose(a, b, rtol=1e-3, atol=2e-5), "twin:weights", lambda: f"{where}: weight {j} is {b}, native {a}"):
                return
            if e in ("step", "two", "predict-between", "update"):
                ctx.require(np.allclose(ga, gb, rtol=1e-3, atol=2e-5), "twin:gradients", lambda: f"{where}: gradient {j} is {gb}, native {ga}")
        ctx.require(np.allclose(n.predict(P), t.predict(P), rtol=1e-3, atol=2e-5), "twin:predict", lambda: where)
        ctx.seen((kind, optname, [w for w, _ in wt]))


# ---- 4. the gradient scaler -------------------------------------------------------------------------------------
SCALERS = [dict(), dict(init_scale=8.0, growth_interval=1), dict(init_scale=8.0, growth_interval=2), dict(init_scale=4.0, growth_interval=3, growth_factor=3.0, backoff_factor=0.25), dict(init_scale=1.0, growth_interval=2, growth_factor=1.5, backoff_factor=0.5), dict(init_scale=2.0 ** 126, growth_interval=1)]
STEPS = ("ok", "inf", "-inf", "nan", "ok+inf", "inf+ok", "none")


@contextlib.contextmanager
def pretend_cuda():
    """Answers the scaler's questions about the device with yes (only while it scales)."""
    orig = PyTorchGradScaler.scale

    def scale(self, *a, **k):
        with mock.patch.object(torch.Tensor, "is_cuda", property(lambda s: True), create=True):
            return orig(self, *a, **k)

    with mock.patch.object(PyTorchGradScaler, "scale", scale), mock.patch.object(pytorch_grad_scaler, "has_torch_amp", True):
        yield


def scaler_cases(quick):
    n = 5 if quick else 7
    for s in range(len(SCALERS)):
        for enabled in (True, False):
            for k in range(1, n + 1):
                for h in itertools.product(STEPS if k <= 3 else ("ok", "inf", "none"), repeat=k):
                    if enabled or k <= 2:
                        yield [s, enabled, list(h)]


def scaler(ctx, case):
    s, enabled, h = case
    kw = SCALERS[s]
    g = PyTorchGradScaler(enabled, **kw)
    g.to_(torch.device("cpu"))
    scale, growth, backoff, interval = kw.get("init_scale", 2.0 ** 16), kw.get("growth_factor", 2.0), kw.get("backoff_factor", 0.5), kw.get("growth_interval", 2000)
    good = 0
    x = torch.tensor([1.0, -2.0, 0.5])
    for i, e in enumerate(h):
        where = f"{kw}, enabled={enabled}: {h}, step {i}"
        ctx.step()
        with pretend_cuda():
            outs = [g.scale(x), g.scale([x, x * 2]), g.scale(iter((x,)))]
            y = x.clone()
            z = g.scale(y, inplace=True)
        f = np.float32(scale) if enabled else np.float32(1)
        with np.errstate(over="ignore"):
            w1, w2 = x.numpy() * f, x.numpy() * 2 * f
        ctx.require(np.array_equal(outs[0].numpy(), w1) and (not enabled or (np.array_equal(outs[1][0].numpy(), w1) and np.array_equal(outs[1][1].numpy(), w2) and len(outs[1]) == 2 and np.array_equal(list(outs[2])[0].numpy(), w1))), "scaler:scale", lambda: f"{where}: {outs}, scale {f}")
        ctx.require(np.array_equal(z.numpy(), w1) and np.array_equal(y.numpy(), w1), "scaler:scale-inplace", lambda: f"{where}")
        ctx.require(x.tolist() == [1.0, -2.0, 0.5], "scaler:input-changed", where)
        found = False
        for part in ([] if e == "none" else e.split("+")):
            t1, t2 = torch.tensor([3.0, 1.0]), torch.tensor([[0.5]])
            if part != "ok":
                t2[0, 0] = float(part)
            bad = part != "ok"
            found = found or bad
            r = g.unscale([t1, t2])
            ctx.require(bool(r) == (found and enabled), "scaler:found", lambda: f"{where}: unscale returned {r}")
            ctx.require(bool(g.found_inf) == (found and enabled), "scaler:found", lambda: f"{where}: found_inf is {g.found_inf}")
            if not bad:
                f = np.float32(1 / scale) if enabled else np.float32(1)
                ctx.require(np.allclose(t1.numpy(), np.array([3.0, 1.0]) * f, rtol=1e-6, atol=0) and np.allclose(t2.numpy(), 0.5 * f, rtol=1e-6, atol=0), "scaler:unscale", lambda: f"{where}: {t1}, {t2}, scale {scale}")
        g.update()
        if enabled:
            if found:
                scale, good = np.float32(scale * backoff), 0
            else:
                good += 1
                if good == interval:
                    with np.errstate(over="ignore"):
                        new = np.float32(np.float32(scale) * np.float32(growth))
                    if np.isfinite(new):
                        scale = new
                    good = 0
        ctx.require(not g.found_inf, "scaler:cleared", where)
        ctx.require(float(g._scale) == float(scale), "scaler:rule", lambda: f"{where}: scale {float(g._scale)}, expected {scale}")
        ctx.seen((s, enabled, float(scale), good))
    for bad in ("x", [1], 3, [x, None]):
        with pretend_cuda():
            try:
                g.scale(bad)
                ctx.require(not enabled, "scaler:accepts-nonsense", lambda: f"{bad!r}")
            except ValueError:
                pass
    if enabled:
        try:
            g.scale(x)
            ctx.fail("scaler:cpu", "scaling a CPU tensor is not refused")
        except ValueError:
            pass


# ---- 5. mixed precision in a model --------------------------------------------------------------------------------
MIXED = ("step", "two", "interleaved", "overflow", "update")


def mixed_cases(quick):
    for where in ("alone", "residual", "concatenate", "chain"):
        for s in (1, 2, 3):
            for k in range(1, (5 if quick else 6) + 1):
                for h in itertools.product(MIXED, repeat=k):
                    if h[0] != "update" and (k < 5 or (h[-1] == "update" and s == 2)) and (quick is False or k < 4 or s == 2):
                        yield [where, s, list(h)]


def around(where, inner):
    if where == "residual":
        return T.residual(inner)
    if where == "concatenate":
        return T.concatenate(inner, T.noop())
    if where == "chain":
        return T.chain(T.noop(), inner, T.noop())
    return inner


def mixed(ctx, case):
    where_, s, h = case
    kw = SCALERS[s]
    lin = torch.nn.Linear(3, 3)
    with torch.no_grad():
        lin.weight.copy_(torch.tensor(values((3, 3), salt=1)))
        lin.bias.copy_(torch.tensor(values((3,), salt=2)))
    ref = around(where_, T.PyTorchWrapper(copy.deepcopy(lin)))
    g = PyTorchGradScaler(True, **kw)
    inner = T.PyTorchWrapper_v2(copy.deepcopy(lin), mixed_precision=True, grad_scaler=g)
    m = around(where_, inner)
    scale, good = kw["init_scale"], 0
    found, k = False, 0
    sgd = lambda key, p, gr, **kw: (p - 0.25 * gr, gr * 0)
    with pretend_cuda(), np.errstate(invalid="ignore", over="ignore"):
        for i, e in enumerate(h):
            where = f"{where_}, {kw}: {h}, step {i}"
            ctx.step()
            if e == "update":
                if not found:
                    ref.finish_update(sgd)
                else:
                    ref.finish_update(lambda key, p, gr, **kw: (p, gr * 0))
                m.finish_update(sgd)
                if found:
                    scale, good = scale * kw.get("backoff_factor", 0.5), 0
                else:
                    good += 1
                    if good == kw["growth_interval"]:
                        scale, good = scale * kw.get("growth_factor", 2.0), 0
                found = False
                ctx.require(float(g._scale) == scale, "mixed:scale", lambda: f"{where}: {float(g._scale)}, expected {scale}")
            else:
                k += 1
                runs = [(values((2, 3), salt=k + j)) for j in range(1 if e in ("step", "overflow") else 2)]
                if e == "interleaved":
                    fr = [(ref(x, True), m(x, True)) for x in runs]
                    fr.reverse()
                    runs.reverse()
                else:
                    fr = None
                for j, x in enumerate(runs):
                    (yr, br), (ym, bm) = fr[j] if fr else (ref(x, True), m(x, True))
                    ctx.require(np.allclose(yr, ym, rtol=1e-5, atol=1e-6), "mixed:output", where)
                    dY = values(yr.shape, salt=k + j + 5)
                    if e == "overflow":
                        dY[0, 0] = np.inf
                        found = True
                    before = dY.copy()
                    dxm = bm(dY)
                    ctx.require(np.array_equal(dY, before), "mixed:gradient-changed", lambda: f"{where}: output gradient is now {dY}, was {before}")
                    clean = np.where(np.isfinite(before), before, 0).astype("float32")
                    dxr = br(clean)
                    if not found:
                        ctx.require(np.allclose(dxm, dxr, rtol=1e-4, atol=1e-5), "mixed:input-gradient", lambda: f"{where}: {dxm}, expected {dxr}")
                    elif where_ == "alone":
                        ctx.require(not dxm.any(), "mixed:overflow-gradient", lambda: f"{where}: {dxm}, expected zeros")
            pm, pr = torch_params(m), torch_params(ref)
            for name in pm:
                ctx.require(np.allclose(pm[name].detach().numpy(), pr[name].detach().numpy(), rtol=1e-4, atol=1e-5), "mixed:weights", lambda: f"{where}: {name}: {pm[name]}, expected {pr[name]}")
                if not found:
                    a = np.zeros(1) if pm[name].grad is None else pm[name].grad.numpy()
                    b = np.zeros(1) if pr[name].grad is None else pr[name].grad.numpy()
                    ctx.require(np.allclose(a, b, rtol=1e-4, atol=1e-5), "mixed:weight-gradient", lambda: f"{where}: {name}: {a}, expected {b}")
            ctx.seen((where_, s, scale, good, found, [p.detach().numpy() for p in pm.values()]))


# ---- 6. temporary weights ---------------------------------------------------------------------------------------------
def swap_cases(quick):
    names = ("0.weight", "0.bias", "1.weight", "1.bias", "1.running_mean")
    for kind in ("v1", "v3", "script"):
        for r in range(0, 6):
            for sub in itertools.combinations(names, r):
                for keys in ("prefix", "tuple"):
                    for end in ("ok", "raise", "nested", "predict-train"):
                        yield [kind, list(sub), keys, end]


def swap(ctx, case):
    w, sub, keys, end = case
    model = WRAPPERS[w](module_of("batchnorm"))
    sh = model.shims[0]
    P = values((2, 3), salt=4)
    state = {k: v.clone() for k, v in sh._model.state_dict().items()}
    y0 = model.predict(P)
    new = {k: values(tuple(state[k].shape), salt=40 + i) + np.float32(1) for i, k in enumerate(sub)}
    given = {(f"pytorch_{sh.id}_{k}" if keys == "prefix" else (sh.id, k)): v for k, v in new.items()}
    given[f"pytorch_{sh.id + 1000}_0.weight"] = values((9, 9))  # of another model
    given[(sh.id + 1000, "0.weight")] = values((9, 9))
    given[("E", 1)] = values((1,))
    ref = module_of("batchnorm")
    st = dict(state)
    params = {n for n, _ in ref.named_parameters()}
    # the optimizer's keys name parameters only
    st.update({k: torch.tensor(v) for k, v in new.items() if keys == "prefix" or k in params})
    ref.load_state_dict(st)
    ref.eval()
    with torch.no_grad():
        want = ref(torch.tensor(P)).numpy()
    args = {k: v.copy() for k, v in given.items()}
    try:
        with model.use_params(given):
            ctx.step()
            y = model.predict(P)
            ctx.require(np.allclose(y, want, rtol=1e-4, atol=1e-5), "swap:inside", lambda: f"{case}: {y}, expected {want}")
            if end == "raise":
                raise KeyError
            if end == "nested":
                with model.use_params({f"pytorch_{sh.id}_0.bias": values((2,), salt=77)}):
                    inner = model.predict(P)
                ctx.require(not np.allclose(inner, y), "swap:nested", f"{case}")
                ctx.require(np.array_equal(model.predict(P), y), "swap:nested-restored", f"{case}")
    except KeyError:
        pass
    ctx.require(np.array_equal(model.predict(P), y0), "swap:restored", lambda: f"{case}: {model.predict(P)}, before {y0}")
    now = sh._model.state_dict()
    ctx.require(all(torch.equal(now[k], state[k]) for k in state), "swap:restored", f"{case}")
    ctx.require(all(np.array_equal(given[k], args[k]) for k in given), "swap:arguments-changed", f"{case}")
    if end == "predict-train":
        # training afterwards still works on the original weights
        Y, bp = model(P, True)
        bp(values(Y.shape))
        a = {k: p.grad.numpy().copy() for k, p in sh._model.named_parameters()}
        ref2 = module_of("batchnorm")
        ref2.train()
        ref2(torch.tensor(P)).backward(torch.tensor(values(Y.shape)))
        for k, p in ref2.named_parameters():
            ctx.require(np.allclose(a[k], p.grad.numpy(), rtol=1e-4, atol=1e-4), "swap:train-after", lambda: f"{case}: {k}")
    ctx.seen((case, want))


# ---- 7. saving with custom functions ---------------------------------------------------------------------------------
def save_cases(quick):
    for kind in MODULES:
        for custom in ("default", "both", "serialize", "deserialize"):
            for where in ("alone", "chain", "twice"):
                yield [kind, custom, where]
    for kind in ("linear", "mlp", "batchnorm", "tied"):
        for target in ("linear", "mlp", "batchnorm", "tied", "no-bias"):
            yield [kind, "wrong", target]


def saving(ctx, case):
    kind, custom, where = case
    dtype = "float64" if kind == "double" else "float32"
    P = values((2, 3), dtype, 6)
    if custom == "wrong":
        a, b = T.PyTorchWrapper(module_of(kind)), T.PyTorchWrapper(module_of(where))
        ctx.step()
        try:
            b.from_bytes(a.to_bytes())
            ok = True
        except Exception:
            ok = False
        ctx.require(ok == (kind == where), "save:wrong-module", lambda: f"weights of {kind} loaded into {where}: {'accepted' if ok else 'refused'}")
        return
    calls = []

    def ser(model):
        calls.append(("ser", model))
        from thinc.shims.pytorch import default_serialize_torch_model
        return b"X" * (custom == "both") + default_serialize_torch_model(model)

    def deser(model, data, device):
        calls.append(("deser", model, device))
        from thinc.shims.pytorch import default_deserialize_torch_model
        if custom == "both":
            assert data[:1] == b"X"
            data = data[1:]
        new = MODULES[kind]()  # not the module that was passed in
        return default_deserialize_torch_model(new, data, device)

    kw = {}
    if custom in ("both", "serialize"):
        kw["serialize_model"] = ser
    if custom in ("both", "deserialize"):
        kw["deserialize_model"] = deser

    def build(fresh):
        m = T.PyTorchWrapper_v3(MODULES[kind]() if fresh else module_of(kind), **kw)
        m.shims[0].cfg = {} if fresh else {"a": 1, "b": [1, "x"]}
        if where == "chain":
            return T.chain(T.noop(), m)
        return m

    a = build(False)
    y = a.predict(P)
    for rep in range(2 if where == "twice" else 1):
        b = build(True)
        old = [s._model for n in b.walk() for s in n.shims][0]
        calls.clear()
        b.from_bytes(a.to_bytes())
        ctx.step(2)
        names = [c[0] for c in calls]
        ctx.require(names == ["ser"] * ("serialize_model" in kw) + ["deser"] * ("deserialize_model" in kw), "save:callbacks", lambda: f"{case}: {names}")
        sha, shb = [s for n in a.walk() for s in n.shims][0], [s for n in b.walk() for s in n.shims][0]
        for c in calls:
            ctx.require(c[1] is (sha._model if c[0] == "ser" else old), "save:callback-module", f"{case}")
            if c[0] == "deser":
                ctx.require(isinstance(c[2], torch.device), "save:callback-device", f"{case}: {c[2]}")
        if "deserialize_model" in kw:
            ctx.require(shb._model is not old, "save:result-unused", f"{case}")
        ctx.require(eq(b.predict(P), y), "save:prediction", f"{case}")
        ctx.require(shb.cfg == {"a": 1, "b": [1, "x"]}, "save:config", lambda: f"{case}: {shb.cfg}")
        a = b
    ctx.seen((case, y))


# ---- 8. conversion of nested structures ---------------------------------------------------------------------------------
class Mark:
    def __init__(self, i):
        self.i = i


def conv_cases(quick):
    subs = ["m", "x"] + [[c, *k] for c in ("tuple", "list", "dict", "ak") for n in range(0, 3) for k in itertools.product(("m", "x"), repeat=n)]
    for a in subs:
        yield a
    for c in ("tuple", "list", "dict", "ak"):
        for n in (1, 2):
            for k in itertools.product(subs, repeat=n):
                yield [c, *k]
    if not quick:
        for c in ("tuple", "list", "dict", "ak"):
            for k in itertools.product(subs[:12], repeat=3):
                yield [c, *k]


def conv(ctx, case):
    counter = itertools.count()

    def mk(t):
        if t == "m":
            return Mark(next(counter))
        if t == "x":
            return "plain"
        kids = [mk(x) for x in t[1:]]
        if t[0] == "tuple":
            return tuple(kids)
        if t[0] == "list":
            return kids
        if t[0] == "dict":
            return {f"k{i}": x for i, x in enumerate(kids)}
        return ArgsKwargs(tuple(kids[:1]), {f"k{i}": x for i, x in enumerate(kids[1:])})

    obj = mk(case)
    n = next(counter)
    is_m = lambda x: isinstance(x, Mark)
    order = []
    out = convert_recursive(is_m, lambda x: order.append(x.i) or (x.i, "converted"), obj)
    ctx.step(2)

    def expected(x):
        if isinstance(x, Mark):
            return (x.i, "converted")
        if isinstance(x, ArgsKwargs):
            return ArgsKwargs(tuple(expected(y) for y in x.args), {k: expected(y) for k, y in x.kwargs.items()})
        if isinstance(x, dict):
            return {k: expected(y) for k, y in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)(expected(y) for y in x)
        return x

    ctx.require(repr(out) == repr(expected(obj)), "convert:result", lambda: f"{case}: {out}")
    ctx.require(sorted(order) == list(range(n)), "convert:once-each", lambda: f"{case}: {order}")
    it = [x.i for x in iterate_recursive(is_m, obj)]
    ctx.require(it == list(range(n)), "convert:iterate", lambda: f"{case}: {it}")
    if isinstance(obj, ArgsKwargs):
        ctx.require(repr(ArgsKwargs.from_items(list(obj.items()))) == repr(obj), "convert:items", f"{case}")
        ctx.require(list(zip(obj.keys(), map(id, obj.values()))) == [(k, id(v)) for k, v in obj.items()], "convert:keys-values", f"{case}")
    ctx.seen(case)


# ---- 9. recurrent modules -------------------------------------------------------------------------------------------------
def rnn_cases(quick):
    for kind in ("RNN", "GRU", "LSTM"):
        for layers in (1, 2):
            for bi in (False, True):
                for lens in ((1,), (2, 1), (1, 2), (2, 2), (3, 1, 2)):
                    yield [kind, layers, bi, list(lens)]


def rnn(ctx, case):
    kind, layers, bi, lens = case
    torch.manual_seed(0)
    mod = getattr(torch.nn, kind)(3, 2, layers, bidirectional=bi)
    ref = copy.deepcopy(mod)
    m = T.PyTorchRNNWrapper(mod)
    ops = T.NumpyOps()
    Xp = ops.list2padded([values((n, 3), salt=n + i) for i, n in enumerate(lens)])
    xt = torch.tensor(Xp.data.copy(), requires_grad=True)
    yt, _ = ref(xt)
    for train in (False, True):
        Yp, bp = m(Xp, train)
        ctx.step()
        ctx.require(isinstance(Yp, Padded) and np.allclose(Yp.data, yt.detach().numpy(), rtol=1e-4, atol=1e-5), "rnn:output", lambda: f"{case}")
        ctx.require(all(np.array_equal(a, b) for a, b in zip((Yp.size_at_t, Yp.lengths, Yp.indices), (Xp.size_at_t, Xp.lengths, Xp.indices))), "rnn:batch", f"{case}")
    dY = values(Yp.data.shape, salt=3)
    dXp = bp(Padded(dY, Yp.size_at_t, Yp.lengths, Yp.indices))
    yt.backward(torch.tensor(dY))
    ctx.require(np.allclose(dXp.data, xt.grad.numpy(), rtol=1e-4, atol=1e-5), "rnn:input-gradient", f"{case}")
    for (k, a), (_, b) in zip(mod.named_parameters(), ref.named_parameters()):
        ctx.require(np.allclose(a.grad.numpy(), b.grad.numpy(), rtol=1e-4, atol=1e-5), "rnn:weight-gradient", lambda: f"{case}: {k}")
    ctx.seen((case, Yp.data))


FAMILIES = {"nesting": nesting, "modules": modules, "twin": twin, "scaler": scaler, "mixed": mixed, "swap": swap, "saving": saving, "conv": conv, "rnn": rnn}
CASES = {"nesting": nesting_cases, "modules": module_cases, "twin": twin_cases, "scaler": scaler_cases, "mixed": mixed_cases, "swap": swap_cases, "saving": save_cases, "conv": conv_cases, "rnn": rnn_cases}


def explore(ctx):
    for name in FAMILIES:
        ctx.each(name, lambda: CASES[name](ctx.quick), FAMILIES[name])


def replay(ctx, family, case):
    FAMILIES[family](ctx, case)
