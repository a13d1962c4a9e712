"""C27: every short program of random operations, replayed from the same seed after every short history, in this and in other processes."""
import itertools
import json
import os
import random
import re
import subprocess
import sys
import threading

import numpy as np
import torch
import thinc.api as T
from mc import zoo
from mc.core import digest
from mc import modelspec
from mc.util import backends

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of programs of random operations on the real code, each replayed after every earlier history, from the main and from another thread, in fresh processes with other hash seeds, and on both backends; compared with the first run down to the state of every random source"
NOTE = "All programs of up to 2 (thorough 3) of 27 operations x seeds x histories; every layer of the zoo for what may draw; every layer with weights for its documented default initializers."
RULE = "state = (results so far, states of the three random sources); transition = one random operation"
ASSUMPTIONS = ["the random sources are Python's random module, numpy's global source and PyTorch's global source", "HashEmbed without a seed of its own uses the model's id, which is not drawn", "PyTorch on CPU, one thread"]
def observe(m, grads=False):
    """An observation without memory addresses."""
    def plain(v):
        if isinstance(v, str):
            return re.sub(r" at 0x[0-9a-f]+", "", v)
        if isinstance(v, (list, tuple)):
            return [plain(x) for x in v]
        if isinstance(v, dict):
            return {k: plain(x) for k, x in v.items()}
        return v
    return plain(modelspec.observe(m, grads))


SEEDS = (0, 1, 42, 2 ** 32 - 1)


def X(n=4, w=3):
    return (np.arange(n * w, dtype="f").reshape(n, w) % 5 - 2) / 3


def init_of(mk, x=None, y=None):
    def run(st):
        m = mk()
        m.initialize(X=X() if x is None else x, Y=y)
        return observe(m, True)
    return run


def seqs():
    return [X(2), X(3), X(1)]


def op_train(st):
    m = T.chain(T.Relu(4, dropout=0.4), T.Maxout(3, nP=2, dropout=0.2, normalize=True), T.Softmax(2))
    m.initialize(X=X(6), Y=np.eye(2, dtype="f")[[0, 1, 0, 1, 1, 0]])
    opt = T.Adam(0.05)
    out = []
    data = m.ops.multibatch(2, X(6), np.eye(2, dtype="f")[[0, 1, 0, 1, 1, 0]], shuffle=True)
    for _ in range(2):
        for x, y in data:
            yh, bp = m.begin_update(x)
            out.append(zoo.full(yh))
            bp(yh - y)
            m.finish_update(opt)
    return out, observe(m, True)


def op_torch_train(st):
    m = T.PyTorchWrapper(torch.nn.Sequential(torch.nn.Linear(3, 4), torch.nn.Dropout(0.5), torch.nn.Linear(4, 2)))
    out = []
    for _ in range(2):
        y, bp = m.begin_update(X(4))
        out.append(y.copy())
        bp(y)
        m.finish_update(T.SGD(0.1))
    return out, observe(m, True)


def op_config(st):
    cfg = T.Config().from_str("[model]\n@layers = \"chain.v1\"\n[model.*.a]\n@layers = \"Relu.v1\"\nnO = 4\ndropout = 0.2\n[model.*.a.init_W]\n@initializers = \"uniform_init.v1\"\nlo = -0.5\nhi = 2.5\n[model.*.b]\n@layers = \"Softmax.v1\"\nnO = 2\n")
    m = T.registry.resolve(cfg)["model"]
    m.initialize(X=X())
    y, bp = m.begin_update(X())
    return observe(m, True), zoo.full(y)


def op_hash_layers(st):
    m = T.with_array(T.HashEmbed(3, 7, seed=5, dropout=0.3))
    m.initialize()
    y, bp = m.begin_update([np.array([1, 2, 3], "uint64"), np.array([4], "uint64")])
    return observe(m, True), zoo.full(y)


def op_noise(rep):
    def run(st):
        m = T.Dropout(0.5)
        x = X(6) if rep == "rows" else zoo.as_rep([X(2), X(1), X(3)], rep)
        y, bp = m.begin_update(x)
        return zoo.full(y), zoo.full(bp(zoo.gradient_for(y, 1)))
    return run


def op_copy(st):
    m = T.chain(T.Linear(3, 3), T.Dropout(0.5)).copy()
    m.initialize(X=X())
    c = m.copy()
    return observe(c, True), zoo.full(c.begin_update(X())[0])


OPS = {
    "Linear": init_of(lambda: T.Linear(3)),
    "Relu": init_of(lambda: T.Relu(3)),
    "Mish": init_of(lambda: T.Mish(2, normalize=True)),
    "Maxout": init_of(lambda: T.Maxout(3, nP=2)),
    "Gelu": init_of(lambda: T.Gelu(2)),
    "Embed": init_of(lambda: T.Embed(3, 5), np.arange(3)),
    "LSTM": init_of(lambda: T.LSTM(2, bi=True), T.NumpyOps().list2padded(seqs())),
    "attention": init_of(lambda: T.ParametricAttention(3), T.Ragged(X(), np.array([3, 1], "i"))),
    "attention2": init_of(lambda: T.ParametricAttention_v2(nO=3), T.Ragged(X(), np.array([3, 1], "i"))),
    "Softmax": init_of(lambda: T.Softmax(2)),
    "Sparse": init_of(lambda: T.SparseLinear(2)),
    "tree": init_of(lambda: T.concatenate(T.chain(T.Linear(2), T.LayerNorm()), T.residual(T.Swish(3)), T.clone(T.Relu(3), 2))),
    "hash": op_hash_layers,
    "normal": lambda st: T.normal_init(T.NumpyOps(), (2, 3)).tolist(),
    "lecun": lambda st: T.lecun_uniform_init(T.NumpyOps(), (3, 2)).tolist() if hasattr(T, "lecun_uniform_init") else None,
    "mask": lambda st: T.get_current_ops().get_dropout_mask((3, 4), 0.3).tolist(),
    "noise-rows": op_noise("rows"),
    "noise-ragged": op_noise("ragged"),
    "minibatch": lambda st: [list(b) for b in T.get_current_ops().minibatch(2, list(range(7)), shuffle=True)],
    "multibatch": lambda st: [[a.tolist(), list(b)] for a, b in T.get_current_ops().multibatch(T.compounding(1.0, 3.0, 1.5), X(7, 1), list(range(7)), shuffle=True, buffer=2)],
    "train": op_train,
    "torch-train": op_torch_train,
    "torch-lstm": init_of(lambda: T.PyTorchLSTM(2, 3), T.NumpyOps().list2padded(seqs())),
    "config": op_config,
    "copy": op_copy,
    "python": lambda st: [random.random(), random.randint(0, 99)],
    "numpy": lambda st: np.random.rand(2).tolist(),
    "torch": lambda st: torch.rand(2).tolist(),
}
PURE = {"Softmax", "Sparse"}  # zero weights by default: nothing is drawn


def sources():
    return digest(repr(random.getstate())), digest(repr([x.tolist() if hasattr(x, "tolist") else x for x in np.random.get_state()])), digest(torch.get_rng_state().numpy().tobytes())


def run(prog):
    out = []
    for name in prog:
        out.append(digest(OPS[name](None)))
    return out, sources()


HISTORIES = {"nothing": (), "drawn": ("python", "numpy", "torch"), "trained": ("train", "torch-train"), "odd": ("numpy", "minibatch", "normal", "python"), "gauss": ("gauss",)}


def disturb(h):
    for name in HISTORIES[h]:
        if name == "gauss":  # leaves half a pair of normal draws behind in both sources
            np.random.normal()
            random.gauss(0, 1)
            torch.randn(1)
        else:
            OPS[name](None)


def plain_seed(seed):
    random.seed(seed)
    np.random.seed(seed)
    torch.manual_seed(seed)


# ---- replay ---------------------------------------------------------------------------------------------------
def replay_prog(ctx, case):
    prog, seed = case
    plain_seed(seed)
    want = run(prog)
    ctx.seen((want[1], digest(want[0])))
    ctx.outcome(digest(want[0]))
    for h in HISTORIES:
        disturb(h)
        ctx.step(len(prog))
        T.fix_random_seed(seed)
        got = run(prog)
        ctx.require(got[0] == want[0], f"replay:{[p for p, a, b in zip(prog, got[0], want[0]) if a != b][:1]}:differs", lambda: f"{prog} from seed {seed} after '{h}'")
        for s, a, b in zip(("python", "numpy", "torch"), got[1], want[1]):
            ctx.require(a == b, f"replay:source:{s}", lambda: f"{prog} from seed {seed} after '{h}': the {s} source ends elsewhere")


def replay_cases(quick):
    names = list(OPS)
    for n in names:
        for s in SEEDS:
            yield ([n], s)
    for p in itertools.product(names, repeat=2):
        for s in (1,) if quick else SEEDS:
            yield (list(p), s)
    small = names if not quick else ["Linear", "mask", "minibatch", "torch-train", "normal", "train"]
    for p in itertools.product(small, repeat=3):
        yield (list(p), 0)


def seeds(ctx, case):
    """Default seed, other seeds, and what the seed reaches."""
    (name,) = case
    got = {}
    for s in SEEDS:
        T.fix_random_seed(s)
        ctx.step()
        got[s] = digest(run([name])[0])
    ctx.seen(got)
    if name not in PURE and not (name == "lecun" and not hasattr(T, "lecun_uniform_init")):
        ctx.require(len(set(got.values())) > 1, "seeds:no-effect", lambda: f"{name}: the same result from seeds {SEEDS}")
    disturb("drawn")
    T.fix_random_seed()
    ctx.require(digest(run([name])[0]) == got[0], "seeds:default-is-not-zero", name)
    # in another thread
    box = []

    def go():
        T.fix_random_seed(42)
        box.append(digest(run([name])[0]))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    ctx.require(box and box[0] == got[42], "seeds:thread", name)


# ---- other processes -------------------------------------------------------------------------------------------
def table(names=None):
    """Digest of every program of two operations from seed 7."""
    out = {}
    for p in itertools.product(names or OPS, repeat=2):
        T.fix_random_seed(7)
        r = run(p)
        out["+".join(p)] = digest([r[0], r[1]])
    return out


def process(ctx, case):
    (hs,) = case
    want = table()
    ctx.step(2 * len(want))
    env = dict(os.environ, PYTHONHASHSEED=str(hs))
    r = subprocess.run([sys.executable, "-c", "from mc import target; target.load(); import json, numpy; numpy.seterr(all='ignore'); from mc.checks import c27; print('TABLE ' + json.dumps(c27.table()))"], env=env, capture_output=True, text=True, timeout=240)
    lines = [line for line in r.stdout.splitlines() if line.startswith("TABLE ")]
    if not ctx.require(r.returncode == 0 and lines, "process:fails", lambda: f"hash seed {hs}: {(r.stdout + r.stderr)[-500:]}"):
        return
    got = json.loads(lines[0][6:])
    for k in want:
        ctx.seen(want[k])
        ctx.require(got[k] == want[k], "process:differs", lambda: f"{k} from seed 7 with hash seed {hs}")


# ---- both backends draw the same ----------------------------------------------------------------------------------
class Generic(type(backends()["generic"])):
    """The generic backend; windows over several sequences exist in the compiled ones only."""
    seq2col = T.NumpyOps.seq2col
    backprop_seq2col = T.NumpyOps.backprop_seq2col


def everywhere(ctx, case):
    name, seed = case
    e = zoo.ENTRIES.get(name) or zoo.NOISY[name]
    if not e._init:
        return
    out = []
    for ops in (T.NumpyOps(), Generic()):
        with T.use_ops("numpy"):
            m = e._build()
            for n in m.walk():
                n.ops = ops
            T.fix_random_seed(seed)
            ctx.step()
            m.initialize(X=e.sample())
            out.append((observe(m, False), sources()))
    ctx.seen(digest(out[0]))
    ctx.require(out[0] == out[1], "backend:initial-weights-differ", lambda: f"{name} seed {seed}")


# ---- what may draw ---------------------------------------------------------------------------------------------
def quiet(ctx, case):
    name, spec = case
    e = zoo.ENTRIES.get(name) or zoo.NOISY[name]
    m = e.build()
    x = e.data(spec)
    T.fix_random_seed(3)
    was = sources()
    events = [("predict", lambda: m.predict(x)), ("to_bytes", lambda: m.to_bytes()), ("copy", lambda: m.copy()), ("predict-again", lambda: m(x, False))]
    if name in zoo.ENTRIES:  # no dropout: training draws nothing either
        events += [("begin", lambda: m.begin_update(x)), ("train", lambda: step(m, x)), ("save-load", lambda: m.from_bytes(m.to_bytes()))]
    for what, f in events:
        ctx.step()
        try:
            f()
        except (NotImplementedError, ValueError) as err:
            if what not in ("to_bytes", "save-load"):
                raise err
        now = sources()
        for s, a, b in zip(("python", "numpy", "torch"), was, now):
            ctx.require(a == b, f"quiet:{what}:{s}", lambda: f"{name} {spec}: '{what}' moves the {s} random source")
        was = now
    ctx.seen((name, spec, was))


def step(m, x):
    y, bp = m.begin_update(x)
    bp(zoo.gradient_for(y, 2))
    m.finish_update(T.Adam(0.01))


def quiet_cases(quick):
    for name, e in itertools.chain(zoo.ENTRIES.items(), zoo.NOISY.items()):
        specs = [s for s in e.specs(True) if e.empty(s) == ""]
        for s in [specs[0], specs[-1]] if quick else specs:
            yield (name, s)


# ---- documented defaults ------------------------------------------------------------------------------------------
GLOROT, HE, ZERO, UNIFORM = "glorot_uniform_init", "he_normal_init", "zero_init", "uniform_init"
DEFAULTS = {
    "Linear": GLOROT, "Relu": GLOROT, "Mish": GLOROT, "Maxout": GLOROT, "ReluK": GLOROT, "HardTanh": GLOROT, "HardSigmoid": GLOROT, "ClippedLinear": GLOROT,
    "Gelu": HE, "Dish": HE, "Swish": HE, "HardSwish": HE, "HardSwishMobilenet": HE, "Sigmoid": ZERO, "Softmax": ZERO, "Softmax_v2": ZERO, "Embed": UNIFORM, "HashEmbed": UNIFORM,
}


def defaults(ctx, case):
    name, nO, nI, nP, dtype, seed = case
    import thinc.initializers as I

    cls = getattr(T, name)
    table_layer = name in ("Embed", "HashEmbed")
    if table_layer:
        m = cls(nO, nI) if name == "Embed" else cls(nO, nI, seed=3)
    elif name == "Maxout":
        m = cls(nO, nI, nP=nP)
    else:
        m = cls(nO, nI)
    T.fix_random_seed(seed)
    ctx.step()
    m.initialize()
    W, after = m.get_param("E" if table_layer else "W"), sources()
    T.fix_random_seed(seed)
    want = getattr(I, DEFAULTS[name])(m.ops, W.shape)
    ctx.require(W.tobytes() == want.tobytes() and W.dtype == want.dtype, f"defaults:{name}:W", lambda: f"{case}: {W.ravel()[:4]}, expected {want.ravel()[:4]}")
    ctx.require(sources() == after, f"defaults:{name}:draws-more", lambda: f"{case}")
    if not table_layer:
        ctx.require(not m.get_param("b").any(), f"defaults:{name}:b", lambda: f"{case}: {m.get_param('b')}")
    ctx.seen((name, W.shape, seed))


def default_cases(quick):
    for name in DEFAULTS:
        for nO, nI in itertools.product((1, 2, 3, 7), repeat=2):
            for nP in (1, 2, 3) if name == "Maxout" else (1,):
                for s in SEEDS[:2] if quick else SEEDS:
                    yield (name, nO, nI, nP, "f", s)


FAMILIES = {"replay": replay_prog, "seeds": seeds, "process": process, "backend": everywhere, "quiet": quiet, "defaults": defaults}


def explore(ctx):
    q = ctx.quick
    ctx.each("process", lambda: [(h,) for h in ((1, 12345) if q else (1, 2, 3, 12345, "random"))], process, timeout=280)
    ctx.each("seeds", lambda: [(n,) for n in OPS], seeds)
    ctx.each("replay", lambda: replay_cases(q), replay_prog)
    ctx.each("backend", lambda: [(n, s) for n in itertools.chain(zoo.ENTRIES, zoo.NOISY) for s in SEEDS[:2]], everywhere)
    ctx.each("quiet", lambda: quiet_cases(q), quiet)
    ctx.each("defaults", lambda: default_cases(q), defaults)


def replay(ctx, family, case):
    ctx.run_case(family, FAMILIES[family], case)
