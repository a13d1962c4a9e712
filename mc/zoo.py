"""The layers and compositions explored by the model-level checks, their inputs, and helpers to take batches apart.

An Entry builds a fresh, initialised model with deterministic parameters and enumerates small inputs for it.
"""
import itertools

import numpy as np
import torch
from thinc import api as T
from thinc.layers.array_getitem import floats_getitem
from thinc.layers.lstm import PyTorchLSTM
from thinc.layers.with_flatten_v2 import with_flatten_v2
from thinc.layers.resizable import resize_linear_weighted
from thinc.types import ArgsKwargs, Padded, Ragged

from .util import compositions, values

OPS = T.NumpyOps()
W = 3  # input width


# ---- data ----------------------------------------------------------------------------------------
def leaves(d):
    """The float arrays of a (nested) batch, with a mask of the positions that are real data."""
    if isinstance(d, Padded):
        if d.data.dtype.kind != "f":
            return []
        m = np.zeros(d.data.shape, dtype=bool)
        for i, n in enumerate(d.lengths):
            m[: int(n), i] = True
        return [(d.data, m)]
    if isinstance(d, Ragged):
        return leaves(d.dataXd)
    if isinstance(d, (list, tuple)):
        return [x for y in d for x in leaves(y)]
    if isinstance(d, ArgsKwargs):
        return leaves(list(d.args)) + leaves([d.kwargs[k] for k in sorted(d.kwargs)])
    if isinstance(d, np.ndarray) and d.dtype.kind == "f":
        return [(d, np.ones(d.shape, dtype=bool))]
    return []


def size(d):
    return sum(a.size for a, _ in leaves(d))


def rebuild(d, arrays):
    """The same batch with other float arrays (an iterator in the order of leaves)."""
    arrays = iter(arrays) if not hasattr(arrays, "__next__") else arrays
    if isinstance(d, Padded):
        return Padded(next(arrays) if d.data.dtype.kind == "f" else d.data.copy(), d.size_at_t.copy(), d.lengths.copy(), d.indices.copy())
    if isinstance(d, Ragged):
        return Ragged(rebuild(d.dataXd, arrays), np.array(d.lengths, copy=True))
    if isinstance(d, (list, tuple)):
        return type(d)([rebuild(x, arrays) for x in d])
    if isinstance(d, ArgsKwargs):
        a = tuple(rebuild(x, arrays) for x in d.args)
        return ArgsKwargs(a, {k: rebuild(d.kwargs[k], arrays) for k in sorted(d.kwargs)})
    if isinstance(d, np.ndarray):
        return next(arrays) if d.dtype.kind == "f" else d.copy()
    return d


def copy(d):
    return rebuild(d, iter([a.copy() for a, _ in leaves(d)]))


def cast(d, dtype):
    return rebuild(d, iter([a.astype(dtype) for a, _ in leaves(d)]))


def struct(d, dtype=True):
    """What kind of batch this is, without the float contents."""
    if isinstance(d, Padded):
        return ("Padded", struct(d.data, dtype), d.size_at_t.tolist(), d.lengths.tolist(), d.indices.tolist())
    if isinstance(d, Ragged):
        return ("Ragged", struct(d.dataXd, dtype), np.asarray(d.lengths).tolist())
    if isinstance(d, (list, tuple)):
        return (type(d).__name__,) + tuple(struct(x, dtype) for x in d)
    if isinstance(d, ArgsKwargs):
        return ("ArgsKwargs", struct(list(d.args), dtype), struct([d.kwargs[k] for k in sorted(d.kwargs)], dtype))
    if isinstance(d, np.ndarray):
        return ("array", d.shape, d.dtype.name if dtype else d.dtype.kind)
    return (type(d).__name__, d)


def full(d):
    """Everything in a batch, for bit comparison."""
    if isinstance(d, Padded):
        return ("Padded", full(d.data), full(d.size_at_t), full(d.lengths), full(d.indices))
    if isinstance(d, Ragged):
        return ("Ragged", full(d.dataXd), full(np.asarray(d.lengths)))
    if isinstance(d, (list, tuple)):
        return (type(d).__name__,) + tuple(full(x) for x in d)
    if isinstance(d, ArgsKwargs):
        return ("ArgsKwargs", full(list(d.args)), full([d.kwargs[k] for k in sorted(d.kwargs)]))
    if isinstance(d, np.ndarray):
        return (d.dtype.str, d.shape, np.ascontiguousarray(d).tobytes())
    return repr(d)


def gradient_for(Y, salt, scale=1.0):
    """An output gradient for Y: irregular values, zero at padding."""
    return rebuild(Y, iter([(values(a.shape, "float64", salt + 7 * i, scale) * m).astype(a.dtype) for i, (a, m) in enumerate(leaves(Y))]))


def dot(Y, dY):
    return sum(float(np.sum(np.where(m, a.astype("float64") * b.astype("float64"), 0.0))) for (a, m), (b, _) in zip(leaves(Y), leaves(dY)))


def show(d):
    if isinstance(d, np.ndarray):
        return d.tolist()
    if isinstance(d, (list, tuple)):
        return [show(x) for x in d]
    if isinstance(d, Padded):
        return {"padded": d.data.tolist(), "lengths": d.lengths.tolist()}
    if isinstance(d, Ragged):
        return {"ragged": d.dataXd.tolist(), "lengths": np.asarray(d.lengths).tolist()}
    return repr(d)


# ---- parameters ----------------------------------------------------------------------------------
def nodes(model):
    return list(model.walk())


def params(model):
    """[(label, node, name)] of all set parameters."""
    out = []
    for i, n in enumerate(nodes(model)):
        for name in sorted(n.param_names):
            if n.has_param(name):
                out.append((f"{i}.{n.name}.{name}", n, name))
    return out


def fill(model, dtype="float32", salt=0, scale=0.7):
    for k, (_, n, name) in enumerate(params(model)):
        p = n.get_param(name)
        n.set_param(name, values(p.shape, dtype, salt + 5 * k + 1, scale))


def cast_params(model, dtype):
    for _, n, name in params(model):
        n.set_param(name, n.get_param(name).astype(dtype))


def grads(model):
    out = {}
    for label, n, name in params(model):
        out[label] = n.get_grad(name).copy() if n.has_grad(name) else None
    return out


# ---- inputs --------------------------------------------------------------------------------------
def rows(n, w=W, dtype="float32", salt=0):
    return values((n, w), dtype, salt + 2, 1.3)


def as_rep(xs, rep):
    """A list of sequences in the representation wanted."""
    if rep == "list":
        return list(xs)
    if rep == "ragged":
        return T.list2ragged().predict(list(xs)) if xs else Ragged(np.zeros((0, W), "float32"), np.zeros(0, "i"))
    if rep == "padded":
        return OPS.list2padded(list(xs))
    if rep == "ragged-tuple":
        r = as_rep(xs, "ragged")
        return (r.dataXd, r.lengths)
    if rep == "padded-tuple":
        p = as_rep(xs, "padded")
        return (p.data, p.size_at_t, p.lengths, p.indices)
    raise ValueError(rep)


def seqs(lengths, w=W, dtype="float32", salt=0):
    return [values((n, w), dtype, salt + 3 + 2 * i, 1.3) for i, n in enumerate(lengths)]


IDS = [3, 0, 3, 5, 1, 0, 4]


class Kind:
    """How inputs of one kind are enumerated and built."""

    def __init__(self, specs, make, empty):
        self.specs, self.make, self.empty = specs, make, empty


def _row_empty(s):
    return "batch" if s == 0 else ("one" if s == 1 else "")


def _seq_empty(s):
    if len(s) == 0:
        return "batch"
    if max(s) == 0:
        return "allzero"
    return "zero" if 0 in s else ""


def row_specs(quick):
    return range(0, 4 if quick else 5)


def seq_specs(quick):
    return list(compositions(3, 2)) + [(3, 1), (1, 3)] if quick else list(compositions(3, 3)) + list(compositions(4, 2))


KINDS = {
    "rows": Kind(row_specs, lambda s, salt: rows(s, W, salt=salt), _row_empty),
    "rows4": Kind(row_specs, lambda s, salt: rows(s, 4, salt=salt), _row_empty),
    "rows2": Kind(row_specs, lambda s, salt: rows(s, 2, salt=salt), _row_empty),
    "cube": Kind(lambda q: [(a, b) for a in range(3) for b in range(3)] + [(1, 3), (3, 1)], lambda s, salt: values(s + (W,), "float32", salt + 1, 1.3), lambda s: "batch" if 0 in s else ""),
    "list": Kind(seq_specs, lambda s, salt: as_rep(seqs(s, salt=salt), "list"), _seq_empty),
    "ragged": Kind(seq_specs, lambda s, salt: as_rep(seqs(s, salt=salt), "ragged"), _seq_empty),
    "padded": Kind(seq_specs, lambda s, salt: as_rep(seqs(s, salt=salt), "padded"), _seq_empty),
    "ragged-tuple": Kind(seq_specs, lambda s, salt: as_rep(seqs(s, salt=salt), "ragged-tuple"), _seq_empty),
    "padded-tuple": Kind(seq_specs, lambda s, salt: as_rep(seqs(s, salt=salt), "padded-tuple"), _seq_empty),
    "nested": Kind(lambda q: [(), ((),), ((1,),), ((2, 1),), ((1,), (2,)), ((1, 2), (1,)), ((), (1,)), ((1,), ()), ((2,), (), (1, 1))],
                   lambda s, salt: [seqs(x, salt=salt + 11 * i) for i, x in enumerate(s)],
                   lambda s: "batch" if not s or not any(s) else ("zero" if () in s else "")),
    "nested1": Kind(lambda q: [(), ((),), ((1,),), ((1, 1),), ((1,), (1,)), ((1, 1), (1,)), ((), (1,)), ((1,), ()), ((1,), (), (1, 1))],
                    lambda s, salt: [seqs(x, salt=salt + 11 * i) for i, x in enumerate(s)],
                    lambda s: "batch" if not s or not any(s) else ("zero" if () in s else "")),
    "pair": Kind(row_specs, lambda s, salt: (rows(s, W, salt=salt), rows(s, W, salt=salt + 5)), _row_empty),
    "listpair": Kind(seq_specs, lambda s, salt: (seqs(s, salt=salt), seqs(s[::-1], salt=salt + 5)), _seq_empty),
    "ids": Kind(lambda q: [(), (0,), (3,), (3, 0), (2, 2), (1, 0, 1), (4, 4, 4), (0, 5, 3)], lambda s, salt: np.array(s, dtype="i"), lambda s: "" if s else "batch"),
    "ids2": Kind(lambda q: [(), ((0, 3),), ((3, 0), (3, 1)), ((2, 2), (2, 2)), ((1, 5), (0, 4), (1, 5)), ((1, 1), (2, 2), (3, 3))],
                 lambda s, salt: np.array(s, dtype="i").reshape(-1, 2), lambda s: "" if s else "batch"),
    "idlist": Kind(lambda q: list(compositions(3, 2)), lambda s, salt: [np.array([IDS[(i + 2 * j + salt) % 7] for j in range(n)], dtype="i") for i, n in enumerate(s)], _seq_empty),
    "idlist2": Kind(lambda q: list(compositions(3, 2)), lambda s, salt: [np.array([[IDS[(i + 2 * j) % 7], IDS[(3 + i + j) % 7]] for j in range(n)], dtype="i").reshape(-1, 2) for i, n in enumerate(s)], _seq_empty),
    "sparse": Kind(lambda q: list(compositions(3, 2)), lambda s, salt: (np.array([(7 * i + 3) % 5 for i in range(sum(s))], dtype="uint64"), values((sum(s),), "float32", salt + 4, 1.0), np.array(s, dtype="i")), _seq_empty),
}


# ---- entries -------------------------------------------------------------------------------------
class Entry:
    def __init__(self, name, build, kind, f32=False, ref=None, sample=None, tol=None, init=True, tags=(), refuse=(), params_only=False, no_grad=()):
        self.name, self._build, self.kind, self.f32, self.ref, self.tags = name, build, kind, f32, ref, set(tags)
        self._sample, self.tol, self._init = sample, tol, init
        self.refuse = set(refuse)  # classes of empty inputs that this layer does not accept
        self.params_only = params_only
        self.no_grad = no_grad

    def specs(self, quick):
        k = KINDS[self.kind]
        return [s for s in k.specs(quick) if k.empty(s) not in self.refuse]

    def empty(self, spec):
        return KINDS[self.kind].empty(spec)

    def data(self, spec, dtype="float32", salt=0):
        d = KINDS[self.kind].make(spec, salt)
        return cast(d, dtype)

    def sample(self):
        k = KINDS[self.kind]
        s = [s for s in k.specs(True) if k.empty(s) == ""]
        return k.make(s[-1], 0)

    def build(self, dtype="float32", salt=0, scale=0.7):
        np.random.seed(0)
        torch.manual_seed(0)
        m = self._build()
        if self._init:
            m.initialize(X=self.sample())
        fill(m, dtype, salt, scale)
        if self.has_torch():
            for n in nodes(m):
                for s in n.shims:
                    for k, p in enumerate(s._model.parameters()):
                        p.data = torch.tensor(values(tuple(p.shape), "float32", salt + 3 * k, scale))
        return m

    def has_torch(self):
        return "torch" in self.tags


def dense(cls, **kw):
    return lambda nO=2: cls(nO, **kw)


DENSE = {
    "Linear": dense(T.Linear), "Relu": dense(T.Relu), "Relu+norm": dense(T.Relu, normalize=True), "Maxout1": dense(T.Maxout, nP=1), "Maxout2": dense(T.Maxout, nP=2),
    "Maxout3": dense(T.Maxout), "Maxout2+norm": dense(T.Maxout, nP=2, normalize=True), "Mish": dense(T.Mish), "Mish+norm": dense(T.Mish, normalize=True),
    "Gelu": dense(T.Gelu), "Swish": dense(T.Swish), "HardSwish": dense(T.HardSwish), "HardSwishMobilenet": dense(T.HardSwishMobilenet), "Dish": dense(T.Dish),
    "ClippedLinear": dense(T.ClippedLinear), "ClippedLinear:b": dense(T.ClippedLinear, slope=0.7, offset=-0.2, min_val=-0.6, max_val=0.5),
    "ReluK": dense(T.ReluK), "ReluK:0.5": dense(T.ReluK, k=0.5), "HardSigmoid": dense(T.HardSigmoid), "HardTanh": dense(T.HardTanh), "Sigmoid": dense(T.Sigmoid),
    "Gelu+norm": dense(T.Gelu, normalize=True), "Relu+drop0": dense(T.Relu, dropout=0.0), "Maxout+norm+drop0": dense(T.Maxout, normalize=True, dropout=0.0),
}


def softmax_ref(nO, temperature=1.0):
    """The logits the gradient refers to."""
    def build():
        return T.Linear(nO)
    build.scale = 1.0 / temperature
    return build


class _Pt(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.a = torch.nn.Linear(W, 2)
        self.b = torch.nn.Linear(2, 2)

    def forward(self, x):
        return self.b(torch.tanh(self.a(x)))


def shared(f, mk):
    def build():
        m = mk()
        return f(m, m)
    return build


def make_entries():
    E = []

    def add(name, build, kind, **kw):
        E.append(Entry(name, build, kind, **kw))

    for name, mk in DENSE.items():
        add(name, mk, "rows", tags=("dense", "rowwise"))
    add("LayerNorm", lambda: T.LayerNorm(), "rows", tags=("rowwise",))
    add("Softmax", lambda: T.Softmax(3), "rows", ref=softmax_ref(3), tags=("rowwise", "softmax"))
    add("Softmax_v2", lambda: T.Softmax_v2(3), "rows", ref=softmax_ref(3), tags=("rowwise", "softmax"))
    add("Softmax_v2:T2", lambda: T.Softmax_v2(3, temperature=2.0), "rows", ref=softmax_ref(3, 2.0), tags=("rowwise", "softmax"))
    add("Softmax_v2:T0.5", lambda: T.Softmax_v2(3, temperature=0.5), "rows", ref=softmax_ref(3, 0.5), tags=("rowwise", "softmax"))
    add("MultiSoftmax", lambda: T.MultiSoftmax(nOs=(2, 3)), "rows", ref=softmax_ref(5), tags=("rowwise", "softmax"))
    add("MultiSoftmax:1", lambda: T.MultiSoftmax(nOs=(1, 2, 1)), "rows", ref=softmax_ref(4), tags=("rowwise", "softmax"))
    add("softmax_activation", lambda: T.softmax_activation(), "rows", tags=("rowwise",))
    add("sigmoid_activation", lambda: T.sigmoid_activation(), "rows", tags=("rowwise",))
    add("Logistic", lambda: T.Logistic(), "rows", tags=("rowwise",))
    add("noop", lambda: T.noop(), "rows", tags=("rowwise",))
    add("noop-list", lambda: T.noop(), "list", tags=("seqwise",))
    for rep in ("rows", "list", "ragged", "padded", "cube"):
        add(f"Dropout0-{rep}", lambda: T.Dropout(0.0), rep, tags=("seqwise",) if rep in ("list", "ragged", "padded") else ("rowwise",))
    add("getitem-int", lambda: T.array_getitem(1), "rows", refuse=("batch", "one"), tags=())
    add("getitem-slice", lambda: T.array_getitem(slice(0, 2)), "rows")
    add("getitem-rev", lambda: T.array_getitem(slice(None, None, -1)), "rows")
    add("getitem-col", lambda: T.array_getitem((slice(None), 1)), "rows")
    add("getitem-cols", lambda: T.array_getitem((slice(None), slice(1, 3))), "rows", tags=("rowwise",))
    add("getitem-fancy", lambda: T.array_getitem((slice(None), [2, 0, 2])), "rows", tags=("rowwise",))
    add("floats_getitem", lambda: T.chain(T.Linear(4), floats_getitem((slice(None), slice(1, 3)))), "rows", tags=("rowwise",))
    for w in (1, 2):
        add(f"expand_window{w}", lambda w=w: T.expand_window(w), "rows")
        add(f"expand_window{w}-ragged", lambda w=w: T.expand_window(w), "ragged", tags=("seqwise",))
        add(f"window{w}+Maxout", lambda w=w: T.chain(T.expand_window(w), T.Maxout(2, nP=2)), "rows")
    add("residual(Linear)", lambda: T.residual(T.Linear(W)), "rows", tags=("rowwise",))
    add("residual(window)", lambda: T.residual(T.chain(T.expand_window(1), T.Maxout(W, nP=2), T.LayerNorm())), "rows")
    for rep in ("list", "ragged", "padded"):
        add(f"residual-{rep}", lambda: T.residual(T.with_array2d(T.Mish(W))), rep, tags=("seqwise",))
    add("clone3", lambda: T.clone(T.Mish(W), 3), "rows", tags=("rowwise",))
    add("add-shared", shared(T.add, lambda: T.Mish(2)), "rows", tags=("rowwise",))
    add("concat-shared", shared(T.concatenate, lambda: T.Mish(2)), "rows", tags=("rowwise",))
    add("chain-shared", shared(T.chain, lambda: T.Mish(W)), "rows", tags=("rowwise",))
    add("tuplify-shared", shared(T.tuplify, lambda: T.Mish(2)), "rows", tags=("rowwise",))
    add("tuplify", lambda: T.tuplify(T.Linear(2), T.Maxout(1, nP=2), T.noop()), "rows", tags=("rowwise",))
    add("tuplify-with_getitem", lambda: T.chain(T.tuplify(T.Linear(2), T.Mish(W)), T.with_getitem(1, T.Mish(2))), "rows", tags=("rowwise",))
    add("with_getitem0", lambda: T.with_getitem(0, T.Mish(2)), "pair", tags=("rowwise",))
    add("with_getitem1", lambda: T.with_getitem(1, T.Mish(2)), "pair", tags=("rowwise",))
    add("add3", lambda: T.add(T.Linear(2), T.Mish(2), T.Relu(2)), "rows", tags=("rowwise",))
    add("add-nested", lambda: T.add(T.add(T.Linear(2), T.Mish(2)), T.Relu(2)), "rows", tags=("rowwise",))
    add("concat3", lambda: T.concatenate(T.Linear(2), T.Mish(1), T.Relu(2)), "rows", tags=("rowwise",))
    add("concat-nested", lambda: T.concatenate(T.Linear(1), T.concatenate(T.Mish(2), T.Relu(1)), T.noop()), "rows", tags=("rowwise",))
    add("resizable", lambda: T.resizable(T.Linear(2, nI=W), resize_layer=resize_linear_weighted), "rows", tags=("rowwise",))
    add("with_cpu", lambda: T.with_cpu(T.Mish(2), OPS), "rows", tags=("rowwise",), init=False) if False else None
    add("with_nvtx_range", lambda: T.with_nvtx_range(T.Mish(2)), "rows", tags=("rowwise",))
    add("with_debug", lambda: T.with_debug(T.Mish(2)), "rows", tags=("rowwise",))
    add("with_reshape", lambda: T.with_reshape(T.Mish(2)), "cube", tags=("rowwise",), refuse=("batch",))
    add("with_signpost", lambda: T.Mish(2), "rows", tags=("rowwise",))
    # pairs
    add("CauchySimilarity", lambda: T.CauchySimilarity(), "pair", tags=("rowwise",))
    add("siamese", lambda: T.siamese(T.Mish(2, nI=W), T.CauchySimilarity(nI=2)), "pair", tags=("rowwise",))
    add("map_list-rows", lambda: T.map_list(T.Mish(2)), "list", tags=("seqwise",), refuse=())
    add("map_list-window", lambda: T.map_list(T.chain(T.expand_window(1), T.Relu(2))), "list", tags=("seqwise",))
    # conversions and pooling
    add("list2array", lambda: T.list2array(), "list", refuse=("batch",))
    add("list2ragged", lambda: T.list2ragged(), "list", refuse=("batch",), tags=("seqwise",))
    add("list2padded", lambda: T.list2padded(), "list", tags=("seqwise",))
    add("padded2list", lambda: T.padded2list(), "padded", tags=("seqwise",))
    add("ragged2list", lambda: T.ragged2list(), "ragged", tags=("seqwise",))
    add("list>ragged>list", lambda: T.chain(T.list2ragged(), T.with_array(T.Mish(2)), T.ragged2list()), "list", refuse=("batch",), tags=("seqwise",))
    add("list>padded>list", lambda: T.chain(T.list2padded(), T.with_array2d(T.Mish(2)), T.padded2list()), "list", tags=("seqwise",))
    for red in ("reduce_sum", "reduce_mean", "reduce_max", "reduce_first", "reduce_last"):
        f = getattr(T, red)
        # first, last and maximum have no definition for a sequence without items
        no = () if red in ("reduce_sum", "reduce_mean") else ("zero", "allzero")
        add(red, f, "ragged", refuse=no, tags=("pooled",))
        add(f"list>{red}>Linear", lambda f=f: T.chain(T.list2ragged(), f(), T.Linear(2)), "list", refuse=no + ("batch",), tags=("pooled",))
        add(f"window>{red}", lambda f=f: T.chain(T.with_array(T.chain(T.expand_window(1), T.Maxout(2, nP=2)), pad=1), T.list2ragged(), f()), "list", refuse=no + ("batch",), tags=("pooled",))
    add("pool-concat", lambda: T.chain(T.list2ragged(), T.concatenate(T.reduce_sum(), T.reduce_mean(), T.reduce_max()), T.Linear(2)), "list", refuse=("batch", "zero", "allzero"), tags=("pooled",))
    add("ParametricAttention", lambda: T.ParametricAttention(), "ragged", tags=("seqwise",))
    add("ParametricAttention_v2", lambda: T.ParametricAttention_v2(), "ragged", tags=("seqwise",))
    add("ParametricAttention_v2+key", lambda: T.ParametricAttention_v2(key_transform=T.Mish(W)), "ragged", tags=("seqwise",))
    add("attention>sum>Linear", lambda: T.chain(T.list2ragged(), T.ParametricAttention(), T.reduce_sum(), T.Linear(2)), "list", refuse=("batch",), tags=("pooled",))
    # wrappers over sequence representations
    for rep in ("list", "ragged", "padded"):
        for pad in (0, 1):
            inner = (lambda: T.sigmoid_activation()) if rep == "padded" else (lambda: T.Mish(2))  # a layer for 3d arrays
            add(f"with_array:{pad}-{rep}", lambda pad=pad, inner=inner: T.with_array(inner(), pad=pad), rep, tags=("seqwise",))
            add(f"with_array2d:{pad}-{rep}", lambda pad=pad: T.with_array2d(T.Mish(2), pad=pad), rep, tags=("seqwise",))
        add(f"with_array-norm-{rep}", lambda: T.with_array2d(T.Maxout(2, nP=2, normalize=True)), rep, tags=("seqwise",), refuse=())
        add(f"with_list-{rep}", lambda: T.with_list(T.map_list(T.chain(T.expand_window(1), T.Mish(2)))), rep, tags=("seqwise",))
        add(f"with_ragged-{rep}", lambda: T.with_ragged(T.ParametricAttention()), rep, tags=("seqwise",))
        add(f"with_ragged2-{rep}", lambda: T.with_ragged(T.chain(T.expand_window(1), T.with_array(T.Relu(2)))), rep, tags=("seqwise",))
        add(f"with_padded-{rep}", lambda: T.with_padded(T.with_array2d(T.Mish(2))), rep, tags=("seqwise",))
        add(f"with_ragged(with_list)-{rep}", lambda: T.with_ragged(T.with_list(T.map_list(T.Mish(2)))), rep, tags=("seqwise",))
        add(f"with_list(with_padded)-{rep}", lambda: T.with_list(T.with_padded(T.with_array2d(T.Mish(2)))), rep, tags=("seqwise",))
        add(f"with_padded(with_ragged)-{rep}", lambda: T.with_padded(T.with_ragged(T.with_array(T.Mish(2)))), rep, tags=("seqwise",))
        add(f"LSTM-{rep}", lambda: T.with_padded(T.LSTM(2, W)), rep, tags=("seqwise", "lstm"), f32=True)
        add(f"biLSTM-{rep}", lambda: T.with_padded(T.LSTM(4, W, bi=True)), rep, tags=("seqwise", "lstm"), f32=True)
        add(f"LSTM2-{rep}", lambda: T.with_padded(T.LSTM(2, W, depth=2)), rep, tags=("seqwise", "lstm"), f32=True)
        add(f"PyTorchLSTM-{rep}", lambda: T.with_padded(PyTorchLSTM(2, W)), rep, tags=("seqwise", "torch"), f32=True)
        add(f"PyTorchLSTM-bi-{rep}", lambda: T.with_padded(PyTorchLSTM(4, W, bi=True, depth=2)), rep, tags=("seqwise", "torch"), f32=True)
        if rep != "padded":
            add(f"concat-{rep}", lambda: T.concatenate(T.with_array(T.Mish(2)), T.with_array(T.Relu(1)), T.noop()), rep, tags=("seqwise",))
    add("bidirectional(LSTM)", lambda: T.bidirectional(T.LSTM(2, W)), "padded", tags=("seqwise", "lstm"), f32=True)
    add("bidirectional(PyTorchLSTM)", lambda: T.bidirectional(PyTorchLSTM(2, W)), "padded", tags=("seqwise", "torch"), f32=True)
    add("bidirectional(with_array)", lambda: T.bidirectional(T.with_array2d(T.Mish(2))), "padded", tags=("seqwise",))
    add("with_ragged-tuple", lambda: T.with_ragged(T.ParametricAttention(nO=W)), "ragged-tuple", tags=("seqwise",))
    add("with_padded-tuple", lambda: T.with_padded(T.with_array2d(T.Mish(2))), "padded-tuple", tags=("seqwise",))
    add("with_padded-array", lambda: T.with_padded(T.with_array2d(T.Mish(2))), "cube", tags=())
    add("with_array-array", lambda: T.with_array(T.Mish(2)), "rows", tags=("rowwise",))
    add("with_array2d-array", lambda: T.with_array2d(T.Mish(2)), "rows", tags=("rowwise",))
    add("with_flatten", lambda: T.with_flatten(T.list2array()), "nested1", tags=())
    add("with_flatten_v2", lambda: with_flatten_v2(T.map_list(T.Mish(2))), "nested", tags=())
    add("PyTorchWrapper", lambda: T.PyTorchWrapper(_Pt()), "rows", tags=("rowwise", "torch"), f32=True)
    # ids
    add("Embed", lambda: T.Embed(2, 6), "ids", tags=("ids",))
    add("Embed:column", lambda: T.Embed(2, 6, column=1), "ids2", tags=("ids",))
    add("uniqued(Embed)", lambda: T.uniqued(T.Embed(2, 6, column=0), column=0), "ids2", tags=("ids",), f32=True)
    add("HashEmbed", lambda: T.HashEmbed(2, 5, seed=3), "ids", f32=True, tags=("ids",))
    add("HashEmbed:column", lambda: T.HashEmbed(2, 5, seed=1, column=1), "ids2", f32=True, tags=("ids",))
    add("uniqued(HashEmbed)", lambda: T.uniqued(T.HashEmbed(2, 5, seed=1, column=1), column=1), "ids2", tags=("ids",), f32=True)
    add("embed-features", lambda: T.chain(T.concatenate(T.Embed(2, 6, column=0), T.HashEmbed(1, 4, seed=2, column=1)), T.Maxout(2, nP=2)), "ids2", f32=True, tags=("ids",))
    add("with_array(Embed)", lambda: T.with_array(T.Embed(2, 6)), "idlist", tags=("ids", "seqwise"))
    add("with_array(features)", lambda: T.with_array(T.chain(T.concatenate(T.Embed(2, 6, column=0), T.Embed(1, 6, column=1)), T.Mish(2))), "idlist2", tags=("ids", "seqwise"))
    add("remap>Embed", lambda: T.chain(T.remap_ids({0: 3, 3: 1, 1: 0}, default=2), T.Embed(2, 6)), "ids", tags=("ids",), params_only=True)
    add("SparseLinear", lambda: T.SparseLinear(2, length=8), "sparse", f32=True, tags=("sparse",), params_only=True)
    add("SparseLinear_v2", lambda: T.SparseLinear_v2(2, length=7), "sparse", f32=True, tags=("sparse",), params_only=True)
    return [e for e in E if e is not None]


# the width of an empty list or padded batch is unknown, so that layers with weights cannot accept it
REFUSE_BATCH = """
bidirectional(with_array)
concat-list
list>padded>list
residual-list
residual-padded
with_array(Embed)
with_array(features)
with_array-norm-list
with_array-norm-padded
with_array2d:0-list
with_array2d:0-padded
with_array2d:1-list
with_array2d:1-padded
with_array:0-list
with_array:1-list
with_list(with_padded)-list
with_list(with_padded)-padded
with_list(with_padded)-ragged
with_padded(with_ragged)-list
with_padded(with_ragged)-padded
with_padded(with_ragged)-ragged
with_padded-list
with_padded-padded
with_padded-ragged
with_padded-tuple
with_ragged-list
with_ragged-padded
with_ragged2-list
with_ragged2-padded
""".split()
ENTRIES = {e.name: e for e in make_entries()}
for _n in REFUSE_BATCH:
    ENTRIES[_n].refuse.add("batch")
for _n, _e in ENTRIES.items():
    if "PyTorchLSTM" in _n:  # refused by torch
        _e.refuse |= {"batch", "allzero"}


# ---- expression trees over rows ------------------------------------------------------------------
LEAF = {
    "L": lambda o: T.Linear(o), "R": lambda o: T.Relu(o), "M": lambda o: T.Maxout(o, nP=2), "m": lambda o: T.Mish(o), "N": lambda o: T.Maxout(o, nP=2, normalize=True),
}


def trees(leaf, n):
    """All trees with n leaves from the given leaf labels; binary nodes: chain '>', add '+', concatenate '|'."""
    if n == 1:
        for x in leaf:
            yield x
        return
    for k in range(1, n):
        for a in trees(leaf, k):
            for b in trees(leaf, n - k):
                for op in (">", "+", "|", "=" ):
                    if op == "=" and n != 2:
                        continue
                    if op == "=" and a != b:
                        continue
                    yield (op, a, b)


def tree_model(t, o=2, win=W):
    """Build a tree with explicit sizes; returns (model, output width). '=' shares one layer: add(x, x)."""
    if isinstance(t, str):
        if t == "I":
            return T.noop(), win
        if t == "r":  # a residual block
            return T.residual(T.Mish(win, win)), win
        if t == "w":
            return T.chain(T.expand_window(1), T.Relu(o, win * 3)), o
        if t == "n":
            return T.LayerNorm(win), win
        m = LEAF[t](o)
        m.set_dim("nI", win) if m.has_dim("nI") is None else None
        return m, o
    op, a, b = t
    if op == ">":
        ma, wa = tree_model(a, o, win)
        mb, wb = tree_model(b, o, wa)
        return T.chain(ma, mb), wb
    if op == "=":
        ma, wa = tree_model(a, o, win)
        return T.add(ma, ma), wa
    ma, wa = tree_model(a, o, win)
    mb, wb = tree_model(b, o, win)
    if op == "|":
        return T.concatenate(ma, mb), wa + wb
    if wa != wb:
        raise ValueError("widths")
    return T.add(ma, mb), wa


# ---- layers with noise ---------------------------------------------------------------------------
class _PtDrop(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.a = torch.nn.Linear(W, 2)
        self.d = torch.nn.Dropout(0.5)
        self.n = torch.nn.BatchNorm1d(2)

    def forward(self, x):
        return self.n(self.d(self.a(x)))


def make_noisy():
    E = []
    for rep in ("rows", "list", "ragged", "padded", "cube"):
        E.append(Entry(f"Dropout-{rep}", lambda: T.Dropout(0.5), rep, tags=("noise",)))
    for cls in ("Relu", "Maxout", "Mish", "Gelu", "Swish", "HardSwish", "HardSwishMobilenet", "Dish", "ClippedLinear", "HardSigmoid", "HardTanh", "ReluK"):
        E.append(Entry(f"{cls}+drop", lambda cls=cls: getattr(T, cls)(2, dropout=0.5), "rows", tags=("noise",)))
    E.append(Entry("Maxout+norm+drop", lambda: T.Maxout(2, dropout=0.5, normalize=True), "rows", tags=("noise",)))
    E.append(Entry("Embed+drop", lambda: T.Embed(2, 6, dropout=0.5), "ids", tags=("noise",)))
    E.append(Entry("HashEmbed+drop", lambda: T.HashEmbed(2, 5, seed=3, dropout=0.5), "ids", tags=("noise",), f32=True))
    E.append(Entry("LSTM+drop", lambda: T.with_padded(T.LSTM(2, W, dropout=0.5)), "list", tags=("noise", "lstm"), f32=True))
    E.append(Entry("window+drop", lambda: T.with_array(T.residual(T.chain(T.expand_window(1), T.Maxout(W, nP=2, dropout=0.3, normalize=True))), pad=1), "list", tags=("noise",), refuse=("batch",)))
    E.append(Entry("PyTorch+drop", lambda: T.PyTorchWrapper(_PtDrop()), "rows", tags=("noise", "torch"), f32=True, refuse=("batch", "one")))
    return {e.name: e for e in E}


NOISY = make_noisy()
