"""C24: objects built from configs equal the ones built in code; config text keeps every value; bad settings are refused."""
import copy
import functools
import itertools
import types

import catalogue
import numpy as np
import torch
from mc import zoo
from mc.util import values
from thinc import api as T
from thinc import config as TC
from thinc.api import Config, ConfigValidationError, Model, registry
from thinc.layers.clipped_linear import ClippedLinear, HardSigmoid, HardTanh, ReluK  # noqa: F401
from thinc.layers.premap_ids import premap_ids
from thinc.layers.remap_ids import remap_ids, remap_ids_v2
from thinc.layers.sparselinear import SparseLinear, SparseLinear_v2
from thinc.layers.with_flatten import with_flatten
from thinc.layers.with_flatten_v2 import with_flatten_v2
from thinc.loss import Loss
from thinc.schedules import Schedule
from thinc.types import Padded, Ragged

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of config trees on the real registry: every registered function with every combination of a bounded number of explicit arguments, every tree of composed blocks up to a depth, every override and reference position, every single-setting corruption; oracle: the object made by calling the public function with the same arguments, compared by structure and by behaviour (initialized parameters, outputs, gradients, schedule values, updates, losses)"
NOTE = "all registered functions; up to 2 explicit arguments at once (thorough 3) besides the required ones, over 2-3 values each; composed trees of up to 4 leaves; each built from a dict, from text, from bytes, from disk, from a filled config and unvalidated."
RULE = "state = one config tree; transition = resolve, fill, write, read, override, interpolate, merge or corrupt one setting"
ASSUMPTIONS = ["values that can be cast to a declared basic type count as that type", "a list setting for an optimizer may hold anything (it counts as a generator)", "integer mapping keys cannot be written in a config", "number settings are compared by value: 1 and 1.0 are equal"]

# ---- what the names in the registry stand for ----------------------------------------------------------------
I = lambda f: (lambda **kw: functools.partial(f, **kw) if kw else f)
PUB = {
    "layers:ParametricAttention.v2": T.ParametricAttention_v2, "layers:PyTorchWrapper.v2": T.PyTorchWrapper_v2, "layers:PyTorchWrapper.v3": T.PyTorchWrapper_v3,
    "layers:Softmax.v2": T.Softmax_v2, "layers:SparseLinear.v1": SparseLinear, "layers:SparseLinear.v2": SparseLinear_v2, "layers:chain.v1": T.chain,
    "layers:remap_ids.v1": remap_ids, "layers:remap_ids.v2": remap_ids_v2, "layers:premap_ids.v1": premap_ids, "layers:with_flatten.v1": with_flatten,
    "layers:with_flatten.v2": with_flatten_v2, "losses:CategoricalCrossentropy.v1": T.CategoricalCrossentropy, "losses:CategoricalCrossentropy.v2": T.CategoricalCrossentropy,
    "losses:CategoricalCrossentropy.v3": T.CategoricalCrossentropy, "losses:SequenceCategoricalCrossentropy.v1": T.SequenceCategoricalCrossentropy,
    "losses:SequenceCategoricalCrossentropy.v2": T.SequenceCategoricalCrossentropy, "losses:SequenceCategoricalCrossentropy.v3": T.SequenceCategoricalCrossentropy,
    "losses:CosineDistance.v1": T.CosineDistance, "losses:L2Distance.v1": T.L2Distance,
}
from thinc import initializers as _init  # noqa: E402

for _n in ("glorot_normal_init", "glorot_uniform_init", "he_normal_init", "he_uniform_init", "lecun_normal_init", "lecun_uniform_init", "normal_init", "uniform_init", "zero_init"):
    PUB[f"initializers:{_n}.v1"] = I(getattr(_init, _n))


def public(reg, name):
    key = f"{reg}:{name}"
    return PUB[key] if key in PUB else getattr(T, name.rsplit(".v", 1)[0])


def code(v):
    """The object a config value stands for, made by calling the public functions."""
    if isinstance(v, dict):
        ref = [k for k in v if k.startswith("@")]
        if ref:
            star = v.get("*", [])
            args = [code(x) for x in (star.values() if isinstance(star, dict) else star)]
            kw = {k: code(x) for k, x in v.items() if k not in (ref[0], "*")}
            return public(ref[0][1:], v[ref[0]])(*args, **kw)
        return {k: code(x) for k, x in v.items()}
    if isinstance(v, list):
        return [code(x) for x in v]
    return v


# ---- observing what was built ----------------------------------------------------------------------------------
def plain(v, depth=0):
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    if isinstance(v, (int, float, np.number)):
        return float(v)
    if v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, torch.Tensor):
        return plain(v.detach().numpy())
    if isinstance(v, (Ragged, Padded)):
        return (type(v).__name__,) + tuple(plain(a) for a in zoo.leaves(v))
    if isinstance(v, (list, tuple)):
        return ["sequence"] + [plain(x, depth) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x, depth) for k, x in v.items()}
    if isinstance(v, functools.partial):
        if not v.args and not v.keywords:
            return plain(v.func, depth)
        return ("partial", plain(v.func, depth), plain(list(v.args), depth), plain(v.keywords, depth))
    if isinstance(v, Model):
        return ("model", v.name)
    if isinstance(v, Schedule):
        return schedule(v)
    if isinstance(v, torch.nn.Module):
        return ("torch", repr(v), {k: plain(x) for k, x in v.state_dict().items()})
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, type)):
        out = [getattr(v, "__module__", None), getattr(v, "__qualname__", None)]
        if depth < 3 and getattr(v, "__closure__", None):
            out.append([plain(c.cell_contents, depth + 1) for c in v.__closure__ if _filled(c)])
        return out
    if isinstance(v, types.MethodType):
        return [plain(v.__func__), type(v.__self__).__name__]
    if isinstance(v, T.Ops):
        return (type(v).__name__, v.device_type, v.device_id, v.use_blis)
    return type(v).__name__


def _filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def structure(m):
    out = []
    ns = zoo.nodes(m)
    where = {id(n): i for i, n in enumerate(ns)}
    for n in ns:
        dims = {d: (n.get_dim(d) if n.has_dim(d) else None) for d in n.dim_names}
        par = {p: (plain(n.get_param(p)) if n.has_param(p) else None) for p in n.param_names}
        refs = {r: (where.get(id(n.get_ref(r)), "outside") if n.has_ref(r) else None) for r in n.ref_names}
        out.append({"name": n.name, "dims": dims, "params": par, "attrs": {k: plain(a) for k, a in n.attrs.items()}, "refs": refs, "layers": [where[id(c)] for c in n.layers], "ops": plain(n.ops),
                    "shims": [[type(s).__name__, plain(getattr(s, "_model", None)), plain(getattr(s, "_mixed_precision", None)), plain(getattr(s, "cfg", None))] for s in n.shims], "forward": plain(n._func), "init": plain(n.init)})
    return out


def schedule(s):
    out = []
    for step in range(12):
        try:
            out.append(plain(s(step, key=(1, "W"), last_score=(step // 3 * 3, 1.0))))
        except Exception as e:
            out.append(type(e).__name__)
    return ("schedule", s.name, out)


F = lambda *shape: values(shape)
DATA = {
    "f": lambda: (F(3, 2), F(3, 3)), "f4": lambda: (F(3, 2), F(3, 4)), "f22": lambda: (F(3, 2), F(3, 2)), "pair": lambda: ((F(3, 2), values((3, 2), salt=3)), F(3)),
    "ids": lambda: (np.array([1, 0, 2, 1], dtype="uint64"), F(4, 3)), "ids2": lambda: (np.array([[1, 0], [2, 3], [1, 0]], dtype="uint64"), F(3, 3)),
    "ids32": lambda: (np.array([[1], [2], [1], [0]], dtype="int32"), F(4, 3)),
    "ragged": lambda: (zoo.as_rep([F(2, 2), values((3, 2), salt=2)], "ragged"), None), "padded": lambda: (zoo.as_rep([F(2, 2), values((3, 2), salt=2)], "padded"), None),
    "list": lambda: ([F(2, 2), values((3, 2), salt=2)], None), "strs": lambda: (["b", "a", "b", "zz"], None), "strss": lambda: ([["b", "a"], ["b", "zz"]], None),
    "nested": lambda: ([[F(2, 2)], [F(1, 2), F(3, 2)]], None), "f3": lambda: (F(2, 3, 2), None),
    "sparse": lambda: ((np.array([3, 5, 3], dtype="uint64"), np.array([0.5, 1.0, 2.0], dtype="float32"), np.array([2, 1], dtype="int32")), F(2, 3)), "none": lambda: (None, None),
    "tup": lambda: ((F(3, 2), values((3, 2), salt=4)), None), "listlist": lambda: ([[F(2), F(2)], [F(2)]], None), "mixed": lambda: ([F(2, 2), F(3, 2)], F(5, 2)),
}


def behaviour(m, data):
    """What an initialized model does with sample data; failures are part of the observation."""
    out = []
    X, Y = DATA[data]()
    np.random.seed(5)
    torch.manual_seed(5)
    try:
        m.initialize(X=X, Y=Y) if X is not None else m.initialize()
        out.append(structure(m))
    except Exception as e:
        out.append(("init", type(e).__name__))
    if X is None:
        return out
    for train in (False, True):
        np.random.seed(7)
        try:
            Yh, back = m(DATA[data]()[0], is_train=train)
            out.append(plain(Yh))
            if train:
                out.append(plain(back(zoo.gradient_for(Yh, 3))))
                out.append([plain(g) for n in zoo.nodes(m) for g in [n.get_grad(p) for p in n.param_names if n.has_grad(p)]])
        except Exception as e:
            out.append(("call", type(e).__name__))
    return out


def optimizer(o):
    out = [getattr(o, "use_radam", None), plain(getattr(o, "L2_is_weight_decay", None)), getattr(o, "averages", 0) is None]
    w, wb = values((3, 2)).copy(), values((2,), salt=2).copy()
    for step in range(5):
        try:
            w, g = o((1, "W"), w, values((3, 2), salt=10 + step, scale=2.0))
            wb, g = o((1, "b"), wb, values((2,), salt=20 + step, scale=0.2))
            o.step_schedules()
            out.append([plain(w), plain(wb), plain(o.learn_rate(o.step)) if isinstance(o.learn_rate, Schedule) else None])
        except Exception as e:
            out.append(type(e).__name__)
    out.append({str(k): plain(v) for k, v in (o.averages or {}).items()})
    return out


SEQ_TRUTHS = ([["a", "b"], ["!a"]], [["b", "~c"], ["a"]], [[0, 1], [1]], [["a", ""], ["b"]])
TRUTHS = (["a", "b"], ["!a", "b"], ["~a", "c"], ["x", "a"], [0, 1], [1, 2], ["", "b"])


def loss(l):
    out = [type(l).__name__, {k: plain(v) for k, v in vars(l).items()}]
    P = np.array([[0.7, 0.2, 0.1], [0.1, 0.3, 0.6]], dtype="float32")
    if isinstance(l, T.SequenceCategoricalCrossentropy):
        calls = [([P, P[:1]], t) for t in SEQ_TRUTHS]
    elif isinstance(l, T.CategoricalCrossentropy):
        calls = [(P, t) for t in TRUTHS] + [(P, np.array([1, 0])), (P, np.array([[1, 0, 0], [0, 0, 1.0]], dtype="float32"))]
    else:
        calls = [(P, P[::-1].copy()), (P, np.zeros_like(P)), (P, np.array([[1, 0, 0], [0, 0, 0]], dtype="float32"))]
    for guess, truth in calls:
        try:
            out.append([plain(l.get_grad(zoo.copy(guess), truth)), plain(l.get_loss(zoo.copy(guess), truth))])
        except Exception as e:
            out.append(type(e).__name__)
    return out


def initializer(f):
    out = []
    for shape in ((3, 2), (4,), (0, 2), (2, 3, 2)):
        np.random.seed(11)
        try:
            out.append(plain(f(T.NumpyOps(), shape)))
        except Exception as e:
            out.append(type(e).__name__)
    return out


def built(mk):
    """Build something with node ids counted from the same start (a HashEmbed without a seed uses its id)."""
    Model.global_id = 1000
    torch.manual_seed(9)
    return mk()


def observe(reg, obj, data):
    if reg == "layers":
        return [structure(obj)] + behaviour(obj, data)
    if reg == "optimizers":
        return optimizer(obj)
    if reg == "schedules":
        return [schedule(obj), plain(obj.attrs)]
    if reg == "losses":
        return loss(obj)
    if reg == "initializers":
        return initializer(obj)
    return plain(obj)


def same(a, b):
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (isinstance(a, float) and a != a and b != b)


def where(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + list(b):
            if k not in a or k not in b:
                return f"{path}.{k} only on one side"
            if not same(a[k], b[k]):
                return where(a[k], b[k], f"{path}.{k}")
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return where(x, y, f"{path}[{i}]")
    return f"{path}: {str(a)[:110]} != {str(b)[:110]}"


# ---- the argument tables ------------------------------------------------------------------------------------------
def P(reg, name, **kw):
    return {f"@{reg}": name, **kw}


LIN = P("layers", "Linear.v1", nO=2, nI=2)
RELU = P("layers", "Relu.v1", nO=2)
UNI = P("initializers", "uniform_init.v1", lo=-0.5, hi=0.25)
NORM = P("initializers", "normal_init.v1", mean=0.5, fan_in=4)
ZERO = P("initializers", "zero_init.v1")
CONST = P("schedules", "constant.v1", rate=0.25)
DECAY = P("schedules", "decaying.v1", base_rate=0.5, decay=0.1)
WARM = P("schedules", "warmup_linear.v1", initial_rate=0.01, warmup_steps=2, total_steps=8)

# argument -> (type, is it required, values)
o_int = lambda *v: ("oint", False, [None, *v])
INIT = {"init_W": ("ocallable", False, [None, UNI, ZERO]), "init_b": ("ocallable", False, [None, NORM])}
IO = {"nO": o_int(3), "nI": o_int(2)}
DROP = {"dropout": ("ofloat", False, [None, 0.0, 0.25])}
DENSE = {**IO, **INIT, **DROP, "normalize": ("bool", False, [False, True])}
LAYER = {"layer": ("model", True, [LIN, RELU])}
SCHED = lambda default: ("sched", False, [default, [0.5, 0.25, 0.125, 0.1, 0.01, 0.001, 0.002, 0.003, 0.004, 0.005, 0.006, 0.007], DECAY, 0])
OPT = {"L2": ("sched", False, [0.0, 0.25, CONST]), "grad_clip": ("sched", False, [1.0, 0.5, 0.0]), "L2_is_weight_decay": ("bool", False, [True, False]), "use_averages": ("bool", False, [True, False])}
BETAS = {"beta1": ("sched", False, [0.9, 0.5, CONST]), "beta2": ("sched", False, [0.999, 0.5, CONST]), "eps": ("sched", False, [1e-08, 0.125])}
LOSSY = {"normalize": ("bool", False, [True, False])}
NAMES = {"names": ("ostrs", False, [None, ["a", "b", "c"]])}
MISSING = {"missing_value": ("omissing", False, [None, "x", "", 1])}
NEG = {"neg_prefix": ("ostr", False, [None, "!", "~"])}
SMOOTH = {"label_smoothing": ("float", False, [0.0, 0.1])}
NOARGS = {}
STAR = {"a": LIN, "b": RELU, "c": P("layers", "Sigmoid.v1", nO=2)}

TABLE = {
    "layers:CauchySimilarity.v1": ("pair", {"nI": o_int(2)}),
    "layers:ClippedLinear.v1": ("f", {**DENSE, "slope": ("float", False, [1.0, 0.5]), "offset": ("float", False, [0.0, 0.25]), "min_val": ("float", False, [0.0, -0.5]), "max_val": ("float", False, [1.0, 0.75])}),
    "layers:Dish.v1": ("f", DENSE), "layers:Gelu.v1": ("f", DENSE), "layers:HardSigmoid.v1": ("f", DENSE), "layers:HardSwish.v1": ("f", DENSE), "layers:HardSwishMobilenet.v1": ("f", DENSE),
    "layers:HardTanh.v1": ("f", DENSE), "layers:Mish.v1": ("f", DENSE), "layers:Relu.v1": ("f", DENSE), "layers:Swish.v1": ("f", DENSE), "layers:ReluK.v1": ("f", {**DENSE, "k": ("float", False, [6.0, 0.25])}),
    "layers:Maxout.v1": ("f", {**DENSE, "nP": o_int(3, 2, 1)}),
    "layers:Dropout.v1": ("f", {"rate": ("float", False, [0.0, 0.25, 1])}),
    "layers:Embed.v1": ("ids2", {"nO": o_int(3), "nV": o_int(5), "column": ("oint", False, [None, 0, 1]), "initializer": ("ocallable", False, [None, UNI, ZERO]), **DROP}),
    "layers:HashEmbed.v1": ("ids2", {"nO": ("int", True, [3, 4]), "nV": ("int", True, [5, 20]), "seed": ("oint", False, [None, 0, 7]), "column": ("oint", False, [None, 0, 1]), "initializer": ("ocallable", False, [None, UNI, ZERO]), **DROP}),
    "layers:LSTM.v1": ("padded", {"nO": ("oint", True, [3, 4]), "nI": o_int(2), "bi": ("bool", False, [False, True]), "depth": ("int", False, [1, 2]), "dropout": ("float", False, [0.0, 0.25]), **INIT}),
    "layers:PyTorchLSTM.v1": ("padded", {"nO": ("int", True, [3, 4]), "nI": ("int", True, [2]), "bi": ("bool", False, [False, True]), "depth": ("int", False, [1, 2]), "dropout": ("float", False, [0.0, 0.25])}),
    "layers:LayerNorm.v1": ("f22", {"nI": o_int(2)}), "layers:Linear.v1": ("f", {**IO, **INIT}), "layers:Sigmoid.v1": ("f", {**IO, **INIT}), "layers:Softmax.v1": ("f", {**IO, **INIT}),
    "layers:Softmax.v2": ("f", {**IO, **INIT, "normalize_outputs": ("bool", False, [True, False]), "temperature": ("float", False, [1.0, 0.5, 2])}),
    "layers:Logistic.v1": ("f", NOARGS), "layers:sigmoid_activation.v1": ("f", NOARGS), "layers:softmax_activation.v1": ("f", NOARGS),
    "layers:MultiSoftmax.v1": ("f4", {"nOs": ("ints", True, [[3], [1, 3], [2, 2]]), "nI": o_int(2)}),
    "layers:ParametricAttention.v1": ("ragged", {"nO": o_int(2)}), "layers:ParametricAttention.v2": ("ragged", {"nO": o_int(2), "key_transform": ("omodel", False, [None, LIN, RELU])}),
    "layers:SparseLinear.v1": ("sparse", {"nO": o_int(3), "length": ("int", False, [262144, 64])}), "layers:SparseLinear.v2": ("sparse", {"nO": o_int(3), "length": ("int", False, [262144, 64])}),
    "layers:bidirectional.v1": ("padded", {"l2r": ("model", True, [P("layers", "PyTorchLSTM.v1", nO=2, nI=2), P("layers", "with_array.v1", layer=LIN)]), "r2l": ("omodel", False, [None, P("layers", "with_array.v1", layer=RELU)])}),
    "layers:clone.v1": ("f22", {"orig": ("model", True, [LIN, P("layers", "Maxout.v1", nO=2, nI=2, normalize=True)]), "n": ("int", True, [1, 2, 3])}),
    "layers:expand_window.v1": ("f", {"window_size": ("int", False, [1, 2, 0])}),
    "layers:list2array.v1": ("list", NOARGS), "layers:list2padded.v1": ("list", NOARGS), "layers:list2ragged.v1": ("list", NOARGS), "layers:padded2list.v1": ("padded", NOARGS), "layers:ragged2list.v1": ("ragged", NOARGS),
    "layers:reduce_first.v1": ("ragged", NOARGS), "layers:reduce_last.v1": ("ragged", NOARGS), "layers:reduce_max.v1": ("ragged", NOARGS), "layers:reduce_mean.v1": ("ragged", NOARGS), "layers:reduce_sum.v1": ("ragged", NOARGS),
    "layers:remap_ids.v1": ("strs", {"mapping_table": ("omap", False, [{"a": 4, "b": 2}]), "default": ("int", False, [0, 9]), "dtype": ("dtype", False, ["i", "int64", "float32"])}),
    "layers:remap_ids.v2": ("strs", {"mapping_table": ("omap", False, [{"a": 4, "b": 2}]), "default": ("int", False, [0, 9]), "column": ("oint", False, [None, 0])}),
    "layers:residual.v1": ("f22", LAYER), "layers:uniqued.v1": ("ids2", {"layer": ("model", True, [P("layers", "Embed.v1", nO=3, nV=5, column=1)]), "column": ("int", False, [0, 1])}),
    "layers:siamese.v1": ("pair", {"layer": ("model", True, [LIN, RELU]), "similarity": ("model", True, [P("layers", "CauchySimilarity.v1"), P("layers", "CauchySimilarity.v1", nI=2)])}),
    "layers:strings2arrays.v1": ("strss", NOARGS), "layers:with_array.v1": ("list", {**LAYER, "pad": ("int", False, [0, 1, 2])}), "layers:with_array2d.v1": ("list", {**LAYER, "pad": ("int", False, [0, 1])}),
    "layers:with_cpu.v1": ("f22", {**LAYER, "ops": ("ops", True, [P("ops", "NumpyOps"), P("ops", "NumpyOps", use_blis=False)])}),
    "layers:with_flatten.v1": ("nested", {"layer": ("model", True, [P("layers", "list2array.v1"), P("layers", "chain.v1", **{"*": {"l": P("layers", "list2array.v1"), "lin": LIN}})])}),
    "layers:with_flatten.v2": ("nested", {"layer": ("model", True, [P("layers", "with_array.v1", layer=LIN), P("layers", "with_array.v1", layer=RELU)])}),
    "layers:with_getitem.v1": ("tup", {"idx": ("int", True, [0, 1]), "layer": ("model", True, [LIN])}),
    "layers:with_list.v1": ("ragged", {"layer": ("model", True, [P("layers", "with_array.v1", layer=LIN)])}),
    "layers:with_padded.v1": ("list", {"layer": ("model", True, [P("layers", "PyTorchLSTM.v1", nO=2, nI=2), P("layers", "LSTM.v1", nO=4)])}),
    "layers:with_ragged.v1": ("list", {"layer": ("model", True, [P("layers", "ParametricAttention.v1", nO=2), P("layers", "with_array.v1", layer=LIN)])}),
    "layers:with_reshape.v1": ("f3", {"layer": ("model", True, [LIN])}),
    "initializers:normal_init.v1": (None, {"mean": ("float", False, [0, 0.5]), "fan_in": ("int", False, [-1, 4])}), "initializers:uniform_init.v1": (None, {"lo": ("float", False, [-0.1, -0.5]), "hi": ("float", False, [0.1, 0.75])}),
    "losses:CategoricalCrossentropy.v1": (None, {**LOSSY, **NAMES, **MISSING}), "losses:CategoricalCrossentropy.v2": (None, {**LOSSY, **NAMES, **MISSING, **NEG}),
    "losses:CategoricalCrossentropy.v3": (None, {**LOSSY, **NAMES, **MISSING, **NEG, **SMOOTH}), "losses:SequenceCategoricalCrossentropy.v1": (None, {**LOSSY, **NAMES}),
    "losses:SequenceCategoricalCrossentropy.v2": (None, {**LOSSY, **NAMES, **NEG}), "losses:SequenceCategoricalCrossentropy.v3": (None, {**LOSSY, **NAMES, **MISSING, **NEG, **SMOOTH}),
    "losses:CosineDistance.v1": (None, {**LOSSY, "ignore_zeros": ("bool", False, [False, True])}), "losses:L2Distance.v1": (None, LOSSY),
    "ops:NumpyOps": (None, {"use_blis": ("bool", False, [True, False])}), "ops:MPSOps": (None, {"use_blis": ("bool", False, [True, False])}),
    "optimizers:Adam.v1": (None, {"learn_rate": SCHED(0.001), **OPT, **BETAS}), "optimizers:RAdam.v1": (None, {"learn_rate": SCHED(0.001), **OPT, **BETAS}),
    "optimizers:SGD.v1": (None, {"learn_rate": ("sched", True, [0.5, [0.5, 0.25, 0.125, 0.1, 0.01, 0.001, 0.002, 0.003, 0.004, 0.005, 0.006, 0.007], DECAY, WARM]), **OPT}),
    "schedules:compounding.v1": (None, {"start": ("float", True, [1.0, 8]), "stop": ("float", True, [2.0, 0.5]), "compound": ("float", True, [1.5, 0.75]), "t": ("float", False, [0.0, 2.0, 0.5])}),
    "schedules:constant.v1": (None, {"rate": ("any", True, [0.5, 2, "x"])}),
    "schedules:constant_then.v1": (None, {"rate": ("any", True, [0.5, 2]), "steps": ("int", True, [0, 2]), "schedule": ("schedule", True, [DECAY, WARM])}),
    "schedules:cyclic_triangular.v1": (None, {"min_lr": ("float", True, [0.25, 0]), "max_lr": ("float", True, [1.5]), "period": ("int", True, [2, 5])}),
    "schedules:decaying.v1": (None, {"base_rate": ("float", True, [0.5, 2]), "decay": ("float", True, [0.25, 0.0]), "t": ("float", False, [0.0, 2.0, 0.5])}),
    "schedules:plateau.v1": (None, {"max_patience": ("int", True, [1, 2]), "scale": ("float", True, [0.5, 2]), "schedule": ("schedule", True, [DECAY, CONST])}),
    "schedules:slanted_triangular.v1": (None, {"max_rate": ("float", True, [0.5]), "num_steps": ("int", True, [20, 40]), "cut_frac": ("float", False, [0.1, 0.5]), "ratio": ("int", False, [32, 4]), "t": ("float", False, [0.0, 2.0])}),
    "schedules:warmup_linear.v1": (None, {"initial_rate": ("float", True, [0.5, 2]), "warmup_steps": ("int", True, [0, 3]), "total_steps": ("int", True, [8, 5])}),
}
for _n in ("glorot_normal_init", "glorot_uniform_init", "he_normal_init", "he_uniform_init", "lecun_normal_init", "lecun_uniform_init", "zero_init"):
    TABLE[f"initializers:{_n}.v1"] = (None, NOARGS)
SPREAD = {"layers:add.v1": "f22", "layers:chain.v1": "f22", "layers:concatenate.v1": "f22", "layers:noop.v1": "f22", "layers:tuplify.v1": "f22"}
TORCH = {f"layers:PyTorchWrapper.v{v}": "f22" for v in (1, 2, 3)}
TORCH["layers:PyTorchRNNWrapper.v1"] = "padded"
# Known from the registry, with their own families or not usable here (no such library installed).
OTHER = {"layers:premap_ids.v1", "layers:resizable.v1", "layers:MXNetWrapper.v1", "ops:CupyOps"}
REGS = ("layers", "losses", "initializers", "schedules", "optimizers", "ops")


def cfg_of(name, kw):
    reg, fn = name.split(":")
    return {f"@{reg}": fn, **kw}


def textable(v):
    """Can the setting be written in a config (text keys, nothing that reads as a number in quotes)?"""
    if isinstance(v, dict):
        return all(isinstance(k, str) and textable(x) for k, x in v.items())
    return True


def routes(ctx, cfg, text=True):
    """Every way to get from a config to the object."""
    mk = lambda: {"block": copy.deepcopy(cfg)}
    yield "resolve", lambda: registry.resolve(mk())["block"]
    yield "resolve-Config", lambda: registry.resolve(Config(mk()))["block"]
    yield "unvalidated", lambda: registry.resolve(mk(), validate=False)["block"]
    yield "filled", lambda: registry.resolve(registry.fill(mk()))["block"]
    if text:
        yield "text", lambda: registry.resolve(Config().from_str(Config(mk()).to_str()))["block"]
        yield "filled-text", lambda: registry.resolve(Config().from_str(registry.fill(mk()).to_str()))["block"]


# ---- A. every registered function with every small set of arguments ----------------------------------------------
def arg_cases(quick):
    n = 2 if quick else 3
    for name, (data, args) in sorted(TABLE.items()):
        req = [a for a, spec in args.items() if spec[1]]
        opt = [a for a, spec in args.items() if not spec[1]]
        for r in range(0, n + 1):
            for pick in itertools.combinations(opt, r):
                for vals in itertools.product(*[range(len(args[a][2])) for a in req + list(pick)]):
                    yield [name, list(zip(req + list(pick), vals))]


def run_args(ctx, case):
    name, picks = case[0], case[1]
    data, args = TABLE[name]
    reg = name.split(":")[0]
    kw = {a: copy.deepcopy(args[a][2][i]) for a, i in picks}
    cfg = cfg_of(name, kw)
    compare(ctx, f"build:{name}:{'+'.join(sorted(kw)) or 'defaults'}", reg, cfg, data)


def compare(ctx, sig, reg, cfg, data, text=True):
    try:
        want = observe(reg, built(lambda: code(copy.deepcopy(cfg))), data)
        err = None
    except Exception as e:
        want, err = None, e
    ctx.seen((reg, repr(cfg)))
    for route, mk in routes(ctx, cfg, text and textable(cfg)):
        ctx.step()
        try:
            got = observe(reg, built(mk), data)
        except Exception as e:
            ctx.require(err is not None, f"{sig}:refused", lambda: f"{route}: {cfg} is refused: {type(e).__name__}: {str(e).strip()[:200]}")
            ctx.outcome("both-refuse")
            continue
        ctx.require(err is None, f"{sig}:accepted", lambda: f"{route}: {cfg} is built from a config, but the call raises {type(err).__name__}: {err}")
        if err is None:
            ctx.outcome((reg, len(str(want))))
            ctx.require(same(got, want), f"{sig}:differs", lambda: f"{route}: {cfg}: {where(got, want)}")


# ---- B. trees ----------------------------------------------------------------------------------------------------
LEAVES = (LIN, P("layers", "Relu.v1", nO=2, nI=2, dropout=0.25), P("layers", "Maxout.v1", nO=2, nI=2, nP=2, normalize=True), P("layers", "LayerNorm.v1", nI=2))
SPREADS = ("chain.v1", "concatenate.v1", "noop.v1")
WRAPS = (("residual.v1", "layer", {}), ("clone.v1", "orig", {"n": 2}), ("with_cpu.v1", "layer", {"ops": P("ops", "NumpyOps")}))
KEYS = (("a", "b", "c"), ("z", "m", "a"), ("2", "10", "1"), ("layer", "x_y", "B"))


def config_trees(n, leaf, keys):
    """All nested blocks with exactly n leaves (leaves taken in turn)."""
    if n == 1:
        yield LEAVES[leaf % len(LEAVES)]
        for w, arg, kw in WRAPS:
            yield P("layers", w, **{arg: LEAVES[leaf % len(LEAVES)], **kw})
        return
    for s in SPREADS:
        for parts in _parts(n):
            if len(parts) == 1:
                continue
            at = [leaf + sum(parts[:i]) for i in range(len(parts))]
            for kids in itertools.product(*[list(config_trees(p, at[i], keys)) for i, p in enumerate(parts)]):
                yield P("layers", s, **{"*": dict(zip(keys, kids))})


def _parts(n):
    if n == 0:
        yield ()
    for first in range(1, n + 1):
        for rest in _parts(n - first):
            if 1 + len(rest) <= 3:
                yield (first,) + rest


def tree_cases(quick):
    for n in range(1, 3 if quick else 4):
        for ki in range(len(KEYS)):
            for i, _ in enumerate(config_trees(n, 0, KEYS[ki])):
                yield [n, ki, i]


_trees = {}


def tree(n, ki, i):
    if (n, ki) not in _trees:
        _trees[n, ki] = list(config_trees(n, 0, KEYS[ki]))
    return _trees[n, ki][i]


def run_tree(ctx, case):
    n, ki, i = case
    t = tree(n, ki, i)
    compare(ctx, f"tree:{t['@layers']}", "layers", t, "f22")
    # the same tree with its parts written once and referred to
    mk = lambda: {"hyper": {"width": 2, "parts": copy.deepcopy(t)}, "net": {"block": "${hyper.parts}"}}
    want = [structure(code(copy.deepcopy(t)))] + behaviour(code(copy.deepcopy(t)), "f22")
    src = Config(mk()).to_str(interpolate=False)
    ctx.step()
    got = registry.resolve(Config().from_str(src))
    got["block"] = got["net"]["block"]
    ctx.require(same(observe("layers", got["block"], "f22"), want), "reference:block", lambda: f"a block given as a reference to {t}: {where(observe('layers', got['block'], 'f22'), want)}")
    ctx.require(got["hyper"]["parts"] is not got["block"], "reference:block:shared", lambda: "a referenced block builds one object for both places")


def run_spread(ctx, case):
    """The composing functions themselves, with their parts in `*`."""
    name, count, ki = case
    kids = dict(zip(KEYS[ki], list(STAR.values())[:count]))
    if name.split(":")[1] in ("add.v1", "tuplify.v1"):
        sig = f"build:{name}:spread"
    else:
        sig = f"build:{name}"
    compare(ctx, sig, "layers", cfg_of(name, {"*": kids} if count else {}), SPREAD[name])


# ---- C. PyTorch layers: only buildable from a config in memory ------------------------------------------------------
class Lin(torch.nn.Module):
    def __init__(self):
        super().__init__()
        torch.manual_seed(3)
        self.l = torch.nn.Linear(2, 2)

    def forward(self, x):
        return self.l(x)


def lstm():
    torch.manual_seed(4)
    return torch.nn.LSTM(2, 3)


def conv_in(model, X, is_train):
    return T.layers.pytorchwrapper.convert_pytorch_default_inputs(model, X, is_train) if hasattr(T, "layers") else _cin(model, X, is_train)


from thinc.layers.pytorchwrapper import convert_pytorch_default_inputs as _cin, convert_pytorch_default_outputs as _cout  # noqa: E402


def ser(m):
    return b"x"


def deser(m, b, d=None):
    return m


TORCH_ARGS = {"layers:PyTorchWrapper.v1": ["convert_inputs", "convert_outputs"], "layers:PyTorchRNNWrapper.v1": [],
              "layers:PyTorchWrapper.v2": ["convert_inputs", "convert_outputs", "mixed_precision", "device", "grad_scaler"],
              "layers:PyTorchWrapper.v3": ["convert_inputs", "convert_outputs", "mixed_precision", "device", "grad_scaler", "serialize_model", "deserialize_model"]}
TORCH_VALUES = {"convert_inputs": lambda: _cin, "convert_outputs": lambda: _cout, "mixed_precision": lambda: False, "device": lambda: torch.device("cpu"), "grad_scaler": lambda: T.PyTorchGradScaler(enabled=False, init_scale=2.0),
                "serialize_model": lambda: ser, "deserialize_model": lambda: deser}


def torch_cases(quick):
    for name, args in sorted(TORCH_ARGS.items()):
        for r in range(len(args) + 1):
            for pick in itertools.combinations(args, r):
                yield [name, list(pick)]


def run_torch(ctx, case):
    name, pick = case
    mod = lstm if "RNN" in name else Lin
    ctx.seen(repr(case))

    def args():
        return {"pytorch_model": mod(), **{a: TORCH_VALUES[a]() for a in pick}}

    def obs(m):
        s = m.shims[0]
        extra = [plain(getattr(s, "_serialize_model", None)), plain(getattr(s, "_deserialize_model", None)), plain(getattr(s, "_mixed_precision", None)), getattr(getattr(s, "_grad_scaler", None), "_growth_factor", None), str(s.device)]
        return extra + observe("layers", m, TORCH[name])

    want = obs(public(*name.split(":"))(**args()))
    for validate in (True, False):
        ctx.step()
        try:
            got = obs(registry.resolve({"block": cfg_of(name, args())}, validate=validate)["block"])
        except Exception as e:
            ctx.fail(f"build:{name}:refused", f"validate={validate} {pick}: {type(e).__name__}: {str(e).strip()[:200]}")
            continue
        ctx.require(same(got, want), f"build:{name}:differs", lambda: f"validate={validate} {pick}: {where(got, want)}")


# ---- D. text round trips -------------------------------------------------------------------------------------------
VALUES = [0, 1, -3, 10 ** 12, 0.5, -0.25, 1e-08, 1e300, 123456.789, True, False, None, "", "x", "a b", "0.5", "true", "null", "1", "a=b", "# c", "; d", "[x]", "a:b", "päth/ü", "a.b", "it's", "C:/x", "100%",
          [], [1, 2], [0.5, "x", None, True], [[1], []], ["1", "a"], {}, {"k": 1}, {"k": {"l": [1, "2"]}}, {"k": None, "l": {"m": "true"}}]


def text_cases(quick):
    for i in range(len(VALUES)):
        for depth in (1, 2, 3):
            yield [i, depth, None]
        if not quick:
            for j in range(len(VALUES)):
                yield [i, 2, j]


def nest(i, depth, j):
    v = VALUES[i]
    d = {"key": copy.deepcopy(v)}
    if j is not None:
        d["other"] = copy.deepcopy(VALUES[j])
    for k in range(depth - 1):
        d = {f"s{k}": d, "n": k}
    return {"top": d, "zzz": {"last": 1}, "aaa": {"w": 2}}


def exact(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def keyed(a):
    """Without regard to the order of sections."""
    return {k: keyed(a[k]) for k in sorted(a)} if isinstance(a, dict) else a


def run_text(ctx, case):
    i, depth, j = case
    data = nest(i, depth, j)
    ctx.seen(repr(data))
    c = Config(copy.deepcopy(data))
    label = type(VALUES[i]).__name__
    ways = {"text": lambda c: Config().from_str(c.to_str()), "bytes": lambda c: Config().from_bytes(c.to_bytes()), "twice": lambda c: Config().from_str(Config().from_str(c.to_str()).to_str()),
            "copy": lambda c: c.copy(), "raw": lambda c: Config().from_str(c.to_str(interpolate=False), interpolate=False).interpolate(), "merge-empty": lambda c: c.merge({}), "merge-self": lambda c: c.merge(copy.deepcopy(data)), "filled": lambda c: registry.fill(c)}
    for way, f in ways.items():
        ctx.step()
        try:
            got = f(c)
        except Exception as e:
            ctx.fail(f"text:{label}:{way}:{type(e).__name__}", f"{data!r} through {way}: {type(e).__name__}: {str(e)[:200]}")
            continue
        ctx.require(exact(keyed(dict(got)), keyed(data)), f"text:{label}:{way}", lambda: f"{data!r} through {way} came back as {dict(got)!r}")
    ctx.require(exact(dict(c), data) or exact(keyed(dict(c)), keyed(data)), f"text:{label}:original", lambda: f"writing {data!r} changed it to {dict(c)!r}")
    ctx.require(registry.resolve({"top": copy.deepcopy(data["top"])})["top"] == data["top"], f"text:{label}:resolve", lambda: f"resolving plain settings changed {data!r}")


# ---- E. references and overrides in every position -------------------------------------------------------------------
SOURCES = [("h.rate", 0.25), ("h.deep.rate", 0.25)]
REF_ARGS = [("Relu.v1", {"nO": 2, "nI": 2}, "dropout"), ("Softmax.v2", {"nO": 2, "nI": 2}, "temperature"), ("Dropout.v1", {}, "rate")]


def override_cases(quick):
    for a in range(len(REF_ARGS)):
        for src in range(len(SOURCES)):
            for how in ("value", "reference", "override-text", "override-resolve", "override-source", "reference-late"):
                for depth in (0, 1, 2):
                    yield [a, src, how, depth]


def run_override(ctx, case):
    a, src, how, depth = case
    fn, kw, arg = REF_ARGS[a]
    path, value = SOURCES[src]
    ctx.seen(repr(case))
    ctx.step()
    leaf = P("layers", fn, **kw)
    leaf[arg] = "${%s}" % path if how.startswith("reference") or how == "override-source" else (value if how == "value" else 0.75)
    block, where_ = leaf, "block"
    for _ in range(depth):
        block = P("layers", "chain.v1", **{"*": {"first": block, "last": dict(LIN)}})
    where_ = ".".join(["block"] + ["*.first"] * depth + [arg])
    h = {"rate": value, "deep": {"rate": value}}
    if how == "override-source":
        h = {"rate": 0.75, "deep": {"rate": 0.75}}
    cfg = Config({"h": h, "block": block})
    text = cfg.to_str(interpolate=False)
    if how == "override-text":
        got = registry.resolve(Config().from_str(text, overrides={where_: value}))
    elif how == "override-source":
        got = registry.resolve(Config().from_str(text, overrides={path: value}))
    elif how == "override-resolve":
        got = registry.resolve(Config().from_str(text), overrides={where_: value})
    elif how == "reference-late":
        got = registry.resolve(Config().from_str(text, interpolate=False))
    else:
        got = registry.resolve(Config().from_str(text))
    leaf[arg] = value
    want = observe("layers", code(block), "f22")
    seen = observe("layers", got["block"], "f22")
    ctx.require(same(seen, want), f"override:{how}", lambda: f"{fn}.{arg} at {where_} given by {how}: {where(seen, want)}")
    if how.startswith("override"):
        for bad in (where_ + "x", "nothing.here", "block.*.absent.rate"):
            try:
                registry.resolve(Config().from_str(text), overrides={bad: value}) if how == "override-resolve" else Config().from_str(text, overrides={bad: value})
            except ConfigValidationError:
                continue
            except Exception as e:
                ctx.fail("override:unknown:error", f"an override for {bad}: {type(e).__name__}: {e}")
            else:
                if how == "override-resolve":
                    ctx.fail("override:unknown:accepted", f"an override for {bad}, which does not exist, is accepted")


# ---- F. corruption -----------------------------------------------------------------------------------------------------
NONLAYER = P("schedules", "constant.v1", rate=0.5)
BAD = {
    "int": ["abc", "1.5", [1], {"x": 1}, None, LIN], "oint": ["abc", "1.5", [1], {"x": 1}, LIN], "float": ["abc", [1.0], {"x": 1}, None, LIN], "ofloat": ["abc", [1.0], {"x": 1}, LIN], "bool": ["abc", 2, [True], {"x": True}, None, LIN],
    "ocallable": [3, "abc", [1], {"x": 1}, True], "callable": [3, "abc", [1], {"x": 1}, None], "model": [3, "abc", [1], {"x": 1}, NONLAYER, UNI, None], "omodel": [3, "abc", [1], {"x": 1}, NONLAYER, UNI],
    "schedule": [0.5, "abc", [0.5], {"x": 1}, LIN, None], "ostrs": [3, "abc", [[1]], {"x": 1}, LIN], "omissing": [1.5, [1], {"x": 1}, True, LIN], "ostr": [[1], {"x": 1}, LIN], "sched": ["abc", {"x": 1}, None, LIN, UNI],
    "ops": [3, "abc", LIN, None], "dtype": ["x", 3, None], "ints": ["abc", 5, ["a"], {"x": 1}, None, LIN], "omap": [3, "abc", [1], {"a": "b"}, LIN], "any": [],
}


def bad_cases(quick):
    for name, (data, args) in sorted(TABLE.items()):
        for depth in (0, 1) if quick else (0, 1, 2):
            yield [name, depth, "unknown-arg", None, 0]
            yield [name, depth, "unknown-arg2", None, 0]
            yield [name, depth, "unknown-function", None, 0]
            yield [name, depth, "unknown-registry", None, 0]
            yield [name, depth, "two-refs", None, 0]
            yield [name, depth, "positional", None, 0]
            for a, (kind, required, _) in args.items():
                if required and kind[0] != "o" or kind == "ops":
                    yield [name, depth, "missing", a, 0]
                for i in range(len(BAD[kind])):
                    yield [name, depth, "type", a, i]


def run_bad(ctx, case):
    name, depth, what, arg, i = case
    data, args = TABLE[name]
    reg = name.split(":")[0]
    kw = {a: copy.deepcopy(v[0]) for a, (k, required, v) in args.items() if required}
    if what == "missing":
        del kw[arg]
    if what == "type":
        kw[arg] = copy.deepcopy(BAD[args[arg][0]][i])
    cfg = cfg_of(name, kw)
    if what == "unknown-arg":
        cfg["no_such_argument"] = 1
    if what == "unknown-arg2":  # an optional argument with a slip of the pen
        known = list(args) or ["rate"]
        cfg[known[-1] + "s"] = None
    if what == "unknown-function":
        cfg[f"@{reg}"] = name.split(":")[1] + "x"
    if what == "unknown-registry":
        cfg = {"@layerz" if k.startswith("@") else k: v for k, v in cfg.items()}
    if what == "two-refs":
        cfg["@other"] = "x"
    if what == "positional":
        cfg["*"] = {"x": copy.deepcopy(LIN)}
    for _ in range(depth):
        cfg = {"sub": cfg} if reg != "layers" else P("layers", "residual.v1", layer=cfg)
    ctx.seen(repr(cfg))
    sig = f"corrupt:{what}:{name}" + (f":{arg}" if arg else "")
    label = f"{what} {arg or ''} {cfg}"
    for route in ("resolve", "fill", "text"):
        if route == "fill" and what in ("unknown-function", "unknown-registry", "type"):
            continue  # filling leaves functions it does not know, and does not build blocks
        if route == "text" and not textable(cfg):
            continue
        ctx.step()
        before = copy.deepcopy(cfg)
        try:
            if route == "resolve":
                registry.resolve({"block": cfg})
            elif route == "fill":
                registry.fill({"block": cfg})
            else:
                registry.resolve(Config().from_str(Config({"block": cfg}).to_str()))
        except (ConfigValidationError, catalogue.RegistryError):
            ctx.outcome((what, "refused"))
        except ValueError as e:
            value_level = what == "unknown-registry" or (what == "type" and args[arg][0] == "sched")
            ctx.outcome((what, "refused-by-value"))
            ctx.require(value_level, f"{sig}:error", lambda: f"{route}: {label}: {type(e).__name__}: {e}")
        except Exception as e:
            ctx.fail(f"{sig}:error", f"{route}: {label}: {type(e).__name__}: {str(e)[:200]}")
        else:
            ctx.fail(f"{sig}:accepted", f"{route}: {label} is accepted")
        ctx.require(before == cfg, f"{sig}:changed", lambda: f"{route}: {label}: the config was changed to {cfg}")


# ---- G. the registry itself ---------------------------------------------------------------------------------------------
class fresh_registry:
    """A registry class with the same contents that can be thrown away."""

    def __enter__(self):
        self.made = []
        return self

    def __exit__(self, *a):
        for n in self.made:
            if hasattr(TC.registry, n):
                delattr(TC.registry, n)
        for key in [k for k in list(catalogue.REGISTRY) if len(k) > 1 and k[1].startswith("mc_")]:
            del catalogue.REGISTRY[key]


def reg_cases(quick):
    events = [("create", "mc_a"), ("create", "mc_b"), ("create", "layers"), ("register", "mc_a", "f.v1"), ("register", "mc_a", "f.v2"), ("register", "mc_b", "f.v1"), ("get", "mc_a", "f.v1"), ("get", "mc_b", "f.v1"), ("get", "layers", "Linear.v1")]
    for n in range(1, 4 if quick else 5):
        yield from ([list(h)] for h in itertools.product(events, repeat=n) if h[0][0] == "create")


def run_registry(ctx, case):
    """Histories of creating registries, registering functions and looking them up, against a dict of dicts."""
    spec = {"layers": {"Linear.v1": "L"}}
    with fresh_registry() as fr:
        for ev in case[0]:
            ctx.step()
            kind, reg = ev[0], ev[1]
            try:
                if kind == "create":
                    registry.create(reg)
                    fr.made.append(reg)
                    res = "ok"
                elif kind == "register":
                    val = f"{reg}/{ev[2]}"

                    def fn(size: int = 1, val=val):
                        return (val, size)

                    getattr(registry, reg).register(ev[2])(fn)
                    res = "ok"
                else:
                    res = "found" if callable(registry.get(reg, ev[2])) else "odd"
            except Exception as e:
                res = e
            if kind == "create":
                want = "refused" if reg in spec else "ok"
                spec.setdefault(reg, {})
            elif kind == "register":
                want = "ok" if reg in spec else "refused"
                if reg in spec:
                    spec[reg][ev[2]] = 1
            else:
                want = "found" if ev[2] in spec.get(reg, {}) else "refused"
            got = "refused" if isinstance(res, Exception) else res
            ctx.require(got == want, f"registry:{kind}", lambda: f"{case[0]}: {ev} gave {res!r}, expected {want}")
            if isinstance(res, Exception) and kind != "register":
                ctx.require(isinstance(res, ValueError), f"registry:{kind}:error", lambda: f"{ev}: {type(res).__name__}")
            for r, fs in spec.items():
                for f in ("f.v1", "f.v2", "Linear.v1"):
                    have = registry.has(r, f)
                    ctx.require(have == (f in fs), "registry:has", lambda: f"after {case[0]}: has({r}, {f}) is {have}")
                    if have and r != "layers":
                        out = registry.resolve({"x": {f"@{r}": f, "size": 3}})["x"]
                        ctx.require(out == (f"{r}/{f}", 3), "registry:resolve", lambda: f"resolving {r}/{f} gave {out}")
            ctx.seen(repr(sorted((r, sorted(f)) for r, f in spec.items())))


def cover_cases(quick):
    for reg in REGS:
        for fn in sorted(getattr(registry, reg).get_all()):
            yield [reg, fn]


def run_cover(ctx, case):
    """Every function in the registry is covered by a table above; lookups agree."""
    reg, fn = case
    ctx.step()
    ctx.seen(repr(case))
    name = f"{reg}:{fn}"
    known = name in TABLE or name in SPREAD or name in TORCH or name in OTHER
    ctx.outcome(("covered", known))
    ctx.require(registry.has(reg, fn), "lookup:has", lambda: f"has({name}) is false")
    f = registry.get(reg, fn)
    ctx.require(f is getattr(registry, reg).get(fn), "lookup:get", lambda: f"two lookups of {name} differ")
    if known and name not in OTHER:
        # the arguments in the table are the arguments there are
        table = TABLE.get(name, (None, {}))[1]
        for a, (kind, required, _) in table.items():
            try:
                filled = registry.fill({"b": cfg_of(name, {x: copy.deepcopy(v[0]) for x, (k, r, v) in table.items() if r})})["b"]
            except Exception as e:
                ctx.fail(f"lookup:{name}:fill", f"{type(e).__name__}: {str(e)[:200]}")
                break
            ctx.require(a in filled, f"lookup:{name}:{a}:filled", lambda: f"filling a block for {name} leaves out {a}: {filled}")


class Resizer:
    def __call__(self, layer, new_nO):
        return layer


def resizable_cases(quick):
    for i in range(2):
        for bad in (None, 3, "x", [1]):
            yield [i, bad]


def run_resizable(ctx, case):
    i, bad = case
    layer = [LIN, RELU][i]
    ctx.seen(repr(case))
    ctx.step()
    f = functools.partial(T.resize_linear_weighted if hasattr(T, "resize_linear_weighted") else Resizer(), fill_defaults={"b": 0})
    if bad is None:
        a = observe("layers", registry.resolve({"x": P("layers", "resizable.v1", layer=copy.deepcopy(layer), resize_layer=f)})["x"], "f22")
        b = observe("layers", T.resizable(code(layer), f), "f22")
        ctx.require(same(a, b), "build:layers:resizable.v1", lambda: where(a, b))
    else:
        try:
            registry.resolve({"x": P("layers", "resizable.v1", layer=copy.deepcopy(layer), resize_layer=bad)})
        except ConfigValidationError:
            return
        ctx.fail("corrupt:type:layers:resizable.v1:resize_layer:accepted", f"{bad!r} accepted")


FAMILIES = {"args": run_args, "trees": run_tree, "spread": run_spread, "torch": run_torch, "text": run_text, "override": run_override, "bad": run_bad, "registry": run_registry, "cover": run_cover, "resizable": run_resizable}


def explore(ctx):
    q = ctx.quick
    ctx.each("cover", lambda: cover_cases(q), run_cover)
    ctx.each("args", lambda: arg_cases(q), run_args)
    ctx.each("spread", lambda: ([n, c, k] for n in SPREAD for c in range(0, 4) for k in range(len(KEYS)) if not (n.split(":")[1] in ("add.v1", "tuplify.v1") and c < 2) and c), run_spread)
    ctx.each("trees", lambda: tree_cases(q), run_tree)
    ctx.each("torch", lambda: torch_cases(q), run_torch)
    ctx.each("text", lambda: text_cases(q), run_text)
    ctx.each("override", lambda: override_cases(q), run_override)
    ctx.each("bad", lambda: bad_cases(q), run_bad)
    ctx.each("registry", lambda: reg_cases(q), run_registry)
    ctx.each("resizable", lambda: resizable_cases(q), run_resizable)


def replay(ctx, fam, case):
    FAMILIES[fam](ctx, case)
