"""Small model trees described by plain data, and what can be observed of a model."""
import copy

import numpy as np
import torch
from thinc.api import Model, PyTorchShim
from thinc.model import deserialize_attr, serialize_attr

from .util import values


def fwd(model, X, is_train):
    return X, lambda d: d


class Custom:
    """An attribute type with its own registered serializer."""

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Custom) and self.value == other.value

    def __repr__(self):
        return f"Custom({self.value!r})"


@serialize_attr.register(Custom)
def _ser(_, value, name, model):
    return f"custom:{value.value}:{name}:{model.name}".encode("utf8")


@deserialize_attr.register(Custom)
def _deser(_, value, name, model):
    kind, v, n, m = value.decode("utf8").split(":")
    assert kind == "custom" and n == name, (value, name, model.name)
    return Custom(v)


class Opaque:
    """Not serializable."""

    def __reduce__(self):
        raise TypeError("no")

    def __deepcopy__(self, memo):
        return self


OPAQUE = Opaque()

# what an attribute may hold: name -> (value in the saved model, value in the freshly built one)
ATTRS = {
    "none": (None, 1), "true": (True, False), "int": (7, 0), "negint": (-70000, 0), "big": (2**40, 0), "float": (0.1, 0.0), "inf": (float("inf"), 0.0), "str": ("é\n\0", ""),
    "bytes": (b"\x00\xff", b""), "list": ([1, [2.5, "x"], None], []), "emptylist": ([], [1]), "dict": ({"a": {"b": [1]}}, {}), "emptydict": ({}, {"a": 1}), "intkeys": ({1: "a", -2: "b"}, {}),
    "array": (np.arange(6, dtype="f").reshape(2, 3), np.zeros((2, 3), "f")), "array0": (np.zeros((0, 3), "i"), np.zeros((1, 3), "i")), "npfloat": (np.float32(0.1), np.float32(0)), "npint": (np.int64(5), np.int64(0)),
    "custom": (Custom("v"), Custom("w")), "opaque": (OPAQUE, OPAQUE), "lambda": (len, len),
}

# what a parameter may hold
PARAMS = {
    "unset": lambda: None,
    "f4": lambda: values((2, 3), "float32", 1),
    "f8": lambda: values((2, 3), "float64", 2),
    "f2": lambda: values((3,), "float16", 3),
    "empty": lambda: np.zeros((0, 4), "float32"),
    "scalar": lambda: np.array(1.5, dtype="float32"),
    "fortran": lambda: np.asfortranarray(values((2, 3), "float32", 4)),
    "view": lambda: values((4, 6), "float32", 5)[::2, ::-2],
    "bigendian": lambda: values((2, 2), "float32", 6).astype(">f4"),
    "nan": lambda: np.array([np.nan, np.inf, -0.0], "float32"),
    "int": lambda: np.arange(4, dtype="int64"),
    "1d": lambda: values((1,), "float32", 8),
}


def torch_module(salt=0):
    m = torch.nn.Linear(2, 2)
    for i, p in enumerate(m.parameters()):
        p.data = torch.tensor(values(tuple(p.shape), "float32", salt + i))
    return m


def torch_state(m):
    return {k: v.detach().numpy().copy() for k, v in m.state_dict().items()}


def build(children, refs, feats, which=0):
    """feats[i] = dict(dims={}, params={name: kind}, attrs={name: kind}, shims=k). which=0: the values to be saved, 1: a
    freshly built model (dims, parameters and attributes not yet set)."""
    nodes = []
    for i, f in enumerate(feats):
        dims = {k: (None if (which and v is not None and not f.get("fixed")) else v) for k, v in f.get("dims", {}).items()}
        m = Model(
            f.get("name", f"n{i}"), fwd, dims=dims, params={k: None for k in f.get("params", {})},
            attrs={k: copy.deepcopy(ATTRS[v][which]) for k, v in f.get("attrs", {}).items()},
            shims=[PyTorchShim(torch_module(salt=0 if which else 10 * i + 3 * j + 1)) for j in range(f.get("shims", 0))],
            refs={name: None for s, name, t in refs if s == i},
        )
        if not which:
            for k, v in f.get("params", {}).items():
                p = PARAMS[v]()
                if p is not None:
                    m.set_param(k, p)
        nodes.append(m)
    for i, m in enumerate(nodes):
        m.layers.extend(nodes[c] for c in children[i])
    if not which:
        for s, name, t in refs:
            if t is not None:
                nodes[s].set_ref(name, nodes[t])
    return nodes


def freeze(v):
    if isinstance(v, np.ndarray):
        a = v.astype(v.dtype.newbyteorder("<")) if v.dtype.byteorder == ">" else v
        return ("A", a.dtype.str, a.shape, np.ascontiguousarray(a).tobytes())
    if isinstance(v, np.generic):
        return ("S", v.dtype.str, v.tobytes())
    if isinstance(v, dict):
        return ("D", tuple((freeze(k), freeze(x)) for k, x in sorted(v.items(), key=repr)))
    if isinstance(v, (list, tuple)):
        return ("seq", tuple(freeze(x) for x in v))  # saved tuples come back as lists
    if callable(v) or isinstance(v, Opaque):
        return ("O", repr(v))
    return (type(v).__name__, repr(v))


def observe(model, grads=False):
    """Everything a user can read from a model tree (ids aside)."""
    nodes = list(model.walk())
    at = {id(n): i for i, n in enumerate(nodes)}
    out = []
    for n in nodes:
        d = {
            "name": n.name,
            "layers": [at.get(id(c), "?") for c in n.layers],
            "dims": {k: (n.get_dim(k) if n.has_dim(k) else None) for k in n.dim_names},
            "params": {k: (freeze(n.get_param(k)) if n.has_param(k) else None) for k in n.param_names},
            "attrs": {k: freeze(v) for k, v in n.attrs.items()},
            "refs": {k: (None if n.maybe_get_ref(k) is None else at.get(id(n.get_ref(k)), "outside")) for k in n.ref_names},
            "shims": [[freeze(torch_state(s._model)), freeze(s.cfg)] if hasattr(s._model, "state_dict") else repr(type(s)) for s in n.shims],
        }
        if grads:
            d["grads"] = {k: freeze(n.get_grad(k)) for k in n.param_names if n.has_grad(k)}
        out.append(d)
    return out


def diff(a, b):
    """First difference of two observations."""
    if len(a) != len(b):
        return f"{len(a)} nodes != {len(b)} nodes"
    for i, (x, y) in enumerate(zip(a, b)):
        for k in x:
            if x[k] != y.get(k):
                return f"node {i} ({x['name']}): {k}: {str(x[k])[:300]} != {str(y.get(k))[:300]}"
    return ""


def what_differs(a, b):
    """A short stable label for the first difference."""
    if len(a) != len(b):
        return "node-count"
    for x, y in zip(a, b):
        for k in x:
            if x[k] != y.get(k):
                return k
    return ""


# ---- one large thing: models with n of something ---------------------------------------------------------
# n passes the lengths at which the storage format changes its encoding
SIZES = (15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257, 300)
BIG_SIZES = (65535, 65536)
LADDER = ("name", "dims", "dim-value", "params", "param-size", "param-rows", "attrs", "str", "strs", "bytes", "list", "dict", "intdict", "nested", "array-attr", "children", "chain", "refs", "ref-far", "shims", "shared", "int-attr")
SMALL_ONLY = ("dims", "params", "attrs", "nested", "children", "chain", "refs", "shims", "shared", "ref-far")  # too slow, or too deep, at the big sizes
NESTED_MAX = 120


def ladder(kind, n, which=0, last=0):
    """A model with n of one kind of thing. which=1: freshly built, values not yet set. last=1: the last of them differs."""

    def node(name="m", **kw):
        return Model(name, fwd, **kw)

    if kind == "name":
        return node("é" * (n - 1) + "ab"[last])
    if kind == "dims":
        return node(dims={f"d{i}": (None if which else i + (last if i == n - 1 else 0)) for i in range(n)})
    if kind == "dim-value":
        return node(dims={"nO": None if which else n + last})
    if kind == "params":
        m = node(params={f"p{i}": None for i in range(n)}, dims={})
        if not which:
            for i in range(n):
                m.set_param(f"p{i}", values((2,) if not (last and i == n - 1) else (3,), "float32", i))
        return m
    if kind in ("param-size", "param-rows"):
        m = node(params={"W": None})
        if not which:
            m.set_param("W", values((n + last,) if kind == "param-size" else (n + last, 3), "float32", 1))
        return m
    if kind == "attrs":
        return node(attrs={f"a{i}": (0 if which else i + (last if i == n - 1 else 0)) for i in range(n)})
    if kind == "str":
        return node(attrs={"s": "" if which else "x" * (n - 1) + "ab"[last]})
    if kind == "strs":
        return node(attrs={"s": [] if which else ["x" * i for i in range(min(n, 300))] + ["ab"[last]]})
    if kind == "bytes":
        return node(attrs={"s": b"" if which else b"\xff" * (n - 1) + b"ab"[last:last + 1]})
    if kind == "list":
        return node(attrs={"s": [] if which else list(range(n - 1)) + [-last]})
    if kind == "dict":
        return node(attrs={"s": {} if which else dict({f"k{i}": i for i in range(n - 1)}, last=last)})
    if kind == "intdict":
        return node(attrs={"s": {} if which else {i - 5: (i if i < n - 1 else last) for i in range(n)}})
    if kind == "nested":
        v = last
        for i in range(min(n, NESTED_MAX)):
            v = [v] if i % 2 else {"k": v}
        return node(attrs={"s": [] if which else v})
    if kind == "array-attr":
        return node(attrs={"s": np.zeros(1, "f") if which else np.concatenate([np.arange(n - 1), [last]]).astype("f")})
    if kind == "int-attr":
        return node(attrs={"s": [] if which else [s * (v + d) + last for v in (n, n << 8, n << 24, n << 40) for d in (-1, 0, 1) for s in (1, -1)]})
    if kind == "children":
        return node(layers=[node(f"c{i}", dims={"nO": None if which else i + (last if i == n - 1 else 0)}) for i in range(n)])
    if kind == "chain":
        m = node("leaf", dims={"nO": None if which else 1 + last})
        for i in range(n - 1):
            m = node(f"c{i}", layers=[m])
        return m
    if kind in ("refs", "ref-far"):
        kids = [node(f"c{i}") for i in range(n)]
        m = node(layers=kids, refs={f"r{i}": None for i in (range(n) if kind == "refs" else (0, n - 1))})
        if not which:
            for i in range(n) if kind == "refs" else (0, n - 1):
                m.set_ref(f"r{i}", kids[-1 if not i else i - 1 + (last if i == n - 1 else 0)])
        return m
    if kind == "shims":
        return node(shims=[PyTorchShim(torch_module(0 if which else i + (last if i == n - 1 else 0))) for i in range(min(n, 40))])
    if kind == "shared":
        c = node("child", params={"W": None}, dims={"nO": None if which else 1 + last})
        if not which:
            c.set_param("W", values((3,), "float32", 1))
        return node(layers=[c] * n)
    raise ValueError(kind)


def ladder_cases(sizes=SIZES, big=BIG_SIZES):
    for kind in LADDER:
        for n in sizes:
            yield (kind, n)
        for n in big if kind not in SMALL_ONLY else ():
            yield (kind, n)
