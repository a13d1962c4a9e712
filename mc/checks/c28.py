"""C28: the type checker plugin on every small combination of typed layers, and the declared array types against numpy."""
import inspect
import itertools
import os
import re
import shutil
import subprocess
import sys
import tempfile
import typing

import numpy as np
from mc import target
from mc.checks.c26 import conforms
from mc.util import values
from thinc import api as T
from thinc import types as TY

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of combinations of typed layers and of array expressions, all put to the real type checker with the plugin; compared with a recursive definition of subtypes, with the position of every mismatch, and with numpy's own result for every expression"
NOTE = "chain: every ordered pair of 17 types, all chains of 3 layers over 3 types, every position of one and of two mismatches in chains of 2-8; add/concatenate: every pair of layers over 5 types, every position; nested combinations of depth 2; user-defined combinators; about 2100 array expressions over 8 array types; 40 layer constructors."
RULE = "state = (expression, reported mismatches by argument, type of the result); transition = one expression checked"
ASSUMPTIONS = ["mypy as installed", "Any on either side of add or concatenate is not specified", "array expressions the declared types refuse are not judged; a result declared as a union must contain the actual one"]

# ---- types ---------------------------------------------------------------------------------------------------
F = ["Floats1d", "Floats2d", "Floats3d", "Floats4d"]
I = ["Ints1d", "Ints2d", "Ints3d", "Ints4d"]
TYPES = {
    "F1": "Floats1d", "F2": "Floats2d", "F3": "Floats3d", "I1": "Ints1d", "I2": "Ints2d", "Rg": "Ragged", "Pd": "Padded", "LF": "List[Floats2d]", "LR": "List[Ragged]", "SF": "Sequence[Floats2d]",
    "U": "Union[Floats2d, Ragged]", "FX": "FloatsXd", "AX": "ArrayXd", "Any": "Any", "Tp": "Tuple[Floats2d, Ragged]", "Op": "Optional[Floats2d]", "Ob": "object",
}
SHAPE = {  # kind, parts
    "LF": ("list", "F2"), "LR": ("list", "Rg"), "SF": ("seq", "F2"), "U": ("or", ("F2", "Rg")), "FX": ("or", ("F1", "F2", "F3", "F4")), "AX": ("or", ("F1", "F2", "F3", "F4", "I1", "I2", "I3", "I4")),
    "Tp": ("tuple", ("F2", "Rg")), "Op": ("or", ("F2", "None")), "Any": ("any", ()), "Ob": ("object", ()),
}


def fits(a, b):
    """Every value of type a is a value of type b."""
    ka, pa = SHAPE.get(a, ("name", a))
    kb, pb = SHAPE.get(b, ("name", b))
    if "any" in (ka, kb) or kb == "object":
        return True
    if ka == "or":
        return all(fits(x, b) for x in pa)
    if kb == "or":
        return any(fits(a, x) for x in pb)
    if kb == "seq":
        return ka in ("seq", "list") and fits(pa, pb) if ka != "tuple" else all(fits(x, pb) for x in pa)
    return a == b


HEAD = '''from typing import Any, Callable, List, Optional, Sequence, Tuple, TypeVar, Union
from thinc.api import add, chain, concatenate
from thinc.model import Model
from thinc.types import ArrayXd, Floats1d, Floats2d, Floats3d, Floats4d, FloatsXd, Ints1d, Ints2d, Ints3d, Ints4d, Padded, Ragged, XY_XY_OutT, XY_YZ_OutT
import thinc.api as T

A = TypeVar("A")
B = TypeVar("B")
Fn = TypeVar("Fn", bound=Callable)


def own_chain(a: Model[A, Any], *rest: Model[Any, Any]) -> Model[A, XY_YZ_OutT]: ...
def own_add(a: Model[A, Any], *rest: Model[A, Any]) -> Model[A, XY_XY_OutT]: ...
def deco(f: Fn) -> Fn: ...
@deco
def deco_chain(a: Model[A, Any], *rest: Model[Any, Any]) -> Model[A, XY_YZ_OutT]: ...
def same(a: Model[A, B], b: Model[A, B]) -> Model[A, B]: ...
def first(a: Model[A, Any], b: Model[Any, Any]) -> Model[A, A]: ...
'''
CHAINS = ("chain", "own_chain", "deco_chain")
ADDS = ("add", "concatenate", "own_add")


class Source:
    """The program under check: one expression per case, one argument per line."""

    def __init__(self):
        self.lines = HEAD.splitlines()
        self.models = {}
        self.where = {}  # line -> (case index, path of the argument)
        self.reveal = {}  # line -> case index
        self.add_line('')
        for a in TYPES:
            for b in TYPES:
                self.add_line(f"m_{a}_{b}: Model[{TYPES[a]}, {TYPES[b]}]")
        self.add_line("_any: Any = None")
        self.model_line = {}

    def add_line(self, s):
        self.lines.append(s)
        return len(self.lines)

    def expr(self, tree, case, path, indent):
        """tree: 'F2>Rg' or (combinator, [trees])."""
        pad = "    " * indent
        if isinstance(tree, str):
            n = self.add_line(f"{pad}m_{tree.replace('>', '_')},")
            self.where[n] = (case, path)
            return
        n = self.add_line(f"{pad}{tree[0]}(")
        self.where[n] = (case, path)
        for k, t in enumerate(tree[1]):
            self.expr(t, case, path + (k,), indent + 1)
        n = self.add_line(f"{pad}),")

    def case(self, i, tree):
        n = self.add_line("reveal_type(")
        self.reveal[n] = i
        self.expr(tree, i, (), 1)
        # the argument of reveal_type must not end in a comma
        self.lines[-1] = self.lines[-1].rstrip(",")
        n = self.add_line(")")


def typed(tree):
    """(in, out) of a combination and the mismatches below it: {path: {codes}}; None where not specified."""
    if isinstance(tree, str):
        a, b = tree.split(">")
        return (a, b), {}
    parts = []
    errors = {}
    for k, t in enumerate(tree[1]):
        p, e = typed(t)
        parts.append(p)
        for path, codes in e.items():
            errors[(k,) + path] = codes
    f = tree[0]

    def mark(k, code):
        errors.setdefault((k,), set()).add(code)

    if f in CHAINS:
        for k in range(len(parts) - 1):
            if not fits(parts[k][1], parts[k + 1][0]):
                mark(k, "layer-mismatch-output")
                mark(k + 1, "layer-mismatch-input")
        return (parts[0][0], parts[-1][1]), errors
    if f in ADDS:
        for k in range(len(parts) - 1):
            for side, code in ((0, "layer-mismatch-input"), (1, "layer-mismatch-output")):
                if parts[k][side] != parts[k + 1][side]:
                    mark(k, code)
                    mark(k + 1, code)
        return parts[0], errors
    raise ValueError(f)


# ---- the cases -------------------------------------------------------------------------------------------------
def combos(quick):
    out = []
    for a, b in itertools.product(TYPES, repeat=2):
        out.append(("chain", [f"F1>{a}", f"{b}>I2"]))
        out.append(("own_chain", [f"Pd>{a}", f"{b}>LF"]))
        if not quick:
            out.append(("deco_chain", [f"U>{a}", f"{b}>AX"]))
            out.append(("chain", ["F2>F2", f"F2>{a}", f"{b}>I2", "I2>Rg"]))
    three = ("F2", "Rg", "U")
    for t in itertools.product(three, repeat=6):
        if t[0] == t[5] or not quick:
            out.append(("chain", [f"{t[0]}>{t[1]}", f"{t[2]}>{t[3]}", f"{t[4]}>{t[5]}"]))
    # positions
    for f in CHAINS:
        for n in range(2, 7 if quick else 9):
            for k in range(n):
                for j in range(k, n):
                    ls = ["F2>F2"] * n
                    ls[k] = "Rg>F2"
                    out.append((f, list(ls)))
                    ls[j] = "F2>Rg" if j != k else "Rg>Rg"
                    out.append((f, list(ls)))
    plain = ["F2", "Rg", "LF", "U", "I1"] if not quick else ["F2", "Rg", "U"]
    for f in ADDS:
        for t in itertools.product(plain, repeat=4):
            out.append((f, [f"{t[0]}>{t[1]}", f"{t[2]}>{t[3]}"]))
        for n in range(2, 6 if quick else 8):
            for k in range(n):
                for odd in ("Rg>F2", "F2>Rg", "Rg>Rg"):
                    ls = ["F2>F2"] * n
                    ls[k] = odd
                    out.append((f, list(ls)))
                    if k + 1 < n:
                        ls[k + 1] = odd
                        out.append((f, list(ls)))
    two = ("F2", "Rg")
    for f, g in itertools.product(("chain", "add"), repeat=2):
        for t in itertools.product(two, repeat=6):
            a, b, c = f"{t[0]}>{t[1]}", f"{t[2]}>{t[3]}", f"{t[4]}>{t[5]}"
            out.append((f, [(g, [a, b]), c]))
            if not quick or t[0] == t[1]:
                out.append((f, [a, (g, [b, c])]))
    return out


def sums(v, r):
    for kd in ("", "keepdims=True", "keepdims=False"):
        yield f"{v}.sum({kd})"
        axes = ["None"] + [str(a) for a in range(-r, r)] + [str(c) for n in range(1, r + 1) for c in itertools.permutations(range(r), n)]
        for ax in axes:
            yield f"{v}.sum(axis={ax}{', ' + kd if kd else ''})"


def array_exprs(quick):
    out = []
    for s in "FI":
        for r in range(1, 5):
            v = f"{s}{r}"
            for n in range(1, r + 1):
                for c in itertools.product(("0", "-1", ":", "1:") if r < 4 or not quick else ("0", ":", "1:"), repeat=n):
                    out.append(f"{v}[{', '.join(c)}]")
            out.append(f"{v}[j]")
            for c in itertools.product(("0", ":", "j"), repeat=2):
                if r > 1 and c.count("j") == 1 and not (s == "" or "0" in c):
                    out.append(f"{v}[{', '.join(c)}]")
            out.extend(sums(v, r))
            out.extend(f"{v} {o} {w}" for o in "+-*" for w in (v, "1"))
            out.append(f"{v}[j][0:1]")
            out.append(f"{v}[0:1][0]")
    return out


def env():
    e = {f"F{r}": values((3,) * r, "float32", r) for r in range(1, 5)}
    e.update({f"I{r}": np.arange(3 ** r, dtype="int32").reshape((3,) * r) for r in range(1, 5)})
    e["j"] = np.array([0, 2], "int32")
    return e


def name_of(y):
    if isinstance(y, np.ndarray):
        return ("thinc.types.Floats" if y.dtype.kind == "f" else "thinc.types.Ints") + f"{y.ndim}d"
    return "builtins.float" if isinstance(y, np.floating) else "builtins.int"


ROWS = lambda: values((4, 3), "float32", 1)  # noqa: E731
RAG = lambda: TY.Ragged(values((4, 3), "float32", 1), np.array([3, 1], "int32"))  # noqa: E731
LST = lambda: [values((2, 3), "float32", 1), values((3, 3), "float32", 2)]  # noqa: E731
IDS = lambda: np.array([[0, 1], [2, 1]], "uint64")  # noqa: E731
PAD = lambda: T.NumpyOps().list2padded(LST())  # noqa: E731
LAYERS = {
    **{f"T.{n}(2, 3)": ROWS for n in ("Linear", "Relu", "Mish", "Gelu", "Swish", "HardSwish", "HardSwishMobilenet", "Dish", "Maxout", "ClippedLinear", "HardSigmoid", "HardTanh", "ReluK", "Sigmoid", "Softmax", "Softmax_v2")},
    "T.LayerNorm(3)": ROWS, "T.Dropout(0.1)": ROWS, "T.expand_window(1)": ROWS, "T.Embed(2, 4, column=0)": IDS, "T.HashEmbed(2, 4, column=0)": IDS, "T.MultiSoftmax((2, 1), 3)": ROWS,
    "T.reduce_sum()": RAG, "T.reduce_mean()": RAG, "T.reduce_max()": RAG, "T.reduce_first()": RAG, "T.reduce_last()": RAG, "T.softmax_activation()": ROWS, "T.strings2arrays()": lambda: ["a", "bc"],
    "T.list2array()": LST, "T.list2ragged()": LST, "T.list2padded()": LST, "T.ragged2list()": RAG, "T.padded2list()": PAD, "T.ParametricAttention(3)": RAG, "T.ParametricAttention_v2(nO=3)": RAG, "T.LSTM(2, 3)": PAD, "T.PyTorchLSTM(2, 3)": PAD,
    "T.remap_ids({'a': 1})": lambda: ["a", "b"], "T.siamese(T.Linear(2, 3), T.CauchySimilarity(2))": lambda: (ROWS(), ROWS()), "T.CauchySimilarity(3)": lambda: (ROWS(), ROWS()),
}


def parse(s):
    s = re.sub(r"thinc\.types\.|builtins\.|typing\.", "", s)
    s = re.sub(r"\b(list|tuple)\b(?=\[)", lambda m: {"list": "List", "tuple": "Tuple"}[m[1]], s)
    return eval(s, dict(vars(typing), **vars(TY), float=float, int=int, str=str, bool=bool, object=object, Model=Pair))


class Pair:
    def __class_getitem__(cls, item):
        return item


# ---- running the type checker -------------------------------------------------------------------------------------
CONFIG = "[mypy]\nplugins = thinc.mypy\nfollow_imports = silent\nstrict_optional = True\ncheck_untyped_defs = True\ndisallow_untyped_defs = True\n[mypy-torch.*,tensorflow.*,mxnet.*,cupy.*,h5py.*]\nfollow_imports = skip\nignore_missing_imports = True\n"
RUN = "import sys, os; from mc import target; target.load(); from mypy import api; o, e, c = api.run(sys.argv[1:]); sys.stdout.write(o); sys.stderr.write(e); sys.exit(c)"


def mypy(sources):
    """Run the type checker on the programs; its messages as (file, line, kind, text)."""
    d = tempfile.mkdtemp(prefix="verif-mypy-")
    try:
        with open(os.path.join(d, "mypy.ini"), "w") as f:
            f.write(CONFIG)
        for name, text in sources.items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        e = dict(os.environ, MYPYPATH=str(target.REPO), PYTHONPATH=os.environ.get("PYTHONPATH", "") + os.pathsep + str(target.REPO))
        r = subprocess.run([sys.executable, "-c", RUN, *sources, "--config-file", "mypy.ini", "--cache-dir", os.path.join(d, "cache"), "--show-error-codes", "--hide-error-context", "--no-error-summary"], cwd=d, env=e, capture_output=True, text=True, timeout=800)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = []
    for line in r.stdout.splitlines():
        m = re.match(r"(\w+\.py):(\d+): (error|note): (.*)$", line)
        if m:
            out.append((m[1], int(m[2]), m[3], m[4]))
    if r.returncode not in (0, 1) or not out:
        raise RuntimeError(f"the type checker fails: {r.returncode} {r.stdout[-1500:]} {r.stderr[-1500:]}")
    return out


def revealed(text):
    m = re.match(r'Revealed type is "(.*)"$', text)
    return m and m[1]


def build(trees, exprs, layers):
    src = Source()
    legend = {}
    for k in TYPES:
        legend[src.add_line(f"reveal_type(m_{k}_F1)")] = k
    for i, t in enumerate(trees):
        src.case(i, t)
    arr = [HEAD, "def f(F1: Floats1d, F2: Floats2d, F3: Floats3d, F4: Floats4d, I1: Ints1d, I2: Ints2d, I3: Ints3d, I4: Ints4d, j: Ints1d) -> None:"]
    arr = "\n".join(arr).splitlines()
    base = len(arr)
    arr += [f"    reveal_type({e})" for e in exprs] or ["    pass"]
    lay = ["import thinc.api as T"] + [f"reveal_type({e})" for e in layers]
    msgs = mypy({"combos.py": "\n".join(src.lines) + "\n", "arrays.py": "\n".join(arr) + "\n", "layers.py": "\n".join(lay) + "\n"})
    names, combos_r, arrays_r, layers_r = {}, {i: [{}, None] for i in range(len(trees))}, {i: [None, None] for i in range(len(exprs))}, {i: None for i in range(len(layers))}
    for f, line, kind, text in msgs:
        t = revealed(text) if kind == "note" else None
        if f == "combos.py":
            if line in legend and t:
                names[legend[line]] = t[len("thinc.model.Model["):-len(", thinc.types.Floats1d]")]
            elif kind == "error" and line in src.where:
                m = re.search(r"\[(layer-mismatch-\w+)\]$", text)
                if m:
                    case, path = src.where[line]
                    combos_r[case][0].setdefault(path, set()).add(m[1])
            elif t and line in src.reveal:
                combos_r[src.reveal[line]][1] = t
            elif t and line in src.where:
                combos_r[src.where[line][0]][1] = t
        elif f == "arrays.py" and line > base:
            arrays_r[line - base - 1][0 if t else 1] = t or text
        elif f == "layers.py" and t:
            layers_r[line - 2] = t
    return names, combos_r, arrays_r, layers_r


# ---- judging --------------------------------------------------------------------------------------------------------
RESULTS = {}


def listify(t):
    return t if isinstance(t, str) else [t[0], [listify(x) for x in t[1]]]


def shape_of(tree):
    return tree[0] if isinstance(tree[0], str) and all(isinstance(x, str) for x in tree[1]) else "nested:" + tree[0]


def combo(ctx, tree):
    key = repr(listify(tree))
    if key not in RESULTS:
        names, c, _, _ = build([tree], [], [])
        RESULTS[key] = (names, c[0])
    names, (errors, shown) = RESULTS[key]
    ctx.step()
    (a, b), want = typed(tree)
    specified = not ("Any" in key and any(f in key for f in ADDS))
    if not specified:
        return
    tag = shape_of(tree)
    want = {k: v for k, v in want.items() if v}
    for path in sorted(set(want) | set(errors)):
        w, g = want.get(path, set()), errors.get(path, set())
        ctx.require(w <= g, f"combo:{tag}:mismatch-not-reported", lambda: f"{key}: argument {path}: expected {sorted(w)}, reported {sorted(g)}")
        ctx.require(g <= w, f"combo:{tag}:reported-where-compatible", lambda: f"{key}: argument {path}: expected {sorted(w)}, reported {sorted(g)}")
    expect = f"thinc.model.Model[{names[a]}, {names[b]}]"
    ctx.require(shown == expect, f"combo:{tag}:result-type", lambda: f"{key}: {shown}, expected {expect}")
    ctx.seen((key, sorted(map(repr, errors.items())), shown))
    ctx.outcome((sorted((p, sorted(c)) for p, c in errors.items()), shown))


def array(ctx, e):
    if e not in RESULTS:
        RESULTS[e] = build([], [e], [])[2][0]
    shown, error = RESULTS[e]
    ctx.step()
    want = name_of(eval(e, env()))
    plain = re.fullmatch(r"[FI]\d\[[-0-9:, ]+\]", e)
    kind = "index" if "[" in e else "sum" if "sum" in e else "arithmetic"
    if error is not None or shown is None:
        ctx.require(not plain, f"array:{kind}:refused", lambda: f"{e}: {error}")
        return
    parts = [p.strip() for p in (shown[len("Union["):-1] if shown.startswith("Union[") else shown).split(",")]
    ctx.require(want in parts, f"array:{kind}:type", lambda: f"{e}: declared as {shown}, is {want}")
    if plain:
        ctx.require(parts == [want], f"array:{kind}:vague", lambda: f"{e}: declared as {shown}, is {want}")
    ctx.seen((e, shown))


def constructor(ctx, e):
    if ("layer", e) not in RESULTS:
        RESULTS[("layer", e)] = build([], [], [e])[3][0]
    shown = RESULTS[("layer", e)]
    ctx.step()
    if not ctx.require(shown and shown.startswith("thinc.model.Model["), "layer:not-a-model", lambda: f"{e}: {shown}"):
        return
    try:
        tx, ty = parse(shown.replace("thinc.model.", ""))
    except (NameError, SyntaxError, TypeError):
        ctx.note("result types not concrete")
        return
    m = eval(e, {"T": T})
    X = LAYERS[e]()
    m.initialize(X=X)
    Y = m.predict(X)
    ctx.require(conforms(X, tx) is not False, "layer:input-type", lambda: f"{e} is declared {shown}; sample input {X!r}")
    ctx.require(conforms(Y, ty) is not False, "layer:output-type", lambda: f"{e} is declared {shown}; output {type(Y)} {getattr(Y, 'dtype', '')} {getattr(Y, 'shape', '')}")
    ctx.seen((e, shown))


FAMILIES = {"combo": combo, "array": array, "constructor": constructor}


def explore(ctx):
    q = ctx.quick
    trees, exprs, layers = combos(q), array_exprs(q), list(LAYERS)
    trees = list({repr(listify(t)): t for t in trees}.values())
    exprs = list(dict.fromkeys(exprs))
    names, c, a, lay = build(trees, exprs, layers)
    for i, t in enumerate(trees):
        RESULTS[repr(listify(t))] = (names, c[i])
    RESULTS.update({e: a[i] for i, e in enumerate(exprs)})
    RESULTS.update({("layer", e): lay[i] for i, e in enumerate(layers)})
    ctx.each("combo", lambda: iter(trees), combo)
    ctx.each("array", lambda: iter(exprs), array)
    ctx.each("constructor", lambda: iter(layers), constructor)


def replay(ctx, family, case):
    ctx.run_case(family, FAMILIES[family], case)
