"""C03: all pairs of small model variants x model states x routes, and every prefix of saved files."""
import itertools
import tempfile
from pathlib import Path

import numpy as np
from mc import zoo
from mc.modelspec import ATTRS, build, diff, freeze, ladder, ladder_cases, observe, what_differs
from thinc.api import Model
from thinc.model import serialize_attr

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of pairs of model variants and of all truncation points of saved files, on the real code, against a compatibility relation over plain descriptions"
NOTE = "Variants: all single and pairs of edits to three base trees; every byte offset of every saved file of the enumerated models. Files are damaged by truncation and trailing garbage, not by bit flips."
RULE = "state = (observation of the data, observation of the model asked); transition = one compatibility question, load or attempted load"
ASSUMPTIONS = ["wrapped models are compared by number only (documented in the code)"]

ROUTES = ("bytes", "dict", "disk")

BASES = {
    "one": (((),), [dict(dims={"nO": 2, "nI": None}, params={"W": "f4", "b": "unset"}, attrs={"a": "int", "c": "custom"}, shims=1)]),
    "pair": (((1,), ()), [dict(attrs={"a": "str"}), dict(dims={"nO": 2}, params={"W": "1d"}, shims=1)]),
    "shared": (((1, 2), (2,), ()), [dict(), dict(dims={"nO": 3}, params={"W": "f4"}), dict(attrs={"a": "list"}, params={"b": "empty"})]),
}


def with_(f, **kw):
    g = {k: (dict(v) if isinstance(v, dict) else v) for k, v in f.items()}
    for k, v in kw.items():
        if isinstance(v, dict):
            d = dict(g.get(k, {}))
            for a, b in v.items():
                if b == "drop":
                    d.pop(a, None)
                else:
                    d[a] = b
            g[k] = d
        else:
            g[k] = v
    return g


# one edit of the description of a node
NODE_EDITS = {
    "rename": dict(name="renamed"), "rename-empty": dict(name=""),
    "nO=5": dict(dims={"nO": 5}), "nO=None": dict(dims={"nO": None}), "nO=0": dict(dims={"nO": 0}), "no-nO": dict(dims={"nO": "drop"}), "new-dim": dict(dims={"nX": 4}), "new-unset-dim": dict(dims={"nX": None}), "nI=2": dict(dims={"nI": 2}),
    "W-2x3": dict(params={"W": "f4"}), "W-f8": dict(params={"W": "f8"}), "W-1": dict(params={"W": "1d"}), "W-scalar": dict(params={"W": "scalar"}), "W-empty": dict(params={"W": "empty"}), "W-unset": dict(params={"W": "unset"}),
    "W-drop": dict(params={"W": "drop"}), "b-set": dict(params={"b": "f2"}), "new-param": dict(params={"X": "f4"}), "new-unset-param": dict(params={"X": "unset"}),
    "a-int": dict(attrs={"a": "int"}), "a-float": dict(attrs={"a": "float"}), "a-list": dict(attrs={"a": "list"}), "a-drop": dict(attrs={"a": "drop"}), "a-array": dict(attrs={"a": "array"}), "a-opaque": dict(attrs={"a": "opaque"}), "new-attr": dict(attrs={"z": "dict"}),
    "c-int": dict(attrs={"c": "int"}), "c-drop": dict(attrs={"c": "drop"}),
    "shims0": dict(shims=0), "shims1": dict(shims=1), "shims2": dict(shims=2),
}


def variants(base, pairs):
    ch, feats = BASES[base]
    yield ("",)
    singles = [(i, e) for i in range(len(feats)) for e in NODE_EDITS]
    for x in singles:
        yield (x,)
    for t in ("leaf", "wrap", "swap"):
        yield ((t,),)
    if pairs:
        yield from itertools.combinations(singles, 2)


def make(base, variant):
    ch, feats = BASES[base]
    ch, feats = [tuple(c) for c in ch], [dict(f) for f in feats]
    for v in variant:
        if v == "":
            pass
        elif v[0] == "leaf":
            ch[0] = ch[0] + (len(ch),)
            ch.append(())
            feats.append(dict(name="leaf"))
        elif v[0] == "wrap":
            ch = [(1,)] + [tuple(c + 1 for c in x) for x in ch]
            feats = [dict(name="wrap")] + feats
        elif v[0] == "swap":
            ch[0] = tuple(reversed(ch[0]))
        else:
            feats[v[0]] = with_(feats[v[0]], **NODE_EDITS[v[1]])
    return tuple(ch), feats


def alter(m, kind):
    """The state of the model asked: built with the values, built without, or with other contents of the same shape."""
    for n in m.walk():
        for k in n.param_names:
            if n.has_param(k):
                p = n.get_param(k)
                n.set_param(k, np.full(p.shape, 3, dtype=p.dtype))


def expected(src, dst, strict):
    """The reason for a 'no', or '' (src: the saved model's nodes, dst: the nodes of the model asked)."""
    a, b = list(src.walk()), list(dst.walk())
    if len(a) != len(b):
        return "layer-count"
    for x, y in zip(a, b):
        if strict and x.name != y.name:
            return "name"
        if len(x.shims) != len(y.shims):
            return "shims"
        for d in x.dim_names:
            v = x.get_dim(d) if x.has_dim(d) else None
            if d not in y.dim_names:
                return "dim-unknown"
            if y.has_dim(d) and y.get_dim(d) != v:
                return "dim-value"
        for p in x.param_names:
            if p not in y.param_names:
                return "param-unknown"
            if x.has_param(p) and y.has_param(p) and x.get_param(p).shape != y.get_param(p).shape:
                return "param-shape"
        if strict:
            for k, v in x.attrs.items():
                if k in y.attrs and not opaque(v) and not opaque(y.attrs[k]) and (type(v) is not type(y.attrs[k]) or freeze(v) != freeze(y.attrs[k])):
                    return "attr"
    return ""


def opaque(v):
    """Attributes that cannot be saved are not compared."""
    try:
        serialize_attr(v, v, "a", Model("m", None))
        return False
    except TypeError:
        return True


def loadable_attrs(src, dst):
    """An attribute saved by a custom serializer can only be read by a node that has that type of attribute."""
    for x, y in zip(src.walk(), dst.walk()):
        for k, v in x.attrs.items():
            c = type(v).__name__ == "Custom"
            d = type(y.attrs.get(k)).__name__ == "Custom"
            if not opaque(v) and c != d:
                return False  # the answer may be no, and must not be yes when loading fails
    return True


def ask(route, data, dst, strict):
    if route == "bytes":
        return dst.can_from_bytes(data, strict=strict)
    if route == "dict":
        return dst.can_from_dict(data, strict=strict)
    with tempfile.TemporaryDirectory(prefix="verif-c03-") as d:
        p = Path(d) / "m"
        p.write_bytes(data)
        return dst.can_from_disk(p if strict else str(p), strict=strict)


def load(route, data, dst):
    return dst.from_dict(data) if route == "dict" else dst.from_bytes(data)


_SRC = {}


def source(base, va):
    if (base, va) not in _SRC:
        _SRC.clear()
        ca, fa = make(base, va)
        src = build(ca, (), fa, 0)[0]
        _SRC[(base, va)] = (src, observe(src), src.to_bytes())
    return _SRC[(base, va)]


def pair(ctx, case):
    base, va, vb, state, route = case
    cb, fb = make(base, vb)
    src, src_obs, saved = source(base, va)
    dst = build(cb, (), fb, 1 if state == "fresh" else 0)[0]
    if state == "other":
        alter(dst, state)
    why = f"data of {base}{va}, model {base}{vb} ({state})"
    before = observe(dst)
    for strict in (True, False):
        want = expected(src, dst, strict)
        ctx.step()
        data = src.to_dict() if route == "dict" else saved
        got = ask(route, data, dst, strict)
        ctx.require(isinstance(got, bool), f"pair:{route}:not-a-bool", why)
        ctx.require(observe(dst) == before, f"pair:{route}:asking-changes-model", why)
        known_unloadable = len(before) == len(src_obs) and not loadable_attrs(src, dst)
        if got and want:
            ctx.fail(f"pair:{route}:strict={strict}:yes-despite-{want}", why)
        if not got and not want and not known_unloadable:
            ctx.fail(f"pair:{route}:strict={strict}:no-although-compatible", why)
        ctx.outcome((got, want, strict))
        if got:
            target = build(cb, (), fb, 1 if state == "fresh" else 0)[0]
            if state == "other":
                alter(target, state)
            ctx.step()
            try:
                load(route, data, target)
            except Exception as e:
                ctx.fail(f"pair:{route}:strict={strict}:yes-but-load-raised:{type(e).__name__}", f"{why}: {e}")
                continue
            a, b = src_obs, observe(target)
            for i, (x, y) in enumerate(zip(a, b)):  # the model may have more than the data, but holds all of the data
                for what in ("name", "dims", "params", "attrs", "shims"):
                    if what in ("name", "shims"):
                        ok = x[what] == y[what]
                    else:
                        ok = all(k in y[what] and y[what][k] == v for k, v in x[what].items() if v is None or not isinstance(v, tuple) or v[0] != "O")
                    if not ok:
                        ctx.fail(f"pair:{route}:strict={strict}:yes-but-{what}-not-loaded", f"{why}: node {i}: {x[what]} -> {y[what]}")
            m1 = target.to_bytes()
            t2 = build(cb, (), fb, 1 if state == "fresh" else 0)[0]
            t2.from_bytes(m1)
            ctx.require(t2.to_bytes() == m1, f"pair:{route}:strict={strict}:yes-but-no-round-trip", why)
            ctx.seen(observe(target))
    ctx.seen((src_obs, before))


def pair_cases(quick):
    for base in BASES:
        vs = list(variants(base, False))
        for va, vb in itertools.product(vs, repeat=2):
            if quick and base == "shared" and va != ("",) and vb != ("",) and va[0][0] != vb[0][0]:
                continue
            for state in ("fresh", "same", "other") if not quick or base != "shared" else (("same",) if va != ("",) and vb != ("",) else ("fresh", "other")):
                for route in ROUTES if (va == ("",) or vb == ("",) or not quick) else ("bytes",):
                    yield (base, va, vb, state, route)
    for base in BASES:
        if quick and base == "shared":
            continue
        vs = list(variants(base, True))
        for v in vs:
            for state in ("fresh", "same"):
                yield (base, v, ("",), state, "dict")
                yield (base, ("",), v, state, "dict")
                yield (base, v, v, state, "bytes")


# ---- truncated files -----------------------------------------------------------------------------------
def trunc_models():
    for base in BASES:
        yield ("base", base)
    for n in ("Linear", "Maxout2+norm", "LSTM-list", "PyTorchWrapper", "embed-features", "ParametricAttention", "MultiSoftmax", "noop", "SparseLinear_v2"):
        yield ("zoo", n)


def get_model(kind, name, which=0):
    if kind == "base":
        ch, feats = BASES[name]
        return build(ch, (), feats, which)[0]
    e = zoo.ENTRIES[name]
    m = e.build()
    if which:
        for n in m.walk():
            for k in n.param_names:
                if n.has_param(k):
                    n.set_param(k, n.get_param(k) + 1)
    return m


CHUNK = 64
_CACHE = {}


def truncated(ctx, case):
    kind, name, at, extra = case
    if (kind, name) not in _CACHE:
        _CACHE[(kind, name)] = (get_model(kind, name).to_bytes(), get_model(kind, name, 1))
    data, dst = _CACHE[(kind, name)]
    before = observe(dst)
    ids = [n.id for n in dst.walk()]
    cuts = range(at, min(at + CHUNK, len(data))) if extra is None else [None]
    with tempfile.TemporaryDirectory(prefix="verif-c03-") as d:
        p = Path(d) / "m"
        for c in cuts:
            bad = data[:c] if extra is None else data + bytes(extra)
            p.write_bytes(bad)
            for what, f in (("from_bytes", lambda: dst.from_bytes(bad)), ("from_disk", lambda: dst.from_disk(p))):
                ctx.step()
                try:
                    f()
                    ctx.fail(f"truncated:{what}:loaded", f"{kind} {name}: {c} of {len(data)} bytes (+{extra})")
                except Exception as e:
                    ctx.outcome((what, type(e).__name__))
            for what, f in (("can_from_bytes", lambda s: dst.can_from_bytes(bad, strict=s)), ("can_from_disk", lambda s: dst.can_from_disk(p, strict=s))):
                for s in (True, False):
                    ctx.step()
                    try:
                        r = f(s)
                        ctx.require(r is False, f"truncated:{what}:says-{r}", f"{kind} {name}: {c} of {len(data)} bytes")
                    except Exception as e:
                        ctx.fail(f"truncated:{what}:raised:{type(e).__name__}", f"{kind} {name}: {c} of {len(data)} bytes: {e}")
            ctx.seen((kind, name, c, extra))
    after = observe(dst)
    ctx.require(after == before and ids == [n.id for n in dst.walk()], "truncated:model-changed", lambda: f"{kind} {name}: prefixes {at}..{at + CHUNK}: {diff(before, after)}")


def truncated_cases(quick):
    for kind, name in trunc_models():
        n = len(get_model(kind, name).to_bytes())
        for at in range(0, n, CHUNK):
            yield (kind, name, at, None)
        for extra in ((0,), (0xC0,), (0x80,), (0xFF, 0xFF), (0xC1,)):
            yield (kind, name, 0, extra)


def missing(ctx, case):
    what, strict = case
    m = get_model("base", "one")
    with tempfile.TemporaryDirectory(prefix="verif-c03-") as d:
        p = Path(d)
        if what == "absent":
            p = p / "nothing"
        elif what == "empty":
            p = p / "empty"
            p.write_bytes(b"")
        ctx.step(2)
        ctx.seen(case)
        ctx.require(m.can_from_disk(p, strict=strict) is False, f"missing:{what}", f"{case}")
        ctx.require(m.can_from_disk(str(p), strict=strict) is False, f"missing:{what}:str", f"{case}")
        for q in (p, str(p)):
            try:
                m.from_disk(q)
                ctx.fail(f"missing:{what}:loaded", f"{case}")
            except Exception:
                pass


def zoo_pairs(ctx, case):
    """Every layer of the zoo against every other one: data only loads into a model that says yes."""
    a, b = case
    src, dst = _zoo(a), _zoo(b)
    data = src.to_bytes()
    before = observe(dst)
    for strict in (True, False):
        ctx.step()
        want = expected(src, dst, strict)
        got = dst.can_from_bytes(data, strict=strict)
        if got and want:
            ctx.fail(f"zoo:strict={strict}:yes-despite-{want}", f"data of {a}, model {b}")
        if not got and not want:
            ctx.fail(f"zoo:strict={strict}:no-although-compatible", f"data of {a}, model {b}")
        ctx.require(observe(dst) == before, "zoo:asking-changes-model", f"{case}")
        if got:
            t = zoo.ENTRIES[b].build()
            try:
                t.from_bytes(data)
            except Exception as e:
                if any(n.shims for n in t.walk()):
                    continue
                ctx.fail(f"zoo:strict={strict}:yes-but-load-raised:{type(e).__name__}", f"data of {a}, model {b}: {e}")
                continue
            if a == b:
                ctx.require(t.to_bytes() == data, "zoo:no-round-trip", f"{a}")
    ctx.seen((before, data))


_ZOO = {}


def _zoo(name):
    if name not in _ZOO:
        _ZOO[name] = zoo.ENTRIES[name].build()
    return _ZOO[name]


def zoo_cases(quick):
    names = list(zoo.ENTRIES)
    if quick:
        by = {}
        for n in names:  # those with as many nodes can only be told apart by contents
            by.setdefault(len(list(_zoo(n).walk())), []).append(n)
        for g in by.values():
            yield from itertools.product(g, repeat=2)
    else:
        yield from itertools.product(names, repeat=2)


# ---- many or large: equal models say yes, a difference in the last place says no -------------------------
def large(ctx, case):
    kind, n, state, route = case
    for la, lb in ((0, 0), (0, 1), (1, 0)):
        src, dst = ladder(kind, n, 0, la), ladder(kind, n, 0 if state == "same" else 1, lb)
        if state == "short":
            for x in list(dst.walk())[-1:]:
                if x is not dst:
                    dst.remove_node(x)
        why = f"{kind} {n}: data with variant {la}, model with variant {lb} ({state})"
        before, src_obs = observe(dst), observe(src)
        data = src.to_dict() if route == "dict" else src.to_bytes()
        for strict in (True, False):
            want = expected(src, dst, strict)
            ctx.step()
            got = ask(route, data, dst, strict)
            ctx.require(got is (not want), f"large:{kind}:{route}:strict={strict}:" + ("yes-despite-" + want if want else "no-although-compatible"), why)
            ctx.outcome((kind, got, want, strict))
            ctx.require(observe(dst) == before, f"large:{kind}:{route}:asking-changes-model", why)
        if not expected(src, dst, False):
            ctx.step()
            load(route, data, dst)
            now = observe(dst)
            for x, y in zip(src_obs, now):
                ctx.require(all(x[k] == y[k] for k in ("name", "dims", "params", "attrs", "shims", "layers")), f"large:{kind}:{route}:yes-but-not-loaded", why)
        elif expected(src, dst, False) in ("layer-count", "shims", "dim-value"):
            ctx.step()
            try:
                load(route, data, dst)
                ctx.fail(f"large:{kind}:{route}:mismatch-loaded", why)
            except Exception:
                pass
        ctx.seen((src_obs, before))


def large_cases(quick):
    for kind, n in ladder_cases((16, 32, 257) if quick else (15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257, 300)):
        for state in ("same", "fresh", "short"):
            if state == "short" and kind not in ("children", "chain", "shared"):
                continue
            for route in ("dict",) if quick and n < 257 else ROUTES:
                yield (kind, n, state, route)


FAMILIES = {"large": large, "pair": pair, "truncated": truncated, "missing": missing, "zoo": zoo_pairs}


def explore(ctx):
    q = ctx.quick
    ctx.each("pair", lambda: pair_cases(q), pair)
    ctx.each("large", lambda: large_cases(q), large, timeout=300)
    ctx.each("truncated", lambda: truncated_cases(q), truncated)
    ctx.each("missing", lambda: [(w, s) for w in ("absent", "directory", "empty") for s in (True, False)], missing, parallel=False)
    ctx.each("zoo", lambda: zoo_cases(q), zoo_pairs)


def replay(ctx, family, case):
    ctx.run_case(family, FAMILIES[family], case)
