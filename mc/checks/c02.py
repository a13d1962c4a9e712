"""C02: every small layer graph x references x contents, and every layer of the zoo, saved and loaded four ways."""
import itertools
import tempfile
from pathlib import Path

import numpy as np
from mc import zoo
from mc.graphs import RefGraph, dags
from mc.modelspec import ATTRS, PARAMS, build, diff, freeze, ladder, ladder_cases, observe, what_differs
from thinc.api import Model, PyTorchWrapper

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of model trees (sharing, references, unset values, attribute/parameter kinds, wrapped models) and save/load routes on the real code"
NOTE = "All layer DAGs up to the stated size with all reference assignments; all pairs of attribute and parameter kinds; sequences of save/load/edit up to the stated length."
RULE = "state = observation of a saved or loaded model; transition = one save, load, or edit"
ASSUMPTIONS = ["attributes the library cannot serialize keep the value of the freshly built model (documented)", "tuples are not used as attribute values (msgpack has none)"]

ROUTES = ("bytes", "dict", "disk", "disk-str")
_DIR = None


def transfer(route, src, dst):
    """Save src by one route and load it into dst; returns the saved data."""
    if route == "bytes":
        data = src.to_bytes()
        r = dst.from_bytes(data)
    elif route == "dict":
        data = src.to_dict()
        r = dst.from_dict(data)
    else:
        with tempfile.TemporaryDirectory(prefix="verif-c02-") as d:
            p = Path(d) / "model"
            src.to_disk(p if route == "disk" else str(p))
            data = p.read_bytes()
            r = dst.from_disk(p if route == "disk" else str(p))
    return data, r


def again(route, m):
    return m.to_dict() if route == "dict" else m.to_bytes()


def frozen(data):
    return data if isinstance(data, bytes) else freeze(data)


def expected(src_obs, dst_obs):
    """Attributes that cannot be saved keep the value of the model loaded into."""
    out = []
    for a, b in zip(src_obs, dst_obs):
        a = dict(a, attrs={k: (b["attrs"].get(k, v) if v[0] == "O" else v) for k, v in a["attrs"].items()})
        out.append(a)
    return out


def check(ctx, tag, why, src, dst, route):
    before, was = observe(src), observe(dst)
    ctx.step(2)
    data, r = transfer(route, src, dst)
    first = frozen(data)
    ctx.require(r is dst, f"{tag}:{route}:returns-self", why)
    after = observe(src)
    ctx.require(after == before, f"{tag}:{route}:saving-changes-model", lambda: f"{why}: {diff(before, after)}")
    want, got = expected(before, was), observe(dst)
    ctx.require(got == want, f"{tag}:{route}:{what_differs(want, got)}", lambda: f"{why}: expected, loaded: {diff(want, got)}")
    second = frozen(again(route, dst))
    ctx.require(second == first, f"{tag}:{route}:second-save-differs", why)
    ctx.require(frozen(again(route, src)) == first, f"{tag}:{route}:save-not-repeatable", why)
    ctx.seen(got)
    ctx.outcome(first if isinstance(first, bytes) else repr(first))


def detach(ctx, tag, why, src, dst):
    """After loading, the two models share no state."""
    b = observe(src)
    for n in dst.walk():
        for k in n.param_names:
            if n.has_param(k) and n.get_param(k).size:
                p = n.get_param(k)
                if p.flags.writeable:
                    p += 1
                n.inc_grad(k, np.ones_like(p)) if p.dtype.kind == "f" else None
        for k, v in n.attrs.items():
            if isinstance(v, list):
                v.append("changed")
            elif isinstance(v, dict):
                v["changed"] = 1
        for s in n.shims:
            for p in s._model.parameters():
                p.data += 1
    a = observe(src)
    ctx.require(a == b, f"{tag}:loaded-model-shares-{what_differs(b, a)}", lambda: f"{why}: {diff(b, a)}")


def feature(i, variant):
    """A varied but fixed content for node i of a graph."""
    pk, ak = list(PARAMS), list(ATTRS)
    f = {"dims": {"nO": i + 1, "nI": None} if (i + variant) % 2 else {"nO": i + 1},
         "params": {"W": pk[(i + variant) % 2], "b": pk[(1 + i + variant) % len(pk)]},
         "attrs": {"a": ak[(i + variant) % len(ak)], "b": ak[(2 * i + variant + 5) % len(ak)]},
         "shims": 1 if (i + variant) % 5 == 4 else 0}
    return f


def graph(ctx, case):
    children, refs, variant, route = case
    feats = [feature(i, variant) for i in range(len(children))]
    src = build(children, refs, feats, 0)[0]
    dst = build(children, refs, feats, 1)[0]
    why = f"children={children} refs={refs} variant={variant}"
    check(ctx, "graph", why, src, dst, route)
    detach(ctx, "graph", why, src, dst)


def graphs(nmax, maxlen, nrefs, routes, variants):
    for n in range(1, nmax + 1):
        for ch in dags(n, maxlen):
            g = RefGraph(ch, ())
            poss = [(s, t) for s in range(n) for t in sorted(g.reach(s)) + [None]]
            for k in range(nrefs + 1):
                for combo in itertools.combinations(poss, k):
                    refs = tuple((s, f"r{j}", t) for j, (s, t) in enumerate(combo))
                    for v in variants:
                        for r in routes:
                            yield (ch, refs, v, r)


def contents(ctx, case):
    children, feats, route = case
    src = build(children, (), feats, 0)[0]
    dst = build(children, (), feats, 1)[0]
    why = f"{children} {feats}"
    check(ctx, "contents", why, src, dst, route)
    detach(ctx, "contents", why, src, dst)


def content_cases(quick):
    pk, ak = list(PARAMS), list(ATTRS)
    routes = ROUTES
    for r in routes:
        for a in ak:
            yield (((),), ({"attrs": {"x": a}},), r)
        for p in pk:
            yield (((),), ({"params": {"W": p}},), r)
        for k in range(4):
            yield (((),), ({"shims": k},), r)
        for name in ("", "n>1", "é", "a\0b", "x" * 300):
            yield (((),), ({"name": name, "dims": {"nO": 0, "": 3, "weird dim": None}},), r)
        for x, y in itertools.product(pk, repeat=2):
            yield (((),), ({"params": {"W": x, "b": y}},), r)
            yield (((1,), ()), ({"params": {"W": x}}, {"params": {"W": y}}), r)
        for x, y in itertools.product(ak, repeat=2):
            yield (((),), ({"attrs": {"x": x, "y": y}},), r)
            yield (((1,), ()), ({"attrs": {"x": x}}, {"attrs": {"x": y}}), r)
        for x, y, z in itertools.product(range(3), repeat=3):
            yield (((1, 2), (2,), ()), ({"shims": x}, {"shims": y, "dims": {"nO": 2}}, {"shims": z, "params": {"W": "f4"}}), r)
        for dims in itertools.product((None, 0, 1, 5, "absent"), repeat=3):
            d = {k: v for k, v in zip(("nO", "nI", "nP"), dims) if v != "absent"}
            yield (((1,), ()), ({"dims": d}, {"dims": d}), r)
            yield (((1,), ()), ({"dims": d, "fixed": 1}, {"dims": d}), r)
    if not quick:
        for r in routes:
            for x, y, z in itertools.product(pk, repeat=3):
                yield (((1,), ()), ({"params": {"W": x, "b": y}}, {"params": {"W": z}}), r)
            for x, y, z in itertools.product(ak, repeat=3):
                yield (((1,), ()), ({"attrs": {"x": x, "y": y}}, {"attrs": {"x": z}}), r)


# ---- histories: edits, saves and loads between three equally built models --------------------------------
H_CH = ((1, 1), (2,), ())
H_FEATS = ({"dims": {"nO": None}, "params": {"W": "unset"}, "attrs": {"a": "list"}}, {"params": {"W": "f4"}, "attrs": {"a": "custom"}, "shims": 1}, {"params": {"b": "f4"}, "attrs": {"o": "opaque"}})
H_REFS = ((0, "r", None), (1, "q", 2))


def edit(m, op, salt):
    nodes = list(m.walk())
    k = op[1:]
    if op == "w0":
        nodes[0].set_param("W", np.full((2, salt + 1), salt, "f"))
    elif op == "u1":
        nodes[1].set_param("W", None)
    elif op == "g1":
        nodes[2].inc_grad("b", np.ones_like(nodes[2].get_param("b")))
    elif op == "d0":
        if nodes[0].has_dim("nO") is None:
            nodes[0].set_dim("nO", 4)
    elif op == "a0":
        nodes[0].attrs["a"] = [salt]
        nodes[1].attrs["new"] = salt
    elif op == "r0":
        nodes[0].set_ref("r", nodes[2])
        nodes[1].set_ref("q", None)
    elif op == "r1":
        nodes[0].set_ref("r", nodes[0])
    elif op == "s1":
        for p in nodes[1].shims[0]._model.parameters():
            p.data += salt + 1
    elif op == "n2":
        nodes[2].name = f"renamed{salt}"
    elif op == "p2":
        nodes[2].set_param("extra", np.full(3, salt, "f"))
    else:
        raise ValueError(op)


EDITS = ("w0", "u1", "g1", "d0", "a0", "r0", "r1", "s1", "n2", "p2")


def history(ctx, case):
    ops, route = case
    models = [build(H_CH, H_REFS, H_FEATS, 0)[0], build(H_CH, H_REFS, H_FEATS, 1)[0]]
    for i, op in enumerate(ops):
        if op == "swap":  # save 0 and load it into 1, continue on that one
            m = {k: None for k in ()}
            if any(x["dims"]["nO"] not in (None, 4) for x in observe(models[1])[:1]):
                return
            a, b = observe(models[0]), observe(models[1])
            if a[0]["dims"] != b[0]["dims"] and b[0]["dims"]["nO"] is not None:
                return
            if set(b[1]["attrs"]) - set(a[1]["attrs"]) or set(b[2]["params"]) - set(a[2]["params"]):
                return
            check(ctx, "history", f"{ops}", models[0], models[1], route)
            models.reverse()
        else:
            ctx.step()
            edit(models[0], op, i + 1)
            ctx.seen(observe(models[0]))


def history_cases(quick):
    for r in ROUTES:
        for n in range(1, 4):
            for ops in itertools.product(EDITS, repeat=n):
                yield (ops + ("swap",), r)
        for a, b, c in itertools.product(EDITS, repeat=3) if not quick else ():
            yield ((a, "swap", b, "swap", c, "swap"), r)
        for a, b in itertools.product(EDITS, repeat=2):
            yield ((a, "swap", b, "swap"), r)
            yield (("swap", a, "swap", b, "swap"), r)


# ---- the zoo --------------------------------------------------------------------------------------------
def layer(ctx, case):
    name, route, trained = case
    e = zoo.ENTRIES.get(name) or zoo.NOISY[name]
    src = e.build()
    spec = [s for s in e.specs(True) if e.empty(s) == ""][-1]
    if trained:
        from thinc.api import SGD

        X = e.data(spec)
        for _ in range(2):
            Y, bp = src.begin_update(X)
            if name not in NO_BACKPROP:
                bp(zoo.gradient_for(Y, 5))
            src.finish_update(SGD(0.1))
    fresh = e._build()
    inits = [False] + ([True] if e._init else [])
    for initialised in inits:
        dst = e._build()
        if initialised:
            dst.initialize(X=e.sample())
        elif any("LSTM" in n.name or "dropout" in n.name for n in dst.walk()):
            pass
        if [len(n.layers) for n in dst.walk()] != [len(n.layers) for n in src.walk()]:
            continue  # built during initialization
        check(ctx, f"zoo:{name}", f"{name} {'initialized' if initialised else 'uninitialized'}", src, dst, route)
        for s in e.specs(True):
            ctx.step()
            a, b = src.predict(e.data(s)), dst.predict(e.data(s))
            ctx.require(zoo.full(a) == zoo.full(b), f"zoo:{name}:predictions-differ", f"{name} {s}")
        detach(ctx, f"zoo:{name}", name, src, dst)


NO_BACKPROP = set()


def zoo_cases(quick):
    for name in list(zoo.ENTRIES) + list(zoo.NOISY):
        for r in ROUTES[:3] if quick else ROUTES:
            for t in (False, True):
                yield (name, r, t)


# ---- references that leave the tree ------------------------------------------------------------------
def outside(ctx, case):
    ch, s, how = case
    nodes = build(ch, ((s, "r", s),), [{} for _ in ch], 0)
    other = Model("other", nodes[0]._func)
    ctx.step()
    try:
        nodes[s].set_ref("r", other)
        ctx.fail("outside:set_ref-accepted", f"{case}")
        return
    except ValueError:
        pass
    # a sub-model whose reference points above it
    for n in nodes:
        n._refs["up"] = nodes[0]
    for i, n in enumerate(nodes):
        in_tree = nodes[0] in list(n.walk())
        try:
            n.to_bytes() if how == "bytes" else n.to_dict()
            ok = True
        except ValueError:
            ok = False
        ctx.require(ok == in_tree, "outside:dangling-reference", f"{case}: node {i}: saved={ok}, reference inside the tree={in_tree}")


def outside_cases(quick):
    for n in range(1, 4):
        for ch in dags(n, 3):
            for s in range(n):
                for how in ("bytes", "dict"):
                    yield (ch, s, how)


# ---- many or large: one thing of a model at a time ------------------------------------------------------
def large(ctx, case):
    kind, n, route = case
    src, dst = ladder(kind, n), ladder(kind, n, 1)
    check(ctx, f"large:{kind}", f"{n}", src, dst, route)
    detach(ctx, f"large:{kind}", f"{n}", src, dst)
    if kind in OVER:  # over other values of the same size
        check(ctx, f"large-over-other:{kind}", f"{n}", src, ladder(kind, n, 0, 1), route)


OVER = ("name", "attrs", "str", "strs", "bytes", "list", "dict", "intdict", "nested", "array-attr", "refs", "ref-far", "shims", "int-attr")


def large_cases(quick):
    for kind, n in ladder_cases():
        for r in ("bytes", "dict", "disk"):
            yield (kind, n, r)


FAMILIES = {"large": large, "graph": graph, "contents": contents, "history": history, "zoo": layer, "outside": outside}


def explore(ctx):
    q = ctx.quick
    ctx.each("graph", lambda: itertools.chain(graphs(3, 2, 2, ("bytes", "dict"), (0,)), graphs(3, 3, 1, ("dict", "disk"), (1,)), graphs(4, 2, 1, ("bytes",), (2,)) if q else itertools.chain(graphs(3, 3, 3, ("bytes", "disk"), range(0, 20)), graphs(4, 3, 2, ("bytes",), (0,)))), graph)
    ctx.each("contents", lambda: content_cases(q), contents)
    ctx.each("history", lambda: history_cases(q), history)
    ctx.each("zoo", lambda: zoo_cases(q), layer, timeout=120)
    ctx.each("large", lambda: large_cases(q), large, timeout=120)
    ctx.each("outside", lambda: outside_cases(q), outside)


def replay(ctx, family, case):
    ctx.run_case(family, FAMILIES[family], case)
