"""C05: all small layer DAGs x reference assignments x edits (and pairs of edits), against a plain graph model."""
import itertools

from mc.graphs import RefGraph, dags
from thinc.api import Model, change_attr_values, wrap_model_recursive

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of layer DAGs, references and edit sequences on the real Model against a graph reference model"
NOTE = "Exhaustive for all DAGs up to the stated node count (ordered child lists with repeats); larger trees only in seven regular shapes (wide, deep, comb, binary, diamonds, shared child)."
RULE = "state = (graph, references) reached; transition = one remove/replace/wrap/walk on real Model objects"
ASSUMPTIONS = ["references point to descendants or the node itself when first set (the library's own rule)"]


def fwd(m, X, is_train):
    return X, lambda d: d


def build(children, refs):
    n = len(children)
    names = {i: [] for i in range(n)}
    for s, name, t in refs:
        names[s].append(name)
    nodes = [Model(f"n{i}", fwd, dims={"nO": i + 1}, refs={k: None for k in names[i]}) for i in range(n)]
    for i in range(n):
        nodes[i].layers.extend(nodes[c] for c in children[i])
    for s, name, t in refs:
        if t is not None:
            nodes[s].set_ref(name, nodes[t])
    return nodes


def check(ctx, nodes, g, tag, why):
    idx = {id(m): i for i, m in nodes.items()}

    def ids(it):
        return [idx.get(id(m), f"unknown:{m.name}") for m in it]

    ctx.require(ids(nodes[0].walk()) == g.bfs(), f"{tag}:walk-default", lambda: f"{why}: {ids(nodes[0].walk())} != {g.bfs()}")
    for order, want in (("bfs", g.bfs()), ("dfs_pre", g.pre()), ("dfs_post", g.post())):
        got = ids(nodes[0].walk(order=order))
        ctx.require(got == want, f"{tag}:walk-{order}", lambda: f"{why}: got {got}, expected {want}")
    for i, m in nodes.items():
        got = ids(m.layers)
        ctx.require(got == g.ch[i], f"{tag}:layers", lambda: f"{why}: node {i} has layers {got}, expected {g.ch[i]}")
    for i in g.bfs():
        m = nodes[i]
        got = {k: (None if m.maybe_get_ref(k) is None else idx.get(id(m.maybe_get_ref(k)), "unknown")) for k in m.ref_names}
        ctx.require(got == g.refs[i], f"{tag}:refs", lambda: f"{why}: node {i} has refs {got}, expected {g.refs[i]}")
        if i < 100:
            ctx.require(m.name == f"n{i}" and m.get_dim("nO") == i + 1, f"{tag}:node-changed", why)
    ctx.seen(g.key())
    ctx.outcome((g.bfs(), g.refs))


def apply(ctx, nodes, g, op, why):
    """op: ("rm", i) | ("rep", old, kind)"""
    ctx.step()
    if op[0] == "rm":
        nodes[0].remove_node(nodes[op[1]])
        g.remove(op[1])
        return True
    _, old, kind = op
    k = 100 + len(nodes)
    if kind == "leaf":
        nodes[k] = Model("new", fwd); g.ch[k] = []; g.refs[k] = {}
    elif kind == "wrapper":
        nodes[k] = Model("new", fwd, layers=[nodes[old]]); g.ch[k] = [old]; g.refs[k] = {}
    elif kind == "selfref":
        nodes[k] = Model("new", fwd, layers=[nodes[old]]); g.ch[k] = [old]
        nodes[k].set_ref("w", nodes[old]); g.refs[k] = {"w": old}
    else:  # an existing node
        k = kind
        if old in g.reach(k):  # would make a cycle
            return False
    present = old in g.bfs()
    r = nodes[0].replace_node(nodes[old], nodes[k])
    g.replace(old, k)
    if old != 0 or not present:
        ctx.require(r is present, f"{op[0]}:return-value", f"{why}: returned {r!r}, node present: {present}")
    return True


def run(ctx, case):
    children, refs, ops = case
    nodes = dict(enumerate(build(children, refs)))
    g = RefGraph(children, refs)
    why = f"children={children} refs={refs} ops={ops}"
    if not ops:
        check(ctx, nodes, g, "initial", why)
        return
    for i, op in enumerate(ops):
        if not apply(ctx, nodes, g, op, why):
            return
    check(ctx, nodes, g, "+".join(o[0] for o in ops), why)


def subsets_refs(children, k, with_none=True):
    g = RefGraph(children, ())
    poss = [(s, t) for s in range(len(children)) for t in sorted(g.reach(s))]
    for combo in itertools.combinations(poss, k):
        yield tuple((s, f"r{j}", t) for j, (s, t) in enumerate(combo))
    if with_none and k:
        for combo in itertools.combinations(poss, k - 1):
            for s in range(len(children)):
                yield tuple((a, f"r{j}", t) for j, (a, t) in enumerate(combo)) + ((s, "u", None),)


def edits(n):
    for i in range(n):
        yield ("rm", i)
    for i in range(n):
        for kind in ("leaf", "wrapper", "selfref"):
            yield ("rep", i, kind)
        for j in range(n):
            if j != i:
                yield ("rep", i, j)


def walks(nmax, maxlen):
    for n in range(1, nmax + 1):
        for ch in dags(n, maxlen):
            yield (ch, (), ())


def single(nmax, maxlen, nrefs):
    for n in range(1, nmax + 1):
        for ch in dags(n, maxlen):
            for k in range(0, nrefs + 1):
                for refs in subsets_refs(ch, k):
                    for op in edits(n):
                        yield (ch, refs, (op,))


def pairs(nmax, maxlen, nrefs, dup=False):
    for n in range(1, nmax + 1):
        for ch in dags(n, maxlen, dup):
            for k in range(0, nrefs + 1):
                for refs in subsets_refs(ch, k, False):
                    for a, b in itertools.product(edits(n), repeat=2):
                        yield (ch, refs, (a, b))


def run_wrap(ctx, case):
    children, refs = case
    nodes = build(children, refs)
    made = {}

    def wrapper(m):
        w = Model(f"w:{m.name}", fwd, layers=[m])
        made.setdefault(id(m), []).append(w)
        return w

    out = wrap_model_recursive(nodes[0], wrapper)
    ctx.step()
    ctx.require(out.name == "w:n0" and out.layers == [nodes[0]], "wrap:root", f"{case}")
    for i, ch in enumerate(children):
        got = nodes[i].layers
        ctx.require([x.name for x in got] == [f"w:n{c}" for c in ch], "wrap:children", f"{case}: node {i} -> {[x.name for x in got]}")
        for x, c in zip(got, ch):
            ctx.require(x is made[id(nodes[c])][0] and x.layers == [nodes[c]], "wrap:sharing", f"{case}")
    for s, name, t in refs:  # a reference moves to the wrapper, except the wrapped node's own one
        want = nodes[t] if s == t else made[id(nodes[t])][0]
        ctx.require(nodes[s].get_ref(name) is want, "wrap:refs", lambda: f"{case}: reference {name} of node {s} is {nodes[s].get_ref(name).name}")
    ctx.seen(("wrap", case))


def wraps(nmax, maxlen):
    for n in range(1, nmax + 1):
        for ch in dags(n, maxlen):
            yield (ch, ())
            if n < nmax:
                for refs in subsets_refs(ch, 1, with_none=False):
                    if refs:
                        yield (ch, refs)


# ---- changing attributes all over the tree ------------------------------------------------------------------
def run_attrs(ctx, case):
    children, names, held, mapping = case
    nodes = [Model(names[i], fwd, attrs={a: f"{a}{i}" for a in held[i]}) for i in range(len(children))]
    for m, ch in zip(nodes, children):
        m.layers.extend(nodes[c] for c in ch)
    reached = RefGraph(children, ()).bfs()
    given = {k: dict(v) for k, v in mapping}
    ctx.step()
    out = change_attr_values(nodes[0], given)
    ctx.require(out is nodes[0] and given == {k: dict(v) for k, v in mapping}, "attrs:argument", f"{case}")
    for i, m in enumerate(nodes):
        new = given.get(names[i], {}) if i in reached else {}
        want = {a: new.get(a, f"{a}{i}") for a in held[i]}
        ctx.require(dict(m.attrs) == want, "attrs:values", lambda: f"{case}: node {i} has {dict(m.attrs)}, expected {want}")
    ctx.seen(("attrs", [dict(m.attrs) for m in nodes]))


def attrs(nmax):
    maps = [(), (("x", (("p", "new"),)),), (("x", (("p", None), ("q", 0))), ("y", (("p", 1),))), (("y", (("p", 2), ("other", 3))), ("none", (("p", 4),))), (("x", ()),)]
    for n in range(1, nmax + 1):
        for ch in dags(n, 2):
            for names in itertools.product("xy", repeat=n):
                for held in itertools.product(((), ("p",), ("p", "q")), repeat=n):
                    for m in maps:
                        yield (ch, names, held, m)


def run_setref(ctx, case):
    """References may be set to any node in the (sub)tree and to no other."""
    children, s, t = case
    nodes = build(children, ())
    g = RefGraph(children, ())
    ctx.step()
    ok = t in g.reach(s)
    try:
        nodes[s].set_ref("r", nodes[t])
        ctx.require(ok, "setref:accepted", f"{case}")
        ctx.require(nodes[s].get_ref("r") is nodes[t], "setref:value", f"{case}")
    except ValueError:
        ctx.require(not ok, "setref:refused", f"{case}")
    ctx.seen(("setref", case))


def setrefs(nmax):
    for n in range(1, nmax + 1):
        for ch in dags(n, 2):
            for s in range(n):
                for t in range(n):
                    yield (ch, s, t)


# ---- wide and deep trees ----------------------------------------------------------------------------------
def shape(kind, n):
    """Children and references of a large graph of a regular shape."""
    if kind == "wide":
        return (tuple(range(1, n)),) + ((),) * (n - 1), ((0, "a", n - 1), (0, "b", 1), (0, "c", 0))
    if kind == "deep":
        return tuple((i + 1,) if i < n - 1 else () for i in range(n)), ((0, "a", n - 1), (n // 2, "b", n - 1), (n - 2, "c", n - 1))
    if kind == "comb":  # even nodes form a chain, each with an odd node as its first child
        return tuple(tuple(j for j in (i + 1, i + 2) if j < n) if i % 2 == 0 else () for i in range(n)), ((0, "a", n - 1), (2, "b", 3))
    if kind == "binary":
        return tuple(tuple(j for j in (2 * i + 1, 2 * i + 2) if j < n) for i in range(n)), ((0, "a", n - 1), (1, "b", 3))
    if kind == "diamonds":  # each node shared by the two before it
        return tuple(tuple(j for j in (i + 1, i + 2) if j < n) for i in range(n)), ((0, "a", n - 1), (0, "b", n - 2), (1, "c", n - 1))
    if kind == "one-child-many-times":
        return ((1,) * (n - 2) + (2,) + tuple(range(3, n)),) + ((),) * (n - 1), ((0, "a", 1), (0, "b", 2))
    if kind == "everywhere":  # the last node is a child of every other one
        return tuple((i + 1, n - 1) if i < n - 2 else ((n - 1,) if i == n - 2 else ()) for i in range(n)), tuple((i, "r", n - 1) for i in range(0, n, 7))
    raise ValueError(kind)


def run_large(ctx, case):
    kind, n, ops = case
    children, refs = shape(kind, n)
    nodes = dict(enumerate(build(children, refs)))
    g = RefGraph(children, refs)
    for op in ops:
        if not apply(ctx, nodes, g, op, f"{case}"):
            return
    check(ctx, nodes, g, f"large:{kind}:" + "+".join(o[0] for o in ops), f"{case}")


def large(quick):
    for kind in ("wide", "deep", "comb", "binary", "diamonds", "one-child-many-times", "everywhere"):
        for n in (6, 9, 17, 33, 40) if quick else (6, 9, 17, 33, 40, 65, 129):
            ats = sorted({1, 2, 3, n // 2, n - 2, n - 1})
            yield (kind, n, ())
            one = [("rm", i) for i in ats] + [("rep", i, k) for i in ats for k in ("leaf", "wrapper", "selfref")] + [("rep", i, j) for i in ats for j in ats if i != j]
            for op in one:
                yield (kind, n, (op,))
            if n <= 17:
                for a, b in itertools.product(one, repeat=2):
                    yield (kind, n, (a, b))


def explore(ctx):
    q = ctx.quick
    ctx.each("walk", lambda: walks(4 if q else 5, 3), run)
    ctx.each("single", lambda: single(4, 2, 2) if q else single(4, 3, 2), run)
    ctx.each("pairs", lambda: pairs(4, 2, 1) if q else pairs(4, 3, 2), run)
    ctx.each("large", lambda: large(q), run_large)
    ctx.each("wrap", lambda: wraps(4, 3 if q else 4), run_wrap)
    ctx.each("attrs", lambda: attrs(3 if q else 4), run_attrs)
    ctx.each("setref", lambda: setrefs(4 if q else 5), run_setref)


def replay(ctx, family, case):
    ctx.run_case(family, {"large": run_large, "wrap": run_wrap, "setref": run_setref, "attrs": run_attrs}.get(family, run), case)
