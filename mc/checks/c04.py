"""C04: copies of every small layer graph and of every zoo layer at every point of its life, then every edit on either side."""
import itertools

import numpy as np
from mc import zoo
from mc.graphs import RefGraph, dags
from mc.modelspec import ATTRS, PARAMS, build, diff, freeze, ladder, ladder_cases, observe, torch_module, what_differs
from thinc.api import SGD, Adam, Model, PyTorchShim, chain, clone

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of model trees, copy points and edit sequences on the real code, comparing full observations of both models"
NOTE = "All layer DAGs up to the stated size; for zoo layers every copy point of a fixed life cycle (built, initialized, forward done, gradient pending, trained). Pending gradients inside wrapped PyTorch modules are not part of a copy."
RULE = "state = pair of observations (original, copy); transition = one copy, edit, forward, backward or update"
ASSUMPTIONS = ["attributes that refuse to be deep-copied are not used"]


def all_ids(m):
    return [n.id for n in m.walk()], [s.id for n in m.walk() for s in n.shims]


def faithful(ctx, tag, why, m, c):
    a, b = observe(m, True), observe(c, True)
    ctx.require(a == b, f"{tag}:copy-differs:{what_differs(a, b)}", lambda: f"{why}: {diff(a, b)}")
    x, y = list(m.walk()), list(c.walk())
    ctx.require(not {id(n) for n in x} & {id(n) for n in y}, f"{tag}:copy-shares-nodes", why)
    (mi, ms), (ci, cs) = all_ids(m), all_ids(c)
    ctx.require(not set(mi) & set(ci) and len(set(ci)) == len(ci), f"{tag}:ids-not-fresh", lambda: f"{why}: {mi} {ci}")
    sx = {id(s) for n in x for s in n.shims}
    sy = {id(s) for n in y for s in n.shims}
    sharing = [[[id(s) for s in n.shims] for n in t] for t in (x, y)]
    firsts = [[[sum(u, []).index(s) for s in n] for n in u] for u in sharing]
    ctx.require(firsts[0] == firsts[1], f"{tag}:wrapped-model-sharing-differs", lambda: f"{why}: {firsts}")
    ctx.require(not sx & sy, f"{tag}:copy-shares-wrapped-model", why)
    ctx.require(not set(ms) & set(cs) and len(set(cs)) == len(sy), f"{tag}:wrapped-model-ids-not-fresh", lambda: f"{why}: {ms} {cs}")
    ctx.require([n.ops for n in x] == [n.ops for n in y], f"{tag}:ops-differ", why)
    for n, k in zip(x, y):
        for name in n.param_names:
            if n.has_param(name) and k.has_param(name):
                ctx.require(not np.shares_memory(n.get_param(name), k.get_param(name)) or not n.get_param(name).size, f"{tag}:copy-shares-memory", f"{why}: {n.name}.{name}")
    ctx.seen((a, b))


def deep_edit(v, depth):
    """Change, in place, every container that sits inside another one."""
    done = False
    for x in list(v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple)) else [v.value] if hasattr(v, "value") else []):
        done |= deep_edit(x, depth + 1)
    if depth:
        if isinstance(v, list):
            v.append("deep")
            return True
        if isinstance(v, dict):
            v["deep"] = 1
            return True
    return done


# ---- edits ---------------------------------------------------------------------------------------------
def edit(m, op):
    """Apply one change to a model tree; returns False when it does not apply."""
    kind, i = op
    ns = list(m.walk())
    if i >= len(ns):
        return False
    n = ns[i]
    ps = [k for k in n.param_names if n.has_param(k)]
    if kind == "param-inplace":
        if not ps or not n.get_param(ps[0]).flags.writeable or not n.get_param(ps[0]).size:
            return False
        n.get_param(ps[0])[...] = 9
    elif kind == "param-set":
        n.set_param("W", np.full((3, 1), 8, "f"))
    elif kind == "param-unset":
        if not ps:
            return False
        n.set_param(ps[0], None)
    elif kind == "grad-inc":
        if not ps:
            return False
        n.inc_grad(ps[-1], np.ones_like(n.get_param(ps[-1])))
    elif kind == "grad-inplace":
        gs = [k for k in ps if n.has_grad(k)]
        if not gs:
            return False
        g = n.get_grad(gs[0])
        g += 5
    elif kind == "grad-set":
        if not ps:
            return False
        n.set_grad(ps[0], np.full_like(n.get_param(ps[0]), 4))
    elif kind == "dim-set":
        if n.has_dim("nI") is not None:
            return False
        n.set_dim("nI", 11)
    elif kind == "dim-force":
        if n.has_dim("nO") is False or ps:
            return False
        n.set_dim("nO", 12, force=True)
    elif kind == "attr-set":
        n.attrs["a"] = "changed"
        n.attrs["fresh"] = 1
    elif kind == "attr-inplace":
        for v in n.attrs.values():
            if isinstance(v, list):
                v.append("changed")
                break
            if isinstance(v, dict):
                v["changed"] = [1]
                break
            if isinstance(v, np.ndarray) and v.size:
                v[...] = 3
                break
            if hasattr(v, "value"):
                v.value = "changed"
                break
        else:
            return False
    elif kind == "attr-deep":
        if not [1 for v in n.attrs.values() if deep_edit(v, 0)]:
            return False
    elif kind == "name":
        n.name = "renamed"
    elif kind == "layer-append":
        n.layers.append(Model("added", n._func))
    elif kind == "layer-pop":
        if not n.layers:
            return False
        n.layers.pop()
    elif kind == "node-remove":
        if i == 0:
            return False
        m.remove_node(n)
    elif kind == "node-replace":
        if i == 0:
            return False
        m.replace_node(n, Model("new", n._func))
    elif kind == "ref-set":
        n.set_ref("r0", n)
    elif kind == "ref-unset":
        if not n.ref_names:
            return False
        n.set_ref(n.ref_names[0], None)
    elif kind == "shim-edit":
        if not n.shims:
            return False
        for p in n.shims[0]._model.parameters():
            p.data += 1
        n.shims[0].cfg["x"] = 1
    elif kind == "shim-cfg-deep":
        if not n.shims or not deep_edit(n.shims[0].cfg, 0):
            return False
    elif kind == "shim-append":
        n.shims.append(PyTorchShim(torch_module(99)))
    elif kind == "update":
        m.finish_update(SGD(0.5))
    elif kind == "load":
        other = m.copy()
        for q in other.walk():
            for k in q.param_names:
                if q.has_param(k):
                    q.set_param(k, q.get_param(k) * 2)
        m.from_bytes(other.to_bytes())
    else:
        raise ValueError(kind)
    return True


KINDS = ("param-inplace", "param-set", "param-unset", "grad-inc", "grad-inplace", "grad-set", "dim-set", "dim-force", "attr-set", "attr-inplace", "attr-deep", "name", "layer-append", "layer-pop", "node-remove", "node-replace", "ref-set",
         "ref-unset", "shim-edit", "shim-cfg-deep", "shim-append", "update", "load")


def feature(i, variant):
    pk = [k for k in PARAMS if k not in ("int", "scalar")]
    ak = [k for k in ATTRS if k not in ("opaque",)]
    return {"dims": {"nO": i + 1, "nI": None} if (i + variant) % 2 else {"nO": i + 1, "nI": 3},
            "params": {"W": pk[(i + variant) % 2], "b": pk[(1 + i + variant) % len(pk)]},
            "attrs": {"a": ak[(i + variant) % len(ak)], "b": ak[(5 * i + variant + 9) % len(ak)]},
            "shims": 1 if (i + variant) % 3 == 2 else 0}


def start(children, refs, variant, share_shim=False):
    feats = [feature(i, variant) for i in range(len(children))]
    nodes = build(children, refs, feats, 0)
    for i, n in enumerate(nodes):
        for k in n.param_names:
            if n.has_param(k) and (i + variant) % 2 == 0:
                n.set_grad(k, np.full_like(n.get_param(k), 0.5))
        for s in n.shims:
            s.cfg["opts"] = {"deep": [1, {"x": []}]}
    if share_shim and len(nodes) > 1:
        s = PyTorchShim(torch_module(3))
        nodes[0].shims.append(s)
        nodes[-1].shims.append(s)
    return nodes


def graph(ctx, case):
    children, refs, variant, share = case
    nodes = start(children, refs, variant, share)
    m = nodes[0]
    why = f"children={children} refs={refs} variant={variant} shared shim={share}"
    before = observe(m, True)
    ctx.step()
    c = m.copy()
    ctx.require(observe(m, True) == before, "graph:copying-changes-model", why)
    faithful(ctx, "graph", why, m, c)
    ctx.outcome(before)
    c2 = c.copy()
    faithful(ctx, "graph:second-copy", why, c, c2)
    d = m.copy()
    faithful(ctx, "graph:another-copy", why, m, d)
    ids = [i for x in (m, c, c2, d) for i in all_ids(x)[0]]
    ctx.require(len(set(ids)) == len(ids), "graph:ids-repeat", why)
    # a part of a tree
    for n in nodes[1:]:
        sub = n.copy()
        ctx.step()
        inside = set(map(id, n.walk()))
        if all(n2.maybe_get_ref(r) is None or id(n2.get_ref(r)) in inside for n2 in n.walk() for r in n2.ref_names):
            faithful(ctx, "graph:part", why, n, sub)


def graph_cases(quick):
    spec = [(2, 3, 2, range(0, 17)), (3, 3, 1, (0, 1, 2))] + ([(3, 2, 2, (1,)), (4, 2, 0, (0,))] if quick else [(3, 3, 2, range(4)), (4, 3, 1, (0, 1))])
    for nmax, maxlen, nrefs, vs in spec:
        for n in range(1, nmax + 1):
            for ch in dags(n, maxlen):
                g = RefGraph(ch, ())
                poss = [(s, t) for s in range(n) for t in sorted(g.reach(s)) + [None]]
                for k in range(nrefs + 1):
                    for combo in itertools.combinations(poss, k):
                        refs = tuple((s, f"r{j}", t) for j, (s, t) in enumerate(combo))
                        for v in vs:
                            yield (ch, refs, v, bool(v % 2))


def edits(ctx, case):
    children, refs, variant, ops, side = case
    m = start(children, refs, variant)[0]
    c = m.copy()
    a, b = (m, c) if side == 0 else (c, m)
    why = f"children={children} refs={refs} variant={variant}: {ops} on the {'original' if side == 0 else 'copy'}"
    other = observe(b, True)
    for op in ops:
        ctx.step()
        try:
            if not edit(a, op):
                return
        except (KeyError, ValueError):  # refused, e.g. saving a tree with a reference to a removed layer
            pass
        now = observe(b, True)
        if not ctx.require(now == other, f"edits:{op[0]}:visible-on-the-{'copy' if side == 0 else 'original'}", lambda: f"{why}: {diff(other, now)}"):
            return
    ctx.seen((observe(a, True), other))


E_GRAPHS = [(((1, 2), (2,), ()), ((0, "r0", 2), (1, "r1", 1))), (((1, 1), ()), ((0, "r0", 0), (0, "q", 1))), (((1,), (2,), ()), ((0, "r0", 2),))]


def edit_cases(quick):
    for ch, refs in E_GRAPHS:
        ops = [(k, i) for k in KINDS for i in range(len(ch)) if not (k in ("update", "load") and i)]
        for side in (0, 1):
            for v in range(0, 9):
                for op in ops:
                    yield (ch, refs, v, (op,), side)
            for v in (0,) if quick else (0, 1, 2):
                for a, b in itertools.product(ops, repeat=2):
                    yield (ch, refs, v, (a, b), side)
    if not quick:
        ch, refs = E_GRAPHS[1]
        ops = [(k, i) for k in KINDS for i in range(len(ch)) if not (k in ("update", "load") and i)]
        for side in (0, 1):
            for o in itertools.product(ops, repeat=3):
                yield (ch, refs, 1, o, side)


# ---- both sides edited alternately: as if each had been edited on its own ----------------------------------
def alternate(ctx, case):
    children, refs, variant, opsm, opsc = case
    m = start(children, refs, variant)[0]
    c = m.copy()
    lone_m, lone_c = start(children, refs, variant)[0], start(children, refs, variant)[0]
    for x, y in itertools.zip_longest(opsm, opsc):
        for t, lone, op in ((m, lone_m, x), (c, lone_c, y)):
            if op is not None:
                ctx.step(2)
                if edit(t, op) != edit(lone, op):
                    ctx.fail("alternate:edit-applies-differently", f"{case}")
                    return
    for what, t, lone in (("original", m, lone_m), ("copy", c, lone_c)):
        a, b = observe(lone, True), observe(t, True)
        ctx.require(a == b, f"alternate:{what}:{what_differs(a, b)}", lambda: f"{case}: alone, with the other: {diff(a, b)}")
        ctx.seen(b)


def alternate_cases(quick):
    ch, refs = E_GRAPHS[0]
    ops = [(k, i) for k in KINDS for i in (0, 1) if not (k in ("update", "load") and i)]
    for a, b in itertools.product(ops, repeat=2):
        yield (ch, refs, 1, (a,), (b,))
        if not quick:
            for c in ops:
                yield (ch, refs, 1, (a, c), (b,))


# ---- the zoo ---------------------------------------------------------------------------------------------
def run(m, e, spec, opt=None, salt=0):
    """Forward, backward, optionally update; returns everything that can be observed."""
    np.random.seed(3)
    import torch

    torch.manual_seed(3)
    Y, bp = m.begin_update(e.data(spec, salt=salt))
    dX = bp(zoo.gradient_for(Y, 5))
    out = [zoo.full(Y), zoo.full(dX)]
    out.append([None if g is None else freeze(g) for g in zoo.grads(m).values()])
    for n in m.walk():
        for s in n.shims:
            out.append([None if p.grad is None else freeze(p.grad.numpy()) for p in s._model.parameters()])
    if opt:
        m.finish_update(opt)
    return out


POINTS = ("built", "init", "forward", "backward", "trained")


def layer(ctx, case):
    name, point = case
    e = zoo.ENTRIES.get(name) or zoo.NOISY[name]
    spec = [s for s in e.specs(True) if e.empty(s) == ""][-1]
    spec2 = [s for s in e.specs(True) if e.empty(s) == ""][0]
    tag = f"zoo:{name}"
    pending = None
    if point == "built":
        if not e._init:
            return
        m = e._build()
        c = m.copy()
        faithful(ctx, tag, f"{name} at {point}", m, c)
        was = observe(m, True)
        c.initialize(X=e.sample())
        now = observe(m, True)
        ctx.require(now == was, f"{tag}:initializing-the-copy-is-visible", lambda: f"{diff(was, now)}")
        was = observe(c, True)
        m.initialize(X=e.sample())
        now = observe(c, True)
        ctx.require(now == was, f"{tag}:initializing-the-original-is-visible", lambda: f"{diff(was, now)}")
        zoo.fill(m)
        zoo.fill(c)
        for x, y in zip(m.walk(), c.walk()):
            for s, t in zip(x.shims, y.shims):
                for p, q in zip(s._model.parameters(), t._model.parameters()):
                    q.data = p.data.clone()
    else:
        m = e.build()
        if point == "forward":
            Y, pending = m.begin_update(e.data(spec))
        elif point == "backward":
            Y, bp = m.begin_update(e.data(spec))
            bp(zoo.gradient_for(Y, 3))
        elif point == "trained":
            run(m, e, spec, Adam(0.01))
            run(m, e, spec2, Adam(0.01))
        ctx.step()
        c = m.copy()
        faithful(ctx, tag, f"{name} at {point}", m, c)
    for n, k in zip(m.walk(), c.walk()):  # pending gradients in torch modules are not copied
        for s in n.shims:
            for p in s._model.parameters():
                p.grad = None
    for s in (spec, spec2):
        ctx.step(2)
        ctx.require(zoo.full(m.predict(e.data(s))) == zoo.full(c.predict(e.data(s))), f"{tag}:{point}:prediction-differs", f"{name} {s}")
    if pending is not None:
        was = observe(c, True)
        pending(zoo.gradient_for(Y, 3))
        ctx.require(observe(c, True) == was, f"{tag}:{point}:pending-callback-reaches-copy", f"{name}")
        ctx.seen((observe(m, True), was))
        return
    was = observe(c, True)
    a = run(m, e, spec, Adam(0.05))
    now = observe(c, True)
    ctx.require(now == was, f"{tag}:{point}:training-the-original-is-visible", lambda: f"{name}: {diff(was, now)}")
    was = observe(m, True)
    b = run(c, e, spec, Adam(0.05))
    now = observe(m, True)
    ctx.require(now == was, f"{tag}:{point}:training-the-copy-is-visible", lambda: f"{name}: {diff(was, now)}")
    ctx.require(a == b, f"{tag}:{point}:gradients-differ", f"{name}")
    x, y = observe(m, True), observe(c, True)
    ctx.require(x == y, f"{tag}:{point}:training-differs", lambda: f"{name}: {diff(x, y)}")
    # one optimizer for both: nothing carries over
    opt, o1 = Adam(0.05), Adam(0.05)
    d = m.copy()
    lone = m.copy()
    for k in range(2):
        run(lone, e, spec, o1, salt=k)
        run(m, e, spec2, opt, salt=k)
        run(d, e, spec, opt, salt=k)
        ctx.step(3)
    x, y = observe(lone, True), observe(d, True)
    ctx.require(x == y, f"{tag}:{point}:copies-share-optimizer-state", lambda: f"{name}: alone, with the original: {diff(x, y)}")
    ctx.seen((x, observe(m, True)))
    ctx.outcome(a)


def zoo_cases(quick):
    for name in list(zoo.ENTRIES) + list(zoo.NOISY):
        for p in POINTS:
            yield (name, p)


# ---- clone -------------------------------------------------------------------------------------------------
def cloned(ctx, case):
    name, n = case
    e = zoo.ENTRIES[name]
    m = e.build()
    spec = [s for s in e.specs(True) if e.empty(s) == ""][-1]
    before = observe(m, True)
    ctx.step()
    c = clone(m, n)
    ctx.require(observe(m, True) == before, "clone:changes-original", f"{case}")
    X = e.data(spec)
    if n == 0:
        ctx.require(zoo.full(c.predict(X)) == zoo.full(X), "clone:0", name)
        return
    parts = [c] if n == 1 else list(c.layers)
    ctx.require(len(parts) == n and parts[0] is m, "clone:layers", f"{case}: {len(parts)}")
    for i, p in enumerate(parts):
        if i:
            faithful(ctx, "clone", f"{case} layer {i}", m, p)
        for q in parts[:i]:
            ctx.require(not set(all_ids(p)[0]) & set(all_ids(q)[0]) and not set(all_ids(p)[1]) & set(all_ids(q)[1]), "clone:ids-not-distinct", f"{case}")
    for i in range(n):
        was = [observe(p, True) for p in parts]
        run(parts[i], e, spec, SGD(0.3))
        for j in range(n):
            if j != i:
                now = observe(parts[j], True)
                ctx.require(now == was[j], "clone:layers-not-independent", lambda: f"{case}: training {i} changes {j}: {diff(was[j], now)}")
        ctx.seen([observe(p, True) for p in parts])


def clone_cases(quick):
    for name in zoo.ENTRIES:
        for n in (0, 1, 2, 3):
            yield (name, n)


# ---- many or large: one thing of a model at a time ------------------------------------------------------
def large(ctx, case):
    kind, n = case
    m = ladder(kind, n)
    nodes = list(m.walk())
    for x in nodes:
        for k in x.param_names:
            if x.has_param(k):
                x.set_grad(k, np.full_like(x.get_param(k), 0.5))
    before = observe(m, True)
    ctx.step(2)
    c = m.copy()
    faithful(ctx, f"large:{kind}", f"{n}", m, c)
    faithful(ctx, f"large:{kind}:second-copy", f"{n}", c, c.copy())
    ctx.require(observe(m, True) == before, f"large:{kind}:copying-changes-model", f"{n}")
    for at in sorted({0, 1, len(nodes) // 2, len(nodes) - 1} & set(range(len(nodes)))):  # every edit on some layers of either side
        for op in KINDS:
            for a, b in ((m, c), (c, m)):
                if op in ("load", "update") and at or op == "node-replace" and kind == "chain":
                    continue
                was = observe(b, True)
                d = a.copy()
                ctx.step(2)
                try:
                    edit(d, (op, at))
                except (KeyError, ValueError):
                    pass
                now = observe(b, True)
                ctx.require(now == was, f"large:{kind}:{op}:visible-on-the-other", lambda: f"{n} at {at}: {diff(was, now)}")
    for x in c.walk():  # the last of its kind, changed on the copy
        for k in x.param_names[-1:]:
            if x.has_param(k):
                x.get_param(k)[...] += 1
                x.inc_grad(k, np.ones_like(x.get_param(k)))
        for v in list(x.attrs.values())[-1:]:
            deep_edit(v, 1)
        for s in x.shims[-1:]:
            for p in s._model.parameters():
                p.data += 1
    now = observe(m, True)
    ctx.require(now == before, f"large:{kind}:last-one-shared", lambda: f"{n}: {diff(before, now)}")


def large_cases(quick):
    from mc.modelspec import BIG_SIZES

    return ladder_cases((16, 33, 257) if quick else (15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 255, 256, 257, 300), BIG_SIZES[:1] if quick else BIG_SIZES)


FAMILIES = {"large": large, "graph": graph, "edits": edits, "alternate": alternate, "zoo": layer, "clone": cloned}


def explore(ctx):
    q = ctx.quick
    ctx.each("graph", lambda: graph_cases(q), graph)
    ctx.each("edits", lambda: edit_cases(q), edits)
    ctx.each("alternate", lambda: alternate_cases(q), alternate)
    ctx.each("zoo", lambda: zoo_cases(q), layer, timeout=120)
    ctx.each("large", lambda: large_cases(q), large, timeout=300)
    ctx.each("clone", lambda: clone_cases(q), cloned)


def replay(ctx, family, case):
    ctx.run_case(family, FAMILIES[family], case)
