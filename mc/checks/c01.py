"""C01: breadth-first search over operation histories on real Model / ParamServer objects against a
dictionary reference. Every transition rebuilds the real object, replays the history, applies one more
operation and compares every getter with the reference."""
import collections

import numpy as np
from thinc.api import Model
from thinc.backends import ParamServer

LEVEL = "model_checking"
TECHNIQUE = "explicit-state BFS over API histories of the real Model against a dictionary reference"
NOTE = "Exhaustive to the stated history depth over the stated operation alphabet; values outside the alphabet are not covered."
RULE = ("state = reference state (dims, params, grads, refs of all models); transition = one API call replayed on a fresh real "
        "object; every getter is compared after every call")
ASSUMPTIONS = ["histories are bounded in depth; arrays have 2 elements or shape (2,2)"]


def V(i, n=2):
    return np.asarray([i, -2.0 * i][:n], dtype="f")


def fwd(model, X, is_train):
    return X, lambda d: d


class Unset:
    def __repr__(self):
        return "unset"


NAMES_D, NAMES_P, NAMES_R = ("nO", "nI", "zz"), ("W", "b", "q"), ("r", "s", "u")


def build(nm):
    """nm models; model 0 has model 1 (or a private child) as a child layer."""
    ms = []
    child = Model("child", fwd, dims={"nO": 7}, params={"W": V(9)})
    for i in range(nm):
        ms.append(Model(f"m{i}", fwd, dims={"nO": None, "nI": 2}, params={"W": None, "b": V(5)}, refs={"r": None}, layers=[child]))
    return ms, child, Model("outsider", fwd)


def ref_init(nm):
    return [dict(dims={"nO": None, "nI": 2}, params={"W": None, "b": (5, 1)}, grads={}, refs={"r": None}) for _ in range(nm)]


# reference values: params/grads are (i, mult) standing for sums of V(i); kept as plain numbers since V is linear
def arr(v):
    return V(v[0])


def apply_ref(st, op):
    """Returns (new_state, expected_exception or None)"""
    kind, m = op[0], op[1]
    new = [dict(dims=dict(s["dims"]), params=dict(s["params"]), grads=dict(s["grads"]), refs=dict(s["refs"])) for s in st]
    s = new[m]
    if kind == "set_dim":
        _, _, name, val, force = op
        if name not in s["dims"]:
            return st, KeyError
        old = s["dims"][name]
        has_params = any(v is not None for v in s["params"].values())
        if old is not None and old != val and (not force or has_params):
            return st, ValueError
        s["dims"][name] = val
    elif kind == "set_param":
        _, _, name, v = op
        s["params"][name] = None if v is None else (v, 1)
    elif kind == "set_grad":
        s["grads"][op[2]] = op[3]
    elif kind == "inc_grad":
        s["grads"][op[2]] = s["grads"].get(op[2], 0) + op[3]
    elif kind == "set_ref":
        _, _, name, tgt = op
        if tgt == "outsider":
            return st, ValueError
        s["refs"][name] = tgt
    elif kind == "read":
        pass
    return new, None


def apply_real(env, op, shared):
    ms, child, outsider = env
    kind = op[0]
    m = ms[op[1]]
    if kind == "set_dim":
        m.set_dim(op[2], op[3], force=op[4])
    elif kind == "set_param":
        m.set_param(op[2], None if op[3] is None else V(op[3]))
    elif kind == "set_grad":
        m.set_grad(op[2], V(op[3]))
    elif kind == "inc_grad":
        m.inc_grad(op[2], shared[op[3]])
    elif kind == "set_ref":
        m.set_ref(op[2], {"child": child, "self": m, "outsider": outsider, None: None}[op[3]])
    elif kind == "read":  # a batch of queries, which must not change anything
        m.has_dim("nope"), m.maybe_get_dim("nope"), m.has_param("nope"), m.maybe_get_param("nope")
        m.has_grad("nope"), m.maybe_get_grad("nope"), m.has_ref("nope"), m.maybe_get_ref("nope")
        for f in (m.get_dim, m.get_param, m.get_grad, m.get_ref):
            try:
                f("nope")
            except (KeyError, ValueError):
                pass
        m.get_gradients() if all(m.has_param(n) for n in m.grad_names) else None
        list(m.walk())


def strict(f, *a):
    try:
        return ("v", f(*a))
    except (KeyError, ValueError):
        return ("err",)


def compare(ctx, env, st, hist):
    ms, child, outsider = env
    for i, (m, s) in enumerate(zip(ms, st)):
        def bad(what, got, want):
            ctx.fail(f"{what}:after:{hist[-1][0] if hist else 'init'}", f"model {i}: {what}: got {got!r}, expected {want!r}\nhistory: {hist}")

        for n in NAMES_D:
            v = s["dims"].get(n)
            want = (False if n not in s["dims"] else None if v is None else True)
            if m.has_dim(n) is not want: bad("has_dim", m.has_dim(n), want)
            if m.maybe_get_dim(n) != v: bad("maybe_get_dim", m.maybe_get_dim(n), v)
            g = strict(m.get_dim, n)
            if g != (("err",) if v is None else ("v", v)): bad("get_dim", g, v)
        if m.dim_names != tuple(s["dims"]): bad("dim_names", m.dim_names, tuple(s["dims"]))
        for n in NAMES_P + ("zz",):
            v = s["params"].get(n)
            want = (False if n not in s["params"] else None if v is None else True)
            if m.has_param(n) is not want: bad("has_param", m.has_param(n), want)
            for nm, f in (("get_param", lambda: strict(m.get_param, n)), ("maybe_get_param", lambda: ("v", m.maybe_get_param(n)))):
                g = f()
                if v is None:
                    ok = g == ("err",) if nm == "get_param" else (g[1] is None)
                else:
                    ok = g[0] == "v" and g[1] is not None and np.array_equal(g[1], arr(v))
                if not ok: bad(nm, g, v)
            gv = s["grads"].get(n)
            hg = m.has_grad(n)
            if gv is None:
                if hg: bad("has_grad", hg, False)
                if strict(m.get_grad, n) != ("err",): bad("get_grad", "value", "error")
                if m.maybe_get_grad(n) is not None: bad("maybe_get_grad", "value", None)
            else:
                # a gradient that happens to be zero may be reported either way by has_grad (documented)
                if gv != 0 and not hg: bad("has_grad", hg, True)
                g = strict(m.get_grad, n)
                if g[0] != "v" or not np.array_equal(g[1], V(1) * gv): bad("get_grad", g, gv)
        if m.param_names != tuple(s["params"]): bad("param_names", m.param_names, tuple(s["params"]))
        want = tuple(n for n in s["params"] if s["grads"].get(n) is not None)
        if m.grad_names != want: bad("grad_names", m.grad_names, want)
        for n in NAMES_R:
            t = s["refs"].get(n)
            want = (False if n not in s["refs"] else None if t is None else True)
            if m.has_ref(n) is not want: bad("has_ref", m.has_ref(n), want)
            obj = {"child": child, "self": m, None: None}[t]
            if m.maybe_get_ref(n) is not obj: bad("maybe_get_ref", m.maybe_get_ref(n), t)
            g = strict(m.get_ref, n)
            if not (g == ("err",) if obj is None else (g[0] == "v" and g[1] is obj)): bad("get_ref", g, t)
        if m.ref_names != tuple(s["refs"]): bad("ref_names", m.ref_names, tuple(s["refs"]))
        if [l for l in m.layers] != [child]: bad("layers", m.layers, [child])
        if all(s["params"].get(n) is not None for n in m.grad_names):
            want = {(m.id, n) for n in m.grad_names}
            gg = {k: v for k, v in m.get_gradients().items() if k[0] == m.id}
            if set(gg) != want: bad("get_gradients", set(gg), want)
            for (mid, n), (p, g) in gg.items():
                if not (np.array_equal(p, arr(s["params"][n])) and np.array_equal(g, V(1) * s["grads"][n])):
                    bad("get_gradients", (p, g), n)
    # the child shares parameter and dimension names with its parents, and must be unaffected
    if child.get_dim("nO") != 7 or not np.array_equal(child.get_param("W"), V(9)) or child.has_grad("W") or child.param_names != ("W",):
        ctx.fail(f"child-affected:{hist[-1][0] if hist else 'init'}", f"history {hist}")


def run(ctx, case):
    nm, hist = case
    env = build(nm)
    st = ref_init(nm)
    shared = {1: V(1), 2: V(2)}
    for i, op in enumerate(hist):
        st2, exc = apply_ref(st, op)
        ctx.step()
        try:
            apply_real(env, op, shared)
            if exc is not None:
                ctx.fail(f"{op[0]}:not-refused", f"{op} should raise {exc.__name__}; history {hist[:i+1]}")
        except (KeyError, ValueError) as e:
            if exc is None:
                ctx.fail(f"{op[0]}:refused", f"{op} raised {e!r}; history {hist[:i+1]}")
        st = st2
    if not (np.array_equal(shared[1], V(1)) and np.array_equal(shared[2], V(2))):
        ctx.fail("inc_grad:argument-changed", f"history {hist}")
    compare(ctx, env, st, hist)
    key = (nm, st)
    ctx.outcome(key)
    return st


def alphabet(nm, part):
    ops = []
    for m in range(nm):
        if part in ("dims", "all"):
            ops += [("set_dim", m, n, v, f) for n in NAMES_D for v in (2, 3) for f in (False, True)]
        if part in ("params", "all"):
            ops += [("set_param", m, n, v) for n in (NAMES_P if part != "iso" else ("W",)) for v in (None, 1, 3)]
            ops += [("inc_grad", m, n, v) for n in ("W", "b") for v in (1, 2)]
            ops += [("set_grad", m, "W", 4)]
        if part == "dims":
            ops += [("set_param", m, n, v) for n in ("W", "b") for v in (None, 1)]
        if part in ("refs", "all"):
            ops += [("set_ref", m, n, t) for n in ("r", "s") for t in ("child", "self", "outsider", None)]
        if part == "iso":
            ops += [("set_param", m, n, v) for n in ("W",) for v in (None, 1, 3)]
            ops += [("inc_grad", m, n, v) for n in ("W", "b") for v in (1, 2)]
            ops += [("set_grad", m, "b", 4), ("set_dim", m, "nO", 3, False), ("set_ref", m, "r", "child")]
        ops.append(("read", m))
    return ops


def frontier_cases(nm, part, depth):
    """BFS on the reference: every (reachable state at depth < depth) x (every op); histories are shortest paths."""
    ops = alphabet(nm, part)
    seen = {repr(ref_init(nm)): ()}
    q = collections.deque([((), ref_init(nm))])
    while q:
        hist, st = q.popleft()
        if len(hist) >= depth:
            continue
        for op in ops:
            h = hist + (op,)
            yield (nm, h)
            nxt, _ = apply_ref(st, op)
            k = repr(nxt)
            if k not in seen:
                seen[k] = h
                q.append((h, nxt))


def run_bfs(ctx, case):
    st = run(ctx, case)
    ctx.seen((case[0], st))


def all_pairs_histories(nm, part, depth):
    """All histories without merging states (catches behaviour that depends on more than the reference state)."""
    import itertools

    ops = alphabet(nm, part)
    for h in itertools.product(ops, repeat=depth):
        yield (nm, h)


# --- ParamServer on its own ---------------------------------------------------------------------------
def run_ps(ctx, case):
    ps = ParamServer()
    other = ParamServer()
    params, grads = {}, {}
    shared = {1: V(1), 2: V(2)}
    for op in case:
        ctx.step()
        if op[0] == "set_param":
            ps.set_param(op[1], op[2], V(op[3])); params[op[1], op[2]] = op[3]
        elif op[0] == "set_grad":
            ps.set_grad(op[1], op[2], V(op[3])); grads[op[1], op[2]] = op[3]
        else:
            ps.inc_grad(op[1], op[2], shared[op[3]]); grads[op[1], op[2]] = grads.get((op[1], op[2]), 0) + op[3]
        for k in PSKEYS:
            ctx.require(ps.has_param(*k) == (k in params), "ps:has_param", f"{k} {case}")
            ctx.require(ps.has_grad(*k) == (k in grads), "ps:has_grad", f"{k} {case}")
            if k in params:
                ctx.require(np.array_equal(ps.get_param(*k), V(params[k])), "ps:get_param", f"{k} {case}")
            if k in grads:
                ctx.require(np.array_equal(ps.get_grad(*k), V(1) * grads[k]), "ps:get_grad", f"{k} {case}")
            ctx.require(not other.has_param(*k) and not other.has_grad(*k), "ps:shared-between-servers", f"{k} {case}")
        ctx.require(set(ps.param_keys) == set(params), "ps:param_keys", str(case))
        ctx.require(set(ps.grad_keys) == {k for k in grads if k in params}, "ps:grad_keys", str(case))
    ctx.require(np.array_equal(shared[1], V(1)) and np.array_equal(shared[2], V(2)), "ps:argument-changed", str(case))
    ctx.seen(("ps", params, grads))


PSKEYS = [(1, "W"), (1, "b"), (2, "W")]


def ps_cases(depth):
    import itertools

    ops = [("set_param", *k, v) for k in PSKEYS for v in (1, 3)] + [("inc_grad", *k, v) for k in PSKEYS for v in (1, 2)]
    ops += [("set_grad", *PSKEYS[0], 4)]
    for d in range(1, depth + 1):
        yield from itertools.product(ops, repeat=d)


class Proxy:
    """A remote store of parameters: records each call, and changes parameters on its own between calls."""

    def __init__(self, live):
        self.live, self.calls, self.params = live, [], {}

    def get_param(self, i, n):
        self.calls.append(("get_param", i, n))
        if self.live:
            self.params[i, n] = self.params[i, n] + 1
        return self.params[i, n]

    def set_param(self, i, n, v):
        self.calls.append(("set_param", i, n, v.tolist()))
        self.params[i, n] = v.copy()

    def set_grad(self, i, n, v):
        self.calls.append(("set_grad", i, n, v.tolist()))

    def inc_grad(self, i, n, v):
        self.calls.append(("inc_grad", i, n, v.tolist()))


def run_proxy(ctx, case):
    """With a proxy, every write and gradient reaches it exactly once and every read is answered by it."""
    live, how, ops = case
    proxy = Proxy(live)
    if how == "model":
        m = Model("m", fwd, params={"W": None, "b": None})
        ps = m._params
        ps.proxy = proxy
        get, put, sg, ig = m.get_param, m.set_param, m.set_grad, m.inc_grad
        key = lambda n: (m.id, n)
    else:
        given_p, given_g = {(7, "q"): V(8)}, {(7, "q"): V(9)}
        ps = ParamServer(given_p, given_g, proxy=proxy)
        get, put, sg, ig = (lambda n, *a, f=f: getattr(ps, f)(3, n, *a) for f in ("get_param", "set_param", "set_grad", "inc_grad"))
        key = lambda n: (3, n)
    written, calls = {}, []
    arg = V(1)
    for op, n, v in ops:
        ctx.step()
        if op == "get_param":
            if n not in written:
                continue
            written[n] = written[n] + 1 if live else written[n]
            got = get(n)
            calls.append((op, *key(n)))
            ctx.require(np.array_equal(got, written[n]), "proxy:get_param", lambda: f"{case}: {got}, the proxy holds {written[n]}")
        else:
            arg[:] = V(v)
            {"set_param": put, "set_grad": sg, "inc_grad": ig}[op](n, arg)
            calls.append((op, *key(n), V(v).tolist()))
            if op == "set_param":
                written[n] = V(v)
        ctx.require(ps.has_param(*key(n)) == (n in written), "proxy:has_param", f"{case}")
        ctx.require(not ps.has_grad(*key(n)), "proxy:local-gradient", f"{case}")
        ctx.require(proxy.calls == calls, "proxy:calls", lambda: f"{case}: {proxy.calls}, expected {calls}")
        arg = V(1) if op == "set_param" else arg
    if how == "server":
        ctx.require(np.array_equal(ps._params[7, "q"], V(8)) and np.array_equal(ps.get_grad(7, "q"), V(9)) and list(given_p) == [(7, "q")] and list(given_g) == [(7, "q")], "proxy:given", f"{case}")
    ctx.seen((case, written))


def proxy_cases(depth):
    import itertools

    ops = [(o, n, v) for o in ("set_param", "inc_grad", "set_grad") for n, v in (("W", 1), ("b", 2))] + [("set_param", "W", 3)] + [("get_param", n, 0) for n in "Wb"]
    for live in (False, True):
        for how in ("model", "server"):
            for d in range(1, depth + 1):
                for h in itertools.product(ops, repeat=d):
                    yield live, how, h


def run_struct(ctx, case):
    """The containers cannot be replaced, unknown attributes cannot be set, ids are distinct, and
    constructor arguments are copied."""
    dims, params, attrs, refs = {"nO": None}, {"W": None}, {"a": 1}, {"r": None}
    layers, shims = [], []
    m = Model("x", fwd, dims=dims, params=params, attrs=attrs, refs=refs, layers=layers, shims=shims)
    n = Model("y", fwd, dims=dims, params=params, attrs=attrs, refs=refs, layers=layers, shims=shims)
    for name, val in (("layers", []), ("shims", []), ("attrs", {}), ("nonsense", 1)):
        try:
            setattr(m, name, val)
            ctx.fail(f"struct:assigned:{name}", "assignment was accepted")
        except AttributeError:
            pass
    ctx.require(m.id != n.id, "struct:ids", "two models share an id")
    m.set_dim("nO", 3); m.attrs["a"] = 2; m.layers.append(n); m.set_param("W", V(1)); m.set_ref("r", n)
    ctx.require(dims == {"nO": None} and params == {"W": None} and attrs == {"a": 1} and refs == {"r": None} and layers == [],
                "struct:constructor-args-aliased", f"{dims} {params} {attrs} {refs} {layers}")
    ctx.require(n.has_dim("nO") is None and n.has_param("W") is None and n.attrs == {"a": 1} and n.layers == [] and n.has_ref("r") is None,
                "struct:models-share-state", "")
    p, q = Model("d", fwd), Model("e", fwd)
    p.attrs["k"] = 1; p.layers.append(q); p.set_param("W", V(1)); p.set_ref("z", q)
    r = Model("f", fwd)
    ctx.require(not r.attrs and not r.layers and r.param_names == () and r.ref_names == (), "struct:defaults-shared", "")
    ctx.seen("struct")


def explore(ctx):
    q = ctx.quick
    ctx.each("dims", lambda: frontier_cases(1, "dims", 6 if q else 9), run_bfs)
    ctx.each("params", lambda: frontier_cases(1, "params", 4 if q else 6), run_bfs)
    ctx.each("refs", lambda: frontier_cases(1, "refs", 6 if q else 8), run_bfs)
    ctx.each("all", lambda: frontier_cases(1, "all", 4 if q else 5), run_bfs)
    ctx.each("two", lambda: frontier_cases(2, "iso", 4 if q else 6), run_bfs)
    ctx.each("unmerged", lambda: all_pairs_histories(1, "all", 3 if q else 4), run_bfs)
    ctx.each("unmerged-two", lambda: all_pairs_histories(2, "iso", 3 if q else 4), run_bfs)
    ctx.each("paramserver", lambda: ps_cases(4 if q else 5), run_ps)
    ctx.each("proxy", lambda: proxy_cases(4 if q else 5), run_proxy)
    ctx.each("struct", lambda: [()], run_struct, parallel=False)


def replay(ctx, family, case):
    ctx.run_case(family, {"paramserver": run_ps, "proxy": run_proxy, "struct": run_struct}.get(family, run_bfs), case)
