"""C19: every small batching request (containers x sizes x buffers x interleaved iterations), item by item."""
import itertools
import random
from unittest import mock

import numpy as np
from mc.util import backends, layout
from thinc.api import Padded, Ragged, compounding, constant, constant_then, decaying, get_array_module
from thinc.schedules import Schedule
from thinc.types import Pairs

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of batching requests on the real code (every small data set, container, batch size or size sequence, buffer) and of all interleavings of two iterations over the same batches, with the random source replaced by a controller that plays every permutation"
NOTE = "Lengths 0-7 (thorough 10) and some to 300 (500), all constant sizes to length + 2, all size sequences over 1-4, schedules and fractional sizes, 14 containers, up to 3 parallel sequences, buffers 1-100; shuffling under every permutation of up to 4 (thorough 5) items; all interleavings of two iterations up to 3 batches each."
RULE = "state = (container, size, buffer, order, position of each iteration); transition = one batch drawn"
ASSUMPTIONS = ["sizes given as a sequence cover the data (a sequence that ends early may be refused)", "parallel sequences have the same length", "fractional sizes are rounded down; sizes below one are refused"]


# ---- containers ---------------------------------------------------------------------------------
def ragged(n, base=0):
    lens = [(i * 2 + 1) % 4 for i in range(n)]
    rows = [[base + 10 * i + k + 1] * 2 for i in range(n) for k in range(lens[i])]
    return Ragged(np.array(rows, "f").reshape(len(rows), 2), np.array(lens, "i"))


def padded(n):
    """`n` sequences; column order is not the original order."""
    lens = sorted([(i * 2 + 1) % 3 + 1 for i in range(n)], reverse=True)
    T = max(lens, default=0)
    d = np.zeros((T, n, 2), "f")
    for b, L in enumerate(lens):
        d[:L, b] = 10 * b + np.arange(1, L + 1)[:, None]
    return Padded(d, np.array([sum(L > t for L in lens) for t in range(T)], "i"), np.array(lens, "i"), np.array(list(reversed(range(n))), "i"))


class Obj:
    def __init__(self, i):
        self.i = i


OBJ = [Obj(i) for i in range(512)]
KINDS = {
    "list": lambda n: [100 + i for i in range(n)],
    "tuple": lambda n: tuple(200 + i for i in range(n)),
    "objects": lambda n: [OBJ[i] for i in range(n)],
    "repeated": lambda n: [("x", i % 2) for i in range(n)],
    "list of arrays": lambda n: [np.full((i % 3, 2), i, "f") for i in range(n)],
    "ints": lambda n: np.arange(n) + 300,
    "floats2d": lambda n: np.arange(n * 2, dtype="f").reshape(n, 2),
    "F-order": lambda n: layout(np.arange(n * 3, dtype="f").reshape(n, 3), "F"),
    "reversed": lambda n: np.arange(n * 2, dtype="f").reshape(n, 2)[::-1],
    "4d": lambda n: np.arange(n * 4, dtype="int64").reshape(n, 1, 2, 2),
    "ragged": ragged,
    "padded": padded,
    "pairs of arrays": lambda n: Pairs(np.arange(n) + 1, -np.arange(n * 2, dtype="f").reshape(n, 2)),
    "pairs of lists": lambda n: Pairs([10 + i for i in range(n)], tuple(chr(97 + i) for i in range(n))),
    "pairs mixed": lambda n: Pairs(ragged(n), [OBJ[i] for i in range(n)]),
}


def items(x):
    """The items of a container, each as a plain comparable value."""
    if isinstance(x, Ragged):
        out, at = [], 0
        for L in x.lengths:
            out.append(("r", x.dataXd[at : at + int(L)].tolist()))
            at += int(L)
        assert at == len(x.dataXd)
        return out
    if isinstance(x, Padded):
        return [("p", x.data[: int(L), b].tolist(), int(x.indices[b])) for b, L in enumerate(x.lengths)]
    if isinstance(x, Pairs):
        a, b = items(x.one), items(x.two)
        assert len(a) == len(b), "the two sides of Pairs have different lengths"
        return list(zip(a, b))
    if isinstance(x, np.ndarray):
        return [("a", str(x.dtype), v.tolist()) for v in x]
    return [(v.shape, v.tolist()) if isinstance(v, np.ndarray) else v if not isinstance(v, Obj) else ("o", v.i) for v in x]


def cut(seq, sizes):
    out, i = [], 0
    for s in sizes:
        if i >= len(seq):
            break
        out.append(seq[i : i + s])
        i += s
    return out


def kind_ok(batch, like):
    if isinstance(like, np.ndarray):
        return isinstance(batch, np.ndarray) and batch.dtype == like.dtype and batch.shape[1:] == like.shape[1:]
    return type(batch) is type(like)


# ---- sizes -----------------------------------------------------------------------------------------
def size_specs(n, quick):
    """(how to write it, function creating it, the list of sizes it stands for)"""
    for s in range(1, n + 3):
        yield f"{s}", (lambda s=s: s), [s] * (n + 1)
    for k in range(1, 4):
        for ss in itertools.product((1, 2, 3, 4) if n < 7 or not quick else (1, 2, 4), repeat=k):
            if sum(ss) >= n:
                yield f"list {ss}", (lambda ss=ss: list(ss)), list(ss)
                yield f"generator {ss}", (lambda ss=ss: (x for x in ss)), list(ss)
            if k < 3 or ss[0] == 1:
                yield f"endless generator {ss}", (lambda ss=ss: itertools.cycle(ss)), list(ss) * (n + 1)
    yield "tuple", (lambda: (2, 1) * n), [2, 1] * n
    yield "iterator", (lambda: iter([3, 1] * (n + 1))), [3, 1] * (n + 1)
    yield "constant schedule", (lambda: constant(3)), [3] * (n + 1)
    yield "schedule", (lambda: constant_then(2, 2, constant(1))), [2, 2] + [1] * n
    yield "schedule generator", (lambda: constant_then(2, 2, constant(1)).to_generator(1)), [2] + [1] * n
    for a, b, c in ((1.0, 4.0, 1.5), (1.0, 16.0, 1.001), (2.0, 3.0, 1.2), (4.0, 1.0, 0.7)):
        fl = [int(max(a * c ** i, b) if a > b else min(a * c ** i, b)) for i in range(n + 1)]
        yield f"compounding {a, b, c}", (lambda a=a, b=b, c=c: compounding(a, b, c)), fl
        yield f"compounding {a, b, c} generator", (lambda a=a, b=b, c=c: compounding(a, b, c).to_generator()), fl
    yield "fractions", (lambda: (x for x in [1.5, 1.9, 2.5] * (n + 1))), [1, 1, 2] * (n + 1)


def collect(gen, at_most=200):
    out = list(itertools.islice(iter(gen), at_most))
    assert len(out) < at_most, "too many batches"
    return out


def plain_cases(quick):
    def gen():
        for n in range(8 if quick else 11):
            for kind in KINDS:
                yield n, kind
    return gen


def plain(ctx, case):
    n, kind = case
    data = KINDS[kind](n)
    all_ = items(data)
    for ops in backends().values():
        for what, mk, sizes in size_specs(n, ctx.quick):
            for buffer in (1, 2, 3, 100) if n > 2 else (1, 2):
                how = lambda: f"minibatch({what}, {n} items as {kind}, buffer={buffer})"
                sig = "fractional" if "compounding" in what or "fractions" in what else what.split()[0] if not what.isdigit() else "constant"
                sig = f"minibatch:{kind.split()[0] + ':' if 'pairs' in kind else ''}{sig}"
                try:
                    gen = ops.minibatch(mk(), data, buffer=buffer)
                    ep = [collect(gen) for _ in range(2)]
                except Exception as e:
                    ctx.fail(f"{sig}:raised:{type(e).__name__}", f"{how()}: {e}")
                    continue
                want = cut(all_, sizes)
                for k, batches in enumerate(ep):
                    ctx.step(len(batches))
                    got = [items(b) for b in batches]
                    ctx.require(got == want, f"{sig}:batches" + (":again" if k else ""), lambda: f"{how()}: gives {got}, should be {want}")
                    ctx.require(all(kind_ok(b, data) for b in batches), f"{sig}:type", lambda: f"{how()}: batches are {[type(b) for b in batches]}")
                    ctx.require(len(gen) == len(want), f"{sig}:len", lambda: f"{how()}: announces {len(gen)} batches, there are {len(want)}")
                    if isinstance(data, np.ndarray):
                        ctx.require(all(b.flags.c_contiguous for b in batches), f"{sig}:contiguous", how)
                ctx.seen((case, what, buffer))
        ctx.require(items(data) == all_, "minibatch:modified", lambda: f"minibatch modified the {kind}")


# ---- several sequences -------------------------------------------------------------------------------
def multi_cases(quick):
    def gen():
        ks = list(KINDS)
        for a in ks:
            for b in ks:
                yield (a, b), (0, 1, 4, 5) if quick else (0, 1, 2, 3, 4, 5, 6)
        for a in ks:
            yield (a,), (0, 1, 3, 6)
            yield (a, "list", "floats2d"), (0, 1, 5)
            yield ("list", a, a), (0, 1, 5)
    return gen


def multi(ctx, case):
    kinds, ns = case
    for ops in backends().values():
        for n in ns:
            data = [KINDS[k](n) for k in kinds]
            all_ = [items(d) for d in data]
            for what, mk, sizes in [(w, m, s) for i, (w, m, s) in enumerate(size_specs(n, True)) if w.isdigit() or i % 7 == 3]:
                for buffer in (1, 2, 100):
                    for shuffle in (False, True):
                        how = lambda: f"multibatch({what}, {n} items as {kinds}, buffer={buffer}, shuffle={shuffle})"
                        sig = "multibatch:" + ("fractional" if "compounding" in what or "fractions" in what else what.split()[0] if not what.isdigit() else "constant") + (":pairs" if any("pairs" in k for k in kinds) else "")
                        try:
                            gen = ops.multibatch(mk(), *data, buffer=buffer, shuffle=shuffle)
                            batches = collect(gen)
                        except Exception as e:
                            ctx.fail(f"{sig}:raised:{type(e).__name__}", f"{how()}: {e}")
                            continue
                        ctx.step(len(batches))
                        want = [cut(a, sizes) for a in all_]
                        ok = all(isinstance(b, (list, tuple)) and len(b) == len(data) for b in batches)
                        if not ctx.require(ok and len(gen) == len(batches) == len(want[0]), f"{sig}:count", lambda: f"{how()}: {len(batches)} batches, announced {len(gen)}, should be {len(want[0])}"):
                            continue
                        got = [[items(b[i]) for b in batches] for i in range(len(data))]
                        if not shuffle:
                            ctx.require(got == want, f"{sig}:batches", lambda: f"{how()}: gives {got}, should be {want}")
                        else:
                            flat = list(zip(*[list(itertools.chain(*g)) for g in got]))
                            if "padded" in kinds:  # keeps its columns sorted by length: aligned batch by batch
                                k = kinds.index("padded")
                                ids = [[all_[k].index(x) for x in b] for b in got[k]]
                                flat = [[sorted(map(repr, b)) for b in g] for g in got]
                                wanted = [[sorted(repr(a[j]) for j in b) for b in ids] for a in all_]
                                ctx.require(flat == wanted and sorted(itertools.chain(*ids)) == list(range(n)), f"{sig}:shuffled", lambda: f"{how()}: gives {got}, the data are {all_}")
                            else:
                                ctx.require(sorted(map(repr, flat)) == sorted(map(repr, zip(*all_))), f"{sig}:shuffled", lambda: f"{how()}: gives {flat}, the data are {list(zip(*all_))}")
                            ctx.require([[len(b) for b in g] for g in got] == [[len(b) for b in g] for g in want], f"{sig}:shuffled-sizes", how)
                        ctx.require(all(kind_ok(b[i], d) for b in batches for i, d in enumerate(data)), f"{sig}:type", how)
                        ctx.seen((kinds, n, what, buffer, shuffle))


# ---- shuffling under a controlled random source, interleaved iterations ---------------------------------
class Control:
    """Stands in for numpy's shuffling functions; plays the given permutations in turn."""

    def __init__(self, perms):
        self.perms, self.calls = perms, 0

    def next(self, n):
        p = self.perms[self.calls % len(self.perms)]
        self.calls += 1
        return p if len(p) == n else list(range(n))

    def shuffle(self, x, *a):
        p = self.next(len(x))
        x[:] = [x[i] for i in p] if isinstance(x, list) else x[p]

    def permutation(self, x, *a):
        p = self.next(x if isinstance(x, int) else len(x))
        return np.array(p) if isinstance(x, int) else np.asarray(x)[p]

    def installed(self):
        return mock.patch.multiple(np.random, shuffle=self.shuffle, permutation=self.permutation)


def shuffle_cases(quick):
    def gen():
        for n in range(5 if quick else 6):
            for size in range(1, n + 2):
                for multi in (False, True):
                    yield n, size, multi
    return gen


def request(ops, n, size, multi, buffer):
    if multi:
        return ops.multibatch(size, [10 + i for i in range(n)], np.arange(n), shuffle=True, buffer=buffer)
    return ops.minibatch(size, [10 + i for i in range(n)], shuffle=True, buffer=buffer)


def flat(batches, multi):
    if not multi:
        return list(itertools.chain(*batches))
    a, b = [x for p in batches for x in p[0]], [int(x) for p in batches for x in p[1]]
    assert [x - 10 for x in a] == b, f"parallel sequences are not aligned: {a} {b}"
    return a


def inters(a, b):
    for pos in itertools.combinations(range(a + b), a):
        yield tuple(0 if i in pos else 1 for i in range(a + b))


def shuffled(ctx, case):
    n, size, multi = case
    count = -(-n // size)
    all_ = [10 + i for i in range(n)]
    sizes = [min(size, n - i) for i in range(0, n, size)]
    for ops in list(backends().values())[:1]:
        for buffer in (1, 2):
            perms = list(itertools.permutations(range(n)))
            for p in perms:
                for q in perms if n < 4 else (perms[0], perms[-1], perms[len(perms) // 3], p):
                    how = lambda: f"{'multi' if multi else 'mini'}batch of {n} items, size {size}, buffer {buffer}, shuffled with {p}, then {q}"
                    c = Control([list(p), list(q)])
                    with c.installed():
                        gen = request(ops, n, size, multi, buffer)
                        for epoch in range(2):
                            b = collect(gen)
                            ctx.step(len(b))
                            ctx.require(sorted(flat(b, multi)) == all_, "shuffle:partition", lambda: f"{how()}: epoch {epoch} gives {b}")
                            ctx.require([len(x[0] if multi else x) for x in b] == sizes, "shuffle:sizes", lambda: f"{how()}: {b}")
                    # two iterations over the same batches, in every interleaving
                    if count <= 3 and (buffer == 1 or count < 3):
                        for order in inters(count + 1, count + 1):
                            c = Control([list(p), list(q)])
                            with c.installed():
                                gen = request(ops, n, size, multi, buffer)
                                its = [iter(gen), iter(gen)]
                                got = ([], [])
                                for w in order:
                                    ctx.step()
                                    x = next(its[w], None)
                                    if x is not None:
                                        got[w].append(x)
                            ctx.require(all(sorted(flat(g, multi)) == all_ for g in got), "shuffle:interleaved", lambda: f"{how()}: two iterations interleaved as {order} give {got[0]} and {got[1]}")
                    # an iteration that is given up does not disturb the next one
                    for stop in range(count):
                        c = Control([list(p), list(q)])
                        with c.installed():
                            gen = request(ops, n, size, multi, buffer)
                            it = iter(gen)
                            for _ in range(stop):
                                next(it)
                            b = collect(gen)
                            del it
                            ctx.require(sorted(flat(b, multi)) == all_, "shuffle:restart", lambda: f"{how()}: given up after {stop} batches, then {b}")
                    ctx.seen((case, p, q, buffer))
    # the random source does decide the order, in each iteration
    if n == 4:
        orders = set()
        for seed in range(40):
            np.random.seed(seed)
            random.seed(seed)
            gen = request(backends()["numpy"], n, size, multi, 1)
            e = [tuple(flat(collect(gen), multi)) for _ in range(3)]
            orders.update(e)
        ctx.require(len(orders) > 10, "shuffle:not-random", lambda: f"{case}: only the orders {orders} over 120 iterations")


# ---- many items -----------------------------------------------------------------------------------------------
def long_cases(quick):
    def gen():
        for n in (17, 33, 130, 300) if quick else (12, 16, 17, 32, 33, 64, 65, 100, 101, 130, 257, 300, 500):
            for kind in KINDS:
                yield "mini", n, kind
            for size in (1, 2, 7, 16, 100, n - 1, n, n + 1):
                for multi in (False, True):
                    yield "shuffled", n, size, multi
    return gen


def long(ctx, case):
    if case[0] == "shuffled":
        _, n, size, multi = case
        for ops in backends().values():
            for buffer in (1, 3, 64, 1000):
                for seed in range(3):
                    np.random.seed(seed)
                    random.seed(seed)
                    how = lambda: f"{'multi' if multi else 'mini'}batch of {n} items, size {size}, buffer {buffer}, shuffled"
                    gen = request(ops, n, size, multi, buffer)
                    for epoch in range(3):
                        b = collect(gen, n + 2)
                        ctx.step(len(b))
                        ctx.require(sorted(flat(b, multi)) == [10 + i for i in range(n)], "shuffle:long:partition", lambda: f"{how()}: epoch {epoch}")
                        ctx.require([len(x[0] if multi else x) for x in b] == [min(size, n - i) for i in range(0, n, size)] and len(gen) == len(b), "shuffle:long:sizes", how)
                    ctx.seen((case, buffer, seed))
        return
    _, n, kind = case
    data, side = KINDS[kind](n), np.arange(n)
    all_ = items(data)
    specs = [(f"{s}", (lambda s=s: s), [s] * (n + 1)) for s in (1, 2, 7, 16, 100, n - 1, n, n + 1)]
    specs += [("list", lambda: list(range(1, n + 1)), list(range(1, n + 1))), ("generator", lambda: (1 + i % 9 for i in range(n + 1)), [1 + i % 9 for i in range(n + 1)]), ("compounding", lambda: compounding(1.0, 64.0, 1.5), [int(min(1.5 ** i, 64.0)) for i in range(n + 1)])]
    for ops in backends().values():
        for what, mk, sizes in specs:
            for buffer in (1, 5, 64, 1000):
                for multi in (False, True):
                    how = lambda: f"{'multi' if multi else 'mini'}batch({what}, {n} items as {kind}, buffer={buffer})"
                    gen = ops.multibatch(mk(), data, side, buffer=buffer) if multi else ops.minibatch(mk(), data, buffer=buffer)
                    for epoch in range(2):
                        b = collect(gen, n + 2)
                        ctx.step(len(b))
                        ctx.require([items(x[0] if multi else x) for x in b] == cut(all_, sizes) and len(gen) == len(b), "long:batches", lambda: f"{how()}: epoch {epoch}")
                        if multi:
                            ctx.require([x[1].tolist() for x in b] == cut(list(range(n)), sizes), "long:parallel", lambda: f"{how()}: epoch {epoch}")
                    ctx.seen((case, what, buffer, multi))


# ---- interleaving without shuffling; refusals ---------------------------------------------------------------
def misc_cases():
    yield from ("interleaved", "refused")


def misc(ctx, which):
    for ops in backends().values():
        if which == "interleaved":
            for n, size in itertools.product(range(6), (1, 2, 3)):
                for buffer in (1, 2, 5):
                    count = -(-n // size)
                    if count > 3:
                        continue
                    want = cut([10 + i for i in range(n)], [size] * (n + 1))
                    for order in inters(count + 1, count + 1):
                        gen = ops.minibatch(size, [10 + i for i in range(n)], buffer=buffer)
                        its = [iter(gen), iter(gen)]
                        got = ([], [])
                        for w in order:
                            ctx.step()
                            x = next(its[w], None)
                            if x is not None:
                                got[w].append(x)
                        ctx.require(got[0] == want and got[1] == want, "interleaved", lambda: f"two iterations interleaved as {order}: {got}")
                        ctx.seen((n, size, buffer, order))
            continue
        gen = lambda: (i for i in range(5))
        bad = [("no length", lambda: ops.minibatch(2, gen())), ("no length", lambda: ops.minibatch(2, 5)), ("no length", lambda: ops.minibatch(2, None)), ("no length", lambda: ops.multibatch(2, gen())),
               ("no length", lambda: ops.multibatch(2, [1, 2], gen())), ("no length", lambda: ops.multibatch(2, gen(), [1, 2])), ("no length", lambda: ops.multibatch(2, [1, 2], [1, 2], gen())), ("no length", lambda: ops.multibatch(2, [1, 2], 3))]
        for s in (0, -1, -5):
            bad += [("size below one", lambda s=s: ops.minibatch(s, [1, 2, 3])), ("size below one", lambda s=s: ops.multibatch(s, [1, 2, 3], [1, 2, 3])), ("size below one", lambda s=s: ops.minibatch(s, [1, 2, 3], shuffle=True))]
        for what, f in bad:
            ctx.step()
            try:
                r = f()
            except ValueError:
                continue
            except BaseException as e:
                ctx.fail(f"refused:{what}:{type(e).__name__}", f"{what}: {e!r}")
                continue
            ctx.fail(f"accepted:{what}", f"{what} is accepted: {r}")


def explore(ctx):
    ctx.each("plain", plain_cases(ctx.quick), plain)
    ctx.each("multi", multi_cases(ctx.quick), multi)
    ctx.each("shuffled", shuffle_cases(ctx.quick), shuffled)
    ctx.each("long", long_cases(ctx.quick), long)
    ctx.each("misc", misc_cases, misc)


def replay(ctx, fam, case):
    {"plain": plain, "long": long, "multi": multi, "shuffled": shuffled, "misc": misc}[fam](ctx, case)
