"""Enumeration of all small layer DAGs and a plain reference model of them."""
import itertools


def child_lists(cands, maxlen, dup):
    for k in range(0, maxlen + 1):
        yield from (itertools.product(cands, repeat=k) if dup else itertools.permutations(cands, k))


def dags(n, maxlen=3, dup=True):
    """All DAGs with nodes 0..n-1, root 0, edges to larger labels, ordered child lists (with repeats), every node
    reachable from the root."""
    per = [list(child_lists(range(i + 1, n), min(maxlen, 99 if dup else n - 1 - i), dup and i < n - 1)) for i in range(n)]
    for combo in itertools.product(*per):
        seen = {0}
        for i in range(n):
            if i in seen:
                seen.update(combo[i])
        if len(seen) == n:
            yield tuple(tuple(c) for c in combo)


class RefGraph:
    def __init__(self, children, refs):
        self.ch = {i: list(c) for i, c in enumerate(children)}
        self.refs = {i: dict() for i in self.ch}
        for (src, name, tgt) in refs:
            self.refs[src][name] = tgt

    def copy(self):
        g = RefGraph((), ())
        g.ch = {k: list(v) for k, v in self.ch.items()}
        g.refs = {k: dict(v) for k, v in self.refs.items()}
        return g

    def bfs(self, root=0):
        out, q = [], [root]
        while q:
            x = q.pop(0)
            if x not in out:
                out.append(x)
                q.extend(self.ch[x])
        return out

    def pre(self, root=0):
        out = []

        def go(x):
            if x not in out:
                out.append(x)
                for c in self.ch[x]:
                    go(c)

        go(root)
        return out

    def post(self, root=0):
        out, seen = [], set()

        def go(x):
            if x in seen:
                return
            seen.add(x)
            for c in self.ch[x]:
                go(c)
            out.append(x)

        go(root)
        return out

    def remove(self, x, root=0):
        for n in self.bfs(root):
            self.ch[n] = [c for c in self.ch[n] if c != x]
        tree = set(self.bfs(root))
        for n in tree:
            for k, t in self.refs[n].items():
                if t is not None and t not in tree:
                    self.refs[n][k] = None

    def replace(self, old, new, root=0):
        for n in self.bfs(root):
            if n != old:
                self.ch[n] = [new if c == old else c for c in self.ch[n]]
                for k, t in self.refs[n].items():
                    if t == old:
                        self.refs[n][k] = new

    def reach(self, x):
        return set(self.bfs(x))

    def key(self, root=0):
        t = self.bfs(root)
        return tuple((i, tuple(self.ch[i]), tuple(sorted(self.refs[i].items()))) for i in t)
