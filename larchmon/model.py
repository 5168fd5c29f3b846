"""Reference model of the main tree.

Written from the documented behaviour, not from the implementation: a labelled
DAG plus a list of declared relationships whose other end does not exist yet.
It never looks at the real tree, except through `resolve`, where the
specification leaves a choice (several late relationships that cannot all be
honoured without closing a cycle).
"""


class Model(object):
    def __init__(self):
        self.parents = {}      # id -> [parent ids], in order of arrival
        self.children = {}     # id -> [child ids], in order of arrival
        self.top = []          # ids without parent
        self.colors = {}       # id -> set of colours
        self.pending = []      # [(parent, child, must)]
        self.pen = {}          # id -> parents enabled?
        self.cen = {}          # id -> children enabled?

    # reading -----------------------------------------------------------
    def ids(self):
        return list(self.parents)

    def has(self, i):
        return i in self.parents

    def descendants(self, i):
        seen, stack = set(), [i]
        while stack:
            for c in self.children[stack.pop()]:
                if c not in seen:
                    seen.add(c)
                    stack.append(c)
        return seen

    def ancestors(self, i):
        seen, stack = set(), [i]
        while stack:
            for p in self.parents[stack.pop()]:
                if p not in seen:
                    seen.add(p)
                    stack.append(p)
        return seen

    def closes_cycle(self, p, c):
        return p == c or p in self.descendants(c)

    def edges(self):
        return {(p, c) for c in self.parents for p in self.parents[c]}

    def edge_ok(self, p, c):
        return self.cen[p] and self.pen[c]

    def n_paths(self, i, limit=10 ** 6):
        memo = {}

        def rec(x):
            if x not in memo:
                memo[x] = sum(rec(p) for p in self.parents[x]) or 1
            return memo[x]
        return rec(i)

    def total_paths(self):
        memo = {}

        def rec(x):
            if x not in memo:
                memo[x] = sum(rec(p) for p in self.parents[x]) or 1
            return memo[x]
        return sum(rec(x) for x in self.parents)

    # elementary updates ---------------------------------------------------
    def link(self, p, c):
        if p in self.parents[c]:
            return
        self.parents[c].append(p)
        self.children[p].append(c)
        if c in self.top:
            self.top.remove(c)

    def unlink(self, p, c):
        if p not in self.parents[c]:
            return
        self.parents[c].remove(p)
        self.children[p].remove(c)
        if not self.parents[c] and c not in self.top:
            self.top.append(c)

    def insert(self, i, colors, pen=True, cen=True):
        self.parents[i] = []
        self.children[i] = []
        self.top.append(i)
        self.colors[i] = set(colors)
        self.pen[i] = pen
        self.cen[i] = cen

    def drop(self, i):
        for p in list(self.parents[i]):
            self.unlink(p, i)
        for c in list(self.children[i]):
            self.unlink(i, c)
        if i in self.top:
            self.top.remove(i)
        for d in (self.parents, self.children, self.colors, self.pen, self.cen):
            del d[i]
        self.pending = [x for x in self.pending if i not in x[:2]]

    # operations ---------------------------------------------------------
    def completable(self, i, extra):
        """Late relationships that adding i completes: (must, may) lists."""
        must, may = [], []
        for p, c, m in self.pending + extra:
            if i not in (p, c):
                continue
            other = p if c == i else c
            if other == i or not (self.has(other)):
                continue
            if (p, c) in must or (p, c) in may:
                continue
            (must if m else may).append((p, c))
        return must, may

    def delete(self, i, recursive):
        doomed = [i] + (sorted(self.descendants(i)) if recursive else [])
        for d in doomed:
            self.drop(d)

    def declare(self, p, c):
        if (p, c, True) not in self.pending:
            self.pending.append((p, c, True))

    def forget_parents(self, c):
        """A move or a removal leaves open what becomes of the late
        relationships declared earlier for c."""
        self.pending = [(p, k, m and k != c) for p, k, m in self.pending]

    def snapshot(self):
        return ({i: (tuple(self.parents[i]), tuple(self.children[i]))
                 for i in self.parents}, tuple(self.top))
