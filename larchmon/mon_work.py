"""Work done by the code under test, in logical steps."""
import collections
import gc
import re
import types

from . import engine
from .filters import COLORS
from .monbase import Monitor, sig
from .parts import HistoryPart
from .steps import HARD, meter
from .viewspec import view_paths
from .world import World

FACTOR = 150                # ten times what was seen


class Work(Monitor):
    """Every request and query is done after work that is polynomial in the
    size of the tree and the rows of the views.

    Size: nodes, relationships and rows of all views, the larger of before and
    after the request.  The bound is FACTOR * size ** 2 logical steps (function
    entries and loop iterations in the code under test); measured maxima are
    below 15 * size ** 2."""
    needs_sync = False

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.meter = meter()
        self.most = 0

    def size(self):
        m = self.w.model
        return (5 + len(m.ids()) + len(m.edges())
                + sum(len(view_paths(v.view)) for v in self.w.views.values()))

    def before_op(self, op, out):
        self.before = self.size()
        self.meter.limit = HARD
        self.meter.on()

    def after_op(self, op, out):
        n = self.meter.off()
        size = max(self.before, self.size())
        self.judge(op, n, size)
        if not self.fails and self.count['requests'] % 4 == 0:
            self.queries(size)

    def judge(self, what, n, size):
        self.count['requests'] += 1
        self.count['work'] += n
        self.count['size'] += size
        self.states.add(sig((str(what[0]), n, size)))
        self.most = max(self.most, n / size ** 2)
        if n > FACTOR * size ** 2:
            self.fail('too-much-work', '%s took %d steps, nodes, relationships and rows are %d' % (
                what, n, size))

    def finish(self):
        self.count['worst_ratio_%02d' % min(int(self.most / 5) * 5, 95)] += 1

    def queries(self, size):
        w = self.w
        main = w.tree.get_main_view()
        ids = sorted(w.model.ids())
        if not ids:
            return
        i = ids[self.count['requests'] % len(ids)]
        j = ids[self.count['requests'] // 2 % len(ids)]
        for vs in [None] + list(w.views.values()):
            view = vs.view if vs else main
            asks = [('all', lambda: view.get_all_nodes()),
                    ('roots', lambda: view.node_all_children())]
            if vs:
                # the main view keeps a view of its own to answer this, with
                # as many rows as there are paths
                asks.append(('n_nodes', lambda: view.get_n_nodes()))
            if view.is_displayed(i):
                asks += [('parents', lambda: view.node_parents(i)),
                         ('children', lambda: view.node_all_children(i))]
                if vs:
                    asks += [('n_children', lambda: view.node_n_children(i)),
                             ('n_all', lambda: view.node_n_children(i, recursive=True)),
                             ('paths', lambda: view.get_paths_for_node(i))]
            if vs and vs.filters:
                asks.append(('with', lambda: view.get_n_nodes(withfilters=['red'])))
            asks.append(('circular', lambda: w.tree.get_node(i).has_child(j)))
            for name, ask in asks:
                self.meter.limit = HARD
                self.meter.on()
                try:
                    w.call(ask)
                finally:
                    n = self.meter.off()
                self.count['queries'] += 1
                self.judge((name, i), n, size)


class Hidden(HistoryPart):
    """Graphs with more paths than could ever be walked.  Views show none of them
    or show them flat."""

    def case(self, rng, tier):
        case = HistoryPart.case(self, rng, tier)
        fs = ['none', 'flatred', 'flatall', 'flatleaf', 'flatnotblue']
        ops = [['view', 'v%d' % k, None, [rng.choice(fs)]] for k in range(rng.randint(0, 2))]
        todo = self.ladder(rng) if rng.random() < .5 else case['ops']
        for op in todo:
            ops.append(op)
            if ops and rng.random() < .1 and ops[0][0] == 'view':
                ops.append(['apply', 'v0', rng.choice(fs), None, True])
        return {'ops': ops}

    def ladder(self, rng):
        """Layer upon layer, each node below all nodes of the layer above."""
        wide = rng.choice([2, 2, 3])
        deep = rng.randint(3, 24 // wide)
        if rng.random() < .5:
            deep *= 2
        layers = [['n%d' % (wide * d + k) for k in range(wide)] for d in range(deep)]
        adds = []
        for d, layer in enumerate(layers):
            for i in layer:
                up = layers[d - 1] if d else []
                colors = [c for c in COLORS if rng.random() < .5]
                adds.append([['add', i, up[0] if up else None, colors, [], None, '']]
                            + [['addp', i, p, rng.choice(['tree', 'node', 'child'])]
                               for p in up[1:]])
        if rng.random() < .3:
            # from below, by declared parents
            adds = [[['add', a[0][1], a[0][2], a[0][3], [['p', b[2]] for b in a[1:]], None, '']]
                    for a in reversed(adds)]
        ops = [op for a in adds for op in a]
        ids = [i for layer in layers for i in layer]
        for _ in range(rng.randint(5, 25)):
            i, x = rng.choice(ids), rng.random()
            if x < .4:
                ops.append(['color', i, rng.choice(COLORS), rng.choice(['modified', 'refresh']),
                            'low'])
            elif x < .5:
                ops.append(['refresh_all'])
            elif x < .6:
                ops.append(['rmp', i, rng.choice(ids)])
            elif x < .7:
                ops.append(['move', i, rng.choice(ids), rng.choice(['tree', 'node'])])
            elif x < .8:
                ops.append(['addp', i, rng.choice(ids), rng.choice(['tree', 'node', 'child'])])
            elif x < .9:
                ops.append(['del', i, rng.random() < .3])
            else:
                ops.append(['add', i, rng.choice(ids), [], [], None, ''])
        return ops


class Churn(HistoryPart):
    """The same requests over and over, each time from an empty tree.  From the
    second time on the tree does the same amount of work each time, and what it
    keeps does not grow."""
    warm, length = 8, 100

    def case(self, rng, tier):
        case = HistoryPart.case(self, rng, tier)
        views = [op for op in case['ops'] if op[0] in ('view', 'count')]
        rest = [op for op in case['ops'] if op[0] not in ('view', 'count')]
        rest += [['resetf', op[1]] for op in views if op[0] == 'view']
        return {'views': views, 'ops': rest, 'model': rng.random() < .3,
                'fresh': rng.random() < .5}

    def shrink(self, case, kind):
        best, found = engine.shrink(
            case['ops'], lambda ops: self.execute(dict(case, ops=ops)), kind, rounds=60)
        return dict(case, ops=best), found

    def execute(self, case):
        return engine.limited(lambda: self.churn(case), 100)

    def churn(self, case):
        run = engine.Run()
        w = World()
        for op in case['views']:
            w.apply(op)
        models = []
        if case['model']:
            from .mon_gtk import new_model
            models = [new_model(v.view) for v in w.views.values()]
        m = meter()
        work, kept, left = [], [], []
        for k in range(self.warm + self.length):
            total = 0
            ids = []
            ops = renamed(case['ops'], k) if case['fresh'] else case['ops']
            for op in ops + [None]:
                # whatever there is in the end is removed
                ops = [op] if op else [['del', i, False] for i in sorted(w.model.ids())]
                for o in ops:
                    m.limit = HARD
                    m.on()
                    try:
                        out = w.apply(o)
                    finally:
                        total += m.off()
                    run.steps += 1
                    if out.status == 'refused':
                        run.refused += 1
                    if out.status == 'ok' and out.exc is not None:
                        run.diverged = True     # for other checks to judge
                        return run
                    if w.sync_check() is not None:
                        run.diverged = True
                        return run
                ids += [o[0] for o in ops]
            w.removed.clear()
            w.nodes.clear()
            if k >= self.warm:
                work.append(total)
            if k in (self.warm, self.warm + self.length - 1):
                kept.append(footprint(w))
            left.append(sum(v.view.get_n_nodes() for v in w.views.values())
                        + w.tree.get_main_view().get_n_nodes())
        run.count = {'rounds': len(left), 'work': sum(work), 'kept': kept[-1][0]}
        run.states = {sig((work[0], kept[-1][0]))}
        if any(left):
            run.found = engine.Found('not-empty', 'nodes left in the emptied tree or its views: '
                                     '%s' % left, len(case['ops']) - 1)
        elif max(work) > min(work) * 1.3 + 200:
            run.found = engine.Found(
                'growing-work', 'the same requests took %d steps in round %d, %d in round %d' % (
                    work[0], self.warm, work[-1], self.warm + self.length), len(case['ops']) - 1)
        elif kept[1][1] > kept[0][1] + self.length // 2 or \
                kept[1][0] > kept[0][0] + self.length // 2:
            run.found = engine.Found(
                'growing-memory', 'what the emptied tree refers to grew from %s to %s (entries, '
                'objects) in %d rounds' % (kept[0], kept[1], self.length - 1),
                len(case['ops']) - 1)
        return run


def renamed(x, k):
    if isinstance(x, list):
        return [renamed(y, k) for y in x]
    if isinstance(x, str) and re.match(r'n\d+$', x):
        return '%s.%d' % (x, k)
    return x


def footprint(w):
    """All objects the tree and its views refer to: entries of containers, and objects.
    (Sizes in bytes depend on when containers were resized.)"""
    gc.collect()
    seen, stack = {}, [w.tree]
    skip = (type, types.ModuleType, types.FunctionType, types.CodeType, types.BuiltinFunctionType,
            types.FrameType)
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, (World, Monitor)):
            continue
        seen[id(o)] = o
        if isinstance(o, skip) and not getattr(o, '__closure__', None):
            continue
        if isinstance(o, types.FunctionType):
            stack.extend(o.__closure__)
            continue
        stack.extend(gc.get_referents(o))
    return sum(len(o) for o in seen.values() if isinstance(
        o, (dict, list, tuple, set, frozenset, collections.deque))), len(seen)
