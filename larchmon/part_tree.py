"""Campaigns about the tree that need more than one history monitor."""
from . import engine, gen
from .filters import COLORS
from .mon_tree import Effect, WellFormed, full_digest, graph, show_diff
from .monbase import sig
from .parts import HistoryPart, Part
from .world import World


class WithoutRefused(HistoryPart):
    """A history and the same history without the requests that had to be
    refused or ignored lead to the same state, order included."""

    def run_both(self, case):
        run = engine.Run()
        worlds = []

        def factory():
            worlds.append(World())
            return worlds[-1]
        kept, dropped = [], 0

        class Sort(object):
            def __init__(self, world):
                self.fails, self.count, self.states = [], {}, set()
                self.needs_sync = True
                world.listeners.append(self)

            def before_op(self, op, out):
                pass

            def after_op(self, op, out):
                nonlocal dropped
                if out.status == 'refused' or out.noop:
                    dropped += 1
                else:
                    kept.append(op)

            def view_created(self, vs):
                pass

            def finish(self):
                pass
        first = engine.run_history(case['ops'], [Sort], world_factory=factory)
        run.steps, run.refused, run.skipped = first.steps, dropped, first.skipped
        if first.found or first.diverged:
            run.found, run.diverged = first.found, first.diverged
            return run
        ops = list(kept)
        second = engine.run_history(ops, [Sort], world_factory=factory)
        if second.found or second.diverged:
            run.found, run.diverged = second.found, second.diverged
            return run
        d = show_diff(full_digest(worlds[0]), full_digest(worlds[1]))
        run.count = {'pairs': 1, 'requests_left_out': dropped}
        run.states = {sig(full_digest(worlds[0]))}
        if d:
            run.found = engine.Found(
                'refused-left-traces',
                'with and without the refused requests: %s' % d, len(case['ops']) - 1)
        return run

    def execute(self, case):
        return engine.limited(lambda: self.run_both(case))

    def shrink(self, case, kind):
        best, found = engine.shrink(
            case['ops'], lambda ops: self.execute({'ops': ops}), kind)
        return dict(case, ops=best), found


class Declared(Part):
    """Relationships declared in any order and by any means, before or after
    their nodes exist; with `cyclic` some of them contradict each other."""
    keys = ['declared', 'late']

    def __init__(self, name, cyclic):
        self.name = name
        self.cyclic = cyclic

    def case(self, rng, tier):
        n = rng.randint(2, 8) if rng.random() < .9 else rng.randint(9, 18)
        ids = ['n%d' % k for k in range(n)]
        if rng.random() < .15:
            ids[0] = rng.choice(['added', "o'k", '0', ' '])
        order = ids[:]
        rng.shuffle(order)          # a topological order
        rank = {i: k for k, i in enumerate(order)}
        edges = set()
        dens = rng.choice([.15, .3, .5]) if n < 9 else .12
        for a in ids:
            for b in ids:
                if rank[a] < rank[b] and rng.random() < dens:
                    edges.add((a, b))
        if self.cyclic:
            for _ in range(rng.randint(1, 3)):
                a, b = rng.sample(ids, 2)
                if (b, a) not in edges:
                    edges.add((a, b))
        cyc = cyclic_edges(ids, edges)
        times = ids[:]
        rng.shuffle(times)          # the order of adding
        when = {i: k for k, i in enumerate(times)}
        pre = {i: [] for i in ids}      # declared on the node before it is added
        explicit, ctor = {}, {}
        post = {k: [] for k in range(n)}    # after the k-th node was added
        for a, b in sorted(edges):
            first, last = sorted((a, b), key=when.get)
            means = ['pre-c', 'pre-p', 'late']
            if (a, b) not in cyc and b not in explicit:
                means.append('explicit')
            if b not in ctor:
                means.append('ctor')
            m = rng.choice(means)
            if m == 'pre-c':
                pre[a].append(('c', b))
            elif m == 'pre-p':
                pre[b].append(('p', a))
            elif m == 'explicit':
                explicit[b] = a
            elif m == 'ctor':
                ctor[b] = a
            else:
                k = rng.randint(when[first], max(when[first], when[last] + rng.choice([-1, 0, 1])))
                k = min(k, n - 1)
                if (a, b) in cyc:
                    # an immediate contradiction is a refusal: C03
                    k = max(when[first], min(k, when[last] - 1))
                post[k].append((a, b))
        ops = []
        if rng.random() < .5:
            ops.append(['view', 'v0', None, []])
        for k, i in enumerate(times):
            rels = pre[i]
            rng.shuffle(rels)
            ops.append(['add', i, explicit.get(i), [c for c in COLORS if rng.random() < .5],
                        rels, ctor.get(i), ''])
            rng.shuffle(post[k])
            for a, b in post[k]:
                if when[a] <= k and (when[b] > k or rng.random() < .4):
                    if when[b] > k:
                        ops.append(['addlate', a, b])
                    else:
                        ops.append(['addp', b, a, 'child'])
                else:
                    ops.append(['addp', b, a, rng.choice(['tree', 'node'])])
        return {'ops': ops, 'edges': sorted(edges)}

    def execute(self, case):
        return engine.limited(lambda: self.run(case))

    def run(self, case):
        worlds = []

        def factory():
            worlds.append(World())
            return worlds[-1]
        # the target graph alone decides: the lock-step model is left out
        run = engine.run_history(case['ops'], [WellFormed], world_factory=factory)
        run.diverged = False
        run.count = {'declared': len(case['edges']),
                     'late': sum(op[0] == 'addlate' or op[0] == 'add' and bool(op[4])
                                 for op in case['ops'])}
        if run.found:
            return run
        rel, top = graph(worlds[0])
        have = {(p, c) for c in rel for p in rel[c][0]}
        declared = {tuple(e) for e in case['edges'] if e[0] in rel and e[1] in rel}
        run.states = {sig(sorted(have))}
        wanted = {op[1] for op in case['ops'] if op[0] == 'add'}
        last = len(case['ops']) - 1
        if set(rel) != wanted:
            run.found = engine.Found('declared-nodes', 'nodes are %s, added were %s' % (
                sorted(rel), sorted(wanted)), last)
            return run
        cyc = cyclic_edges(list(rel), declared)
        if have - declared:
            run.found = engine.Found('declared-extra', 'relationships nobody declared: %s' % (
                sorted(have - declared)), last)
            return run
        for e in sorted(declared - have):
            if e not in cyc:
                run.found = engine.Found('declared-missing', '%s was declared as the parent of '
                                         '%s and is not' % e, last)
                return run
            run.count['dropped'] = run.count.get('dropped', 0) + 1
            if not reaches(have, e[1], e[0]):
                run.found = engine.Found('declared-dropped', '%s as the parent of %s was dropped, '
                                         'although it closes no cycle' % e, last)
                return run
        # the view tells the same story
        for vs in worlds[0].views.values():
            vhave = {(p, c) for c in vs.view.get_all_nodes() for p in vs.view.node_parents(c)}
            if vhave != have:
                run.found = engine.Found('declared-view', 'the tree has %s, its view %s' % (
                    sorted(have), sorted(vhave)), last)
        return run

    def shrink(self, case, kind):
        def ex(ops):
            return self.execute({'ops': ops, 'edges': declared_by(ops)})
        best, found = engine.shrink(case['ops'], ex, kind)
        return {'ops': best, 'edges': declared_by(best)}, found

    def nontrivial(self, run):
        return run.count.get('late', 0) > 0 and run.count.get('declared', 0) > 1


def declared_by(ops):
    edges, there = set(), set()
    for op in ops:
        if op[0] == 'add':
            there.add(op[1])
            if op[2] is not None:
                edges.add((op[2], op[1]))
            if op[5] is not None:
                edges.add((op[5], op[1]))
            for kind, other in op[4]:
                edges.add((op[1], other) if kind == 'c' else (other, op[1]))
        elif op[0] == 'addlate' and op[1] in there:
            edges.add((op[1], op[2]))
        elif op[0] == 'addp' and (op[2] if op[3] == 'child' else op[1]) in there:
            edges.add((op[2], op[1]))
    return sorted(edges)


def reaches(edges, a, b):
    adj = {}
    for p, c in edges:
        adj.setdefault(p, []).append(c)
    seen, stack = {a}, [a]
    while stack:
        x = stack.pop()
        if x == b:
            return True
        for y in adj.get(x, ()):
            if y not in seen:
                seen.add(y)
                stack.append(y)
    return False


def cyclic_edges(ids, edges):
    return {(p, c) for p, c in edges if reaches(edges, c, p)}
