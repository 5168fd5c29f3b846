"""Two trees at a time."""
import random

from . import engine, gen
from .mon_core import EventReplica, Placement, ViewContent
from .mon_filters import Counters
from .mon_tree import Effect, full_digest, show_diff
from .monbase import Monitor, sig
from .parts import Part
from .world import World

MONITORS = [Effect, ViewContent, Placement, EventReplica, Counters]


class Nested(Monitor):
    """Carries out requests on the other tree inside notifications of this one."""

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.todo = []
        main = world.tree.get_main_view()
        for ev in ('node-added', 'node-deleted', 'node-modified'):
            main.register_cllbck(ev, self.told)

    def view_created(self, vs):
        for ev in ('added', 'deleted', 'modified'):
            vs.view.register_cllbck('node-%s-inview' % ev, self.told)

    def count_created(self, cs):
        cs.view.register_cllbck(self.told)

    def told(self, *_):
        while self.todo:
            self.count['inside'] += 1
            self.todo.pop(0)()


def outline(w):
    counts = {k: c.view.get_n_nodes() for k, c in w.counts.items()}
    return full_digest(w) + (counts,)


class TwoTrees(Part):
    """Histories on two trees with the same ids and names take turns; some
    requests are made inside a notification of the other tree."""
    keys = ['inside', 'turns']

    def __init__(self, name, profile):
        self.name = name
        self.profile = profile

    def case(self, rng, tier):
        both = [[[k, op, rng.random() < .25] for op in
                 gen.Gen(rng.randrange(1 << 60), self.profile(rng, tier)).history()]
                for k in (0, 1)]
        ops = []
        while any(both):
            lst = rng.choice([b for b in both if b])
            for _ in range(rng.choice([1, 1, 2, 4])):
                if lst:
                    ops.append(lst.pop(0))
                    if ops[-1][2]:
                        lst = both[1 - ops[-1][0]]      # who should tell
        return {'ops': ops}

    def execute(self, case):
        return engine.limited(lambda: self.run(case['ops']))

    def run(self, ops):
        run = engine.Run()
        worlds = [World(), World()]
        nested = [Nested(w) for w in worlds]
        mons = [[f(w) for f in MONITORS] for w in worlds]
        crash = []

        def do(k, op, step):
            out = worlds[k].apply(op)
            if out.status == 'skipped':
                run.skipped += 1
                return
            run.steps += 1
            run.refused += out.status == 'refused'
            if out.status == 'ok' and out.exc is not None and not crash:
                crash.append(engine.Found('crash-%s' % type(out.exc).__name__, 'tree %d: %s raised '
                                          '%s: %s' % (k, op, type(out.exc).__name__, out.exc), step))

        def judge(step):
            if crash:
                return crash[0]
            for k in (0, 1):
                for m in mons[k]:
                    if m.fails:
                        return engine.Found(m.fails[0][0], 'tree %d: %s' % (k, m.fails[0][1]), step)
            return None
        for step, (k, op, inside) in enumerate(ops):
            other = worlds[1 - k]
            if inside and step + 1 < len(ops) and not nested[1 - k].todo:
                # made when the other tree has something to tell
                nested[1 - k].todo.append(lambda k=k, op=op, step=step: do(k, op, step))
                continue
            late, nested[1 - k].todo = nested[1 - k].todo, []
            for fn in late:
                fn()        # nobody was told anything: one after another
            quiet = not nested[k].todo
            before = outline(other) if quiet else None
            do(k, op, step)
            run.found = judge(step)
            if run.found:
                break
            if quiet:
                run.count['turns'] = run.count.get('turns', 0) + 1
                d = show_diff(before[:4], outline(other)[:4])
                if d or before[4] != outline(other)[4]:
                    run.found = engine.Found('other-tree', '%s on tree %d changed the other one: %s' % (
                        op, k, d or 'counters'), step)
                    break
            if any(w.sync_check() is not None for w in worlds):
                run.diverged = True
                break
            run.states.add(sig((outline(worlds[0]), outline(worlds[1]))))
        for group in mons + [nested]:
            for m in group:
                for name, n in m.count.items():
                    run.count[name] = run.count.get(name, 0) + n
        return run

    def shrink(self, case, kind):
        best, found = engine.shrink(case['ops'], lambda ops: self.execute({'ops': ops}), kind)
        return {'ops': best}, found

    def nontrivial(self, run):
        return run.steps >= 4 and run.count.get('turns', 0) > 0
