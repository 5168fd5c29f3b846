"""Observers that make requests themselves, from inside notifications."""
import collections
import random

from .filters import COLORS
from .monbase import Monitor, sig
from .mon_tree import Effect

DEPTH = 3


class UnorderedEffect(Effect):
    order = False


class Reactions(Monitor):
    """Observers of the main view and of counters answer notifications with
    requests of their own.  Each of them has its effect on return, and in the end
    everything is as if they had been made one after another.

    note react SEED: the next matching notification is answered.  Any request may
    answer the last notification of a request (a node was added, or removed alone,
    or a counter was filtered); a refresh may answer any notification."""

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.plans = []
        self.stack = []         # requests being carried out: [op, commit or None]
        self.event = None       # main view notification being delivered
        self.log = collections.Counter()
        self.want = collections.Counter()
        self.late = []          # observers of the main view registered by a note
        self.n = 0
        self.observe()

    def observe(self):
        main = self.w.tree.get_main_view()
        for ev in ('node-added', 'node-deleted', 'node-modified'):
            main.register_cllbck(ev, lambda nid, path, ev=ev: self.on_main(ev, nid))

    def count_created(self, cs):
        cs.view.register_cllbck(lambda key=cs.key: self.notified('count', None))

    def before_op(self, op, out):
        self.log.clear()
        self.want.clear()
        self.start(op, self.w.finish)

    def start(self, op, finish):
        ids = set(self.w.model.ids())

        def commit():
            if self.stack[-1][1] is not None:
                self.stack[-1][1] = None
                finish()
                now = set(self.w.model.ids())
                for i in now - ids:
                    self.want['node-added', i] += 1
                for i in ids - now:
                    self.want['node-deleted', i] += 1
        self.stack.append([op, commit])

    def end(self):
        commit = self.stack[-1][1]
        if commit:
            commit()
        self.stack.pop()

    def on_main(self, ev, nid):
        was, self.event = self.event, ev
        self.log[ev, nid] += 1
        try:
            self.notified(ev, nid)
        finally:
            self.event = was if was else ev

    def notified(self, ev, nid):
        self.count['notified'] += 1
        if not self.stack or len(self.stack) > DEPTH:
            return
        for plan in list(self.plans):
            if plan['at'] not in (ev, 'any'):
                continue
            plan['nth'] -= 1
            if plan['nth'] < 0:
                self.plans.remove(plan)
                try:
                    self.answer(plan['rng'], ev, nid)
                except Exception as exc:
                    self.fail('reaction-query', 'looking at the tree inside %s of %s raised %s: %s' % (
                        ev, nid, type(exc).__name__, exc))
                return

    def answer(self, rng, ev, nid):
        w, m = self.w, self.w.model
        op, commit = self.stack[-1]
        last = (op[0] in ('add', 'readd') and self.event == 'node-added'
                or op[0] == 'del' and not op[2] and self.event == 'node-deleted'
                or op[0] in ('cfilter', 'clazy') and ev == 'count')
        if last and commit:
            commit()
        again = self.event == 'node-added' and m.has(nid) and rng.random() < .25
        if last and again:
            # taken out and put back
            parent = self.choose_parent(rng, nid)
            for new in ['del', nid, False], ['readd', nid, parent, []]:
                self.request(new, op, ev, nid, last)
            return
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            new = self.choose(rng, nid, last)
            if new is not None:
                self.request(new, op, ev, nid, last)

    def choose_parent(self, rng, nid):
        m = self.w.model
        ok = sorted(i for i in m.ids() if not m.closes_cycle(i, nid))
        return rng.choice(ok) if ok and rng.random() < .5 else None

    def request(self, new, op, ev, nid, last):
        w = self.w
        plan = getattr(w, 'op_' + new[0])(*new[1:])
        if plan is None:
            return
        status, thunk, finish = plan[:3]
        self.count['reactions'] += 1
        self.count['reaction_' + new[0]] += 1
        if last:
            self.count['reactions_last'] += 1
        exc = None
        self.start(new, finish or (lambda: None))
        was, self.event = self.event, None
        try:
            thunk()
        except Exception as e:
            exc = e
        self.event = was
        if status == 'ok' and exc is not None:
            self.stack.pop()
            self.fail('reaction-raised', 'inside %s of %s during %s, %s raised %s: %s' % (
                ev, nid, op, new, type(exc).__name__, str(exc).split('\n')[0]))
            return
        self.end()
        self.states.add(sig((op[0], ev, new)))
        if status == 'refused' and exc is None:
            self.fail('reaction-accepted', '%s inside %s of %s closes a cycle' % (new, ev, nid))
        if last:
            d = w.sync_check()
            if d:
                self.fail('reaction-late', 'inside %s of %s during %s, after %s: %s' % (
                    ev, nid, op, new, d))

    def choose(self, rng, nid, last):
        """A request.  What does not concern relationships suits every moment."""
        w, m = self.w, self.w.model
        here = [i for i in w.tree.get_main_view().get_all_nodes() if m.has(i)]
        here.sort()
        near = [i for i in here if i == nid or nid in m.parents[i] or nid in m.children[i]]

        def pick():
            return rng.choice(near if near and rng.random() < .6 else here)
        kinds = ['color'] * 3 + ['refresh', 'touch', 'refresh_all']
        if last:
            kinds = kinds[:3] + ['apply', 'unapply', 'resetf'] * bool(w.views) + ['add', 'add', 'del', 'del', 'move',
                                                             'move', 'addp', 'addp', 'rmp', 'cycle']
        k = rng.choice(kinds)
        if k == 'add':
            gone = sorted(w.removed)
            self.n += 1
            i = rng.choice(gone) if gone and rng.random() < .4 else 'x%d' % self.n
            if i in w.removed and rng.random() < .5:
                return ['readd', i, pick() if here and rng.random() < .7 else None, []]
            return ['add', i, pick() if here and rng.random() < .7 else None,
                    [c for c in COLORS if rng.random() < .5], [], None, '']
        if k == 'refresh_all':
            return [k]
        if k in ('apply', 'unapply', 'resetf'):
            key = rng.choice(sorted(w.views))
            fs = w.views[key].filters
            if k == 'resetf':
                return [k, key]
            if k == 'unapply':
                return [k, key, rng.choice(fs)] if fs else None
            return [k, key, rng.choice(['red', 'blue', 'notred', 'leaf', 'flatred'])]
        if not here:
            return None
        i = pick()
        if k == 'color':
            return [k, i, rng.choice(COLORS), rng.choice(['modified', 'refresh']), 'low']
        if k == 'touch':
            return [k, i, rng.randrange(8), 'modified']
        if k == 'refresh':
            return [k, i]
        if k == 'del':
            return [k, i, rng.random() < .4]
        if k == 'rmp':
            return [k, i, rng.choice(m.parents[i])] if m.parents[i] else None
        how = rng.choice(['tree', 'node'])
        if k == 'cycle':
            d = sorted(m.descendants(i))
            return ['addp', i, rng.choice(d), how] if d else None
        ok = [x for x in here if not m.closes_cycle(x, i)]
        if k == 'move' and (not ok or rng.random() < .3):
            return [k, i, None, how]
        return [k, i, rng.choice(ok), how] if ok else None

    def after_op(self, op, out):
        if out.exc is not None and out.status == 'ok':
            self.stack.clear()
            return
        self.end()
        self.event = None
        for ev, nid in set(self.want) | {k for k in self.log if k[0] != 'node-modified'}:
            if self.log[ev, nid] != self.want[ev, nid]:
                self.fail('reaction-announced', 'after %s: %s %d times for %s, expected %d' % (
                    op, ev, self.log[ev, nid], nid, self.want[ev, nid]))
        if op[0] == 'note':
            rng = random.Random(op[2])
            if rng.random() < .1 and len(self.late) < 2:
                self.late.append(1)
                self.w.tree.get_main_view().register_cllbck(
                    rng.choice(['node-added', 'node-deleted', 'node-modified']),
                    lambda nid, path: self.notified('late', nid))
            for _ in range(rng.choice([1, 1, 2, 3])):
                self.plans.append({
                    'at': rng.choice(['any', 'node-added', 'node-deleted', 'node-modified',
                                      'count', 'late']),
                    'nth': rng.choice([0, 0, 0, 1, 2]), 'rng': random.Random(rng.random())})
            del self.plans[:-6]
