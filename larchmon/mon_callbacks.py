"""Monitors of queued actions and of the registration of callbacks."""
import random

from .monbase import Monitor, sig
from . import env

env.load()
from gi.repository import GLib  # noqa: E402


def drain(limit=20000):
    """Run the main loop until it is idle.  False: it never is."""
    ctx = GLib.MainContext.default()
    n = 0
    while ctx.pending():
        ctx.iteration(False)
        n += 1
        if n > limit:
            return False
    return True


class Actions(Monitor):
    """Actions queued for nodes run once, when the node is there.

    note queue SEED: queue an action; note turn: run the main loop."""

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.waiting = {}       # (view, node) -> [action]: node was not displayed
        self.idle = []          # actions queued for displayed nodes
        self.n = 0
        self.announced = set()

    def view_created(self, vs):
        vs.view.register_cllbck(
            'node-added-inview', lambda nid, path, k=vs.key: self.announced.add((k, nid)))

    def queue(self, vs, nid, mode, depth=0):
        self.n += 1
        # of every kind, some of which count as false
        param = None if mode == 'noparam' else (
            [self.n, nid], [self.n, nid], 0, [], '', False, {}, nid, (nid,), self.n)[self.n % 10]
        act = {'vs': vs, 'id': nid, 'n': self.n, 'mode': mode, 'runs': 0, 'param': param,
               'want': 2 + self.n % 2 if mode == 'same' else 1}
        shown = vs.view.is_displayed(nid)
        act['idle'] = shown

        def func(got):
            act['runs'] += 1
            self.count['runs_' + ('idle' if act['idle'] else 'waiting')] += 1
            if got is not param:
                self.fail('action-param', 'action %d for %r got %r' % (act['n'], nid, got))
            if act['runs'] > act['want']:
                self.fail('action-twice', 'action %d for %r, queued %d times, ran %d times' % (
                    act['n'], nid, act['want'], act['runs']))
                return False
            if act['idle']:
                if self.phase != 'loop':
                    self.fail('action-nested', 'action %d for the displayed node %r ran outside '
                              'the main loop' % (act['n'], nid))
            else:
                if not vs.view.is_displayed(nid):
                    self.fail('action-early', 'action %d ran while %r is not displayed' % (
                        act['n'], nid))
                lst = self.waiting.get((vs.key, nid), [])
                if act not in lst:
                    self.fail('action-unexpected', 'action %d for %r was not waiting' % (
                        act['n'], nid))
                else:
                    if lst[0] is not act:
                        self.fail('action-order', 'action %d for %r ran before action %d' % (
                            act['n'], nid, lst[0]['n']))
                    if act['runs'] == act['want']:
                        lst.remove(act)
            if mode == 'nested' and depth < 2:
                self.count['nested'] += 1
                self.queue(vs, nid, 'nested', depth + 1)
            elif mode == 'cross' and depth < 2:
                ids = sorted(self.w.model.ids())
                if ids:
                    self.queue(vs, ids[act['n'] % len(ids)], 'plain', depth + 1)
            return mode == 'true' or None
        act['func'] = func
        if shown:
            self.idle.append(act)
        else:
            self.waiting.setdefault((vs.key, nid), []).append(act)
            self.announced.discard((vs.key, nid))       # only what comes from now on
        self.count['queued_idle' if shown else 'queued_waiting'] += 1
        # the very same action can be queued several times
        for _ in range(act['want']):
            if mode == 'noparam':
                vs.view.queue_action(nid, func)
            else:
                vs.view.queue_action(nid, func, param=param)

    def before_op(self, op, out):
        self.phase = 'op'
        self.announced.clear()

    def turn(self):
        self.phase = 'loop'
        self.count['turns'] += 1
        ok = self.w.call(drain)
        self.phase = 'op'
        if not ok:
            self.fail('action-forever', 'the main loop never gets idle')
        for act in self.idle:
            if act['runs'] < act['want']:
                self.fail('action-lost', 'action %d for the displayed node %r did not run' % (
                    act['n'], act['id']))
        del self.idle[:]

    def after_op(self, op, out):
        w = self.w
        if out.exc is not None and out.status == 'ok':
            return
        for (key, nid), lst in self.waiting.items():
            if not lst:
                continue
            if w.views[key].view.is_displayed(nid) or (key, nid) in self.announced:
                self.fail('action-lost', 'after %s: %r is displayed, action %d still waits' % (
                    op, nid, lst[0]['n']))
                return
        self.states.add(sig(sorted((k, len(v)) for k, v in self.waiting.items() if v)))
        if op[0] == 'note' and op[1] == 'queue' and w.views:
            rng = random.Random(op[2])
            vs = w.views[rng.choice(sorted(w.views))]
            known = sorted(set(w.model.ids()) | set(w.removed))
            hidden = [i for i in known if not vs.view.is_displayed(i)]
            nid = rng.choice(hidden if hidden and rng.random() < .7 else known + ['n0', 'n5'])
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                self.queue(vs, nid, rng.choice(
                    ['plain', 'plain', 'true', 'nested', 'cross', 'noparam', 'same']))
        elif op[0] == 'note' and op[1] == 'turn':
            self.turn()

    def finish(self):
        self.turn()
        # everything that waits and can be shown is shown now
        for vs in list(self.w.views.values()):
            self.before_op(None, None)
            self.w.call(vs.view.reset_filters)
            vs.filters = []
            self.w.call(vs.view.refresh_all)
        for (key, nid), lst in self.waiting.items():
            if lst and self.w.views[key].view.is_displayed(nid):
                self.fail('action-lost', '%r is displayed, action %d still waits' % (
                    nid, lst[0]['n']))
        self.turn()
        self.turn()


FT_EVENTS = ['node-added-inview', 'node-deleted-inview', 'node-modified-inview']
MAIN_EVENTS = ['node-added', 'node-deleted', 'node-modified']


class Registrations(Monitor):
    """Every registered callback sees what a permanent witness sees."""

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.chan = {}      # (view key, event) -> channel
        self.plans = []     # things to do inside a callback
        self.open('main', world.tree.get_main_view(), MAIN_EVENTS)

    def open(self, key, view, events):
        for ev in events:
            ch = {'view': view, 'event': ev, 'name': (key, ev), 'witness': [], 'cbs': [],
                  'heard': [], 'keys': []}
            # one function registered several times
            ch['fn'] = lambda nid, path, ch=ch: ch['heard'].append((nid, path))
            self.chan[key, ev] = ch
            view.register_cllbck(
                ev, lambda nid, path, ch=ch: ch['witness'].append((nid, path)))

    def view_created(self, vs):
        self.open(vs.key, vs.view, FT_EVENTS)

    # registrations -------------------------------------------------------
    def register(self, ch, inside=None, like=None):
        cb = {'calls': [], 'ch': ch, 'on': True, 'since': inside, 'until': None, 'mult': 1}

        def fn(nid, path):
            cb['calls'].append((nid, path))
            self.act(cb)
        cb['fn'] = fn
        cb['key'] = ch['view'].register_cllbck(ch['event'], fn)
        for other in ch['cbs']:
            if other['on'] and other['key'] == cb['key']:
                self.fail('key-shared', '%s: key %r given out twice' % (ch['name'], cb['key']))
        ch['cbs'].append(cb)
        self.count['registered'] += 1
        return cb

    def deregister(self, cb, inside=None):
        cb['ch']['view'].deregister_cllbck(cb['ch']['event'], cb['key'])
        cb['on'] = False
        cb['until'] = inside
        self.count['deregistered'] += 1

    def act(self, cb):
        """Carry out a plan from within a callback."""
        if not self.plans or cb['since'] is not None or not cb['on']:
            return
        rng = random.Random(self.plans.pop())
        k = len(cb['calls']) - 1        # index of this event within the request
        ch = cb['ch']
        self.count['inside'] += 1
        what = rng.choice(['self', 'other', 'new', 'again', 'mass'])
        mine = [c for c in ch['cbs'] if c['on'] and c is not cb and c['since'] is None]
        if what == 'self':
            self.deregister(cb, k)
        elif what == 'other' and mine:
            self.deregister(rng.choice(mine), k)
        elif what == 'new':
            self.register(ch, k)
        elif what == 'again':
            self.deregister(cb, k)
            self.register(ch, k)
        elif what == 'mass':
            for c in mine[:4]:
                self.deregister(c, k)
            for _ in range(3):
                self.register(ch, k)

    # judging ---------------------------------------------------------------
    def displayed(self):
        views = {k: vs.view for k, vs in self.w.views.items()}
        views['main'] = self.w.tree.get_main_view()
        return {k: set(v.get_all_nodes()) for k, v in views.items()}

    def alone(self, view, rng):
        """Come and go as the only one to wait for an event."""
        for ev in rng.sample(['node-children-reordered', 'node-moved', 'node'], 2):
            key = view.register_cllbck(ev, lambda *args: None)
            view.deregister_cllbck(ev, key)
            self.count['alone'] += 1

    def before_op(self, op, out):
        self.pre = self.displayed()
        for ch in self.chan.values():
            del ch['witness'][:]
            del ch['heard'][:]
            ch['cbs'] = ([c for c in ch['cbs'] if not c['on']][-12:] +
                         [c for c in ch['cbs'] if c['on']])
            for cb in ch['cbs']:
                del cb['calls'][:]
                cb['since'] = cb['until'] = None

    def after_op(self, op, out):
        self.plans = []
        if out.exc is not None and out.status == 'ok':
            return
        post = self.displayed()
        for k, pre in self.pre.items():
            for ev, ids in (('added', post[k] - pre), ('deleted', pre - post[k])):
                ev = 'node-' + ev + ('' if k == 'main' else '-inview')
                told = {nid for nid, _ in self.chan[k, ev]['witness']}
                self.count['must_hear'] += len(ids)
                if ids - told:
                    self.fail('callback-silent', 'after %s: no %s of view %s for %r' % (
                        op, ev, k, sorted(ids - told)[0]))
                    return
        for name, ch in self.chan.items():
            w = ch['witness']
            if ch['heard'] != [e for e in w for _ in ch['keys']]:
                self.fail('callback-stream', 'after %s: a function registered %d times for %s got '
                          '%s, the events were %s' % (
                              op, len(ch['keys']), name, ch['heard'][:6], w[:6]))
                return
            self.count['heard_several_times'] += len(ch['heard']) * (len(ch['keys']) > 1)
            for cb in ch['cbs']:
                got = cb['calls']
                lo = [0] if cb['since'] is None else [cb['since'], cb['since'] + 1]
                if cb['on']:
                    hi = [len(w)]
                elif cb['until'] is None:
                    hi, lo = [0], [0]
                else:
                    hi = [cb['until'], cb['until'] + 1]
                self.count['streams'] += 1
                self.count['stream_events'] += len(got)
                if not any(got == w[a:b] for a in lo for b in hi):
                    self.fail('callback-stream', 'after %s: a callback of %s (%s) got %s, '
                              'the events were %s' % (
                                  op, name, 'registered' if cb['on'] else 'deregistered',
                                  got[:6], w[:6]))
                    return
            if w:
                self.states.add(sig((name, len(w), len(ch['cbs']))))
        if op[0] == 'note' and op[1] == 'reg':
            rng = random.Random(op[2])
            ch = self.chan[rng.choice(sorted(self.chan))]
            on = [c for c in ch['cbs'] if c['on']]
            what = rng.choice(['reg', 'reg', 'dereg', 'dereg', 'unknown', 'burst', 'churn',
                               'same', 'same', 'notsame'])
            if what == 'reg':
                self.register(ch)
            elif what == 'dereg' and on:
                self.deregister(rng.choice(on))
            elif what == 'same' and len(ch['keys']) < 4:
                key = ch['view'].register_cllbck(ch['event'], ch['fn'])
                if key in ch['keys'] + [c['key'] for c in on]:
                    self.fail('key-shared', '%s: key %r given out twice' % (ch['name'], key))
                ch['keys'].append(key)
            elif what == 'notsame' and ch['keys']:
                ch['view'].deregister_cllbck(
                    ch['event'], ch['keys'].pop(rng.randrange(len(ch['keys']))))
            elif what == 'burst':
                for _ in range(rng.randint(2, 12)):
                    self.register(ch)
            elif what == 'churn':
                for c in on:
                    if rng.random() < .5:
                        self.deregister(c)
                        if rng.random() < .5:
                            self.register(ch)
            elif what == 'unknown':
                self.count['unknown'] += 1
                self.alone(ch['view'], rng)
                used = {c['key'] for c in on} | set(ch['keys'])
                for ev, key in ((ch['event'], 10 ** 6), (ch['event'], -1), (ch['event'], None),
                                ('no-such-event', 0), (ch['event'], 'x')):
                    if key in used:
                        continue
                    try:
                        ch['view'].deregister_cllbck(ev, key)
                    except Exception as exc:
                        self.fail('unknown-key', 'deregistering %r of %s raised %s' % (
                            key, ev, type(exc).__name__))
        elif op[0] == 'note' and op[1] == 'plan':
            rng = random.Random(op[2])
            self.plans = [rng.randrange(1 << 30) for _ in range(rng.randint(1, 3))]
