"""Requests issued by several threads: trace specification of the queue and
end-to-end comparison with a single thread."""
import io
import itertools
import random
import signal
import sys
import threading
import time

from . import engine, env
from .mon_core import EventReplica
from .mon_tree import WellFormed
from .monbase import sig
from .parts import Part
from .viewspec import diff_displayed, diff_placement, structure
from .world import LNode, World

liblarch = env.load()
from gi.repository import GLib  # noqa: E402
from liblarch.processqueue import SyncQueue  # noqa: E402

JOIN = 60       # seconds; a watchdog, never a verdict on its own


class Boom(Exception):
    pass


class Delays(object):
    """Delays injected between the lines of the files under test."""

    def __init__(self, seed, rate, files=('processqueue.py',)):
        self.rng = random.Random(seed)
        self.rate = rate
        self.files = files
        self.hits = 0

    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        if self.rate:
            mon = sys.monitoring
            mon.use_tool_id(3, 'larchmon-delays')
            rnd = self.rng.random
            rate = self.rate

            def on_line(code, line):
                name = code.co_filename
                if not (name.startswith(env.REPO) and name.endswith(self.files)):
                    return mon.DISABLE
                x = rnd()
                if x < rate:
                    self.hits += 1
                    time.sleep(x * 0.002 if x < rate / 4 else 0)
                return None
            mon.register_callback(3, mon.events.LINE, on_line)
            mon.set_events(3, mon.events.LINE)
        return self

    def __exit__(self, *_):
        sys.setswitchinterval(self.old)
        if self.rate:
            sys.monitoring.set_events(3, 0)
            sys.monitoring.register_callback(3, sys.monitoring.events.LINE, None)
            sys.monitoring.free_tool_id(3)
            sys.monitoring.restart_events()
        return False


class Quiet(object):
    def __enter__(self):
        self.keep = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()

    def __exit__(self, *_):
        sys.stdout, sys.stderr = self.keep
        return False


class Stuck(Exception):
    pass


def start(bodies):
    gate = threading.Event()
    errors = []

    def wrap(body):
        gate.wait()
        try:
            body()
        except BaseException as exc:     # reported by the caller
            errors.append(exc)
    ts = [threading.Thread(target=wrap, args=(b,), daemon=True) for b in bodies]
    for t in ts:
        t.start()
    return ts, gate, errors


def drain(limit=200000):
    """Run the main loop until it is idle."""
    ctx = GLib.MainContext.default()
    n = 0
    while ctx.pending():
        ctx.iteration(False)
        n += 1
        if n > limit:
            return None
    return n


def together(ts, between=lambda: None):
    """Run the main loop while the threads work."""
    ctx = GLib.MainContext.default()
    end = time.monotonic() + JOIN
    while any(t.is_alive() for t in ts):
        if not ctx.iteration(False):
            time.sleep(0)
        between()
        if time.monotonic() > end:
            raise Stuck()


def join(ts):
    end = time.monotonic() + JOIN
    for t in ts:
        t.join(max(0, end - time.monotonic()))
        if t.is_alive():
            raise Stuck()


def watched(fn):
    """fn() -> Run.  A thread (or the owner) that cannot go on within a minute
    is only believed if it happens twice."""

    def on_alarm(*_):
        raise Stuck()
    for attempt in range(2):
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, JOIN + 30)
        try:
            return fn()
        except Stuck:
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    run = engine.Run()
    run.found = engine.Found('stuck', 'a thread could not go on', 0)
    return run


PRIO = {'high': 0, None: 1, 'low': 2}


class Trace(object):
    """Log of one round, and its specification."""

    def __init__(self):
        self.clock = itertools.count()
        self.log = []
        self.owner = threading.get_ident()

    def ev(self, *what):
        self.log.append((next(self.clock), threading.get_ident()) + what)

    def judge(self, begin_drain, paused):
        """begin_drain: time at which the main loop started."""
        pushes, execs, owner = {}, [], {}
        current = None
        last_end = begin_drain
        open_ = {}
        for t, ident, kind, tag, *rest in sorted(self.log):
            if kind == 'call':
                open_[ident] = (t, tag, rest[0])
            elif kind == 'ret':
                t0, tag0, prio = open_.pop(ident)
                pushes.setdefault(tag, []).append((t0, t, prio))
            elif kind == 'start':
                if ident != self.owner:
                    return 'wrong-thread', '%s was carried out by another thread' % tag
                if str(tag).startswith('own'):
                    continue
                if current is not None:
                    return 'overlap', '%s was carried out during %s' % (tag, current)
                current = tag
                execs.append((t, tag, last_end))
            elif kind == 'end':
                if str(tag).startswith('own'):
                    continue
                current = None
                last_end = t
            elif kind == 'own-call':
                owner[tag] = [t, None, []]
            elif kind == 'own-ret':
                owner[tag][1] = t
        for t, ident, kind, tag, *rest in self.log:
            if kind == 'start' and tag in owner:
                owner[tag][2].append(t)
        for tag, (a, b, when) in owner.items():
            if len(when) != 1 or b is None or not a < when[0] < b:
                return 'owner-delayed', 'request %s of the owner was carried out %s, ' \
                    'called at %s, returned at %s' % (tag, when, a, b)
        done = {}
        for t, tag, prev in execs:
            done.setdefault(tag, []).append(t)
        for tag, ps in pushes.items():
            n = len(done.get(tag, []))
            if n == 0:
                return 'lost', 'request %s was never carried out' % tag
            prios = {p for _, _, p in ps}
            if paused:
                if n != len(prios):
                    return ('not-merged' if n > len(prios) else 'over-merged',
                            'request %s was issued %d times at priorities %s before the main '
                            'loop ran, and carried out %d times' % (
                                tag, len(ps), sorted(map(str, prios)), n))
            else:
                if n > len(ps):
                    return 'repeated', 'request %s was issued %d times and carried out %d ' \
                        'times' % (tag, len(ps), n)
                if max(done[tag]) < max(c for c, _, _ in ps):
                    return 'lost', 'request %s was issued again after it was last carried out' % tag
            if min(done[tag]) < min(c for c, _, _ in ps):
                return 'too-early', 'request %s was carried out before it was issued' % tag
        for tag in done:
            if tag not in pushes:
                return 'unknown-request', 'request %s was never issued' % tag
        # order, for requests whose priority is unambiguous and that ran once
        info = {}
        for tag, ps in pushes.items():
            if len(done[tag]) == 1 and len({p for _, _, p in ps}) == 1:
                if paused or len(ps) == 1:
                    info[tag] = (PRIO[ps[0][2]], min(c for c, _, _ in ps),
                                 min(r for _, r, _ in ps), done[tag][0])
        by = {}
        for tag, (p, c, r, t) in info.items():
            by.setdefault(p, []).append((t, c, r, tag))
        for p, lst in by.items():
            lst.sort()
            # B after A in execution although B returned before A was called
            latest_call, who = -1, None
            for t, c, r, tag in lst:
                if r < latest_call:
                    return 'order', 'request %s was issued before %s and carried out after ' \
                        'it, at the same priority' % (tag, who)
                if c > latest_call:
                    latest_call, who = c, tag
        for t, tag, prev in execs:
            if tag not in info:
                continue
            p = info[tag][0]
            for other, (p2, c2, r2, t2) in info.items():
                if p2 < p and t2 > t and r2 < prev:
                    return 'priority', 'request %s (%s) was waiting when %s (%s) was taken' % (
                        other, 'high normal low'.split()[p2], tag, 'high normal low'.split()[p])
        return None


def owner_thread(fn):
    """fn() in another thread than the main one, which then owns the tree."""
    box = []

    def body():
        try:
            box.append((fn(), None))
        except BaseException as exc:
            box.append((None, exc))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join()
    if box[0][1] is not None:
        raise box[0][1]
    return box[0][0]


class Shape(object):
    """A request that finds its name among its arguments."""

    def __init__(self, do, pick):
        self.do = do
        self.pick = pick

    def run(self, *args):
        self.do(self.pick(args))


class QueueTrace(Part):
    """Many rounds of threads pushing requests into one queue."""
    tries = 200

    def __init__(self, name, only=None, fails=.1):
        self.name = name
        self.only = only        # kinds of violation this property is about
        self.fails = fails
        self.keys = ['requests', 'paused_rounds', 'concurrent_rounds', 'failing', 'owner_requests',
                     'identical', 'delays']

    def case(self, rng, tier):
        rounds = []
        for _ in range(rng.randint(3, 8)):
            short = rng.random() < .5
            nt = rng.choice([1, 2, 2, 3, 4])
            ths = []
            for t in range(nt):
                steps = []
                for k in range(rng.randint(1, 2) if short else rng.randint(1, 12)):
                    tag = 't%d.%d' % (t, k)
                    if rng.random() < .12:
                        tag = 'same%d' % rng.randrange(2)
                    if rng.random() < .04:
                        tag = 'any%d' % rng.randrange(2)
                    prio = rng.choice([None, None, 'low', 'low', 'high'])
                    if tag.startswith('same'):
                        prio = [None, 'low'][int(tag[4:])]
                    kind = 'ok'
                    if rng.random() < self.fails:
                        kind = rng.choice(['raise', 'raise', 'value', 'type'])
                    elif rng.random() < .1:
                        kind = 'nested'
                    elif rng.random() < .1:
                        kind = 'slow'
                    steps.append([tag, prio, kind, rng.random() < .1])
                ths.append(steps)
            rounds.append({'threads': ths, 'shape': rng.choice([0, 1, 2, 3, 4, 5, 6, 'mixed']),
                           'mode': rng.choice(['paused', 'together', 'together']),
                           'own': rng.random() < .3})
        return {'rounds': rounds, 'delay': rng.choice([0, .1, .3, .6]),
                'seed': rng.randrange(1 << 30),
                'owner': rng.choice(['main', 'main', 'other'])}

    def execute(self, case):
        if case.get('owner') == 'other':
            return watched(lambda: owner_thread(lambda: self.once(case)))
        return watched(lambda: self.once(case))

    def once(self, case):
        run = engine.Run()
        q = SyncQueue()
        owner = threading.get_ident()
        for n, rnd in enumerate(case['rounds']):
            tr = Trace()
            run.steps += 1
            with Quiet(), Delays(case['seed'] + n, case['delay']) as dl:
                begin = self.round(q, tr, rnd, run)
            if begin is None:
                run.found = engine.Found('endless', 'round %d: the main loop is never idle' % n, n)
                return run
            run.count['delays'] = run.count.get('delays', 0) + dl.hits
            mode = 'paused_rounds' if rnd['mode'] == 'paused' else 'concurrent_rounds'
            run.count[mode] = run.count.get(mode, 0) + 1
            idents = {}
            run.states.add(sig([(idents.setdefault(e[1], len(idents)),) + e[2:]
                                for e in sorted(tr.log)]))
            d = tr.judge(begin, rnd['mode'] == 'paused')
            if d and (self.only is None or d[0] in self.only):
                run.found = engine.Found('queue-' + d[0], 'round %d: %s' % (n, d[1]), n)
                return run
        return run

    def round(self, q, tr, rnd, run):
        kinds = {}
        for steps in rnd['threads']:
            for tag, prio, kind, _ in steps:
                kinds.setdefault(tag, kind)
        count = run.count
        serial = itertools.count()

        def own():
            tag = 'own%d' % next(serial)
            tr.ev('own-call', tag)
            q.push(do, tag, **({} if next(serial) % 2 else {'priority': 'low'}))
            tr.ev('own-ret', tag)
            count['owner_requests'] = count.get('owner_requests', 0) + 1

        def do(tag):
            tr.ev('start', tag)
            try:
                kind = kinds.get(tag)
                count['requests'] = count.get('requests', 0) + 1
                if kind == 'nested':
                    own()
                elif kind == 'slow':
                    time.sleep(0.0005)
                elif kind in ('raise', 'value', 'type'):
                    count['failing'] = count.get('failing', 0) + 1
                    raise {'raise': Boom, 'value': ValueError, 'type': TypeError}[kind](tag)
            finally:
                tr.ev('end', tag)

        first = Shape(do, lambda a: a[0])
        middle = Shape(do, lambda a: a[1])
        last = Shape(do, lambda a: a[-1])
        alone = {}
        for steps in rnd['threads']:
            for tag, *_ in steps:
                alone[tag] = Shape(do, lambda a, tag=tag: tag)
        shape = rnd.get('shape')

        def shaped(tag):
            # requests that differ in a single place
            how = shape if shape != 'mixed' else sum(map(ord, tag)) % 7
            if how == 1:
                return first.run, tag, 'x', 'y'
            if how == 2:
                return middle.run, 'x', tag, 'y'
            if how == 3:
                return last.run, 'x', 'y', tag
            if how == 4:
                return alone[tag].run, 'x'
            if how == 5:
                return (alone[tag].run,)
            if how == 6:
                return (last.run,) + ('x',) * (len(tag) + ord(tag[-1]) % 5) + (tag,)
            return do, tag

        def body(steps):
            def go():
                for tag, prio, kind, pause in steps:
                    name = ''.join(list(tag))       # equal, not the same object
                    if not tag.startswith('t'):
                        count['identical'] = count.get('identical', 0) + 1
                    request = shaped(name)
                    tr.ev('call', tag, prio)
                    if prio is None:
                        q.push(*request)
                    else:
                        q.push(*request, priority=prio)
                    tr.ev('ret', tag)
                    if pause:
                        time.sleep(0.0003)
            return go
        ts, gate, errors = start([body(s) for s in rnd['threads']])
        begin = next(tr.clock)
        gate.set()
        if rnd['mode'] == 'paused':
            join(ts)
            begin = next(tr.clock)
        else:
            together(ts, own if rnd['own'] else lambda: None)
        if rnd['own']:
            own()
        n = drain()
        if errors:
            raise errors[0]
        return begin if n is not None else None

    def shrink(self, case, kind):
        """Keep the rounds up to the failing one."""
        best = case
        for k in range(len(case['rounds'])):
            cand = dict(case, rounds=[case['rounds'][k]])
            for _ in range(5):
                if kind == 'stuck':
                    return best, None
                r = self.once(cand)
                if r.found and r.found.kind == kind:
                    return cand, r.found
        return best, None

    def nontrivial(self, run):
        return run.count.get('requests', 0) > 1


class TreeThreads(Part):
    """Threads that build, change and take apart their own nodes of one tree,
    against the same requests made by a single thread."""
    keys = ['requests', 'notifications', 'delays']
    tries = 200

    def __init__(self, name, mixed):
        self.name = name
        self.mixed = mixed      # mixed priorities: only requests that commute

    # a program is a list of steps on ids that belong to one thread
    def case(self, rng, tier):
        nt = rng.choice([1, 2, 2, 3, 4])
        progs, settled = [], []
        for t in range(nt):
            progs.append(self.mixed_program(rng, t) if self.mixed
                         else self.program(rng, t, settled))
        views = [[], ['red'], rng.choice([['deep'], ['notred'], ['team'], ['leaf']])]
        return {'threads': progs, 'settled': settled, 'views': views[:rng.randint(1, 3)],
                'mode': rng.choice(['paused', 'together', 'together']),
                'main': self.owner_program(rng), 'delay': rng.choice([0, .05, .2]),
                'seed': rng.randrange(1 << 30),
                'owner': rng.choice(['main', 'main', 'other'])}

    def owner_program(self, rng):
        """The owner works on nodes of its own."""
        if rng.random() < .5:
            return []
        return [['add', 'm.%d' % k, None, [], ['red'], 'low'] for k in range(10)]

    def may_fail(self, step, exc):
        return False

    def mixed_program(self, rng, t):
        ids = ['t%d.%d' % (t, k) for k in range(rng.randint(1, 5))]
        steps, order = [], ids[:]
        rng.shuffle(order)
        for a in range(len(ids)):
            i = order[a]
            ps = [p for p in ids if ids.index(p) < ids.index(i) and rng.random() < .4]
            cs = [c for c in ids if ids.index(c) > ids.index(i) and rng.random() < .2]
            parent = ps.pop() if ps and rng.random() < .5 else None
            steps.append(['add', i, parent, [['p', p] for p in ps] + [['c', c] for c in cs],
                          rng.sample(['red', 'blue', 'green'], rng.randint(0, 2)),
                          rng.choice(['low', 'low', 'normal', 'high'])])
            if rng.random() < .4:
                steps.append(['refresh', rng.choice(ids), rng.choice(['low', 'high', 'normal'])])
        return steps

    def program(self, rng, t, settled):
        """All at one priority: they keep their order."""
        mine = ['s%d.%d' % (t, k) for k in range(rng.randint(0, 4))]
        par = {}
        for k, i in enumerate(mine):
            par[i] = [p for p in mine[:k] if rng.random() < .5]
            settled.append([i, par[i], rng.sample(['red', 'blue', 'green'], rng.randint(0, 2))])
        # nodes that only get new parents
        chain = ['l%d.%d' % (t, k) for k in range(rng.randint(0, 4))]
        parents = {}
        for k, i in enumerate(chain):
            ps = chain[k - 1:k] if k and rng.random() < .6 else []
            settled.append([i, ps, ['red']])
            parents[i] = set(ps)
        steps, live, n = [], [], 0
        jobs = ['add'] * rng.randint(1, 5) + ['settled'] * (len(mine) * 2) + ['del'] * rng.randint(0, 2)
        jobs += ['color'] * rng.randint(0, 3) + ['link'] * rng.randint(0, 2)
        jobs += ['cycle'] * rng.randint(0, 2) + ['junk'] * rng.randint(0, 2)
        rng.shuffle(jobs)
        for job in jobs:
            if job == 'add':
                i = 't%d.%d' % (t, n)
                n += 1
                parent = rng.choice(live) if live and rng.random() < .6 else None
                steps.append(['add', i, parent, [], rng.sample(
                    ['red', 'blue', 'green'], rng.randint(0, 2)), 'normal'])
                live.append(i)
            elif job == 'del' and live:
                i = rng.choice(live)
                live.remove(i)
                steps.append(['del', i, False])
            elif job == 'color' and live:
                steps.append(['color', rng.choice(live), rng.choice(['red', 'blue']), 'normal'])
            elif job in ('link', 'cycle') and len(chain) > 1:
                a, b = rng.sample(chain, 2)

                def anc(x):
                    out = set()
                    for p in parents[x]:
                        out |= {p} | anc(p)
                    return out
                if job == 'link' and a not in anc(b):
                    steps.append(['link', b, a])        # b becomes a parent of a
                    parents[a].add(b)
                elif job == 'cycle':
                    up = sorted(anc(a))
                    if up:
                        steps.append(['cycle', a, rng.choice(up)])
            elif job == 'junk':
                steps.append(rng.choice([
                    ['del', 'no.%d' % t, False], ['refresh', 'no.%d' % t, 'normal'],
                    ['again', 't%d.0' % t]]))
            elif job == 'settled' and mine:
                i = rng.choice(mine)
                what = rng.choice(['color', 'del', 'delr', 'rmp', 'rmp', 'move', 'move', 'move',
                                   'link', 'link', 'child', 'enable'])
                other = rng.choice(mine)
                if what == 'color':
                    step = ['color', i, 'red', 'low']
                elif what in ('del', 'delr'):
                    step = ['del', i, what == 'delr']
                elif what == 'rmp':
                    step = ['rmp', i, rng.choice(par[i] or mine)]
                elif what == 'move':
                    step = ['move', i, rng.choice([None, other])]
                elif what == 'enable':
                    step = ['enable', i, rng.choice('pc'), rng.random() < .4]
                else:
                    step = [what, i, other]
                if self.request(step) not in [self.request(s) for s in steps]:
                    # the same request twice might count as one
                    steps.append(step)
        return steps

    # ------------------------------------------------------------------
    def setup(self, case):
        world = World()
        for i, ps, colors in case['settled']:
            world.apply(['add', i, ps[0] if ps else None, colors, [], None, ''])
            for p in ps[1:]:
                world.apply(['addp', i, p, 'tree'])
        for k, fs in enumerate(case['views']):
            world.apply(['view', 'v%d' % k, None, fs])
        return world

    @staticmethod
    def how(step):
        return (int(step[1][-1]) + int(step[2][-1])) % 3

    def request(self, step):
        """What the queue gets to see of a step."""
        if step[0] in ('link', 'cycle'):
            return (['child'] + step[1:3] if self.how(step) == 1
                    else ['parent', step[2], step[1]])
        return step

    def perform(self, tree, objs, step, here):
        """One request; what a single thread is told by an exception, other
        threads are not told at all.  here: nodes that were there from the
        start, perhaps removed since; objs: nodes the thread made."""
        kind = step[0]
        if kind == 'add':
            _, i, parent, rels, colors, prio = step
            node = objs[i] = LNode(i, colors)
            for k, other in rels:
                (node.add_parent if k == 'p' else node.add_child)(other)
            tree.add_node(node, parent, priority=prio)
        elif kind == 'again':
            tree.add_node(LNode(step[1], ['red']), None, priority='normal')
        elif kind == 'del':
            tree.del_node(step[1], step[2])
        elif kind == 'refresh':
            tree.refresh_node(step[1], step[2])
        elif kind == 'color':
            node = objs.get(step[1]) or here[step[1]]
            node.colors ^= {step[2]}
            node.version += 1
            tree.refresh_node(step[1], step[3])
        elif kind in ('link', 'cycle'):
            how = self.how(step)
            if how == 0:
                here[step[2]].add_parent(step[1])
            elif how == 1:
                here[step[1]].add_child(step[2])
            else:
                tree.add_parent(step[2], step[1])
        elif kind in ('rmp', 'move', 'child', 'enable'):
            node = here[step[1]]
            if kind == 'rmp':
                node.remove_parent(step[2])
            elif kind == 'move':
                node.set_parent(step[2])
            elif kind == 'child':
                node.add_child(step[2])
            elif step[2] == 'p':
                node.set_parents_enabled(step[3])
            else:
                node.set_children_enabled(step[3])

    def execute(self, case):
        if case.get('owner') == 'other':
            return watched(lambda: owner_thread(lambda: self.once(case)))
        return watched(lambda: self.once(case))

    def once(self, case):
        run = engine.Run()
        count = run.count
        me = threading.get_ident()
        world = self.setup(case)
        tree = world.tree
        nodes = dict(world.nodes)
        recs = {}
        replica = EventReplica(world)
        foreign = []

        def heard(*_):
            count['notifications'] = count.get('notifications', 0) + 1
            if threading.get_ident() != me:
                foreign.append(1)
        for vs in world.views.values():
            replica.view_created(vs)
            for ev in ('node-added-inview', 'node-deleted-inview', 'node-modified-inview'):
                vs.view.register_cllbck(ev, heard)
        del recs

        def body(steps):
            objs = {}

            def go():
                for step in steps:
                    count['requests'] = count.get('requests', 0) + 1
                    if step[0] == 'cycle':
                        count['refused'] = count.get('refused', 0) + 1
                    try:
                        self.perform(tree, objs, step, nodes)
                    except Exception as exc:
                        if not self.may_fail(step, exc):
                            raise
            return go
        extra = iter(range(10))

        def own():
            # the owner works too
            k = next(extra, None)
            if k is None or k >= len(case['main']):
                return
            count['owner_requests'] = count.get('owner_requests', 0) + 1
            try:
                self.perform(tree, nodes, case['main'][k], nodes)
            except Exception as exc:
                if not self.may_fail(case['main'][k], exc):
                    errors.append(exc)
        with Quiet(), Delays(case['seed'], case['delay'],
                             ('processqueue.py', 'tree.py', 'treenode.py')) as dl:
            ts, gate, errors = start([body(s) for s in case['threads']])
            gate.set()
            if case['mode'] == 'paused':
                join(ts)
            else:
                together(ts, own)
            for _ in range(3):
                own()       # in the paused mode: before those of the threads
            n = drain()
        count['delays'] = dl.hits
        run.steps = sum(len(s) for s in case['threads'])
        if errors:
            run.found = engine.observation(errors[0], 'from a thread', 0)
            return run
        if n is None:
            run.found = engine.Found('endless', 'the main loop is never idle', 0)
            return run
        run.states.add(sig(sorted((i, sorted(p)) for i, (p, _) in world.real_main()[0].items())))
        run.found = self.judge(case, world, replica, foreign)
        return run

    def judge(self, case, world, replica, foreign):
        tree = world.tree
        # the same requests in a single thread
        ref = self.setup(case)
        refnodes = dict(ref.nodes)
        with Quiet():
            for steps in case['threads']:
                objs = {}
                for step in steps:
                    try:
                        self.perform(ref.tree, objs, step, refnodes)
                    except Exception:
                        if step[0] not in ('cycle', 'link', 'move', 'child'):
                            raise
            for k in range(10):
                if tree.has_node('m.%d' % k):
                    self.perform(ref.tree, {}, ['add', 'm.%d' % k, None, [], ['red'], 'low'], {})
        return self.compare(world, ref) or self.coherent(world, replica, foreign)

    def compare(self, world, ref):
        F = engine.Found
        a, b = world.real_main()[0], ref.real_main()[0]
        if set(a) != set(b):
            return F('threads-nodes', 'nodes lost %s, unexpected %s' % (
                sorted(set(b) - set(a)), sorted(set(a) - set(b))), 0)
        for i in sorted(a):
            for k, what in ((0, 'parents'), (1, 'children')):
                if sorted(a[i][k]) != sorted(b[i][k]):
                    return F('threads-relations', '%s of %s are %s, in a single thread %s' % (
                        what, i, sorted(a[i][k]), sorted(b[i][k])), 0)
            if world.tree.get_node(i).label() != ref.tree.get_node(i).label():
                return F('threads-content', 'content of %s differs' % i, 0)
        for key, vs in world.views.items():
            if structure(vs.view) != structure(ref.views[key].view):
                return F('threads-view', 'view %s %s differs from a single thread' % (
                    key, vs.filters), 0)
        return None

    def coherent(self, world, replica, foreign):
        """The tree, its views and what they announced fit together."""
        F = engine.Found
        if foreign:
            return F('foreign-notification', 'observers were notified by another thread', 0)
        wf = WellFormed(world)
        d = wf.check()
        if d:
            return F('threads-malformed', d, 0)
        for key, vs in world.views.items():
            d = diff_displayed(world, vs) or diff_placement(world, vs)
            if d:
                return F('threads-view-' + d[0], d[1], 0)
            d = replica.rec[key].compare()
            if d:
                return F('threads-' + d[0], d[1], 0)
        if replica.fails:
            return F('threads-' + replica.fails[0][0], replica.fails[0][1], 0)
        return None

    def shrink(self, case, kind):
        best, found = case, None
        end = time.monotonic() + 30

        def bad(cand):
            for _ in range(4):
                r = self.execute(cand)
                if r.found and r.found.kind == kind:
                    return r.found
            return None
        t = 0 if kind != 'stuck' else len(best['threads'])
        while t < len(best['threads']) and time.monotonic() < end:
            cand = dict(best, threads=best['threads'][:t] + best['threads'][t + 1:])
            f = bad(cand) if cand['threads'] else None
            if f:
                best, found = cand, f
            else:
                t += 1
        return best, found

    def nontrivial(self, run):
        return run.steps > 1 or run.count.get('owner_requests', 0) > 0


class SharedNodes(TreeThreads):
    """Threads and the owner change the same nodes.  What comes out depends on
    the order, but it has to be a proper tree with proper views."""
    keys = ['requests', 'notifications', 'delays', 'owner_requests']

    def __init__(self, name, only=None):
        TreeThreads.__init__(self, name, False)
        self.only = only

    def case(self, rng, tier):
        n = rng.randint(2, 7)
        ids = ['s%d' % k for k in range(n)]
        settled = [[i, [p for p in ids[:k] if rng.random() < .3],
                    rng.sample(['red', 'blue', 'green'], rng.randint(0, 2))]
                   for k, i in enumerate(ids)]
        nt = rng.choice([1, 1, 2, 2, 3])
        progs = [self.wild(rng, 't%d' % t, ids, rng.randint(1, 8)) for t in range(nt)]
        views = [[], ['red'], rng.choice([['deep'], ['notred'], ['team'], ['leaf'], ['flatred']])]
        return {'threads': progs, 'settled': settled, 'views': views[:rng.randint(1, 3)],
                'mode': rng.choice(['paused', 'together', 'together']),
                'main': self.wild(rng, 'm', ids, rng.randint(0, 8)),
                'delay': rng.choice([0, .05, .2]), 'seed': rng.randrange(1 << 30),
                'owner': rng.choice(['main', 'main', 'other'])}

    def wild(self, rng, who, ids, n):
        steps = []
        for k in range(n):
            i, j = rng.choice(ids), rng.choice(ids)
            kind = rng.choice(['move', 'move', 'link', 'link', 'rmp', 'rmp', 'rmp', 'child', 'del',
                               'delr', 'enable', 'refresh', 'add'])
            if kind in ('del', 'delr'):
                steps.append(['del', i, kind == 'delr'])
            elif kind == 'enable':
                steps.append(['enable', i, rng.choice('pc'), rng.random() < .5])
            elif kind == 'move':
                steps.append(['move', i, rng.choice([None, j])])
            elif kind == 'refresh':
                steps.append(['refresh', i, rng.choice(['low', 'normal', 'high'])])
            elif kind == 'add':
                steps.append(['add', '%s.%d' % (who, k), rng.choice([None, i]),
                              rng.choice([[], [['c', j]], [['p', j]]]), ['red'],
                              rng.choice(['low', 'normal', 'high'])])
            else:
                steps.append([kind, i, j])
        return steps

    def may_fail(self, step, exc):
        # whoever asks for the impossible may be told
        return step[0] in ('link', 'child', 'move', 'add')

    def judge(self, case, world, replica, foreign):
        f = self.coherent(world, replica, foreign)
        if f and self.only and f.kind not in self.only:
            return None
        return f


class TreeOrder(TreeThreads):
    """Requests of all priorities, made of a tree before its main loop runs.  What the
    observers of the main view hear is what they hear from a tree of which the same
    requests are made by its owner, high priority first and low last."""
    keys = ['requests', 'heard', 'equal_requests']

    def __init__(self, name):
        TreeThreads.__init__(self, name, False)

    def case(self, rng, tier):
        ids = ['s%d' % k for k in range(rng.randint(2, 7))]
        settled = [[i, [p for p in ids[:k] if rng.random() < .3], ['red']]
                   for k, i in enumerate(ids)]
        steps = []
        new = []
        for k in range(rng.randint(2, 14)):
            i, j = rng.choice(ids), rng.choice(ids)
            kind = rng.choice(['add', 'add', 'refresh', 'refresh', 'refresh', 'new', 'del', 'rmp',
                               'move', 'link', 'enable'])
            prio = rng.choice(['low', 'high', 'medium', None])
            if kind == 'add':
                new.append('t.%d' % k)
                steps.append(['add', new[-1], rng.choice([None, i] + new[:-1]), [], ['red'], prio])
            elif kind == 'new' and new:
                steps.append(['refresh', rng.choice(new), prio, 0])
            elif kind == 'refresh':
                steps.append(['refresh', i, prio, int(i[-1]) % 2])
            elif kind == 'del':
                steps.append(['del', rng.choice(ids + new), rng.random() < .3])
            elif kind == 'enable':
                steps.append(['enable', i, rng.choice('pc'), rng.random() < .5])
            elif kind == 'move':
                steps.append(['move', i, rng.choice([None, j])])
            elif kind in ('rmp', 'link'):
                steps.append([kind, i, j])
        # handed out to threads, one after the other
        threads = []
        while steps:
            n = rng.randint(1, len(steps))
            threads.append(steps[:n])
            steps = steps[n:]
        return {'threads': threads, 'settled': settled, 'views': [],
                'owner': rng.choice(['main', 'main', 'other'])}

    def perform(self, tree, objs, step, here):
        kind = step[0]
        if kind == 'add':
            node = objs[step[1]] = LNode(step[1], step[4])
            kw = {} if step[5] is None else {'priority': step[5]}
            tree.add_node(node, step[2], **kw)
        elif kind == 'refresh':
            kw = {} if step[2] is None else {'priority': step[2]}
            if step[3] and step[1] in here:
                here[step[1]].modified(**kw)
            else:
                tree.refresh_node(step[1], **kw)
        elif kind == 'link':
            here[step[1]].add_parent(step[2])
        else:
            TreeThreads.perform(self, tree, objs, step, here)

    @staticmethod
    def prio(step):
        """Additions and refreshes are not urgent unless said to be."""
        if step[0] not in ('add', 'refresh'):
            return 1
        return {'high': 0, 'medium': 1, 'low': 2, None: 2}[step[-1] if step[0] == 'add'
                                                          else step[2]]

    def listen(self, world):
        log = []
        main = world.tree.get_main_view()
        for ev in ('node-added', 'node-deleted', 'node-modified'):
            main.register_cllbck(ev, lambda i, path, ev=ev: log.append((ev, i)))
        return log

    def once(self, case):
        run = engine.Run()
        world, ref = self.setup(case), self.setup(case)
        nodes, refnodes = dict(world.nodes), dict(ref.nodes)
        log, reflog = self.listen(world), self.listen(ref)
        every, seen = [], set()
        with Quiet():
            objs = {}
            for steps in case['threads']:
                def body(steps=steps):
                    for step in steps:
                        self.perform(world.tree, objs, step, nodes)
                ts, gate, errors = start([body])
                gate.set()
                join(ts)
                if errors:
                    run.found = engine.observation(errors[0], 'from a thread', 0)
                    return run
                every += steps
            early = list(log)
            n = drain()
            objs = {}
            for step in sorted(every, key=self.prio):
                what = repr((step[:2] if step[0] == 'refresh' else step, self.prio(step)))
                if what in seen:
                    run.count['equal_requests'] = run.count.get('equal_requests', 0) + 1
                    continue
                seen.add(what)
                try:
                    self.perform(ref.tree, objs, step, refnodes)
                except Exception:
                    pass        # refused: others are not told
        run.steps = len(every)
        run.count.update(requests=len(every), heard=len(log))
        run.states.add(sig(log))
        if n is None:
            run.found = engine.Found('endless', 'the main loop is never idle', 0)
        elif early:
            run.found = engine.Found('tree-early', 'observers heard %s before the main loop ran' % (
                early[:3],), 0)
        elif log != reflog:
            k = next((k for k, (a, b) in enumerate(zip(log, reflog)) if a != b),
                     min(len(log), len(reflog)))
            run.found = engine.Found('tree-order', 'observers heard %s, in the order of the '
                                     'priorities it is %s' % (log[max(0, k - 2):k + 2],
                                                              reflog[max(0, k - 2):k + 2]), 0)
        else:
            run.found = self.compare(world, ref)
        return run

    def shrink(self, case, kind):
        best, found = case, None
        for t in range(len(case['threads'])):
            k = 0
            while k < len(best['threads'][t]):
                ths = [list(x) for x in best['threads']]
                del ths[t][k]
                cand = dict(best, threads=ths)
                r = self.execute(cand)
                if r.found and r.found.kind == kind:
                    best, found = cand, r.found
                else:
                    k += 1
        return best, found
