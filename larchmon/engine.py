"""Running, judging, shrinking and replaying single histories."""
import signal
import sys
import time
import traceback

from .steps import HARD, TooMuch
from .world import World


class Watchdog(BaseException):
    pass


class StepLimit(BaseException):
    pass


class Found(object):
    def __init__(self, kind, detail, step):
        self.kind = kind
        self.detail = detail
        self.step = step

    def key(self):
        return self.kind


class Run(object):
    def __init__(self):
        self.found = None
        self.count = {}
        self.states = set()
        self.steps = 0
        self.skipped = 0
        self.diverged = False
        self.refused = 0


STEP_BUDGET = 100 * 1000 * 1000


class StepCounter(object):
    """Counts calls and backward jumps in the code under test (logical time)."""

    def __init__(self, limit):
        self.limit = limit
        self.n = 0
        self.spent = False

    def __enter__(self):
        mon = sys.monitoring
        self.tool = 4
        mon.use_tool_id(self.tool, 'larchmon-steps')
        ev = mon.events

        def tick(*_):
            self.n += 1
            if self.n > self.limit:
                self.limit = float('inf')       # raise once only
                self.spent = True
                raise StepLimit()
        mon.register_callback(self.tool, ev.PY_START, tick)
        mon.register_callback(self.tool, ev.JUMP, tick)
        mon.set_events(self.tool, ev.PY_START | ev.JUMP)
        return self

    def __exit__(self, *_):
        sys.monitoring.set_events(self.tool, 0)
        sys.monitoring.free_tool_id(self.tool)
        return False


def observation(exc, when, step):
    """A query made by a monitor raised, or its answer made no sense."""
    if isinstance(exc, MemoryError):
        raise exc
    tb = traceback.extract_tb(exc.__traceback__)
    return Found('observation-%s' % type(exc).__name__,
                 'looking at the tree %s raised %s: %s in %s' % (
                     when, type(exc).__name__, str(exc).split('\n')[0][:200],
                     ' < '.join('%s:%s' % (f.filename.rsplit('/', 1)[-1], f.name)
                                for f in reversed(tb[-4:]))), step)


def run_history(ops, factories, world_factory=World, strict=True):
    """Execute ops with the given monitors.  Returns a Run."""
    run = Run()
    world = world_factory()
    monitors = [f(world) for f in factories]
    needs_sync = all(m.needs_sync for m in monitors)

    def judge(step):
        for m in monitors:
            if m.fails:
                run.found = Found(m.fails[0][0], m.fails[0][1], step)
                return True
        return False

    step = -1
    for step, op in enumerate(ops):
        try:
            out = world.apply(op)
        except Exception as exc:
            # applying never raises: a query of a monitor did
            run.found = observation(exc, 'around %s' % (op,), step)
            break
        if out.status == 'skipped':
            run.skipped += 1
            continue
        run.steps += 1
        if out.status == 'refused':
            run.refused += 1
        if out.status == 'ok' and out.exc is not None:
            if run.diverged:
                break       # cannot tell any more what is legal
            run.found = Found('crash-%s' % type(out.exc).__name__,
                              '%s raised %s: %s in %s' % (
                                  op, type(out.exc).__name__,
                                  str(out.exc).split('\n')[0][:200], out.where), step)
            break
        if judge(step):
            break
        if not run.diverged and world.sync_check() is not None:
            run.diverged = True
        if run.diverged and needs_sync:
            break
    else:
        if not (run.diverged and needs_sync):
            try:
                for m in monitors:
                    m.finish()
                judge(step)
            except Exception as exc:
                run.found = observation(exc, 'at the end', step)
    for m in monitors:
        for k, v in m.count.items():
            run.count[k] = run.count.get(k, 0) + v
        run.states |= m.states
    return run


def limited(fn, seconds=60, steps=0):
    """Run fn() -> Run under a wall-clock watchdog.  A watchdog alone is not a
    verdict: fn is run again in logical time (StepCounter)."""

    expired = []        # Gtk swallows what is raised in its callbacks

    def on_alarm(*_):
        expired.append(True)
        raise Watchdog()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        run = fn()
        if not expired:
            return run
    except Watchdog:
        pass
    except TooMuch:
        run = Run()
        run.found = Found('too-much-work', 'a request took more than %d steps' % HARD, steps)
        return run
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    run = Run()
    try:
        with StepCounter(STEP_BUDGET) as counter:
            done = fn()
        if not counter.spent:
            return done
        run.found = Found('no-termination',
                          'history takes more than %d steps' % STEP_BUDGET, steps)
    except StepLimit:
        run.found = Found('no-termination',
                          'history takes more than %d steps' % STEP_BUDGET, steps)
    return run


def guarded(ops, factories, seconds=60, **kw):
    return limited(lambda: run_history(ops, factories, **kw), seconds, len(ops) - 1)


def shrink(ops, execute, kind, rounds=400, seconds=40):
    """Greedy delta debugging, keeping the kind of violation.  `execute` maps
    a list of operations to a Run."""
    best = list(ops)
    tries = 0
    end = time.monotonic() + seconds

    def bad(cand):
        if time.monotonic() > end:
            return None
        try:
            r = execute(cand)
        except Exception:
            return None
        if r.found and r.found.kind == kind:
            return r.found
        return None
    last = bad(best)
    if last is None:
        return best, None
    best = best[:last.step + 1]
    size = max(1, len(best) // 2)
    while tries < rounds and time.monotonic() < end:
        changed = False
        k = 0
        while k < len(best) and tries < rounds:
            cand = best[:k] + best[k + size:]
            tries += 1
            f = bad(cand) if cand else None
            if f:
                best, last, changed = cand[:f.step + 1], f, True
            else:
                k += size
        if size == 1 and not changed:
            break
        if not changed or size > len(best):
            size = max(1, size // 2)
    return best, last
