"""Base class of all monitors."""
import collections
import hashlib


def sig(x):
    """A hash that does not depend on PYTHONHASHSEED."""
    return int.from_bytes(
        hashlib.blake2b(repr(x).encode('utf-8', 'replace'), digest_size=6).digest(), 'big')


class Monitor(object):
    """Watches one World.  Never raises into the code under test: a violation
    is recorded and judged by the engine after the operation."""
    needs_sync = True       # give up quietly once model and tree disagree

    def __init__(self, world):
        self.w = world
        self.fails = []
        self.count = collections.Counter()
        self.states = set()
        world.listeners.append(self)

    def fail(self, kind, detail):
        if len(self.fails) < 5:
            self.fails.append((kind, detail))

    def before_op(self, op, out):
        pass

    def after_op(self, op, out):
        pass

    def view_created(self, vs):
        pass

    def finish(self):
        pass
