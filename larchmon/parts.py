"""A part of a check: generates cases from seeds and judges executions.

A case is JSON-able and self-contained; executing it needs nothing but the
case (and, for exact reproduction, the hash seed of the process)."""
import random

from . import engine, gen
from .world import World


class Part(object):
    name = 'part'
    needs_display = False
    tries = 1           # replays until the violation shows up again

    def case(self, rng, tier):
        raise NotImplementedError

    def execute(self, case):
        """Returns an engine.Run"""
        raise NotImplementedError

    def shrink(self, case, kind):
        return case, None

    def nontrivial(self, run):
        return run.steps > 0

    rule = ''


class HistoryPart(Part):
    """Random histories of requests watched by monitors."""

    def __init__(self, name, factories, profile, key=None, world=World, least=3):
        self.name = name
        self.factories = factories
        self.profile = profile
        self.world = world
        self.keys = [key] if isinstance(key, str) else list(key or [])
        self.least = least

    def case(self, rng, tier):
        profile = self.profile
        if callable(profile):
            profile = profile(rng, tier)
        ops = gen.Gen(rng.randrange(1 << 60), profile).history()
        return {'ops': ops}

    def execute(self, case):
        return engine.guarded(case['ops'], self.factories, world_factory=self.world)

    def shrink(self, case, kind):
        if kind == 'no-termination':
            return case, None
        best, found = engine.shrink(
            case['ops'], lambda ops: engine.guarded(
                ops, self.factories, seconds=20, world_factory=self.world), kind)
        return dict(case, ops=best), found

    def nontrivial(self, run):
        return run.steps >= self.least and all(run.count.get(k, 0) > 0 for k in self.keys)


def rng_for(seed, part, k):
    return random.Random('%s/%s/%s' % (seed, part, k))
