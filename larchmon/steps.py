"""A meter for the code under test."""
import sys

from . import env


class Meter(object):
    """Counts function entries and loop iterations in the code under test."""
    tool = 2

    def __init__(self):
        self.n = 0
        self.limit = float('inf')
        mon = sys.monitoring
        if mon.get_tool(self.tool) is None:
            mon.use_tool_id(self.tool, 'larchmon-work')
        ev = mon.events

        def start(code, offset):
            if not code.co_filename.startswith(env.REPO):
                return mon.DISABLE
            self.n += 1
            if self.n > self.limit:
                self.limit = float('inf')
                raise TooMuch()

        def jump(code, offset, dest):
            return start(code, offset)
        mon.register_callback(self.tool, ev.PY_START, start)
        mon.register_callback(self.tool, ev.JUMP, jump)

    def on(self):
        mon = sys.monitoring
        self.n = 0
        mon.set_events(self.tool, mon.events.PY_START | mon.events.JUMP)

    def off(self):
        sys.monitoring.set_events(self.tool, 0)
        return self.n


class TooMuch(BaseException):
    pass


METER = []


def meter():
    if not METER:
        METER.append(Meter())
    return METER[0]


HARD = 30 * 1000 * 1000     # steps of one request, whatever the size
