"""Locating and importing the code under test (always /repo's working tree)."""
import os
import sys
import warnings

REPO = os.environ.get("LARCHMON_REPO", "/repo")

sys.dont_write_bytecode = True
# never read (possibly stale) bytecode of the code under test
sys.pycache_prefix = "/nonexistent-larchmon-pycache"
warnings.simplefilter("ignore")


def load():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import gi
    gi.require_version("Gtk", "3.0")
    gi.require_version("Gdk", "3.0")
    import liblarch
    origin = os.path.dirname(os.path.dirname(os.path.abspath(liblarch.__file__)))
    if os.path.realpath(origin) != os.path.realpath(REPO):
        raise RuntimeError("liblarch imported from %s, not %s" % (origin, REPO))
    return liblarch
