#!/bin/bash
# Nothing to build: pure Python.  Check that what the checks need is there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -B -c 'import gi; gi.require_version("Gtk", "3.0"); from gi.repository import Gtk'
command -v Xvfb >/dev/null
/opt/venv/bin/python -B -m larchmon.describe C01 >/dev/null
