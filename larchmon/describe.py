"""What a check consists of, for the parent process."""
import json
import sys

from .checks import CHECKS

c = CHECKS[sys.argv[1]]
print(json.dumps({
    'display': any(p.needs_display for p, _, _ in c.parts),
    'need': {p.name: list(getattr(p, 'keys', [])) for p, _, _ in c.parts},
    'rule': c.rule, 'assumptions': c.assumptions}))
