#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (python3 tools/mkmanifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'runtime monitoring of random histories: '
TECH = {
    'C01': M + 'graph invariant checked after every request',
    'C02': M + 'lock-step comparison with a reference model',
    'C03': M + 'before/after snapshots and silence of observers around refused requests',
    'C04': 'runtime monitoring of random declarations in random order: final graph against the '
           'declared one, plus lock-step reference model',
    'C05': M + 'oracle evaluates the filters on every node after every request',
    'C06': M + 'oracle computes displayed parents after every request',
    'C07': M + 'online replica built from the notifications alone',
    'C08': M + 'online checker of the event trace of each request',
    'C09': M + 'comparison with freshly created views, observers and trees',
    'C10': M + 'cross-checking of all queries, mutation of returned lists',
    'C11': M + 'filter-set oracle and detours through other filters',
    'C12': M + 'snapshots of all other views around requests on one view',
    'C13': M + 'recount oracle and callback monitor',
    'C14': 'stress with injected delays; offline checker of the recorded trace (exactly once, '
           'order, priority, thread, merging)',
    'C15': 'stress with injected delays and failing requests; comparison with a single thread '
           'after quiescence',
    'C16': M + 'online checker of queued actions against the display history',
    'C17': M + 'row-by-row comparison of the Gtk model, GLib warnings as sanitizer',
    'C18': M + 'order oracle over the rows of a real widget (private X server)',
    'C19': M + 'event streams of all callbacks against a permanent witness',
    'C20': M + 'lock-step comparison with a reference model that knows the flags',
    'C21': M + 'queries and coherence assertions inside notifications',
    'C22': M + 'real widget (private X server): drop handlers against the reference model, '
           'folding state and selection of every row',
    'C23': M + 'real widget (private X server): columns, cells, pixels, signals and drop calls '
           'against the described ones',
    'C24': M + 'steps of the library metered per request (sys.monitoring) against a bound; work '
           'and kept objects compared between rounds',
    'C25': M + 'observers make requests inside notifications, compared in lock-step with a reference '
           'model; views, replicas and counters checked after every request',
}
LEVEL_NOTE = ('Held on every execution observed, nothing more: random and stress workloads, a '
              'function of VERIF_SEED, against an oracle at the public interface. Trusts the '
              'oracle and CPython; the evidence file counts what the monitors saw.')
NOTES = {}


def main():
    checks = []
    for p in sorted(TECH):
        checks.append({
            'property': p, 'quick_cmd': 'python3 check.py ' + p,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
            'technique': TECH[p], 'level': 'exploration',
            'level_note': NOTES.get(p, LEVEL_NOTE)})
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    na = [{'property': p, 'reason': 'check under construction'} for p in props if p not in TECH]
    man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the monitors watch the public interface. '
                    'Replay a violation with: python3 check.py --replay <path>.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
