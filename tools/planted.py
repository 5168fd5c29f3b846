#!/usr/bin/env python3
"""Runs the checks against the planted changes: tools/planted.py [id ...]

Each change is applied to a scratch copy of /repo; results are kept in tools/planted.json
and written into the table of DESIGN.md."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
RESULTS = os.path.join(HERE, 'tools', 'planted.json')


def run(sid):
    meta = json.load(open(os.path.join(SEEDED, sid, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='planted-')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        subprocess.check_call(['git', '-C', repo, 'apply',
                               os.path.join(SEEDED, sid, 'patch.diff')])
        env = dict(os.environ, LARCHMON_REPO=repo, LARCHMON_WORKERS='4')
        p = subprocess.run([sys.executable, 'check.py', meta['property']], cwd=HERE, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = p.stdout.decode('utf-8', 'replace')
        m = re.search(r'part (\S+), (\S+)', text)
        return sid, meta, p.returncode, '%s: %s' % m.groups() if m else text[-200:]
    finally:
        shutil.rmtree(tmp)


def main(ids):
    known = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    with cf.ThreadPoolExecutor(2) as ex:
        for sid, meta, rc, what in ex.map(run, ids or sorted(os.listdir(SEEDED))):
            known[sid] = {'property': meta['property'], 'rc': rc, 'by': what}
            print(sid, rc, what, flush=True)
    known = {k: v for k, v in sorted(known.items()) if os.path.isdir(os.path.join(SEEDED, k))}
    with open(RESULTS, 'w') as f:
        json.dump(known, f, indent=1)
        f.write('\n')
    rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
    for sid in sorted(os.listdir(SEEDED)):
        meta = json.load(open(os.path.join(SEEDED, sid, 'meta.json')))
        r = known.get(sid)
        rows.append('| %s | %s | %s | %s |' % (
            sid, meta['property'], meta['needs'].replace('|', '/'),
            'not run' if r is None else r['by'] if r['rc'] == 1 else '**missed**'))
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    text = re.sub(r'(<!-- planted -->\n).*(<!-- /planted -->)',
                  lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), text, flags=re.S)
    open(path, 'w').write(text)


main(sys.argv[1:])
