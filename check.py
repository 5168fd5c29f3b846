#!/usr/bin/env python3
"""Run the check of one property:  check.py C05
Replay a violation:               check.py --replay out/C05/replay-....json

VERIF_SEED and VERIF_TIER (quick, thorough) come from the environment."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get('LARCHMON_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('LARCHMON_REPO', '/repo')
WORKERS = int(os.environ.get('LARCHMON_WORKERS', '8'))
CAP = {'quick': 420, 'thorough': 780}


def child_env(hashseed, display):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
               GTK_A11Y='none', NO_AT_BRIDGE='1', GIO_USE_VFS='local',
               GSETTINGS_BACKEND='memory', GDK_BACKEND='x11', LARCHMON_REPO=REPO,
               LC_ALL='C.UTF-8', PYTHONIOENCODING='utf-8:replace',
               MALLOC_PERTURB_='165')
    env.pop('DISPLAY', None)
    env.pop('PYTHONPATH', None)
    if display:
        env['DISPLAY'] = display
    return env


class Display(object):
    """A private X server."""

    def __init__(self, wanted):
        self.proc = None
        self.name = None
        if not wanted:
            return
        r, w = os.pipe()
        self.proc = subprocess.Popen(
            ['Xvfb', '-displayfd', str(w), '-screen', '0', '640x480x24',
             '-nolisten', 'tcp'], pass_fds=(w,), stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
        os.close(w)
        num = b''
        while not num.endswith(b'\n'):
            got = os.read(r, 20)
            if not got:
                raise RuntimeError('no X server')
            num += got
        os.close(r)
        self.name = ':' + num.decode().strip()

    def close(self):
        if self.proc:
            self.proc.terminate()
            self.proc.wait()


def hash_seed(seed, worker):
    return 0 if worker == 0 else (seed * 7919 + worker) % 4294967295


def run_one(prop, part, case, hashseed, display, kind=None, seconds=300):
    """Execute one case in a fresh process: (status, found)"""
    with tempfile.TemporaryDirectory(prefix='larchmon-') as tmp:
        job = os.path.join(tmp, 'job.json')
        out = os.path.join(tmp, 'out.json')
        json.dump({'property': prop, 'part': part, 'case': case, 'out': out},
                  open(job, 'w'))
        p = subprocess.Popen([PYTHON, '-u', '-m', 'larchmon.single', job], cwd=HERE,
                             env=child_env(hashseed, display), start_new_session=True,
                             stdin=subprocess.DEVNULL)
        try:
            rc = p.wait(seconds)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return 'timeout', None
        if os.path.exists(out):
            return 'done', json.load(open(out))
        return 'died', {'kind': 'process-died', 'detail': 'the process ended with status %d' % rc,
                        'rc': rc}


def replay(path):
    rep = json.load(open(path))
    display = Display(rep.get('display'))
    try:
        status, found = run_one(rep['property'], rep['part'], rep['case'],
                                rep['hashseed'], display.name)
    finally:
        display.close()
    print('%s: %s' % (status, json.dumps(found, indent=1)))
    return 1 if found and found.get('kind') else 0


def report(prop, rep):
    folder = os.path.join(HERE, 'out', prop)
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, 'replay-%s-%d.json' % (rep['kind'], os.getpid()))
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
    print('property %s, part %s, %s' % (prop, rep['part'], rep['kind']))
    print('  ' + rep['detail'])
    for op in rep['case'].get('ops', [])[:60]:
        print('    %s' % json.dumps(op))
    print('replay with: python3 %s --replay %s' % (os.path.join(HERE, 'check.py'), path))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()


def main(prop):
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    info = json.loads(subprocess.check_output(
        [PYTHON, '-m', 'larchmon.describe', prop], cwd=HERE,
        env=child_env(0, None), stdin=subprocess.DEVNULL))
    cap = float(os.environ.get('LARCHMON_SECONDS', CAP[tier]))
    display = Display(info['display'])
    tmp = tempfile.mkdtemp(prefix='larchmon-')
    procs = []
    violation = None
    errors = []
    results = []
    try:
        for w in range(WORKERS):
            job = {'property': prop, 'tier': tier, 'seed': seed, 'worker': w,
                   'workers': WORKERS, 'seconds': cap,
                   'scale': float(os.environ.get('LARCHMON_SCALE', '1')),
                   'out': os.path.join(tmp, 'out%d.json' % w),
                   'journal': os.path.join(tmp, 'journal%d.json' % w)}
            path = os.path.join(tmp, 'job%d.json' % w)
            json.dump(job, open(path, 'w'))
            log = open(os.path.join(tmp, 'log%d' % w), 'wb')
            p = subprocess.Popen([PYTHON, '-u', '-m', 'larchmon.worker', path], cwd=HERE,
                                 env=child_env(hash_seed(seed, w), display.name),
                                 stdout=log, stderr=log, stdin=subprocess.DEVNULL,
                                 start_new_session=True)
            procs.append((w, p, job))
        open_ = list(procs)
        while open_ and violation is None:
            time.sleep(0.05)
            for w, p, job in list(open_):
                if p.poll() is None:
                    if time.monotonic() - t0 > cap + 100:
                        errors.append('worker %d did not stop' % w)
                        open_.remove((w, p, job))
                    continue
                open_.remove((w, p, job))
                res = None
                if os.path.exists(job['out']):
                    res = json.load(open(job['out']))
                    results.append(res)
                    if res['violation']:
                        violation = dict(res['violation'], hashseed=hash_seed(seed, w))
                    if res['error']:
                        errors.append(res['error'])
                else:
                    v = died(prop, info, job, w, p.returncode, seed, display.name)
                    if isinstance(v, dict):
                        violation = v
                    else:
                        tail = open(os.path.join(tmp, 'log%d' % w), 'rb').read()[-1500:]
                        errors.append('%s\n%s' % (v, tail.decode('utf-8', 'replace')))
    finally:
        for w, p, job in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        display.close()
        shutil.rmtree(tmp, ignore_errors=True)
    missing = write_evidence(prop, tier, seed, info, results, violation, time.monotonic() - t0)
    if violation:
        violation.update(property=prop, display=info['display'], seed=seed, tier=tier)
        report(prop, violation)
        return 1
    if errors:
        print('check %s: error of the check\n%s' % (prop, errors[0]))
        return 2
    if missing:
        print('check %s: inconclusive, never observed: %s' % (prop, ', '.join(missing)))
        return 3
    return 0


def died(prop, info, job, w, rc, seed, display):
    """A worker ended without a result: did the code under test kill it?"""
    if rc == -signal.SIGKILL or not os.path.exists(job['journal']):
        return 'worker %d ended with status %s' % (w, rc)
    try:
        j = json.load(open(job['journal']))
    except ValueError:
        return 'worker %d ended with status %s' % (w, rc)
    for _ in range(2):
        status, found = run_one(prop, j['part'], j['case'], hash_seed(seed, w), display)
        if status == 'died' and found['rc'] == rc and rc < 0:
            continue
        if status == 'done' and found.get('kind'):
            return dict(j, kind=found['kind'], detail=found['detail'],
                        hashseed=hash_seed(seed, w))
        return 'worker %d ended with status %s, not reproduced' % (w, rc)
    return dict(j, kind='process-died', detail='the process dies with signal %d' % -rc,
                hashseed=hash_seed(seed, w))


def write_evidence(prop, tier, seed, info, results, violation, wall):
    parts = {}
    nontriv = {}
    states = {}
    for res in results:
        for name, p in res['parts'].items():
            q = parts.setdefault(name, {'planned': 0, 'cases': 0, 'requests': 0, 'skipped': 0,
                                        'refused': 0, 'left_open': 0, 'events': {}})
            q['planned'] += p['planned']
            q['cases'] += p['run']
            q['requests'] += p['steps']
            q['skipped'] += p['skipped']
            q['refused'] += p['refused']
            q['slowest_case_s'] = round(max(q.get('slowest_case_s', 0), p['slowest']), 2)
            q['left_open'] += p['diverged']
            for k, v in p['counts'].items():
                q['events'][k] = q['events'].get(k, 0) + v
            nontriv.setdefault(name, set()).update(p['nontrivial'])
            states.setdefault(name, set()).update(p['states'])
    for name, q in parts.items():
        q['distinct_nontrivial'] = len(nontriv[name])
        q['distinct_states'] = len(states[name])
        q['events'] = dict(sorted(q['events'].items()))
        if not q['left_open']:
            del q['left_open']
    samples = []
    for name in parts:
        for res in results:
            s = res['parts'][name]['samples']
            if s:
                samples.append({'part': name, 'case': s[0]})
                break
    missing = ['%s/%s' % (n, k) for n, ks in info['need'].items() for k in ks
               if not parts.get(n, {}).get('events', {}).get(k)]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {
              'evaluations': sum(q['cases'] for q in parts.values()),
              'distinct_nontrivial': sum(q['distinct_nontrivial'] for q in parts.values()),
              'rule': info['rule'], 'samples': samples, 'parts': parts,
              'distinct_states': sum(q['distinct_states'] for q in parts.values()),
              'hash_seeds': len(results), 'never_observed': missing},
          'assumptions': info['assumptions'], 'wall_s': round(wall, 2),
          'violations': 1 if violation else 0}
    folder = os.path.join(HERE, 'evidence')
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return missing


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    try:
        code = main(sys.argv[1])
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
