"""One worker process of a check: python -m larchmon.worker JOB.json"""
import collections
import json
import os
import resource
import sys
import time
import traceback


def limit():
    gb = 1 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 * gb, 6 * gb))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)


def main(path):
    job = json.load(open(path))
    limit()
    from .checks import CHECKS
    from .monbase import sig
    from .parts import rng_for
    check = CHECKS[job['property']]
    tier, seed, w, n = job['tier'], job['seed'], job['worker'], job['workers']
    deadline = time.monotonic() + job['seconds']
    res = {'parts': {}, 'violation': None, 'error': None}

    def dump():
        tmp = job['out'] + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(res, f)
        os.replace(tmp, job['out'])

    # take the parts in turns, so that a time limit cuts all of them evenly
    plan = []
    for part, quick, thorough in check.parts:
        total = quick if tier == 'quick' else thorough
        total = int(total * job.get('scale', 1)) or 1
        ks = list(range(w, total, n))
        res['parts'][part.name] = {
            'planned': len(ks), 'run': 0, 'nontrivial': [], 'counts': {},
            'states': [], 'steps': 0, 'skipped': 0, 'diverged': 0,
            'refused': 0, 'slowest': 0, 'samples': []}
        plan += [((j + .5) / len(ks), part, k) for j, k in enumerate(ks)] if ks else []
    plan.sort(key=lambda x: x[0])
    counts = {p.name: collections.Counter() for p, _, _ in check.parts}
    states = {p.name: set() for p, _, _ in check.parts}
    nontriv = {p.name: set() for p, _, _ in check.parts}
    try:
        for _, part, k in plan:
            if time.monotonic() > deadline:
                break
            case = json.loads(json.dumps(part.case(rng_for(seed, part.name, k), tier)))
            with open(job['journal'], 'w') as f:
                json.dump({'part': part.name, 'case': case}, f)
            t = time.monotonic()
            run = part.execute(case)
            t = time.monotonic() - t
            p = res['parts'][part.name]
            p['run'] += 1
            p['slowest'] = max(p['slowest'], t)
            p['steps'] += run.steps
            p['skipped'] += run.skipped
            p['refused'] += run.refused
            p['diverged'] += bool(run.diverged)
            counts[part.name].update(run.count)
            if len(states[part.name]) < 300000:
                states[part.name] |= run.states
            if part.nontrivial(run):
                nontriv[part.name].add(sig(case))
                if len(p['samples']) < 1:
                    p['samples'].append(case)
            if run.found:
                found = run.found
                small, f2 = part.shrink(case, found.kind)
                found = f2 or found
                res['violation'] = {'part': part.name, 'case': small, 'kind': found.kind,
                                    'detail': found.detail, 'original': case}
                break
    except BaseException:
        res['error'] = traceback.format_exc()
    for name, p in res['parts'].items():
        p['counts'] = dict(counts[name])
        p['states'] = sorted(states[name])
        p['nontrivial'] = sorted(nontriv[name])
    dump()
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1])
