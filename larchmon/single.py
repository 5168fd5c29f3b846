"""Execute one case in this process: python -m larchmon.single JOB.json"""
import json
import os
import sys

from .worker import limit


def main(path):
    job = json.load(open(path))
    limit()
    from .checks import CHECKS
    for part, _, _ in CHECKS[job['property']].parts:
        if part.name == job['part']:
            break
    else:
        raise SystemExit('no such part')
    for _ in range(part.tries):
        run = part.execute(job['case'])
        if run.found:
            break
    res = {}
    if run.found:
        res = {'kind': run.found.kind, 'detail': run.found.detail, 'step': run.found.step}
    with open(job['out'] + '.tmp', 'w') as f:
        json.dump(res, f)
    os.replace(job['out'] + '.tmp', job['out'])
    os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1])
