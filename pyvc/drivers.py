"""Worker side of the bounded run-time contract checks (rt/*.py)."""
import importlib
import itertools
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from _fake import Meta, StandInMissing                            # noqa: E402

CASE_SECONDS = 10
SKIPPED = []


class Timeout(BaseException):
    pass


def alarm(*_):
    raise Timeout()


def one(mod, case):
    """violated clauses of one case"""
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    Meta.strict = True
    try:
        return [list(b) for b in mod.run(case)]
    except StandInMissing as e:
        SKIPPED.append(str(e))
        return []
    except Timeout:
        return [['terminates', 'no result within %d s' % CASE_SECONDS]]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/rt/' not in f.filename and 'drivers.py' not in f.filename]
        last = '%s:%s' % (os.path.basename(where[-1].filename), where[-1].name) if where else 'driver'
        return [['no %s is raised' % type(e).__name__, '%s in %s; %s' % (str(e)[:300], last, ' < '.join(
            '%s:%d' % (f.name, f.lineno) for f in tb[-6:]))]]
    finally:
        Meta.strict = False
        signal.setitimer(signal.ITIMER_REAL, 0)


def run(job):
    mod = importlib.import_module('rt.' + job['driver'])
    if 'case' in job:
        return {'bad': one(mod, job['case'])}
    rng = random.Random(job['seed'])
    t0 = time.time()
    seen = set()
    runs = 0
    sample = None
    exhausted = True
    for case in mod.cases(rng, job['tier']):
        if time.time() - t0 > job['seconds'] or runs >= job.get('max', 10 ** 9):
            exhausted = False
            break
        case = json.loads(json.dumps(case))
        n = len(SKIPPED)
        bad = one(mod, case)
        if len(SKIPPED) > n:
            continue
        runs += 1
        if mod.nontrivial(case):
            seen.add(json.dumps(case, sort_keys=True))
            sample = sample or case
        if bad:
            return {'violation': {'case': case, 'bad': bad}, 'runs': runs, 'distinct': len(seen), 'sample': case,
                    'skipped': SKIPPED[:3]}
    return {'violation': None, 'runs': runs, 'distinct': len(seen), 'sample': sample, 'exhausted': exhausted,
            'rule': mod.RULE, 'skipped': [len(SKIPPED)] + SKIPPED[:3]}
