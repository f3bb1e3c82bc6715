"""python3-vt -m pyvc.replay_one evidence/replay/Cxx.json: repeats the recorded
violation against the current /repo and prints what the contract says."""
import json
import sys

from . import contract as K, replay
from .check import load_specs
from .source import Repo


def main():
    j = json.load(open(sys.argv[1]))
    v = j.get('violation')
    if not v:
        print('no failing input recorded; failed obligations:')
        for o in j['failed_obligations']:
            print('  %s | %s' % (o['function'], o['obligation']))
        return 1
    load_specs()
    K.init_records(Repo())
    w = replay.Worker()
    try:
        if 'driver' in v:
            r = w.call({'driver': v['module'], 'case': v['args']}, timeout=60)
            bad = r.get('bad', [['worker', r]])
        else:
            con = [c for c in K.REG.all if c.key == v['key'] and c.variant == v['variant']][0]
            out = w.call({'key': con.key, 'args': v['args']})
            bad = replay.judge(con, v['args'], out)
    finally:
        w.stop()
    for b in bad:
        print('violated: %s: %s' % tuple(b))
    print('%d clauses violated' % len(bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
