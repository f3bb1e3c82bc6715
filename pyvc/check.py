"""Deciding one property: python3-vt -m pyvc.check C01 [--tier thorough]

exit 0  every obligation generated from the current source is discharged (and
        the run-time cross-check found nothing)
exit 1  VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2  the check itself could not run"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVIDENCE = os.environ.get('PYVC_EVIDENCE') or os.path.join(ROOT, 'evidence')
sys.path.insert(0, ROOT)

import specs                                                      # noqa: E402
from pyvc import contract as K, lemmas, replay, solve, verify      # noqa: E402
from pyvc.source import Repo                                      # noqa: E402

SKIP = 'not executed'
ALWAYS = ['machine floats are treated as real numbers (NaN kept as a separate flag); integers are mathematical',
          'numba-compiled functions behave as the same text interpreted by Python',
          'numpy operations behave as modelled in pyvc/npmodel.py (cross-checked at run time on sampled inputs)',
          'array parameters of one call do not alias each other (except row 0/1/2 views of records as declared)',
          'while loops: partial correctness (termination is not proved)',
          'the verifier itself (pyvc) and the solvers z3, cvc5']


class LemmaProof:
    con = None
    unsupported = None
    missing = False
    gen_s = 0.0
    paths = 1

    def __init__(self, name, obls, raw=False):
        self.name, self.obls, self.raw = name, obls, raw
        self.used, self.natives, self.inlined, self.lemmas = set(), set(), set(), set()
        self.id = name


class MathObl:
    kind, func, line = 'lemma', 'specification', 0

    def __init__(self, name, hyps, goal):
        self.name, self._h, self.goal = name, hyps, goal

    def hyps(self):
        return self._h


def load_specs():
    for m in specs.MODULES:
        importlib.import_module('specs.' + m)
    from specs.common import PROPS
    return PROPS


def contracts_of(keys):
    out = []
    for k in keys:
        cs = K.REG.by_key.get(k, []) or [c for c in K.REG.all if c.id == k]
        if not cs:
            raise SystemExit('no contract for %s' % k)
        out += [c for c in cs if c not in out]
    return out


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prop = load_specs()[pid]
        self.repo = Repo()
        K.init_records(self.repo)
        self.t0 = time.time()
        self.limit = 780 if tier == 'quick' else 3000
        self.budget = 10.0 if tier == 'quick' else 30.0
        self.log = []

    # ---------------------------------------------------------- obligations
    def collect(self, disabled):
        K.REG.disabled = set(disabled)
        own = contracts_of(self.prop['keys'])
        proofs, todo, seen = [], list(own), set()
        while todo:
            c = todo.pop(0)
            if c.id in seen or (c.id in disabled and c not in own):
                continue
            seen.add(c.id)
            if c.assumed:
                continue
            p = self.cache.get(c.id)
            if p is None or p.used_ids & set(disabled):
                p = verify.FnProof(c, self.repo, K.REG)
                p.id = c.id
                p.generate()
                p.used_ids = set(x.id for x in K.REG.all if (x.key, x.variant) in p.used)
                p.results = None
                self.cache[c.id] = p
            p.own = c in own
            proofs.append(p)
            for x in K.REG.all:
                if x.id in p.used_ids and x.id not in seen:
                    todo.append(x)
        return proofs

    def extra(self, proofs):
        out = []
        for nm, fn in self.prop['lemmas']:
            h, g = fn()
            out.append(LemmaProof('lemma: ' + nm, [MathObl(nm, h, g)]))
        for l in sorted(set(l for p in proofs for l in p.lemmas) | ({'sums'} if proofs else set())):
            out.append(LemmaProof('loop rule: ' + l, lemmas.LEMMAS[l]()))
        for p in out:
            p.own = True
            p.results = None
        return out

    def discharge(self, proofs):
        """two rounds; between them the real code is searched for an input
        that violates a property contract one of whose obligations is open"""
        jobs = [(p, i) for p in proofs if p.results is None for i in range(len(p.obls))]
        for p in proofs:
            if p.results is None:
                p.results = [None] * len(p.obls)
        deadline = self.t0 + self.limit * 0.75
        for rnd, b in enumerate((self.budget, self.budget * 3)):
            if rnd == 1 and not self.early:
                if any(self.failed(p) for p in proofs):
                    self.early_search([p for p in proofs if p.con is not None])
                if self.violation is not None:
                    return
            if not jobs:
                break
            rs = verify.discharge(jobs, budget=b, hard=b * 8 + 20, deadline=deadline)
            again = []
            for (p, i), r in zip(jobs, rs):
                old = p.results[i]
                if old is not None:
                    r['time'] += old['time']
                    r['args'] = r['args'] or old['args']
                p.results[i] = r
                if r['status'] == 'unknown' and (p.own or rnd == 0):
                    again.append((p, i))
            jobs = again if len(again) <= 16 else []

    early = False
    violation = None

    def early_search(self, proofs):
        self.early = True
        bad = set(p.id for p in proofs if self.failed(p))

        def touched(p, seen):
            if p.id in bad:
                return True
            seen.add(p.id)
            return any(q.id in p.used_ids and q.id not in seen and touched(q, seen) for q in proofs)
        own = [p for p in proofs if p.own and touched(p, set())]
        todo = [p for p in own if p.con.search is not False]
        if len(own) > len(todo) or own and not todo:
            self.early_drivers()
            if self.violation is not None:
                return
        if not todo:
            return
        todo.sort(key=lambda p: p.id not in bad)
        w = replay.Worker()
        try:
            for p in todo:
                first = [r['args'] for r in p.results if r['args']]
                v, st = replay.search(p.con, w, self.seed, max(6, min(15, 60 / len(todo))), 20000, first=first)
                self.searches['early: ' + p.id] = {k: x for k, x in st.items() if k != 'sample'}
                if v is not None:
                    v['obligation'] = v['bad'][0][0]
                    if self.known(p.id, v):
                        continue
                    self.violation = v
                    return
        finally:
            w.stop()

    def early_drivers(self):
        """the property's bounded run-time contracts, for functions whose
        arguments cannot be generated"""
        for nm, drv in self.prop.get('drivers', ()):
            w = replay.Worker()
            try:
                v, st = drv(w, self.seed, 20, self.tier, True)
            finally:
                w.stop()
            self.searches['driver: ' + nm] = {k: x for k, x in st.items() if k != 'sample'}
            if v is not None:
                v['driver'] = nm
                if not self.known(nm, v):
                    self.violation = v
                    return

    def run(self):
        self.cache = {}
        self.searches = {}
        disabled = set()
        while True:
            proofs = self.collect(disabled)
            every = proofs + self.extra(proofs)
            self.discharge(every)
            bad = [p for p in proofs if not p.own and self.failed(p)]
            if self.violation is not None or not bad or time.time() - self.t0 > self.limit * 0.6:
                break
            # a helper whose own contract no longer holds: its body is used
            # instead, so that only the property itself is judged
            for p in bad:
                self.log.append('contract of helper %s does not hold any more; callers use its body' % p.id)
                disabled.add(p.id)
        self.proofs, self.every, self.disabled = proofs, every, disabled
        return self.conclude()

    @staticmethod
    def failed(p):
        return p.unsupported or any(r['status'] != 'proved' for r in p.results)

    # --------------------------------------------------------- run-time part
    def conclude(self):
        pid = self.pid
        total = sum(len(p.obls) for p in self.every)
        done = sum(1 for p in self.every for r in p.results if r['status'] == 'proved')
        quick = self.tier == 'quick'
        failing = [p for p in self.every if self.failed(p)]
        violation = self.violation
        searches = self.searches
        w = replay.Worker()
        sample = None
        try:
            order = [] if violation is not None else sorted([p for p in self.proofs], key=lambda p: (not self.failed(p), not p.own))
            for p in order:
                bad = self.failed(p)
                if p.con.search is False:
                    continue
                if not p.own and not bad:
                    continue
                left = self.limit - (time.time() - self.t0)
                sec = min(left - 20, (60 if quick else 240) if bad else (6 if quick else 60))
                runs = (20000 if bad else 60) if quick else (200000 if bad else 3000)
                first = [r['args'] for r in p.results if r['args']]
                v, st = replay.search(p.con, w, self.seed, max(2, sec), runs, first=first)
                searches[p.id] = {k: x for k, x in st.items() if k != 'sample'}
                sample = sample or (st.get('sample') and {'function': p.id, 'args': st['sample']})
                if v is None and st['runs'] == 0 and not bad:
                    return self.broken('no admissible input found for %s: %s (vacuous precondition?)' % (p.id, st))
                if v is not None and p.own:
                    v['obligation'] = v['bad'][0][0]
                    if self.known(p.id, v):
                        continue
                    violation = v
                    break
            for nm, drv in self.prop.get('drivers', ()):
                if violation is not None:
                    break
                left = self.limit - (time.time() - self.t0)
                bad = bool(failing)
                full = bad or self.prop['level'] != 'proof'
                sec = min(left - 20, (60 if quick else 240) if bad else (25 if full and quick else 10 if quick else 600 if full else 60))
                v, st = drv(w, self.seed, max(2, sec), self.tier, bad)
                searches['driver: ' + nm] = {k: x for k, x in st.items() if k != 'sample'}
                sample = sample or (st.get('sample') and {'driver': nm, 'args': st['sample']})
                if v is not None:
                    v['driver'] = nm
                    if self.known(nm, v):
                        continue
                    violation = v
        finally:
            w.stop()
        hard = []      # undischarged own obligations
        bounded = []
        for p in self.every:
            if not p.own and p.id in self.disabled:
                continue
            if p.unsupported:
                bounded.append('%s: %s' % (p.id, p.unsupported))
                continue
            for o, r in zip(p.obls, p.results):
                if r['status'] != 'proved':
                    hard.append((p, o, r))
        code, lines = 0, []
        if total == 0 and not bounded and self.prop['level'] == 'proof':
            return self.broken('no obligations generated')
        if violation is not None:
            path = self.write_replay(violation, hard, bounded)
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
            code = 1
        elif hard:
            path = self.write_replay(None, hard, bounded)
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
            code = 1
        self.write_evidence(total, done, searches, sample, bounded, hard, code)
        for nm, st in searches.items():
            if nm.startswith('driver: '):
                print('bounded run-time contract check %s: %d cases, %d distinct non-trivial%s' % (
                    nm[8:], st['runs'], st['distinct'], ', all' if st.get('exhausted') else ''))
                if st.get('skipped') and st['skipped'][0]:
                    print('note: %s: cases skipped, no stand-in for %s' % (nm[8:], st['skipped'][1:]))
        for p in self.every:
            for o, r in zip(p.obls, p.results):
                if r['status'] != 'proved':
                    print('undischarged: %s | %s (%s) %s' % (p.id, o.name, o.kind, r['note']))
        for b in bounded:
            print('bounded stand-in (outside the verifier\'s subset): %s' % b)
        for l in self.log:
            print('note: ' + l)
        for l in self.known_lines:
            print(l)
        print('%s: %d/%d obligations of %d functions discharged, %.1f s' % (
            pid, done, total, len(self.proofs), time.time() - self.t0))
        for l in lines:
            print(l)
        return code

    def broken(self, msg):
        print('ERROR: ' + msg)
        self.write_evidence(0, 0, {}, None, [msg], [], 2)
        return 2

    known_lines = []

    def known(self, where, v):
        """listed findings: 'finding: property=<id> at=<where> obligation=<name> [input=<json text>] <what>'"""
        f = os.path.join(ROOT, 'known-findings.txt')
        if not os.path.exists(f):
            return False
        for l in open(f):
            if not l.startswith('finding: '):
                continue
            try:
                d = json.loads(l[len('finding: '):])
            except ValueError:
                continue
            if d['property'] == self.pid and d['at'] == where and d['obligation'] == v.get('obligation') and \
                    ('input' not in d or d['input'] == v.get('args')):
                self.known_lines = self.known_lines + ['KNOWN-FINDING: property=%s %s' % (self.pid, d['what'])]
                return True
        return False

    def write_replay(self, v, hard, bounded):
        d = os.path.join(EVIDENCE, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.pid + '.json')
        j = {'property': self.pid, 'bounded': bounded,
             'failed_obligations': [{'function': p.id, 'obligation': o.name, 'kind': o.kind, 'line': o.line,
                                     'verifier': r['status'], 'back_end': r['backend'], 'seconds': r['time'],
                                     'note': r['note'], 'counterexample': r['args']} for p, o, r in hard]}
        if v is not None:
            j['violation'] = v
            j['how_to_replay'] = 'python3-vt -m pyvc.replay_one ' + path
        with open(path, 'w') as f:
            json.dump(j, f, indent=1, default=str)
        return path

    def write_evidence(self, total, done, searches, sample, bounded, hard, code):
        os.makedirs(EVIDENCE, exist_ok=True)
        ps = getattr(self, 'every', [])
        be = {}
        secs = 0.0
        for p in ps:
            for r in p.results or []:
                secs += r['time']
                if r['status'] == 'proved':
                    be[r['backend']] = be.get(r['backend'], 0) + 1
        natives = sorted(set(n for p in ps for n in p.natives))
        fns = getattr(self, 'proofs', [])
        assumed = sorted(c.id for c in K.REG.all if c.assumed and any(c.id in p.used_ids for p in fns))
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.prop['level'],
              'coverage': {
                  'obligations': total, 'discharged': done,
                  'checker_cmd': './check %s' % self.pid,
                  'trusted_base': ['pyvc verification-condition generator and numpy model', 'z3', 'cvc5'] +
                                  ['modelled library function: ' + n for n in natives] +
                                  ['assumed contract: ' + a for a in assumed],
                  'functions_under_contract': {p.id: {'obligations': len(p.obls), 'discharged': sum(
                      r['status'] == 'proved' for r in p.results or []), 'paths': p.paths,
                      'generation_s': round(p.gen_s, 3),
                      'role': 'stated by the property' if p.own else 'helper'} for p in fns},
                  'lemmas': [p.id for p in ps if p not in fns],
                  'inlined_functions': sorted(set(str(n) for p in ps for n in p.inlined)),
                  'discharged_by': be, 'solver_s': round(secs, 2),
                  'bounded_stand_in': bounded,
                  'undischarged': ['%s | %s' % (p.id, o.name) for p, o, r in hard],
                  'helpers_replaced_by_their_body': sorted(getattr(self, 'disabled', [])),
                  'runtime_cross_check': {'explanation': 'real functions executed on seeded inputs, outcome judged with '
                                          'the same contract text; not counted as proof', 'per_function': searches},
                  'samples': [sample] if sample else [],
                  'evaluations': sum(s.get('runs', 0) for s in searches.values()),
                  'distinct_nontrivial': sum(s.get('distinct') or 0 for s in searches.values()),
                  'rule': ' '.join(s['rule'] for s in searches.values() if s.get('rule')) or
                          'seeded inputs of the declared parameter types that satisfy the precondition; distinct by value',
                  'exit': code},
              'assumptions': (ALWAYS if self.prop['level'] == 'proof' else [
                  'bounded: only the counted cases were executed; packages missing here are replaced by stand-ins (stubs/)'])
              + list(self.prop.get('assume', ())),
              'wall_s': round(time.time() - self.t0, 2), 'violations': 1 if code == 1 else 0}
        with open(os.path.join(EVIDENCE, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('property')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    x = a.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        code = Check(x.property, x.tier if x.tier in ('quick', 'thorough') else 'quick', seed).run()
    except Exception:
        traceback.print_exc(file=sys.stdout)
        code = 2
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
