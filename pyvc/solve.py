"""Discharging obligations: skolemisation, instantiation, theory axioms for the
transcendental functions, and a portfolio of z3 (smt), z3 (nlsat) and cvc5."""
import os
import subprocess
import tempfile
import time

import z3

from . import core as C
from . import sweep
from .core import SBool, SInt, SReal, Q

_ctr = [0]


def fresh(sort, base='sk'):
    _ctr[0] += 1
    return z3.Const('%s!%d' % (base, _ctr[0]), sort)


_probes = {}


def _body_symbols(f, depth=0):
    """z3 terms of a formula with its quantified variables replaced by probes"""
    if isinstance(f, bool):
        return []
    if isinstance(f, Q):
        if f.op in ('forall', 'exists'):
            k = _probes.setdefault((f.sort, depth), z3.Const('!pr%d%s' % (depth, f.sort[0]),
                                                             z3.IntSort() if f.sort == 'int' else z3.RealSort()))
            out = [C.lift(b).z for b in (f.lo, f.hi) if b is not None]
            return out + _body_symbols(lift_formula(f.fn(SInt(k) if f.sort == 'int' else SReal(k))), depth + 1)
        return [z for a in f.args for z in _body_symbols(a, depth)]
    return [f.z]


def patterns(f):
    """places (function, argument, offset, fixed other arguments) where the variable of f occurs"""
    if f.sort != 'int':
        return ()
    k = z3.Int('!probe')
    out = set()
    bound = {}

    def open_(e):
        r = bound.get(e.get_id())
        if r is None:
            r = bound[e.get_id()] = (e.decl().name().startswith(('!pr', '!probe')) if not e.num_args() else
                                     any(open_(x) for x in e.children())) if z3.is_app(e) else True
        return r
    for e in apps_of(_body_symbols(lift_formula(f.fn(SInt(k))))).values():
        for c, a in enumerate(e.children()):
            fixed = tuple((i, x.get_id(), x) for i, x in enumerate(e.children()) if i != c and not open_(x))
            if a.eq(k):
                out.add((e.decl().name(), c, 0, fixed))
            elif z3.is_add(a) and a.num_args() == 2:
                x, y = a.children()
                if y.eq(k):
                    x, y = y, x
                if x.eq(k) and z3.is_int_value(y):
                    out.add((e.decl().name(), c, y.as_long(), fixed))
    return out


_syms = {}


def _fresh_symbols(f):
    r = _syms.get(id(f))
    if r is None or r[0] is not f:
        zs = _body_symbols(lift_formula(f))
        r = _syms[id(f)] = (f, frozenset(e.decl().name() for e in apps_of(zs).values() if '!' in e.decl().name()
                                         and not e.decl().name().startswith('!pr')))
    return r[1]


def relevant(hyps, goal):
    """hypotheses connected to the goal or to the conditions that hold outright
    through the symbols introduced during execution"""
    todo = [(h, _fresh_symbols(h)) for h in hyps]
    names = set(_fresh_symbols(goal))
    for h, s in todo:
        if not isinstance(h, Q):
            names |= s
    while True:
        more = [(h, s) for h, s in todo if s and s & names]
        if not more:
            break
        todo = [(h, s) for h, s in todo if not (s and s & names)]
        for h, s in more:
            names |= s
    drop = set(id(h) for h, s in todo if s)
    return [h for h in hyps if id(h) not in drop]


def ends(f):
    """the first and the last index of a quantifier that mentions its variable nowhere
    but in interpreted terms"""
    if f.lo is None or f.hi is None:
        return []
    lo, hi = C.lift(f.lo).z, C.lift(f.hi).z
    return [lo, z3.simplify(hi - 1)]


class Query:
    """Ground hypotheses + universals, refutation style."""

    def __init__(self, matching=False):
        self.matching = matching
        self.ground = []
        self.seen = set()
        self.univ = []
        self.hint_terms = []
        self.done = set()
        self.n = 0
        self.sumdone = set()
        self.pats = {}
        self.strict = False  # match the other arguments of the application too
        self.still = False  # a round of instantiation produced nothing new

    def add(self, f):
        for z in self._nnf(f, True):
            self._push(z)

    def _push(self, z):
        z = z3.simplify(z) if False else z
        i = z.get_id()
        if i in self.seen:
            return
        self.seen.add(i)
        self.ground.append(z)

    def _nnf(self, f, pos):
        """list of z3 conjuncts"""
        if isinstance(f, bool):
            f = SBool(f)
        if isinstance(f, SBool):
            z = f.z if pos else C.znot(f.z)
            if z3.is_and(z):
                return list(z.children())
            if not pos and z3.is_not(z) and z3.is_or(z.arg(0)):
                return [C.znot(c) for c in z.arg(0).children()]
            return [z]
        op = f.op
        if op == 'not':
            return self._nnf(f.args[0], not pos)
        if op in ('and', 'or'):
            conj = (op == 'and') == pos
            if conj:
                out = []
                for a in f.args:
                    out += self._nnf(a, pos)
                return out
            parts = [C.zand(*self._nnf(a, pos)) for a in f.args]
            return [C.zor(*parts)]
        # quantifiers
        univ = (op == 'forall') == pos
        if not univ:
            k = fresh(z3.IntSort() if f.sort == 'int' else z3.RealSort())
            kv = SInt(k) if f.sort == 'int' else SReal(k)
            rng = self._range(f, k)
            body = self._nnf(C.lift_formula(f.fn(kv)), pos)
            return rng + body
        p = fresh(z3.BoolSort(), 'uni')
        self.univ.append((p, f, pos))
        if self.matching:
            self.pats[p.get_id()] = patterns(f)
        return [p]

    def _range(self, f, k):
        if f.sort != 'int':
            return []
        out = []
        if f.lo is not None:
            out.append(C.lift(f.lo).z <= k)
        if f.hi is not None:
            out.append(k < C.lift(f.hi).z)
        return out

    def instantiate(self, rounds=3, cap=600):
        done = self.done
        for _ in range(rounds):
            terms, reals = self._candidates()
            index = self._index() if self.matching else None
            new = False
            for p, f, pos in list(self.univ):
                cands = terms + ends(f) if f.sort == 'int' else reals
                if f.sort == 'int' and self.pats.get(p.get_id()):
                    cands = self._matches(self.pats[p.get_id()], index)
                for t in cands:
                    key = (p.get_id(), t.get_id())
                    if key in done:
                        continue
                    done.add(key)
                    self.n += 1
                    if self.n > cap:
                        return False
                    kv = SInt(t) if f.sort == 'int' else SReal(t)
                    rng = C.zand(*self._range(f, t))
                    rng_s = z3.simplify(rng)
                    if z3.is_false(rng_s):
                        continue
                    body = C.zand(*self._nnf(C.lift_formula(f.fn(kv)), pos))
                    if C.is_true(body):
                        continue
                    g = [C.znot(p)]
                    if not z3.is_true(rng_s):
                        g.append(C.znot(rng))
                    self._push(C.zor(*(g + [body])))
                    new = True
            if not new:
                self.still = True
                break
        return True

    def lightly(self):
        """ground facts and what holds for single sums; None without sums"""
        ss = [e for e in apps_of(self.ground).values() if e.decl().name() in C.SUMS.info]
        if not ss:
            return None
        out = list(self.ground)
        for s in ss:
            hi, body = C.sum_parts(s)
            out.append(z3.Implies(hi <= 0, s == 0))
            for t in ss:
                if t.decl().eq(s.decl()) and z3.simplify(t.arg(0) - s.arg(0)).eq(z3.IntVal(1)) and \
                        all(a.eq(b) for a, b in zip(s.children()[1:], t.children()[1:])):
                    out.append(z3.Implies(hi >= 0, t == s + z3.substitute(body, (C.KVAR, hi))))
        return out

    def saturated(self):
        """ground facts after instantiation, including the sum axioms' witnesses"""
        if any(e.decl().name() in C.SUMS.info for e in apps_of(self.ground).values()):
            for _ in range(2):
                ax = sum_axioms(self.ground, self.sumdone)
                if not ax:
                    break
                for x in ax:
                    self._push(x)
                self.instantiate(rounds=2, cap=self.n + 600)
        return list(self.ground)

    def _index(self):
        """(function, argument position) -> the integer terms found there"""
        out = {}
        for e in apps_of(self.ground).values():
            nm = e.decl().name()
            for c, a in enumerate(e.children()):
                if a.sort() == z3.IntSort():
                    out.setdefault((nm, c), []).append((a, e))
        return out

    def _matches(self, pats, index):
        out = {t.get_id(): t for t in self.hint_terms}
        for nm, c, d, fixed in pats:
            for t, e in index.get((nm, c), ()):
                if self.strict and any(e.arg(i).get_id() != z for i, z, _ in fixed):
                    continue
                if d:
                    t = z3.simplify(t - d)
                out[t.get_id()] = t
        return list(out.values())

    def _candidates(self):
        ints, reals = {}, {}
        seen = set()
        stack = list(self.ground) + list(self.hint_terms)
        for t in self.hint_terms:
            ints[t.get_id()] = t
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(e):
                d = e.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    if d.arity() == 0:
                        nm = d.name()
                        if nm.startswith('sk!') or nm.startswith('it!'):
                            if e.sort() == z3.IntSort():
                                ints[i] = e
                            elif e.sort() == z3.RealSort():
                                reals[i] = e
                    else:
                        for a in e.children():
                            if a.sort() == z3.IntSort():
                                ints[a.get_id()] = a
                stack.extend(e.children())
        return list(ints.values()), list(reals.values())


def lift_formula(f):
    if isinstance(f, (SBool, Q)):
        return f
    if isinstance(f, bool):
        return SBool(f)
    if isinstance(f, z3.BoolRef):
        return SBool(f)
    raise TypeError('not a formula: %r' % (f,))


C.lift_formula = lift_formula


def apps_of(fs):
    """all uninterpreted applications (arity >= 0) in the formulas"""
    out, seen, stack = {}, set(), list(fs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[i] = e
            stack.extend(e.children())
    return out


def theory_axioms(fs, rounds=2):
    """axioms for the interpreted functions occurring in fs"""
    axs = []
    done = set()
    work = list(fs)
    for _ in range(rounds + 2):
        new = []
        apps = apps_of(work + axs)
        by = {}
        for e in apps.values():
            by.setdefault(e.decl().name(), []).append(e)
        for e in list(apps.values()):
            nm = e.decl().name()
            if e.get_id() in done:
                continue
            if nm == 'sqrt':
                done.add(e.get_id())
                t = e.arg(0)
                new.append(z3.Implies(t >= 0, z3.And(e >= 0, e * e == t)))
                new.append(z3.Implies(t > 0, e > 0))
                new.append(z3.Implies(t == 0, e == 0))
            elif nm in ('sin', 'cos'):
                done.add(e.get_id())
                t = e.arg(0)
                s, c = C.SIN(t), C.COS(t)
                done.add(s.get_id())
                done.add(c.get_id())
                new.append(s * s + c * c == 1)
                new.append(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
                ts = z3.simplify(t)
                if z3.is_rational_value(ts) and ts.numerator_as_long() == 0:
                    new.append(z3.And(s == 0, c == 1))
                else:
                    new.append(z3.Implies(t == 0, z3.And(s == 0, c == 1)))
            elif nm == 'exp':
                done.add(e.get_id())
                new.append(e > 0)
                new.append(z3.Implies(e.arg(0) == 0, e == 1))
                new.append(z3.Implies(e.arg(0) < 0, e < 1))
                new.append(z3.Implies(e.arg(0) > 0, e > 1))
            elif nm == 'pow':
                done.add(e.get_id())
                a, b = e.arg(0), e.arg(1)
                new.append(z3.Implies(a > 0, e > 0))
                new.append(z3.Implies(z3.And(a > 0, a < 1, b > 0), e < 1))
                new.append(z3.Implies(b == 0, e == 1))
                new.append(z3.Implies(b == 1, e == a))
            elif nm == 'atan2':
                done.add(e.get_id())
                y, x = e.arg(0), e.arg(1)
                r = C.SQRT(x * x + y * y)
                new.append(z3.And(e >= -C.PI, e <= C.PI,
                                  r * C.COS(e) == x, r * C.SIN(e) == y))
            elif nm == 'floor':
                done.add(e.get_id())
                t = e.arg(0)
                new.append(z3.And(z3.ToReal(e) <= t, t < z3.ToReal(e) + 1))
                if z3.is_div(t):
                    num, den = t.arg(0), t.arg(1)
                    if den.eq(C.TWO_PI.z):
                        k2 = C.TWOPIK(e)
                        new.append(z3.And(k2 <= num, num < k2 + C.TWO_PI.z))
                    else:
                        er = z3.ToReal(e)
                        new.append(z3.Implies(den > 0, z3.And(er * den <= num, num < er * den + den)))
            elif nm == 'pi':
                done.add(e.get_id())
                new.append(z3.And(C.PI > z3.RealVal('3.14159265358979'), C.PI < z3.RealVal('3.14159265358980')))
        # two_pi_times: linear facts over all pairs
        ks = by.get('two_pi_times', [])
        for a in ks:
            if ('tp', a.get_id()) not in done:
                done.add(('tp', a.get_id()))
                new.append(z3.Implies(a.arg(0) == 0, a == 0))
                new.append(z3.Implies(a.arg(0) == 1, a == C.TWO_PI.z))
                new.append(z3.Implies(a.arg(0) == -1, a == -C.TWO_PI.z))
                new.append(z3.Implies(a.arg(0) >= 1, a >= C.TWO_PI.z))
                new.append(z3.Implies(a.arg(0) <= -1, a <= -C.TWO_PI.z))
            for b in ks:
                if a.get_id() < b.get_id() and ('tp', a.get_id(), b.get_id()) not in done:
                    done.add(('tp', a.get_id(), b.get_id()))
                    ka, kb = a.arg(0), b.arg(0)
                    new.append(z3.Implies(ka == kb, a == b))
                    new.append(z3.Implies(ka == kb + 1, a == b + C.TWO_PI.z))
                    new.append(z3.Implies(kb == ka + 1, b == a + C.TWO_PI.z))
                    new.append(z3.Implies(ka > kb, a >= b + C.TWO_PI.z))
                    new.append(z3.Implies(kb > ka, b >= a + C.TWO_PI.z))
        # exp monotone pairs
        es = by.get('exp', [])
        for a in es:
            for b in es:
                if a.get_id() < b.get_id() and ('exp', a.get_id(), b.get_id()) not in done:
                    done.add(('exp', a.get_id(), b.get_id()))
                    new.append(z3.Implies(a.arg(0) == b.arg(0), a == b))
                    new.append(z3.Implies(a.arg(0) < b.arg(0), a < b))
                    new.append(z3.Implies(b.arg(0) < a.arg(0), b < a))
        if not new:
            break
        axs += new
    return axs


def sum_axioms(fs, done):
    """facts about the sums in fs; `done` remembers what has been produced"""
    new = []
    ss = [e for e in apps_of(fs).values() if e.decl().name() in C.SUMS.info]
    for s in ss:
        if ('sum', s.get_id()) not in done:
            done.add(('sum', s.get_id()))
            hi, body = C.sum_parts(s)
            new.append(z3.Implies(hi <= 0, s == 0))
            new.append(z3.Implies(hi == 1, s == z3.substitute(body, (C.KVAR, z3.IntVal(0)))))
            if len(ss) <= 4 or s.sort() == z3.IntSort() and sum(x.sort() == z3.IntSort() for x in ss) <= 4:
                k = fresh(z3.IntSort(), 'sk')
                new.append(z3.Or(s >= 0, z3.And(k >= 0, k < hi, z3.substitute(body, (C.KVAR, k)) < 0)))
                if s.sort() == z3.IntSort():
                    k = fresh(z3.IntSort(), 'sk')
                    new.append(z3.Or(s <= 0, z3.And(k >= 0, k < hi, z3.substitute(body, (C.KVAR, k)) > 0)))
    for s in ss:
        for t in ss:
            if s.get_id() == t.get_id() or ('sum', s.get_id(), t.get_id()) in done or s.sort() != t.sort():
                continue
            done.add(('sum', s.get_id(), t.get_id()))
            hi1, b1 = C.sum_parts(s)
            hi2, b2 = C.sum_parts(t)
            if len(ss) > 12:
                # only neighbouring lengths
                d = z3.simplify(hi1 - hi2)
                if not z3.is_int_value(d) or d.as_long() not in (0, 1):
                    continue
            k = fresh(z3.IntSort(), 'sk')
            f1 = z3.substitute(b1, (C.KVAR, k))
            f2 = z3.substitute(b2, (C.KVAR, k))
            differ = z3.And(k >= 0, k < hi2, f1 != f2)
            if b1.eq(b2) and len(ss) <= 4:
                new.append(z3.Implies(hi1 <= hi2, z3.Or(s <= t, z3.And(k >= hi1, k >= 0, k < hi2, f1 < 0))))
            if s.get_id() < t.get_id():
                if b1.eq(b2):
                    new.append(z3.Implies(hi1 == hi2, s == t))
                else:
                    new.append(z3.Implies(hi1 == hi2, z3.Or(s == t, differ)))
            last = z3.substitute(b1, (C.KVAR, hi2))
            step = z3.And(hi1 == hi2 + 1, hi2 >= 0)
            if b1.eq(b2):
                new.append(z3.Implies(step, s == t + last))
            else:
                new.append(z3.Implies(step, z3.Or(s == t + last, differ)))
            f1s = z3.substitute(b1, (C.KVAR, k + 1))
            first = z3.substitute(b1, (C.KVAR, z3.IntVal(0)))
            if z3.simplify(f1s == f2, som=True).eq(z3.BoolVal(True)):
                new.append(z3.Implies(step, s == first + t))
            elif b1.eq(b2) or len(ss) <= 4:
                new.append(z3.Implies(step, z3.Or(s == first + t, z3.And(k >= 0, k < hi2, f1s != f2))))
    return new


def simp(z):
    return z3.simplify(z, som=False)


def rebuild(e, ch):
    k = e.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    return e.decl()(*ch)


def ackermann(fs):
    """Replace uninterpreted applications with constants; integer atoms with
    Booleans (an over-approximation: sound for unsat)."""
    cache = {}
    consts = {}
    groups = {}
    boolatoms = {}

    def intatom(e):
        # atom over ints -> fresh bool
        k = e.get_id()
        if k not in boolatoms:
            boolatoms[k] = (z3.Bool('ia!%d' % len(boolatoms)), e)
        return boolatoms[k][0]

    def conv(e):
        i = e.get_id()
        if i in cache:
            return cache[i]
        if z3.is_app(e):
            d = e.decl()
            k = d.kind()
            if e.sort() == z3.BoolSort() and d.arity() > 0 and k != z3.Z3_OP_UNINTERPRETED and \
                    e.arg(0).sort() == z3.IntSort():
                r = intatom(z3.simplify(e))
            elif k == z3.Z3_OP_UNINTERPRETED and d.arity() > 0 and e.sort() != z3.IntSort():
                ch = [conv(c) if c.sort() != z3.IntSort() else c for c in e.children()]
                r = z3.Const('ap!%d' % len(consts), e.sort())
                consts[i] = (e, r)
                g = groups.setdefault((d.name(), d.arity()), [])
                g.append((ch, r))
            elif k == z3.Z3_OP_TO_REAL:
                key = ('tr', e.arg(0).get_id())
                if key not in consts:
                    consts[key] = (e, z3.Const('tr!%d' % len(consts), z3.RealSort()))
                r = consts[key][1]
            elif d.arity() == 0:
                r = e
            else:
                ch = [conv(c) for c in e.children()]
                r = rebuild(e, ch)
        else:
            r = e
        cache[i] = (r, e)[0]
        keep.append(e)
        return r

    keep = []
    out = [conv(f) for f in fs]
    extra = []
    for (nm, ar), g in groups.items():
        if nm in ('sqrt',):
            pass
        for a in range(len(g)):
            for b in range(a + 1, len(g)):
                conds = []
                skip = False
                for x, y in zip(g[a][0], g[b][0]):
                    if x.eq(y):
                        continue
                    if x.sort() == z3.IntSort():
                        s = z3.simplify(x == y)
                        if z3.is_false(s):
                            skip = True
                            break
                        if z3.is_true(s):
                            continue
                        conds.append(intatom(s))
                    else:
                        conds.append(x == y)
                if skip:
                    continue
                if len(g) > 40 and any(c.decl().kind() == z3.Z3_OP_EQ for c in conds):
                    continue
                extra.append(z3.Implies(z3.And(*conds) if conds else z3.BoolVal(True), g[a][1] == g[b][1]))
    return out + extra


def to_smt2(fs):
    s = z3.Solver()
    s.add(*fs)
    return s.to_smt2()


class Result:
    __slots__ = ('status', 'backend', 'time', 'model', 'note')

    def __init__(self, status, backend='', t=0.0, model=None, note=''):
        self.status, self.backend, self.time, self.model, self.note = status, backend, t, model, note

    def __repr__(self):
        return 'Result(%s,%s,%.2f)' % (self.status, self.backend, self.time)


def _poly_eq(z):
    """syntactic polynomial identity"""
    if z3.is_and(z):
        return all(_poly_eq(c) for c in z.children())
    if z3.is_true(z):
        return True
    if z3.is_eq(z) and z.arg(0).sort() == z3.RealSort():
        d = z3.simplify(z.arg(0) - z.arg(1), som=True)
        return z3.is_rational_value(d) and d.numerator_as_long() == 0
    return False


def run_cvc5(fs, timeout):
    txt = to_smt2(fs)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + txt)
        name = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), name],
                           capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(name)


def build(hyps, goal, hints=(), rounds=3, matching=False, strict=False):
    q = Query(matching)
    q.strict = strict
    q.hint_terms = list(hints)
    for h in hyps:
        q.add(lift_formula(h))
    g = lift_formula(goal)
    q.add(C.lnot(g))
    q.full = q.instantiate(rounds=rounds, cap=2000 if strict else 600)
    return q


LAZY = 4.0  # seconds for the first attempt


class Lazy:
    """instantiation guided by models of the ground part: only terms in
    literals that the model makes true, and needs, are matched"""

    def __init__(self, hyps, goal, hints=(), tl=20.0):
        self.q = q = Query(True)
        q.strict = False
        q.hint_terms = list(hints)
        for h in hyps:
            q.add(lift_formula(h))
        q.add(C.lnot(lift_formula(goal)))
        self.go, self.extra = lineariser()
        self.tl = tl
        self.rounds = 0
        self.terms = {}
        self.s = z3.Solver()
        self.pos, self.told = 0, set()
        self.unfinished = True  # stopped by the clock, not for want of instances

    def run(self, tl=None):
        q, s, told = self.q, self.s, self.told
        pos = self.pos
        self.end = time.time() + (tl or self.tl)
        while time.time() < self.end:
            self.rounds += 1
            new, pos = q.ground[pos:], len(q.ground)
            self.pos = pos
            s.add(*[self.go(f) for f in new])
            sums = q.lightly()
            if sums:
                s.add(*[self.go(f) for f in sums[len(q.ground):]])
            for k, f in list(self.extra.items()):
                if k not in told:
                    told.add(k)
                    s.add(f)
            s.set('timeout', int(1000 * max(0.1, min(3.0, self.end - time.time()))))
            r = s.check()
            if r == z3.unsat:
                return True
            if r != z3.sat:
                return False
            self.m = s.model()
            self.vals = {}
            if not self.step():
                self.unfinished = False
                return False
        return False

    def value(self, z):
        r = self.vals.get(z.get_id())
        if r is None:
            r = self.vals[z.get_id()] = (self.m.eval(self.go(z), model_completion=True), z)
        return r[0]

    def needed(self):
        """the applications in the literals the model relies on, and the
        quantified facts among these"""
        apps, units, seen = {}, set(), set()
        stack = [(f, True) for f in self.q.ground]
        while stack:
            z, pos = stack.pop()
            if (z.get_id(), pos) in seen:
                continue
            seen.add((z.get_id(), pos))
            if z.sort() != z3.BoolSort():
                k = z.decl().kind() if z3.is_app(z) else None
                if k == z3.Z3_OP_ITE:
                    c = z3.is_true(self.value(z.arg(0)))
                    stack += [(z.arg(0), c), (z.arg(1 if c else 2), True)]
                elif k is not None:
                    if k == z3.Z3_OP_UNINTERPRETED and z.num_args():
                        apps[z.get_id()] = z
                    stack += [(c, True) for c in z.children()]
                continue
            if z3.is_not(z):
                stack.append((z.arg(0), not pos))
            elif z3.is_and(z) or z3.is_or(z) or z3.is_implies(z):
                ch = [(c, pos) for c in z.children()]
                if z3.is_implies(z):
                    ch = [(ch[0][0], not pos), ch[1]]
                if z3.is_and(z) == pos:
                    stack += ch
                else:
                    # one of the true parts
                    true = [c for c in ch if z3.is_true(self.value(c[0])) == c[1]]
                    if not any((c[0].get_id(), c[1]) in seen for c in true):
                        stack += true[:1]
            elif z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE or z3.is_app(z) and z.num_args() and \
                    all(c.sort() == z3.BoolSort() for c in z.children()):
                if z.decl().kind() == z3.Z3_OP_ITE:
                    c = z3.is_true(self.value(z.arg(0)))
                    stack += [(z.arg(0), c), (z.arg(1 if c else 2), pos)]
                else:
                    stack += [(c, z3.is_true(self.value(c))) for c in z.children()]
            elif z3.is_app(z):
                if z.num_args() == 0:
                    if pos:
                        units.add(z.get_id())
                    continue
                if z.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    apps[z.get_id()] = z
                stack += [(c, True) for c in z.children()]
        return apps, units

    def step(self, most=30):
        q = self.q
        apps, units = self.needed()
        index = {}
        for e in apps.values():
            for c, a in enumerate(e.children()):
                if a.sort() == z3.IntSort():
                    index.setdefault((e.decl().name(), c), []).append((a, e))
        ints = None
        # an instance at a term with the value of an earlier one is true already
        had = {}
        for i, t in q.done:
            had.setdefault(i, set()).add(self.value(self.terms[t]).get_id())
        for strict in (True, False):
            todo = []
            for p, f, pos in list(q.univ):
                if p.get_id() not in units:
                    continue
                if f.sort == 'int' and q.pats.get(p.get_id()):
                    cands = {t.get_id(): t for t in q.hint_terms}
                    for nm, c, d, fixed in q.pats[p.get_id()]:
                        for t, e in index.get((nm, c), ()):
                            if strict and any(e.arg(i).get_id() != z and not self.value(e.arg(i)).eq(self.value(x))
                                              for i, z, x in fixed):
                                continue
                            if d:
                                t = z3.simplify(t - d)
                            cands[t.get_id()] = t
                    cands = sorted(cands.values(), key=lambda t: len(t.sexpr()))
                else:
                    if ints is None:
                        ints = q._candidates()
                    cands = ints[0] + ends(f) if f.sort == 'int' else ints[1]
                for t in cands:
                    if (p.get_id(), t.get_id()) in q.done:
                        continue
                    rng = C.zand(*q._range(f, t))
                    if strict and not z3.is_true(self.value(rng)):
                        continue
                    v = self.value(t).get_id()
                    if v in had.setdefault(p.get_id(), set()):
                        continue
                    had[p.get_id()].add(v)
                    todo.append((p, f, pos, t, rng))
            if todo:
                break
        todo.sort(key=lambda x: len(x[3].sexpr()))
        for p, f, pos, t, rng in todo[:most]:
            q.done.add((p.get_id(), t.get_id()))
            self.terms[t.get_id()] = t
            q.n += 1
            rng = z3.simplify(rng)
            if z3.is_false(rng):
                continue
            body = C.zand(*q._nnf(C.lift_formula(f.fn(SInt(t) if f.sort == 'int' else SReal(t))), pos))
            g = [C.znot(p)] + ([] if z3.is_true(rng) else [C.znot(rng)]) + [body]
            if not C.is_true(body):
                q._push(C.zor(*g))
        return bool(todo)


def smt(fs, tl):
    s = z3.Solver()
    s.set('timeout', int(tl * 1000))
    s.add(*fs)
    return s, s.check()


def nlsat(ack, tl):
    try:
        s = z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat'),
                      int(tl * 1000)).solver()
        s.add(*ack)
        return s.check()
    except z3.Z3Exception:
        return z3.unknown


def prove(hyps, goal, budget=10.0, hints=(), want_model=False, rounds=3, quick=False):
    t0 = time.time()
    g = lift_formula(goal)
    while isinstance(g, Q) and (g.op == 'forall' or g.op == 'or' and any(
            isinstance(x, Q) and x.op == 'forall' for x in g.args)):
        # a universal goal holds when it holds for a new constant
        if g.op == 'or':
            i = [isinstance(x, Q) and x.op == 'forall' for x in g.args].index(True)
            f, rest = g.args[i], [x for k, x in enumerate(g.args) if k != i]
        else:
            f, rest = g, []
        hyps = list(hyps)
        if f.sort == 'int':
            k = SInt(fresh(z3.IntSort(), 'sk'))
            rng = ([SBool(C.lift(f.lo).z <= k.z)] if f.lo is not None else []) + \
                ([SBool(k.z < C.lift(f.hi).z)] if f.hi is not None else [])
            if rest:
                rest = rest + [SBool(C.znot(x.z)) for x in rng]
            else:
                hyps += rng
        else:
            k = SReal(fresh(z3.RealSort(), 'sk'))
        g = goal = lift_formula(C.lor(*(rest + [f.fn(k)])))
    if isinstance(g, SBool):
        if C.is_true(g.z):
            return Result('proved', 'simplifier', time.time() - t0)
        if _poly_eq(g.z):
            return Result('proved', 'polynomial-normaliser', time.time() - t0)
    done = lambda how: Result('proved', how, time.time() - t0)
    gz = g.z if isinstance(g, SBool) else None
    hyps = relevant(hyps, g)
    match = False
    if any(isinstance(h, Q) for h in hyps):
        lazy = Lazy(hyps, goal, hints, min(LAZY, budget * 4))
        if lazy.run():
            return done('z3-smt (model-guided instantiation)')
        qs = {}
        for r, strict in ((2, False), (rounds + 5, True), (rounds + 3, False)):
            if strict and not any(c[3] for c in q.pats.values() for c in c):
                continue
            q = qs[r] = build(hyps, goal, hints, r, True, strict)
            ground = q.lightly()
            if ground and smt(linearise(ground), min(1.0, budget))[1] == z3.unsat:
                return done('z3-smt (linear abstraction)')
            if q.still and not strict:
                break
        for q in qs.values():
            ground = q.saturated()
            if any(C.is_false(f) for f in ground):
                return done('simplifier')
            if smt(linearise(ground), min(2.0, budget))[1] == z3.unsat:
                return done('z3-smt (linear abstraction)')
        if lazy.unfinished and not quick and lazy.run(budget):
            return done('z3-smt (model-guided instantiation)')
        q = build(hyps, goal, hints, rounds)
        if q.full:
            ground = q.saturated()
        else:
            match = True
    else:
        ground = build(hyps, goal, hints, rounds).saturated()
    if any(C.is_false(f) for f in ground):
        return done('simplifier')
    if smt(linearise(ground), min(2.0, budget))[1] == z3.unsat:
        return done('z3-smt (linear abstraction)')
    if smt(sweep.abstract(ground), min(1.0, budget))[1] == z3.unsat:
        return done('z3-smt (polynomial abstraction)')
    folded = base = None
    if gz is not None and not quick and 0 < len(_conds([gz], 11)) <= 10:
        # the two sides are the same up to the order of the cases
        hs = [f for f in build(hyps, SBool(False), hints, rounds + 3 * match, match).saturated()
              if not C.is_false(f) and not _has_reals(f)]
        b = generalise(hs + [gz])
        if Splitter(time.time() + min(2.0, budget), bare=True).run(b[:-1], b[-1]):
            return done('case split + field normaliser + z3')
    if gz is not None and not quick and C.has_opaque([gz]) and 0 < len(_conds([gz], 9)) <= 8:
        # case split with the specification functions kept folded
        hs = [f for f in build(hyps, SBool(False), hints, rounds + 3 * match, match).saturated() if not C.is_false(f)]
        b = generalise(hs + [gz])
        if Splitter(time.time() + min(3.0, budget)).run(b[:-1], b[-1]):
            return done('case split + field normaliser + z3')

    def split(tl):
        nonlocal base
        if gz is None:
            return None
        if base is None:
            hs = C.unfold([f for f in build(hyps, SBool(False), hints, rounds + 3 * match, match).saturated() if not C.is_false(f)])
            goal2 = C.unfold([gz])[0]
            if _conds([goal2], 1) or z3.is_or(goal2):
                goal2 = sweep.Context(hs + theory_axioms(hs + [goal2]), defs=_defs(hs)).simplify(goal2, time.time() + tl)
                if z3.is_true(goal2):
                    return done('z3-smt (polynomial abstraction)')
            base = generalise(hs + [goal2])
        if Splitter(time.time() + tl).run(base[:-1], base[-1]):
            return done('case split + field normaliser + z3')
        return None
    if quick:
        fs = C.unfold(ground)
        if smt(sweep.abstract(fs + theory_axioms(fs)), min(2.0, budget))[1] == z3.unsat:
            return done('z3-smt (polynomial abstraction)')
        return Result('unknown', 'portfolio', time.time() - t0, None)
    if gz is not None and len(_conds(C.unfold([gz]), 9)) > 8:
        r = split(min(8.0, budget))
        if r:
            return r
    if C.has_opaque(ground):
        folded = ground + theory_axioms(ground)
        if smt(folded, min(0.7, budget))[1] == z3.unsat:
            return done('z3-smt')
        if nlsat(ackermann(folded), min(0.7, budget)) == z3.unsat:
            return done('z3-nlsat')
        ground = C.unfold(ground)
        if gz is not None:
            gz = C.unfold([gz])[0]
            if _poly_eq(gz):
                return done('polynomial-normaliser')
    fs = ground + theory_axioms(ground)
    if smt(sweep.abstract(fs), min(2.0, budget))[1] == z3.unsat:
        return done('z3-smt (polynomial abstraction)')
    steps = [('z3-smt', min(0.5, budget)), ('split', min(4.0, budget)), ('z3-smt', min(1.5, budget)), ('z3-nlsat', min(1.5, budget)),
             ('folded', min(2.0, budget)), ('split', budget * 2.5), ('cvc5', min(4.0, budget)), ('z3-smt', budget),
             ('z3-nlsat', budget * 1.5), ('cvc5', budget)]
    ack = None
    for name, tl in steps:
        if time.time() - t0 > budget * 4:
            break
        if name == 'z3-smt':
            s, r = smt(fs, tl)
            if r == z3.unsat:
                return done(name)
            if r == z3.sat:
                return Result('sat', name, time.time() - t0, s.model() if want_model else None)
        elif name == 'folded':
            if folded is not None:
                if smt(folded, tl)[1] == z3.unsat:
                    return done('z3-smt')
                if nlsat(ackermann(folded), tl) == z3.unsat:
                    return done('z3-nlsat')
        elif name == 'split':
            r = split(tl)
            if r:
                return r
        elif name == 'z3-nlsat':
            if ack is None:
                ack = ackermann(generalise(fs))
            if nlsat(ack, tl) == z3.unsat:
                return done(name)
        else:
            r = run_cvc5(fs, tl)
            if r == 'unsat':
                return done(name)
            if r == 'sat':
                return Result('sat', name, time.time() - t0)
    return Result('unknown', 'portfolio', time.time() - t0, None)


# ------------------------------------------------- case splits and algebra

def _conds(fs, limit=12):
    """conditions of real-valued if-then-else terms, outermost first"""
    out, seen, stack = [], set(), list(fs)
    while stack:
        e = stack.pop(0)
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE and e.sort() != z3.BoolSort():
                c = e.arg(0)
                if not any(c.eq(x) for x in out):
                    out.append(c)
                    if len(out) >= limit:
                        return out
            stack.extend(e.children())
    return out


def _innermost(fs):
    """a condition that itself contains no if-then-else"""
    for c in _conds(fs, 60):
        if not _conds([c]):
            return _literal(c)
    return None


def _literal(c):
    while z3.is_not(c) or z3.is_and(c) or z3.is_or(c):
        c = c.arg(0)
    return c


def _negated(c):
    k = _cmp(c)
    if k is None or k[0] == '=':
        return z3.Not(c)
    a, b = k[1], k[2]
    return {'<=': a > b, '<': a >= b, '>=': a < b, '>': a <= b}[k[0]]


def _has_reals(f):
    return any(e.sort() == z3.RealSort() for e in apps_of([f]).values())


class Splitter:
    def __init__(self, deadline, bare=False):
        self.deadline = deadline
        self.bare = bare
        self.leaves = 0

    def check(self, fs, tl, nl=True):
        fs = fs + theory_axioms(fs)
        ack = None
        for which, frac in ((('smt', .15), ('nl', .6), ('smt', 1.0), ('nl', 1.0)) if nl else (('smt', .5), ('nl', .5))):
            left = self.deadline - time.time()
            if left < 0.05:
                return False
            ms = int(min(tl * frac, left) * 1000)
            if which == 'smt':
                r = smt(fs, ms / 1000)[1]
            else:
                if ack is None:
                    ack = ackermann(fs)
                r = nlsat(ack, ms / 1000)
            if r == z3.unsat:
                return True
            if r == z3.sat and which == 'smt':
                return False
        return False

    def run(self, hyps, goal, depth=0, known=frozenset()):
        if time.time() > self.deadline:
            return False
        if depth == 0:
            self.canon = sweep.Canon(defs=_defs(hyps))
        goal = prune(goal)
        if z3.is_true(goal):
            return True
        if z3.is_and(goal):
            return all(self.run(hyps, g, depth, known) for g in goal.children())
        c = _innermost([goal])
        if c is None or depth >= 12:
            self.leaves += 1
            return self.leaf(hyps, goal)
        kt, kf = self.canon.bool(c)[0], self.canon.bool(_negated(c))[0]
        if kt in known or kf in known:
            return self.run(hyps, z3.substitute(goal, (c, z3.BoolVal(kt in known))), depth, known)
        same = self.companions(hyps, c, goal)
        # is one of the branches impossible
        for val in (True, False):
            lit = c if val else z3.Not(c)
            sub = [(c, z3.BoolVal(val))] + [(d, z3.BoolVal(val == pos)) for d, pos in same]
            if val and z3.is_eq(c) and c.arg(0).sort() == z3.IntSort() and z3.is_const(c.arg(0)) and \
                    not z3.is_int_value(c.arg(0)):
                sub.append((c.arg(0), c.arg(1)))
            h = [z3.substitute(x, *sub) for x in hyps] + [lit] + [d if val == pos else z3.Not(d) for d, pos in same]
            if depth > 0 and self.check(h, 0.3, nl=False):
                continue
            if not self.run(h, z3.substitute(goal, *sub), depth + 1, known | {kt if val else kf}):
                return False
        return True

    def companions(self, hyps, c, goal):
        """comparisons in the goal equivalent (or opposite) to c because their
        two sides differ by the same quantity"""
        from . import algebra
        k = _cmp(c)
        if k is None:
            return []
        out = []
        defs = None
        for d in _comparisons(goal):
            if d.eq(c):
                continue
            m = _cmp(d)
            if m is None:
                continue
            for flip in (False, True):
                # (l1 - r1) rel 0 against (l2 - r2) rel 0
                rel = k[0] if not flip else {'<=': '>=', '>=': '<=', '<': '>', '>': '<', '=': '='}[k[0]]
                neg = {'<=': '>', '>': '<=', '>=': '<', '<': '>=', '=': '!='}[rel]
                pos = True if m[0] == rel else False if m[0] == neg else None
                if pos is None:
                    continue
                if defs is None:
                    defs = _defs(hyps)
                x = k[1] - k[2] if not flip else k[2] - k[1]
                if sweep.same_sign(x, m[1] - m[2], self.canon):
                    out.append((d, pos))
                    break
                side = algebra.equal(x, m[1] - m[2], defs, 0.4)
                if side is None or not all(self.check(hyps + [z3.Not(s)], 3.0) for s in side):
                    continue
                out.append((d, pos))
                break
        return out

    def leaf(self, hyps, goal):
        if self.algebra(hyps, goal):
            return True
        return self.check(hyps + [z3.Not(goal)], 0.2 if self.bare else 4.0, nl=not self.bare)

    def algebra(self, hyps, goal):
        from . import algebra
        if z3.is_true(goal):
            return True
        if z3.is_and(goal):
            return all(self.algebra(hyps, g) for g in goal.children())
        if z3.is_or(goal):
            return any(self.algebra(hyps, g) for g in goal.children())
        if z3.is_not(goal) and z3.is_and(goal.arg(0)):
            return False
        if not (z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort()):
            return False
        defs = _defs(hyps)
        if sweep.equal(goal.arg(0), goal.arg(1), defs):
            return True
        side = algebra.equal(goal.arg(0), goal.arg(1), defs)
        if side is None:
            return False
        return all(self.check(hyps + [z3.Not(s)], 3.0) for s in side)


def _defs(hyps):
    out = {}
    for h in hyps:
        if z3.is_eq(h) and h.arg(0).sort() == z3.RealSort():
            for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.get_id() not in out and \
                        a.decl().name() not in ('sqrt', 'pi', 'sin', 'cos', 'exp', 'atan2', 'pow') and \
                        not _occurs(a, b, out):
                    out[a.get_id()] = (a, b)
                    break
    return list(out.values())


def _occurs(a, b, defs):
    seen, stack = set(), [b]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(a):
            return True
        if e.get_id() in defs:
            stack.append(defs[e.get_id()][1])
        stack.extend(e.children())
    return False


_REL = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '='}


def _cmp(c):
    if z3.is_app(c) and c.decl().kind() in _REL and c.arg(0).sort() == z3.RealSort():
        return _REL[c.decl().kind()], c.arg(0), c.arg(1)
    return None


def _comparisons(goal):
    """comparisons inside the conditions of if-then-else terms"""
    out, seen = [], set()
    for c in _conds([goal], 40):
        stack = [c]
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if _cmp(e):
                out.append(e)
            elif z3.is_app(e) and e.sort() == z3.BoolSort():
                stack.extend(e.children())
    return out


def prune(z, cache=None):
    """propositional and if-then-else simplification that leaves arithmetic
    terms as they are"""
    cache = {} if cache is None else cache
    i = z.get_id()
    if i in cache:
        return cache[i][0]
    r = z
    if z3.is_app(z) and z.num_args():
        ch = [prune(c, cache) for c in z.children()]
        k = z.decl().kind()
        if k == z3.Z3_OP_AND:
            r = C.zand(*ch)
        elif k == z3.Z3_OP_OR:
            r = C.zor(*ch)
        elif k == z3.Z3_OP_NOT:
            r = C.znot(ch[0])
        elif k == z3.Z3_OP_ITE:
            r = C.zite(*ch)
        elif k == z3.Z3_OP_IMPLIES:
            r = C.zor(C.znot(ch[0]), ch[1])
        else:
            if any(not a.eq(b) for a, b in zip(ch, z.children())):
                r = z.decl()(*ch)
            if k in _REL or k == z3.Z3_OP_EQ:
                if all(C._numval(c) is not None for c in r.children()) or k == z3.Z3_OP_EQ and r.arg(0).eq(r.arg(1)):
                    r = z3.simplify(r)
    cache[i] = (r, z)
    return r


def generalise(fs):
    """a sum or difference that is the only place where one of its operands
    (an unknown) occurs is itself an unknown"""
    cache = {}
    fs = [_as_sub(f, cache) for f in fs]
    for rnd in range(4):
        parents, nodes, stack = {}, {}, list(fs)
        for f in fs:
            parents.setdefault(f.get_id(), set()).add(-1)
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in nodes:
                continue
            nodes[i] = e
            if not z3.is_app(e):
                return fs
            for c in e.children():
                parents.setdefault(c.get_id(), set()).add(i)
                stack.append(c)

        def unknown(e):
            return z3.is_app(e) and e.sort() == z3.RealSort() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                e.decl().name() not in THEORY and all(c.sort() == z3.IntSort() for c in e.children()) and \
                count[e.decl().name()] == 1
        count = {}
        for e in nodes.values():
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                count[e.decl().name()] = count.get(e.decl().name(), 0) + 1
        sub = []
        used = set()
        for i, e in nodes.items():
            if not (z3.is_sub(e) or z3.is_add(e)) or e.num_args() != 2 or e.sort() != z3.RealSort():
                continue
            a, b = e.arg(0), e.arg(1)
            if a.eq(b) or a.get_id() in used or b.get_id() in used:
                continue
            if any(unknown(x) and parents[x.get_id()] == {i} for x in (a, b)) and C._numval(a) is None and C._numval(b) is None:
                v = z3.FreshConst(z3.RealSort(), 'gen')
                sub.append((e, v))
                used |= {a.get_id(), b.get_id()}
            elif z3.is_sub(e) and unknown(a) and unknown(b):
                o = [x for x in parents[a.get_id()] if x != i]
                if len(o) == 1 and o[0] in nodes and z3.is_sub(nodes[o[0]]) and nodes[o[0]].arg(0).eq(b) and \
                        nodes[o[0]].arg(1).eq(a):
                    v = z3.FreshConst(z3.RealSort(), 'gen')
                    sub += [(e, v), (nodes[o[0]], -v)]
                    used |= {a.get_id(), b.get_id()}
        if not sub:
            return fs
        # innermost first: an operand replaced inside another pair is done next round
        fs = [z3.substitute(f, *sub) for f in fs]
    return fs


def _as_sub(z, cache):
    """a + -1*b is written a - b"""
    i = z.get_id()
    if i in cache:
        return cache[i][0]
    r = z
    if z3.is_app(z) and z.num_args():
        ch = [_as_sub(c, cache) for c in z.children()]
        if z3.is_add(z) and len(ch) == 2 and z3.is_mul(ch[1]) and ch[1].num_args() == 2 and C._numval(ch[1].arg(0)) == -1:
            r = ch[0] - ch[1].arg(1)
        elif any(not a.eq(b) for a, b in zip(ch, z.children())):
            r = rebuild(z, ch)
    cache[i] = (r, z)
    return r


THEORY = {'sqrt', 'pi', 'sin', 'cos', 'exp', 'atan2', 'pow'}

# ------------------------------------------------- linear abstraction

_MUL = z3.Function('mul!', z3.RealSort(), z3.RealSort(), z3.RealSort())
_DIV = z3.Function('div!', z3.RealSort(), z3.RealSort(), z3.RealSort())


_FLIP = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}
_RELOP = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_GE: lambda a, b: a >= b, z3.Z3_OP_LT: lambda a, b: a < b,
        z3.Z3_OP_GT: lambda a, b: a > b}


def linearise(fs):
    """products and quotients of non-constant reals become uninterpreted (an
    over-approximation: sound for unsat)"""
    go, extra = lineariser()
    out = [go(f) for f in fs]
    return out + lin_axioms(extra)


def lin_axioms(extra, cap=300):
    if len(extra) <= cap:
        for t in list(extra.values()):
            # signs of the products
            if not z3.is_eq(t):
                continue
            m = t.arg(0)
            a, b = m.arg(0), m.arg(1)
            extra[('sign', m.get_id())] = z3.And(
                z3.Implies(z3.And(a >= 0, b >= 0), m >= 0), z3.Implies(z3.And(a >= 0, b <= 0), m <= 0),
                z3.Implies(z3.And(a <= 0, b >= 0), m <= 0), z3.Implies(z3.And(a <= 1, b >= 0), m <= b),
                z3.Implies(z3.And(b <= 1, a >= 0), m <= a))
    return list(extra.values())


def lineariser():
    memo = {}
    extra = {}

    def mul(a, b):
        t = _MUL(a, b)
        if not a.eq(b):
            extra[t.get_id()] = t == _MUL(b, a)
        return t

    def times(a, b):
        va, vb = C._numval(a), C._numval(b)
        if va is not None or vb is not None:
            return a * b
        return mul(*sorted((a, b), key=lambda t: t.get_id()))

    def cleared(k, a, b):
        """x / y < t as x < t * y when y > 0"""
        if not a.decl().eq(_DIV):
            k, a, b = _FLIP[k], b, a
        x, y = a.children()
        t = times(y, b)
        return z3.And(z3.Implies(y > 0, _RELOP[k](x, t)), z3.Implies(y < 0, _RELOP[_FLIP[k]](x, t)), z3.Implies(y == 0, _RELOP[k](a, b)))

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i][0]
        r = e
        if z3.is_app(e) and e.num_args():
            ch = e.children()
            if e.decl().eq(C.SQRT):
                # the same for equal polynomials
                ch = [z3.simplify(ch[0], som=True, sort_sums=True)]
            ch = [go(c) for c in ch]
            if z3.is_mul(e) and e.sort() == z3.RealSort():
                num, rest = None, []
                for c in ch:
                    if C._numval(c) is not None:
                        num = c if num is None else z3.simplify(num * c)
                    else:
                        rest.append(c)
                r = None
                for c in sorted(rest, key=lambda t: t.get_id()):
                    r = c if r is None else mul(r, c)
                r = num if r is None else r if num is None else num * r
            elif z3.is_div(e) and C._numval(ch[1]) is None:
                r = _DIV(ch[0], ch[1])
                extra[('one', r.get_id())] = z3.Implies(z3.And(ch[0] == ch[1], ch[1] != 0), r == 1)
            elif e.decl().kind() in _FLIP and any(c.decl().eq(_DIV) for c in ch if z3.is_app(c)):
                r = cleared(e.decl().kind(), ch[0], ch[1])
            else:
                k = e.decl().kind()
                if any(not a.eq(b) for a, b in zip(ch, e.children())):
                    r = z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch) if k == z3.Z3_OP_OR else \
                        z3.Sum(ch) if k == z3.Z3_OP_ADD else z3.Distinct(*ch) if k == z3.Z3_OP_DISTINCT else \
                        _left(e, ch) if k == z3.Z3_OP_SUB else e.decl()(*ch)
        memo[i] = (r, e)
        return r

    def _left(e, ch):
        r = ch[0]
        for c in ch[1:]:
            r = r - c
        return r
    return go, extra
