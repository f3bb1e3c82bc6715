"""Polynomial abstraction of ground formulas.

Every real term is brought to a normal form: a linear combination of monomials
over atoms (unknowns, applications, if-then-else terms, inverses). Products of
different atoms become uninterpreted, so the result is decided by linear
arithmetic with uninterpreted functions; terms that are equal as polynomials
become identical. Sound for unsatisfiability, reading a/b as a times the
(unspecified for 0) inverse of b."""
from fractions import Fraction

import z3

from . import core as C
from .algebra import m_mul, p_add

MUL = z3.Function('mul!', z3.RealSort(), z3.RealSort(), z3.RealSort())
INV = z3.Function('inv!', z3.RealSort(), z3.RealSort())
LIMIT = 1500


class Canon:
    def __init__(self, expand=False, limit=LIMIT, signs=False, defs=()):
        self.defs = dict((a.get_id(), t) for a, t in defs)
        self.keep0 = list(defs)
        self.facts, self.signs = [], signs
        self.limit, self.expand = limit, expand
        self.intern = {}
        self.term = {}        # atom id -> z3 term
        self.nfs = {}         # z3 id -> normal form
        self.bools = {}       # z3 id -> (key, z3 term)
        self.keep = []
        self.built = {}
        self.monos = {}
        self.base = {}        # atom of an inverse -> atom inverted

    # -- interning

    def key(self, k):
        return self.intern.setdefault(k, len(self.intern))

    def nfkey(self, p):
        return self.key(('nf', tuple(sorted(p.items()))))

    def atom(self, k, make):
        i = self.key(k)
        if i not in self.term:
            self.term[i] = make()
        return {((i, 1),): Fraction(1)}

    # -- reals

    def mul(self, a, b):
        if len(a) * len(b) > self.limit * 8:
            return None
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = m_mul(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r if len(r) <= self.limit else None

    def nf(self, e):
        i = e.get_id()
        if i in self.nfs:
            return self.nfs[i]
        self.keep.append(e)
        r = self._nf(e)
        self.nfs[i] = r
        return r

    def named(self, p):
        """a sum as a factor of its own, up to a number"""
        if len(p) <= 1:
            return p
        lead = p[min(p)]
        q = {m: c / lead for m, c in p.items()}
        return {m: c * lead for m, c in self.atom(('named', self.nfkey(q)), lambda: self.build(q)).items()}

    def prod(self, a, b):
        if not self.expand and a and b and list(a) != [()] and list(b) != [()]:
            a, b = self.named(a), self.named(b)
        r = self.mul(a, b)
        if r is None:
            r = self.mul(self.named(a), b) or self.mul(self.named(a), self.named(b))
        return r

    def _nf(self, e):
        v = C._numval(e)
        if v is not None:
            return {(): Fraction(v)} if v else {}
        if not z3.is_app(e):
            return self.atom(('z', e.get_id()), lambda: e)
        if e.get_id() in self.defs:
            return self.nf(self.defs[e.get_id()])
        if z3.is_add(e):
            r = {}
            for c in e.children():
                r = p_add(r, self.nf(c))
            return r
        if z3.is_sub(e):
            ch = e.children()
            r = self.nf(ch[0])
            for c in ch[1:]:
                r = p_add(r, self.nf(c), -1)
            return r
        if e.decl().kind() == z3.Z3_OP_UMINUS:
            return p_add({}, self.nf(e.arg(0)), -1)
        if z3.is_mul(e):
            r = {(): Fraction(1)}
            for c in e.children():
                r = self.prod(r, self.nf(c))
            return r
        if z3.is_div(e):
            return self.prod(self.nf(e.arg(0)), self.inverse(self.nf(e.arg(1))))
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            kc, c = self.bool(e.arg(0))
            a, b = self.nf(e.arg(1)), self.nf(e.arg(2))
            if z3.is_true(c):
                return a
            if z3.is_false(c):
                return b
            ka, kb = self.nfkey(a), self.nfkey(b)
            if ka == kb:
                return a
            return self.atom(('ite', kc, ka, kb), lambda: z3.If(c, self.build(a), self.build(b)))
        if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return self.app(e)
        if e.decl().kind() == z3.Z3_OP_TO_REAL:
            return self.atom(('z', e.get_id()), lambda: z3.ToReal(self.int(e.arg(0))))
        return self.atom(('z', e.get_id()), lambda: e)

    def app(self, e):
        ks, ts = [e.decl().name()], []
        for c in e.children():
            if c.sort() == z3.RealSort():
                p = self.nf(c)
                ks.append(self.nfkey(p))
                ts.append(p)
            elif c.sort() == z3.BoolSort():
                k, t = self.bool(c)
                ks.append(k)
                ts.append(t)
            else:
                ks.append(('z', c.get_id()))
                ts.append(self.int(c) if c.sort() == z3.IntSort() else c)
        return self.atom(('f',) + tuple(ks),
                         lambda: e.decl()(*[self.build(t) if isinstance(t, dict) else t for t in ts]))

    def inverse(self, p):
        if not p:
            return self.atom(('inv0',), lambda: INV(z3.RealVal(0)))
        if len(p) == 1:
            (m, c), = p.items()
            r = {(): Fraction(1) / c}
            for x, k in m:
                if x in self.base:
                    y = self.base[x]
                else:
                    (m2, _), = self.atom(('inv', x), lambda: INV(self.term[x])).items()
                    y = m2[0][0]
                    self.base[y] = x
                r = self.mul(r, {((y, k),): Fraction(1)})
            return r
        lead = p[min(p)]
        q = {m: c / lead for m, c in p.items()}
        r = self.atom(('invp', self.nfkey(q)), lambda: INV(self.build(q)))
        return {m: c / lead for m, c in r.items()}

    def mono(self, m):
        if m in self.monos:
            return self.monos[m]
        r = None
        for x, k in m:
            t = self.term[x]
            if k > 1:
                s = t
                for j in range(2, k + 1):
                    s = MUL(s, t)
                    if j == 2:
                        self.facts += [s >= 0, z3.Implies(s == 0, t == 0), z3.Implies(t == 0, s == 0)]
                t = s
            if r is not None:
                s = MUL(r, t)
                if self.signs:
                    self.facts += [z3.Implies(z3.And(r > 0, t > 0), s > 0), z3.Implies(z3.And(r < 0, t < 0), s > 0),
                                   z3.Implies(z3.And(r > 0, t < 0), s < 0), z3.Implies(z3.And(r < 0, t > 0), s < 0),
                                   z3.Implies(z3.Or(r == 0, t == 0), s == 0)]
                t = s
            r = t
        self.monos[m] = r
        return r

    def build(self, p):
        k = self.nfkey(p)
        if k in self.built:
            return self.built[k]
        ts = []
        for m, c in sorted(p.items()):
            z = C.zreal(c)
            t = self.mono(m)
            ts.append(z if t is None else t if c == 1 else z * t)
        r = z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(ts)
        self.built[k] = r
        return r

    # -- integers: kept, real subterms abstracted

    def int(self, e):
        if not z3.is_app(e) or not e.num_args():
            return e
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            (m, _), = self.app(e).items()
            return self.term[m[0][0]]
        ch = [self.bool(c)[1] if c.sort() == z3.BoolSort() else self.int(c) if c.sort() == z3.IntSort() else
              self.build(self.nf(c)) if c.sort() == z3.RealSort() else c for c in e.children()]
        if all(a.eq(b) for a, b in zip(ch, e.children())):
            return e
        k = e.decl().kind()
        if k == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = r - c
            return r
        return z3.Sum(ch) if k == z3.Z3_OP_ADD else z3.Product(ch) if k == z3.Z3_OP_MUL else e.decl()(*ch)

    # -- Booleans

    def bool(self, e):
        i = e.get_id()
        if i in self.bools:
            return self.bools[i]
        self.keep.append(e)
        r = self._bool(e)
        self.bools[i] = r
        return r

    def cmp(self, rel, a, b):
        p = p_add(a, b, -1)
        if not p or list(p) == [()]:
            v = p.get((), Fraction(0))
            t = {'<=': v <= 0, '<': v < 0, '=': v == 0}[rel]
            return self.key(('const', t)), z3.BoolVal(t)
        const = p.pop((), Fraction(0))
        lead = p[min(p)]
        s = abs(lead) if rel != '=' else lead
        p = {m: c / s for m, c in p.items()}
        const /= s
        k = self.key(('cmp', rel, self.nfkey(p), const))
        t, z = self.build(p), C.zreal(-const)
        return k, (t <= z if rel == '<=' else t < z if rel == '<' else t == z)

    def _bool(self, e):
        if not z3.is_app(e):
            return self.key(('z', e.get_id())), e
        k = e.decl().kind()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return self.key(('const', k == z3.Z3_OP_TRUE)), e
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and e.arg(0).sort() == z3.RealSort():
            a, b = self.nf(e.arg(0)), self.nf(e.arg(1))
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            return self.cmp({z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '<=', z3.Z3_OP_EQ: '='}.get(k, '<'), a, b)
        if k == z3.Z3_OP_NOT:
            c, t = self.bool(e.arg(0))
            return self.key(('not', c)), C.znot(t)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            xs = [self.bool(c) for c in e.children()]
            return self.key((k, frozenset(c for c, _ in xs))), (C.zand if k == z3.Z3_OP_AND else C.zor)(*[t for _, t in xs])
        if k == z3.Z3_OP_IMPLIES:
            (a, s), (b, t) = self.bool(e.arg(0)), self.bool(e.arg(1))
            return self.key(('imp', a, b)), C.zor(C.znot(s), t)
        if k == z3.Z3_OP_ITE:
            xs = [self.bool(c) for c in e.children()]
            return self.key(('bite',) + tuple(c for c, _ in xs)), z3.If(*[t for _, t in xs])
        if k == z3.Z3_OP_EQ and e.arg(0).sort() == z3.BoolSort():
            (a, s), (b, t) = self.bool(e.arg(0)), self.bool(e.arg(1))
            return self.key(('iff', frozenset((a, b)))), (z3.BoolVal(True) if a == b else s == t)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and e.arg(0).sort() == z3.IntSort():
            ch = [self.int(c) for c in e.children()]
            t = e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch)
            return self.key(('z', t.get_id())), self.hold(t)
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args():
            (m, _), = self.app(e).items()
            t = self.term[m[0][0]]
            return self.key(('z', t.get_id())), t
        if k == z3.Z3_OP_DISTINCT or e.num_args():
            ch = [self.build(self.nf(c)) if c.sort() == z3.RealSort() else self.int(c) if c.sort() == z3.IntSort() else
                  self.bool(c)[1] if c.sort() == z3.BoolSort() else c for c in e.children()]
            t = z3.Distinct(*ch) if k == z3.Z3_OP_DISTINCT else e.decl()(*ch)
            return self.key(('z', t.get_id())), self.hold(t)
        return self.key(('z', e.get_id())), e

    def hold(self, t):
        self.keep.append(t)
        return t

    def tr(self, e):
        return self.bool(e)[1]


def abstract(fs, expand=False, signs=False, defs=()):
    c = Canon(expand, signs=signs, defs=defs)
    return [c.tr(f) for f in fs] + c.facts


def equal(a, b, defs=()):
    c = Canon(defs=defs)
    return c.nf(a) == c.nf(b)


def same_sign(x, y, canon):
    """y is a positive number times x"""
    a, b = canon.nf(x), canon.nf(y)
    if not a or not b or set(a) != set(b):
        return False
    m = min(a)
    k = b[m] / a[m]
    return k > 0 and all(b[n] == k * c for n, c in a.items())


def joined(c, x, y):
    """one condition for nested conditionals with a common branch"""
    for _ in range(50):
        if z3.is_app_of(y, z3.Z3_OP_ITE) and y.arg(2).eq(x):
            c, x, y = C.zor(c, C.znot(y.arg(0))), x, y.arg(1)
        elif z3.is_app_of(y, z3.Z3_OP_ITE) and y.arg(1).eq(x):
            c, x, y = C.zor(c, y.arg(0)), x, y.arg(2)
        elif z3.is_app_of(x, z3.Z3_OP_ITE) and x.arg(1).eq(y):
            c, x, y = C.zand(c, C.znot(x.arg(0))), x.arg(2), y
        elif z3.is_app_of(x, z3.Z3_OP_ITE) and x.arg(2).eq(y):
            c, x, y = C.zand(c, x.arg(0)), x.arg(1), y
        else:
            break
    return c, x, y


class Context:
    """hypotheses in the abstraction; decides conditions under them"""

    def __init__(self, hyps, tl=0.25, defs=()):
        self.canon = Canon(defs=defs)
        self.s = z3.SimpleSolver()
        self.tl = tl
        self.hyps = [self.canon.tr(h) for h in hyps]
        self.s.add(*self.hyps)
        self.used = 0
        self.memo = {}

    def entails(self, c, tl=None):
        """True/False when c/its negation follows, else None"""
        k, t = self.canon.bool(c)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if k in self.memo:
            return self.memo[k]
        self.s.add(*self.canon.facts[self.used:])
        self.used = len(self.canon.facts)
        self.s.set('timeout', int((tl or self.tl) * 1000))
        r = None
        for val, f in ((True, z3.Not(t)), (False, t)):
            self.s.push()
            self.s.add(f)
            q = self.s.check()
            self.s.pop()
            if q == z3.unsat:
                r = val
                break
        self.memo[k] = r
        return r

    def simplify(self, goal, deadline=None):
        """replace what the hypotheses decide, outermost first"""
        import time
        memo = {}

        def go(e):
            i = e.get_id()
            if i in memo:
                return memo[i][0]
            r = e
            if z3.is_app(e) and e.num_args() and (deadline is None or time.time() < deadline):
                k = e.decl().kind()
                if e.sort() == z3.BoolSort():
                    v = self.entails(e)
                    if v is not None:
                        r = z3.BoolVal(v)
                        memo[i] = (r, e)
                        return r
                if k == z3.Z3_OP_ITE:
                    c, x, y = joined(e.arg(0), e.arg(1), e.arg(2))
                    c = go(c)
                    r = go(x) if z3.is_true(c) else go(y) if z3.is_false(c) else C.zite(c, go(x), go(y))
                else:
                    ch = [go(x) for x in e.children()]
                    if k == z3.Z3_OP_AND:
                        r = C.zand(*ch)
                    elif k == z3.Z3_OP_OR:
                        r = C.zor(*ch)
                    elif k == z3.Z3_OP_NOT:
                        r = C.znot(ch[0])
                    elif any(not a.eq(b) for a, b in zip(ch, e.children())):
                        from .solve import rebuild
                        r = rebuild(e, ch)
            memo[i] = (r, e)
            return r
        return go(goal)
