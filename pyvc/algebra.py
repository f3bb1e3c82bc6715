"""Equalities of rational expressions with square roots.

nonzero-denominator equalities are decided by normal forms: every term is a
quotient of polynomials over atoms; an even power of sqrt(t) is replaced by the
matching power of t. The denominators and (t >= 0) conditions used are returned
and have to be proved separately."""
from fractions import Fraction

import time
import z3

from . import core as C

LIMIT = 6000


DEADLINE = [float('inf')]


class TooBig(Exception):
    pass


# polynomials: dict {monomial: Fraction}; monomial: tuple of (atom id, exponent) sorted

def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > LIMIT * 4 or time.time() > DEADLINE[0]:
        raise TooBig
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig
    return r


class Field:
    def __init__(self, defs=(), opaque=()):
        self.opaque = set(opaque)     # ids of terms treated as atoms
        self.apps = {}                # decl name -> [(argument forms, term)]
        self.roots = []
        self.atoms = {}
        self.sqrt = {}       # atom id -> (num, den) of the radicand
        self.sqrtkey = {}
        self.memo = {}
        self.dens = {}       # id -> z3 term that must not be zero
        self.rads = {}       # id -> z3 term that must be >= 0
        self.defs = dict((c.get_id(), t) for c, t in defs)
        self.keep = []

    def atom(self, e):
        i = e.get_id()
        self.atoms[i] = e
        return {((i, 1),): Fraction(1)}

    def reduce(self, p):
        """replace even powers of square roots; result (num, den)"""
        while True:
            hit = None
            for m in p:
                for x, e in m:
                    if e >= 2 and x in self.sqrt:
                        hit = x
                        break
                if hit is not None:
                    break
            if hit is None:
                return p, {(): Fraction(1)}
            tn, td = self.sqrt[hit]
            # group by power of hit
            top = max(dict(m).get(hit, 0) for m in p) // 2
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(hit, 0)
                k = e // 2
                if e % 2:
                    d[hit] = 1
                q = {tuple(sorted(d.items())): c}
                for _ in range(k):
                    q = p_mul(q, tn)
                for _ in range(top - k):
                    q = p_mul(q, td)
                out = p_add(out, q)
            p = out
            if len(td) == 1 and () in td and td[()] == 1:
                continue
            dd = {(): Fraction(1)}
            for _ in range(top):
                dd = p_mul(dd, td)
            n2, d2 = self.reduce(p)
            return n2, p_mul(dd, d2)

    def norm(self, n, d):
        n, nd = self.reduce(n)
        d, dd = self.reduce(d)
        n = p_mul(n, dd) if dd != {(): 1} else n
        d = p_mul(d, nd) if nd != {(): 1} else d
        if not n:
            return {}, {(): Fraction(1)}
        if len(d) == 1:
            # cancel common monomial factors
            (dm, dc), = d.items()
            common = dict(dm)
            for m in n:
                md = dict(m)
                for x in list(common):
                    common[x] = min(common[x], md.get(x, 0))
                    if not common[x]:
                        del common[x]
            if common or dc != 1:
                def strip(m):
                    md = dict(m)
                    for x, e in common.items():
                        md[x] -= e
                        if not md[x]:
                            del md[x]
                    return tuple(sorted(md.items()))
                n = {strip(m): c / dc for m, c in n.items()}
                d = {strip(dm): Fraction(1)}
        return n, d

    def rat(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(e)
        r = self._rat(e)
        r = self.norm(*r)
        self.memo[i] = r
        return r

    def _rat(self, e):
        one = {(): Fraction(1)}
        v = C._numval(e)
        if v is not None:
            return p_const(v), one
        if e.get_id() in self.opaque:
            return self.atom(e), one
        if i_def(self, e) is not None:
            return self.rat(i_def(self, e))
        if z3.is_add(e):
            n, d = {}, one
            for c in e.children():
                cn, cd = self.rat(c)
                n, d = self.add(n, d, cn, cd)
            return n, d
        if z3.is_sub(e):
            ch = e.children()
            n, d = self.rat(ch[0])
            for c in ch[1:]:
                cn, cd = self.rat(c)
                n, d = self.add(n, d, p_mul(p_const(-1), cn), cd)
            return n, d
        if z3.is_mul(e):
            n, d = one, one
            for c in e.children():
                cn, cd = self.rat(c)
                n, d = self.norm(p_mul(n, cn), p_mul(d, cd))
            return n, d
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UMINUS:
            n, d = self.rat(e.arg(0))
            return p_mul(p_const(-1), n), d
        if z3.is_div(e):
            an, ad = self.rat(e.arg(0))
            bn, bd = self.rat(e.arg(1))
            if not bn:
                raise TooBig
            if not (len(bn) == 1 and () in bn):
                self.dens[e.arg(1).get_id()] = e.arg(1)
            return p_mul(an, bd), p_mul(ad, bn)
        if z3.is_app(e) and e.decl().name() == 'sqrt' and e.num_args() == 1:
            t = self.rat(e.arg(0))
            for u, x in self.roots:
                if self.same(t, u):
                    return self.atom(x), one
            self.roots.append((t, e))
            self.sqrt[e.get_id()] = t
            if not C.nonneg_syntactic(e.arg(0)):
                self.rads[e.get_id()] = e.arg(0)
            return self.atom(e), one
        if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                all(c.sort() == z3.RealSort() for c in e.children()):
            # congruence: equal arguments give the same atom
            forms = [self.rat(c) for c in e.children()]
            known = self.apps.setdefault(e.decl().name(), [])
            for fs, x in known:
                if all(self.same(a, b) for a, b in zip(forms, fs)):
                    return self.atom(x), one
            known.append((forms, e))
        return self.atom(e), one

    def same(self, a, b):
        if a == b:
            return True
        n = p_add(p_mul(a[0], b[1]), p_mul(b[0], a[1]), -1)
        if not n:
            return True
        n, _ = self.reduce(n)
        return not n

    def add(self, n, d, cn, cd):
        if d == cd:
            return self.norm(p_add(n, cn), d)
        return self.norm(p_add(p_mul(n, cd), p_mul(cn, d)), p_mul(d, cd))


def i_def(f, e):
    return f.defs.get(e.get_id())


def subterms(e):
    out, stack = {}, [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in out:
            continue
        out[i] = x
        if z3.is_app(x):
            stack.extend(x.children())
    return out


def shared(a, b):
    """ids of the compound real terms that occur on both sides"""
    A, B = subterms(a), subterms(b)
    return [i for i, x in A.items() if i in B and x.sort() == z3.RealSort() and x.num_args() and C._numval(x) is None]


def _equal(a, b, defs, opaque):
    f = Field(defs, opaque)
    try:
        an, ad = f.rat(a)
        bn, bd = f.rat(b)
        n = p_add(p_mul(an, bd), p_mul(bn, ad), -1)
        n, _ = f.reduce(n)
    except TooBig:
        return None
    if n:
        return None
    return [d != 0 for d in f.dens.values()] + [t >= 0 for t in f.rads.values()]


def equal(a, b, defs=(), seconds=4.0):
    """None when not decided, else the list of side conditions under which a == b"""
    DEADLINE[0] = time.time() + seconds
    sh = shared(a, b)
    if sh:
        # first with the common subterms as unknowns
        r = _equal(a, b, defs, sh)
        if r is not None:
            return r
        DEADLINE[0] = time.time() + seconds
    return _equal(a, b, defs, ())
