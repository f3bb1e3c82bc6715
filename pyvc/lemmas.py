"""Induction lemmas used by the loop rules, discharged abstractly (over
uninterpreted functions) whenever a proof relies on them."""
import z3

from .core import SBool


class ZObl:
    def __init__(self, name, hyps, goal):
        self.name, self.kind, self.func, self.line = name, 'lemma', 'loop rule', 0
        self._h, self.goal = hyps, SBool(goal)

    def hyps(self):
        return self._h

    raw = True


def selection():
    """X(j+1) = T(j), Y(j+1) = U(j) when G(j) and T(j) better than X(j), else
    unchanged: X(k) is the best of the selected values and Y follows it."""
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    X, Y, T, U = (z3.Function(n, I, R) for n in 'XYTU')
    G = z3.Function('G', I, B)
    k = z3.Int('k')
    out = []
    for up in (False, True):
        for strict in (True, False):
            le = (lambda a, b: a <= b) if not up else (lambda a, b: b <= a)
            lt = (lambda a, b: a < b) if not up else (lambda a, b: b < a)
            first = lt if strict else le
            upd = z3.And(G(k), first(T(k), X(k)))
            rec = [X(k + 1) == z3.If(upd, T(k), X(k)), Y(k + 1) == z3.If(upd, U(k), Y(k)), k >= 0]

            def claim(b, L, n):
                j = z3.Int('j')
                inr = z3.And(j >= 0, j < n)
                tie = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L, G(j)), lt(T(L), T(j)))) if strict else \
                    z3.ForAll([j], z3.Implies(z3.And(j > L, j < n, G(j)), lt(T(L), T(j))))
                carried = z3.ForAll([j], z3.And(z3.Implies(z3.And(j >= 0, j <= L), first(X(n), X(j))),
                                                z3.Implies(z3.And(j > L, j <= n), X(j) == X(n))))
                return z3.And(
                    z3.Implies(b, carried),
                    z3.Implies(z3.Not(b), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n), X(j) == X(0)))),
                    z3.Implies(b, z3.And(L >= 0, L < n, G(L), X(n) == T(L), first(T(L), X(0)), Y(n) == U(L), tie,
                                         z3.ForAll([j], z3.Implies(z3.And(inr, G(j)), le(T(L), T(j)))))),
                    z3.Implies(z3.Not(b), z3.And(X(n) == X(0), Y(n) == Y(0), z3.ForAll([j], z3.Implies(
                        z3.And(inr, G(j)), (le if strict else lt)(X(0), T(j)))))))
            b, L = z3.Bool('b'), z3.Int('L')
            nm = 'selection lemma (%s, %s)' % ('max' if up else 'min', 'strict' if strict else 'non-strict')
            out.append(ZObl(nm + ': base', [], claim(z3.BoolVal(False), z3.IntVal(0), z3.IntVal(0))))
            out.append(ZObl(nm + ': step', rec + [claim(b, L, k)],
                            claim(z3.Or(upd, b), z3.If(upd, k, L), k + 1)))
    return out


def sums():
    """the rewritings of sums in core.sum_term and the facts about them in
    solve.sum_axioms, by induction over the number of terms"""
    I, R = z3.IntSort(), z3.RealSort()
    S, T, X, Y = (z3.Function(n, I, R) for n in 'STXY')
    n, t, j = z3.Ints('n t j')
    c = z3.Bool('c')
    rec = lambda F, f: [F(z3.IntVal(0)) == 0, F(n + 1) == F(n) + f, n >= 0]
    out = []

    def induct(nm, hyps, claim):
        out.append(ZObl(nm + ': base', hyps, claim(z3.IntVal(0))))
        out.append(ZObl(nm + ': step', hyps + [claim(n)], claim(n + 1)))
    induct('sum over one index', rec(S, z3.If(n == t, X(n), 0)),
           lambda m: S(m) == z3.If(z3.And(t >= 0, t < m), X(t), 0))
    induct('sum under a fixed condition', rec(S, z3.If(c, X(n), Y(n))) + rec(T, X(n)), lambda m: z3.Implies(c, S(m) == T(m)))
    induct('sums of equal terms', rec(S, X(n)) + rec(T, Y(n)) + [n >= 0], lambda m: z3.Or(
        S(m) == T(m), z3.Exists([j], z3.And(j >= 0, j < m, X(j) != Y(j)))))
    induct('first term of a sum', rec(S, X(n)) + rec(T, Y(n)) + [S(1) == X(0)] +
           [S(n + 2) == S(n + 1) + X(n + 1)], lambda m: z3.Or(
        S(m + 1) == X(0) + T(m), z3.Exists([j], z3.And(j >= 0, j < m, X(j + 1) != Y(j)))))
    induct('sum of terms that are not negative', rec(S, X(n)), lambda m: z3.Or(
        S(m) >= 0, z3.Exists([j], z3.And(j >= 0, j < m, X(j) < 0))))
    induct('partial sums of terms that are not negative', rec(S, X(n)), lambda m: z3.Implies(
        z3.And(t >= 0, t <= m), z3.Or(S(t) <= S(m), z3.Exists([j], z3.And(j >= t, j < m, X(j) < 0)))))
    return out


def argsort():
    """sorting a permutation p of 0..n-1 gives its inverse: f = p o r is injective
    and non-decreasing on 0..n-1 with values there, hence the identity"""
    I = z3.IntSort()
    f = z3.Function('f', I, I)
    n, i, j, k = z3.Ints('n i j k')
    rng = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(f(i) >= 0, f(i) < n)))
    mono = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), f(i) < f(j)))
    low = z3.And(k >= 0, k < n)
    return [ZObl('sorted permutation, values not below the index: base', [rng, n > 0], f(0) >= 0),
            ZObl('sorted permutation, values not below the index: step',
                 [mono, k >= 0, k + 1 < n, f(k) >= k], f(k + 1) >= k + 1),
            ZObl('sorted permutation, values not above the index: base', [rng, n > 0], f(n - 1) <= n - 1),
            ZObl('sorted permutation, values not above the index: step',
                 [mono, k >= 1, k < n, f(k) <= k], f(k - 1) <= k - 1),
            ZObl('sorted permutation is the identity', [low, f(k) >= k, f(k) <= k], f(k) == k)]


LEMMAS = {'sums': sums, 'argsort': argsort, 'selection': selection}


def prove(o, budget):
    s = z3.Solver()
    s.set('timeout', int(budget * 1000))
    for h in o.hyps():
        s.add(h)
    s.add(z3.Not(o.goal.z))
    return s.check()
