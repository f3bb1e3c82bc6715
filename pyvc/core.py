"""Scalars and formulas shared by the verifier (symbolic, z3 terms) and the
replay (concrete, running-error floats).  Specifications are written once
against the functions of this module and evaluated in both modes.

Symbolic reals are mathematical reals with an explicit NaN flag; symbolic
integers are mathematical integers.  Concrete numbers carry an error bound, and
comparisons between concrete numbers are three-valued (Kleene): a difference
below the error bound is "unknown" and never decides a verdict.
"""
import itertools
import math
from fractions import Fraction

import z3

Z = z3


class Unsupported(Exception):
    """Construct outside the verified subset."""


# ---------------------------------------------------------------- symbolic

_R = z3.RealSort()
_I = z3.IntSort()
_B = z3.BoolSort()

PI = z3.Real('pi')
SQRT = z3.Function('sqrt', _R, _R)
SIN = z3.Function('sin', _R, _R)
COS = z3.Function('cos', _R, _R)
EXP = z3.Function('exp', _R, _R)
ATAN2 = z3.Function('atan2', _R, _R, _R)
POW = z3.Function('pow', _R, _R, _R)
FLOOR = z3.Function('floor', _R, _I)
TWOPIK = z3.Function('two_pi_times', _I, _R)   # k -> 2*pi*k, kept linear


def zreal(x):
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, float):
        return z3.RealVal(repr(x)) if math.isfinite(x) else None
    raise TypeError(x)


def is_true(z):
    return z is True or (not isinstance(z, bool) and z3.is_true(z))


def is_false(z):
    return z is False or (not isinstance(z, bool) and z3.is_false(z))


def zand(*a):
    out = []
    for x in a:
        if is_true(x):
            continue
        if is_false(x):
            return z3.BoolVal(False)
        out.append(x)
    if not out:
        return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(*a):
    out = []
    for x in a:
        if is_false(x):
            continue
        if is_true(x):
            return z3.BoolVal(True)
        out.append(x)
    if not out:
        return z3.BoolVal(False)
    return out[0] if len(out) == 1 else z3.Or(*out)


def znot(a):
    if is_true(a):
        return z3.BoolVal(False)
    if is_false(a):
        return z3.BoolVal(True)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def zite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def _numval(z):
    """Python number of a numeral term or None."""
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    return None


class Sym:
    __slots__ = ()


class SBool(Sym):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z3.BoolVal(z) if isinstance(z, bool) else z

    def __and__(self, o):
        return land(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return lor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return lnot(self)

    def __bool__(self):
        if is_true(self.z):
            return True
        if is_false(self.z):
            return False
        raise Unsupported('symbolic truth value used as a Python bool')

    def __repr__(self):
        return 'SBool(%s)' % self.z


class SInt(Sym):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z3.IntVal(z) if isinstance(z, int) else z

    def real(self):
        n = _numval(self.z)
        if n is not None:
            return SReal(z3.RealVal(n))
        return SReal(z3.ToReal(self.z))

    def __repr__(self):
        return 'SInt(%s)' % self.z


class SReal(Sym):
    __slots__ = ('z', 'nan')

    def __init__(self, z, nan=False):
        self.z = z
        if not isinstance(nan, bool):
            if z3.is_true(nan):
                nan = True
            elif z3.is_false(nan):
                nan = False
        self.nan = nan

    def __repr__(self):
        return 'SReal(%s%s)' % (self.z, '' if self.nan is False else ', nan=%s' % self.nan)


def nanor(*a):
    if any(x is True for x in a):
        return True
    a = [x for x in a if x is not False]
    if not a:
        return False
    return zor(*a)


NANV = SReal(z3.RealVal(0), True)


def lift(x):
    """Python value -> symbolic scalar."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, bool):
        return SBool(x)
    if isinstance(x, int):
        return SInt(x)
    if isinstance(x, (float, Fraction)):
        if isinstance(x, float):
            if x != x:
                return NANV
            if x in (math.inf, -math.inf):
                raise Unsupported('infinite constant')
        return SReal(zreal(x))
    if isinstance(x, z3.BoolRef):
        return SBool(x)
    if isinstance(x, z3.ArithRef):
        return SInt(x) if x.is_int() else SReal(x)
    raise Unsupported('not a scalar: %r' % (x,))


def to_real(x):
    x = lift(x)
    if isinstance(x, SInt):
        return x.real()
    if isinstance(x, SBool):
        return SReal(zite(x.z, z3.RealVal(1), z3.RealVal(0)))
    return x


def to_intish(x):
    x = lift(x)
    if isinstance(x, SBool):
        return SInt(zite(x.z, z3.IntVal(1), z3.IntVal(0)))
    return x


def _z_add(a, b):
    x, y = _numval(a), _numval(b)
    if x is not None and y is not None:
        return z3.RealVal(str(x + y)) if a.is_real() else z3.IntVal(x + y)
    if x == 0:
        return b
    if y == 0:
        return a
    return a + b


def _z_sub(a, b):
    x, y = _numval(a), _numval(b)
    if x is not None and y is not None:
        return z3.RealVal(str(x - y)) if a.is_real() else z3.IntVal(x - y)
    if y == 0:
        return a
    if x == 0:
        return -b
    if a.eq(b):
        return z3.RealVal(0) if a.is_real() else z3.IntVal(0)
    return a - b


def _z_mul(a, b):
    x, y = _numval(a), _numval(b)
    if x is not None and y is not None:
        return z3.RealVal(str(x * y)) if a.is_real() else z3.IntVal(x * y)
    if x == 0 or y == 0:
        return z3.RealVal(0) if a.is_real() else z3.IntVal(0)
    if x == 1:
        return b
    if y == 1:
        return a
    if x == -1:
        return -b
    if y == -1:
        return -a
    return a * b


def _arith(fz, a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, SReal) or isinstance(b, SReal):
        a, b = to_real(a), to_real(b)
        return SReal(fz(a.z, b.z), nanor(a.nan, b.nan))
    a, b = to_intish(a), to_intish(b)
    return SInt(fz(a.z, b.z))


def sadd(a, b):
    return _arith(_z_add, a, b)


def ssub(a, b):
    return _arith(_z_sub, a, b)


def smul(a, b):
    return _arith(_z_mul, a, b)


def sneg(a):
    a = lift(a)
    if isinstance(a, SBool):
        a = to_intish(a)
    n = _numval(a.z)
    if isinstance(a, SInt):
        return SInt(-n if n is not None else -a.z)
    return SReal(zreal(-n) if n is not None else -a.z, a.nan)


def sdiv(a, b):
    """Real division (b != 0 must hold: checked by the caller as an
    obligation in code; unspecified otherwise)."""
    a, b = to_real(a), to_real(b)
    x, y = _numval(a.z), _numval(b.z)
    if y is not None and y != 0:
        if x is not None:
            return SReal(zreal(Fraction(x) / Fraction(y)), nanor(a.nan, b.nan))
        return SReal(_z_mul(a.z, zreal(1 / Fraction(y))), nanor(a.nan, b.nan))
    return SReal(a.z / b.z, nanor(a.nan, b.nan))


def sabs(a):
    a = to_intish(a)
    if isinstance(a, SInt):
        return SInt(zite(a.z >= 0, a.z, -a.z))
    return SReal(zite(a.z >= 0, a.z, -a.z), a.nan)


def sfloor_int(a):
    """floor of a real as SInt"""
    a = to_real(a)
    n = _numval(a.z)
    if n is not None:
        return SInt(math.floor(n))
    return SInt(FLOOR(a.z))


def sfloordiv(a, b):
    a, b = to_intish(a), to_intish(b)
    if isinstance(a, SInt) and isinstance(b, SInt):
        y = _numval(b.z)
        if y is not None and y > 0:
            return SInt(a.z / b.z)
        return sfloor_int(sdiv(a, b))
    q = sdiv(a, b)
    return SReal(sfloor_int(q).real().z, q.nan)


def smod(a, b):
    a, b = to_intish(a), to_intish(b)
    if isinstance(a, SInt) and isinstance(b, SInt):
        y = _numval(b.z)
        if y is not None and y > 0:
            return SInt(a.z % b.z)
        # Python's sign convention; the cases next to the range first, so
        # that wrap-around indices need no integer division
        x, n = a.z, b.z
        full = zite(n > 0, x % n, -((-x) % (-n)))
        return SInt(zite(zand(x >= 0, x < n), x, zite(zand(x >= n, x < 2 * n), x - n,
                                                      zite(zand(x < 0, x >= -n), x + n, full))))
    q = sfloor_int(sdiv(a, b))
    a, b = to_real(a), to_real(b)
    if b.z.eq(TWO_PI.z):
        t = SReal(TWOPIK(q.z))
    else:
        t = smul(b, q.real())
    r = ssub(a, t)
    return SReal(r.z, nanor(a.nan, b.nan))


TWO_PI = SReal(z3.RealVal(2) * PI)


def nonneg_syntactic(z):
    n = _numval(z)
    if n is not None:
        return n >= 0
    if z3.is_mul(z):
        ch = z.children()
        if len(ch) == 2 and ch[0].eq(ch[1]):
            return True
        return all(nonneg_syntactic(c) for c in ch)
    if z3.is_add(z):
        return all(nonneg_syntactic(c) for c in z.children())
    if z3.is_app(z) and z.decl().name() in ('sqrt', 'exp') and z.num_args() == 1:
        return True
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE:
        return nonneg_syntactic(z.arg(1)) and nonneg_syntactic(z.arg(2))
    return False


def shypot(a, b):
    a, b = to_real(a), to_real(b)
    return SReal(SQRT(_z_add(_z_mul(a.z, a.z), _z_mul(b.z, b.z))), nanor(a.nan, b.nan))


def ssqrt(a):
    a = to_real(a)
    if nonneg_syntactic(a.z) and _numval(a.z) is None:
        return SReal(SQRT(a.z), a.nan)
    n = _numval(a.z)
    if n is not None and n >= 0:
        num, den = Fraction(n).numerator, Fraction(n).denominator
        if math.isqrt(num) ** 2 == num and math.isqrt(den) ** 2 == den:
            return SReal(zreal(Fraction(math.isqrt(num), math.isqrt(den))), a.nan)
    return SReal(SQRT(a.z), nanor(a.nan, z3.simplify(a.z < 0)))


def spow(a, b):
    b = lift(b)
    a = to_intish(lift(a))
    if isinstance(b, (SInt, SReal)):
        n = _numval(b.z)
        if n is not None and Fraction(n).denominator == 1 and 0 <= n <= 8:
            n = int(n)
            if isinstance(b, SReal):
                a = to_real(a)
            if n == 0:
                return SInt(1) if isinstance(a, SInt) else SReal(z3.RealVal(1))
            r = a
            for _ in range(n - 1):
                r = smul(r, a)
            return r
        if n is not None and n == Fraction(1, 2):
            return ssqrt(a)
        if n is not None and Fraction(n).denominator == 1 and -8 <= n < 0:
            return sdiv(1.0, spow(to_real(a), -int(n)))
    a, b = to_real(a), to_real(b)
    return SReal(POW(a.z, b.z), nanor(a.nan, b.nan))


def sfun(f, a):
    a = to_real(a)
    return SReal(f(a.z), a.nan)


def _cmp(op, a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, SBool) and isinstance(b, SBool):
        if op == '==':
            return SBool(zbooleq(a.z, b.z))
        if op == '!=':
            return SBool(znot(zbooleq(a.z, b.z)))
    if isinstance(a, SReal) or isinstance(b, SReal):
        a, b = to_real(a), to_real(b)
        nan = nanor(a.nan, b.nan)
    else:
        a, b = to_intish(a), to_intish(b)
        nan = False
    x, y = _numval(a.z), _numval(b.z)
    if x is not None and y is not None:
        r = {'<': x < y, '<=': x <= y, '==': x == y, '!=': x != y}[op]
        r = z3.BoolVal(r)
    elif a.z.eq(b.z):
        r = z3.BoolVal(op in ('<=', '=='))
    else:
        r = {'<': lambda: a.z < b.z, '<=': lambda: a.z <= b.z,
             '==': lambda: a.z == b.z, '!=': lambda: a.z != b.z}[op]()
    if nan is False:
        return SBool(r)
    if op == '!=':
        return SBool(zor(nan if nan is not True else z3.BoolVal(True), r))
    return SBool(zand(r, znot(nan if nan is not True else z3.BoolVal(True))))


def zbooleq(a, b):
    if is_true(a):
        return b
    if is_true(b):
        return a
    if is_false(a):
        return znot(b)
    if is_false(b):
        return znot(a)
    if a.eq(b):
        return z3.BoolVal(True)
    return a == b


def _install():
    def binop(f, rf):
        def op(self, o):
            if isinstance(o, (SBool, SInt, SReal, int, float, bool, Fraction)):
                return f(self, o)
            return NotImplemented

        def rop(self, o):
            return f(o, self)
        return op, rop
    for cls in (SInt, SReal):
        for name, f in (('add', sadd), ('sub', ssub), ('mul', smul),
                        ('truediv', sdiv), ('floordiv', sfloordiv),
                        ('mod', smod), ('pow', spow)):
            a, b = binop(f, f)
            setattr(cls, '__%s__' % name, a)
            setattr(cls, '__r%s__' % name, b)
        cls.__neg__ = sneg
        cls.__abs__ = sabs
        cls.__lt__ = lambda s, o: _cmp('<', s, o)
        cls.__le__ = lambda s, o: _cmp('<=', s, o)
        cls.__gt__ = lambda s, o: _cmp('<', o, s)
        cls.__ge__ = lambda s, o: _cmp('<=', o, s)
        # == is identity in Python containers; specs use eq()


_install()

# ---------------------------------------------------------------- concrete

T, F, U = 1, -1, 0
EPS = 1e-11


class K3:
    """Kleene truth value."""
    __slots__ = ('v',)

    def __init__(self, v):
        if v is True:
            v = T
        elif v is False:
            v = F
        self.v = v

    def __and__(self, o):
        return land(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return lor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return lnot(self)

    def __bool__(self):
        raise TypeError('K3 used as bool')

    def __repr__(self):
        return 'K3(%s)' % {1: 'T', -1: 'F', 0: 'U'}[self.v]


class Num:
    """Float with an absolute error bound. e == 0 means exact."""
    __slots__ = ('v', 'e')

    def __init__(self, v, e=0.0):
        self.v = v
        self.e = e

    def __repr__(self):
        return 'Num(%r, %.1g)' % (self.v, self.e)

    @staticmethod
    def of(x):
        if isinstance(x, Num):
            return x
        if isinstance(x, K3):
            return Num(1 if x.v == T else 0)
        if isinstance(x, Fraction):
            v = float(x)
            return Num(v, 0.0 if Fraction(v) == x else abs(v) * EPS)
        return Num(x)

    @property
    def isnan(self):
        return self.v != self.v

    def _res(self, v, e, exact):
        if e == 0.0 and exact:
            return Num(v, 0.0)
        if not math.isfinite(v) or not math.isfinite(e):
            return Num(v, math.inf)
        return Num(v, e + abs(v) * EPS)

    def __add__(self, o):
        o = Num.of(o)
        return _num_add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        o = Num.of(o)
        return _num_add(self, Num(-o.v, o.e))

    def __rsub__(self, o):
        return Num.of(o) - self

    def __neg__(self):
        return Num(-self.v, self.e)

    def __mul__(self, o):
        o = Num.of(o)
        try:
            v = self.v * o.v
        except OverflowError:
            return Num(math.inf, math.inf)
        e = abs(self.v) * o.e + abs(o.v) * self.e + self.e * o.e
        if e == 0.0 and math.isfinite(v) and Fraction(self.v) * Fraction(o.v) == Fraction(v):
            return Num(v, 0.0)
        return self._res(v, e, False)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Num.of(o)
        if o.v == 0 or abs(o.v) <= o.e:
            return Num(math.nan if o.v == 0 else self.v / o.v, math.inf)
        v = self.v / o.v
        if self.e == 0.0 and o.e == 0.0 and math.isfinite(v) and Fraction(v) * Fraction(o.v) == Fraction(self.v):
            return Num(v, 0.0)
        d = abs(o.v) - o.e
        e = (self.e + abs(v) * o.e) / d
        return self._res(v, e, False)

    def __rtruediv__(self, o):
        return Num.of(o) / self

    def __pow__(self, n):
        n = Num.of(n)
        if n.e == 0 and float(n.v).is_integer() and 0 <= n.v <= 8:
            r = Num(1)
            for _ in range(int(n.v)):
                r = r * self
            return r
        if self.v > 0:
            try:
                v = self.v ** n.v
            except OverflowError:
                return Num(math.inf, math.inf)
            e = abs(v) * (abs(n.v) * self.e / self.v + abs(math.log(self.v)) * n.e)
            return self._res(v, e, False)
        return Num(math.nan, math.inf)

    def __rpow__(self, o):
        return Num.of(o) ** self

    def __floordiv__(self, o):
        return nfloor(self / o)

    def __mod__(self, o):
        o = Num.of(o)
        return self - o * nfloor(self / o)

    def __abs__(self):
        return Num(abs(self.v), self.e)

    def _c(self, o):
        o = Num.of(o)
        if self.v != self.v or o.v != o.v:
            return None
        if self.v == o.v:
            return 0 if self.e == 0 and o.e == 0 else 'u'
        if not (math.isfinite(self.v) and math.isfinite(o.v)):
            return -1 if self.v < o.v else 1
        tol = self.e + o.e
        d = self.v - o.v
        if abs(d) <= tol:
            return 'u'
        return -1 if d < 0 else 1

    def __lt__(self, o):
        c = self._c(o)
        return K3(F if c is None else U if c == 'u' else T if c == -1 else F)

    def __le__(self, o):
        c = self._c(o)
        return K3(F if c is None else U if c == 'u' else T if c in (-1, 0) else F)

    def __gt__(self, o):
        return Num.of(o).__lt__(self)

    def __ge__(self, o):
        return Num.of(o).__le__(self)


def _num_add(a, b):
    v = a.v + b.v
    e = a.e + b.e
    if e == 0.0 and math.isfinite(v):
        if Fraction(a.v) + Fraction(b.v) == Fraction(v):
            return Num(v, 0.0)
    if not math.isfinite(v):
        return Num(v, math.inf)
    return Num(v, e + (abs(a.v) + abs(b.v) + abs(v)) * EPS)


def nfloor(a):
    a = Num.of(a)
    if not math.isfinite(a.v):
        return Num(a.v, math.inf)
    f = math.floor(a.v)
    if a.e == 0 or (math.floor(a.v - a.e) == f == math.floor(a.v + a.e)):
        return Num(f)
    return Num(f, 1.0)


# ---------------------------------------------------------------- formulas

class Q(Sym):
    """Formula with quantifiers: op in and, or, not, forall, exists."""
    __slots__ = ('op', 'args', 'lo', 'hi', 'fn', 'sort')

    def __init__(self, op, args=(), lo=None, hi=None, fn=None, sort='int'):
        self.op, self.args, self.lo, self.hi, self.fn, self.sort = op, tuple(args), lo, hi, fn, sort

    __and__ = lambda s, o: land(s, o)
    __rand__ = __and__
    __or__ = lambda s, o: lor(s, o)
    __ror__ = __or__
    __invert__ = lambda s: lnot(s)

    def __repr__(self):
        if self.op in ('forall', 'exists'):
            return '%s[%s,%s)' % (self.op, self.lo, self.hi)
        return '%s%s' % (self.op, self.args)


def _isconc(args):
    return any(isinstance(a, K3) for a in args)


def _k(x):
    if isinstance(x, K3):
        return x.v
    return T if x else F


def _flat(args):
    for a in args:
        if isinstance(a, (list, tuple)):
            yield from _flat(a)
        else:
            yield a


def land(*args):
    args = list(_flat(args))
    if _isconc(args):
        return K3(min(_k(a) for a in args))
    if not any(isinstance(a, Sym) for a in args):
        return all(args)
    args = [a if isinstance(a, Sym) else SBool(bool(a)) for a in args]
    if any(isinstance(a, Q) for a in args):
        if any(isinstance(a, SBool) and is_false(a.z) for a in args):
            return SBool(False)
        return Q('and', [a for a in args if not (isinstance(a, SBool) and is_true(a.z))])
    return SBool(zand(*[a.z for a in args]))


def lor(*args):
    args = list(_flat(args))
    if _isconc(args):
        return K3(max(_k(a) for a in args))
    if not any(isinstance(a, Sym) for a in args):
        return any(args)
    args = [a if isinstance(a, Sym) else SBool(bool(a)) for a in args]
    if any(isinstance(a, Q) for a in args):
        if any(isinstance(a, SBool) and is_true(a.z) for a in args):
            return SBool(True)
        return Q('or', [a for a in args if not (isinstance(a, SBool) and is_false(a.z))])
    return SBool(zor(*[a.z for a in args]))


def lnot(a):
    if isinstance(a, K3):
        return K3(-a.v)
    if isinstance(a, SBool):
        return SBool(znot(a.z))
    if isinstance(a, Q):
        return Q('not', [a])
    return not a


def implies(a, b):
    if isinstance(a, bool):
        return b if a else True
    return lor(lnot(a), b)


def iff(a, b):
    if isinstance(a, K3) or isinstance(b, K3):
        x, y = _k(a), _k(b)
        return K3(U if U in (x, y) else T if x == y else F)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, Q) or isinstance(b, Q):
        return land(implies(a, b), implies(b, a))
    return SBool(zbooleq(lift(a).z, lift(b).z))


def _issym(*a):
    return any(isinstance(x, Sym) for x in a)


def _isnum(*a):
    return any(isinstance(x, (Num, K3)) for x in a)


def eq(a, b):
    """Equality of scalars / vectors (NaN equals nothing)."""
    if isinstance(a, (tuple, list)) or hasattr(a, '__veclen__') or \
            isinstance(b, (tuple, list)) or hasattr(b, '__veclen__'):
        assert len(a) == len(b), (a, b)
        return land(*[eq(a[i], b[i]) for i in range(len(a))]) if len(a) else True
    if _isnum(a, b):
        if isinstance(a, K3) and isinstance(b, (K3, bool)) or isinstance(b, K3) and isinstance(a, bool):
            return iff(a if isinstance(a, K3) else K3(a), b if isinstance(b, K3) else K3(b))
        c = Num.of(a)._c(b)
        return K3(F if c is None else U if c == 'u' else T if c == 0 else F)
    if _issym(a, b):
        if isinstance(a, Q) or isinstance(b, Q):
            return iff(a, b)
        return _cmp('==', a, b)
    return a == b


def ne(a, b):
    return lnot(eq(a, b))


def same(a, b):
    """Equality where NaN equals NaN (for frame conditions)."""
    if isinstance(a, (tuple, list)) or hasattr(a, '__veclen__'):
        return land(*[same(a[i], b[i]) for i in range(len(a))])
    if isinstance(a, SReal) or isinstance(b, SReal):
        a, b = to_real(a), to_real(b)
        if a.nan is False and b.nan is False:
            return _cmp('==', a, b)
        na = z3.BoolVal(a.nan) if isinstance(a.nan, bool) else a.nan
        nb = z3.BoolVal(b.nan) if isinstance(b.nan, bool) else b.nan
        return SBool(zor(zand(na, nb), zand(znot(na), znot(nb), a.z == b.z if not a.z.eq(b.z) else z3.BoolVal(True))))
    if isinstance(a, Num) and isinstance(b, Num) and a.isnan and b.isnan:
        return K3(T)
    return eq(a, b)


def isnan(a):
    if isinstance(a, Num):
        return K3(a.isnan)
    a = to_real(a)
    return SBool(a.nan if not isinstance(a.nan, bool) else z3.BoolVal(a.nan))


def ite(c, a, b):
    """c ? a : b on scalars, vectors and formulas"""
    if isinstance(c, bool):
        return a if c else b
    if hasattr(a, '__veclen__') or hasattr(b, '__veclen__'):
        cls = type(a) if hasattr(a, '__veclen__') else type(b)
        return cls(*[ite(c, a[i], b[i]) for i in range(len(a))])
    if isinstance(a, (tuple, list)):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(c, K3):
        if c.v == T:
            return a
        if c.v == F:
            return b
        if isinstance(a, (K3, bool)) and isinstance(b, (K3, bool)):
            return a if _k(a) == _k(b) else K3(U)
        a, b = Num.of(a), Num.of(b)
        if a.isnan or b.isnan:
            return Num(a.v, math.inf)
        return Num(a.v, max(a.e, b.e + abs(a.v - b.v)))
    c = lift(c)
    if isinstance(c, Q):
        raise Unsupported('quantified condition in ite')
    if is_true(c.z):
        return a
    if is_false(c.z):
        return b
    if isinstance(a, Q) or isinstance(b, Q):
        return land(implies(c, a), implies(lnot(c), b))
    a, b = lift(a), lift(b)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return SBool(zor(zand(c.z, a.z), zand(znot(c.z), b.z)))
    if isinstance(a, SReal) or isinstance(b, SReal):
        a, b = to_real(a), to_real(b)
        if a.nan is b.nan and isinstance(a.nan, bool):
            nan = a.nan
        else:
            na = z3.BoolVal(a.nan) if isinstance(a.nan, bool) else a.nan
            nb = z3.BoolVal(b.nan) if isinstance(b.nan, bool) else b.nan
            nan = z3.simplify(zor(zand(c.z, na), zand(znot(c.z), nb)))
        return SReal(zite(c.z, a.z, b.z), nan)
    a, b = to_intish(a), to_intish(b)
    return SInt(zite(c.z, a.z, b.z))


def sqrt(a):
    if isinstance(a, (Num,)):
        if a.isnan or a.v < -a.e:
            return Num(math.nan, 0.0)
        if a.v - a.e < 0 or (a.v == 0 and a.e > 0):
            return Num(math.sqrt(max(a.v, 0.0)), math.sqrt(abs(a.v) + a.e))
        v = math.sqrt(a.v)
        if a.e == 0 and math.isfinite(v) and Fraction(v) ** 2 == Fraction(a.v):
            return Num(v, 0.0)
        return Num(v, (a.e / (2 * v) * 1.5 if v else 0.0) + v * EPS)
    return ssqrt(a)


def root(a):
    """square root in specifications; only meaningful for a >= 0"""
    if isinstance(a, Num):
        return sqrt(a) if a.isnan or a.v + a.e >= 0 else Num(0.0, 0.0)
    if not _issym(a):
        return math.sqrt(max(a, 0.0))
    return SReal(SQRT(to_real(a).z), to_real(a).nan)


def near(a, b):
    """equality in preconditions: concrete inputs may be off by rounding"""
    if hasattr(a, '__veclen__'):
        return land(*[near(x, y) for x, y in zip(a, b)])
    if _isnum(a, b):
        a, b = [x.v if isinstance(x, Num) else float(x) for x in (a, b)]
        return abs(a - b) <= 1e-9 * (1 + abs(a))
    return eq(a, b)


def blur(a, by=1e-10):
    """in specifications on concrete values: a value only known up to rounding"""
    if hasattr(a, '__veclen__'):
        return type(a)(*[blur(x, by) for x in a])
    return Num(a.v, a.e + by * (1 + abs(a.v))) if isinstance(a, Num) else a


def _numfun(f, a, lip=1.0):
    if not math.isfinite(a.v):
        return Num(math.nan, math.inf)
    v = f(a.v)
    if a.e == 0 and a.v == 0:
        return Num(v, 0.0)
    return Num(v, a.e * lip + abs(v) * EPS + EPS * (1 + abs(a.v)))


def sin(a):
    return _numfun(math.sin, a) if isinstance(a, Num) else sfun(SIN, a)


def cos(a):
    return _numfun(math.cos, a) if isinstance(a, Num) else sfun(COS, a)


def exp(a):
    if isinstance(a, Num):
        if a.v > 700:
            return Num(math.inf, math.inf)
        v = math.exp(a.v)
        return Num(v, v * (a.e * 2 + EPS) if a.e < 1 else math.inf)
    return sfun(EXP, a)


def atan2(y, x):
    if isinstance(y, Num) or isinstance(x, Num):
        y, x = Num.of(y), Num.of(x)
        v = math.atan2(y.v, x.v)
        r = math.hypot(x.v, y.v)
        return Num(v, EPS * 4 + ((x.e + y.e) / r if r else (math.inf if x.e + y.e else 0.0)))
    a, b = to_real(y), to_real(x)
    return SReal(ATAN2(a.z, b.z), nanor(a.nan, b.nan))


def pi_like(x):
    return Num(math.pi, 1e-15) if isinstance(x, (Num, K3)) else SReal(PI)


def floor(a):
    if isinstance(a, Num):
        return nfloor(a)
    return sfloor_int(a)


def power(a, b):
    if _isnum(a, b):
        return Num.of(a) ** b
    return spow(a, b)


def smin(a, b):
    return ite(lift_le(a, b), a, b)


def smax(a, b):
    return ite(lift_le(b, a), a, b)


def lift_le(a, b):
    if _isnum(a, b):
        return Num.of(a) <= Num.of(b)
    return _cmp('<=', a, b)


def lt(a, b):
    if _isnum(a, b):
        return Num.of(a) < Num.of(b)
    return _cmp('<', a, b)


le = lift_le


def forall(lo, hi, fn):
    """for all integers lo <= k < hi: fn(k)"""
    return _quant('forall', lo, hi, fn)


def exists(lo, hi, fn):
    return _quant('exists', lo, hi, fn)


def _cint(x):
    if isinstance(x, int):
        return x
    if isinstance(x, Num) and x.e == 0:
        return int(x.v)
    if isinstance(x, SInt):
        return _numval(x.z)
    return None


def _quant(op, lo, hi, fn):
    l, h = _cint(lo), _cint(hi)
    if l is not None and h is not None and (h - l <= 16 or not _issym(lo, hi)):
        vals = [fn(i) for i in range(l, h)]
        if op == 'forall':
            return land(*vals) if vals else True
        return lor(*vals) if vals else False
    if _isnum(lo, hi):
        raise ValueError('inexact quantifier bound')
    return Q(op, (), lo, hi, fn)


def forall_real(fn):
    return Q('forall', (), None, None, fn, sort='real')


def exists_real(fn):
    return Q('exists', (), None, None, fn, sort='real')


# sums over symbolic ranges -------------------------------------------------

class SumReg:
    """Sums over symbolic ranges are uninterpreted applications
    sum!j(n, a1..am) = body_j(0; a) + ... + body_j(n-1; a)."""
    def __init__(self):
        self.by_body = {}
        self.info = {}   # decl name -> (param consts, body, decl)
        self.n = 0


SUMS = SumReg()
ABSTRACT = set()    # specification predicates taken as uninterpreted in the current proof
_ABS = {}


def abstract_pred(name, args, data):
    """an uninterpreted predicate of real args; data: the terms its meaning also depends on"""
    key = (name,) + tuple(z.get_id() for z in data)
    if key not in _ABS:
        f = z3.Function('%s!%d' % (name, len(_ABS)), *([z3.RealSort()] * len(args) + [z3.BoolSort()]))
        _ABS[key] = (f, data)
    return SBool(_ABS[key][0](*args))

KVAR = z3.Int('k!sum')


def int_consts(e):
    out, seen, stack = [], set(), [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.num_args() == 0:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == _I and not t.eq(KVAR):
                    out.append(t)
            else:
                stack.extend(reversed(t.children()))
    return out


def has_kvar(e):
    seen, stack = set(), [e]
    while stack:
        t = stack.pop()
        if t.eq(KVAR):
            return True
        if t.get_id() not in seen:
            seen.add(t.get_id())
            stack.extend(t.children())
    return False


_level = [0]


def _is_zero(z):
    return (z3.is_rational_value(z) and z.numerator_as_long() == 0) or (z3.is_int_value(z) and z.as_long() == 0)


def demorgan(c):
    if z3.is_not(c):
        return c.arg(0)
    if z3.is_and(c):
        return z3.Or(*[demorgan(d) for d in c.children()])
    if z3.is_or(c):
        return z3.And(*[demorgan(d) for d in c.children()])
    return z3.Not(c)


def ordered(z, memo):
    """the term with the arguments of commutative operations in a fixed order, so
    that equal terms built in different orders become the same term"""
    i = z.get_id()
    if i in memo:
        return memo[i]
    ch = [ordered(c, memo) for c in z.children()]
    if not ch:
        memo[i] = z
        return z
    k = z.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        ch.sort(key=lambda c: c.sexpr())
        r = z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch)
    elif k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        ch.sort(key=lambda c: c.sexpr())
        r = ch[0]
        for c in ch[1:]:
            r = r + c if k == z3.Z3_OP_ADD else r * c
    elif k == z3.Z3_OP_EQ:
        ch.sort(key=lambda c: c.sexpr())
        r = ch[0] == ch[1]
    elif k == z3.Z3_OP_ITE:
        c, x, y = ch
        if _is_zero(x) and not _is_zero(y):
            c, x, y = ordered(demorgan(c), memo), y, x
        elif z3.is_not(c) and not _is_zero(y):
            c, x, y = c.arg(0), y, x
        r = z3.If(c, x, y)
    else:
        r = z.decl()(*ch)
    memo[i] = r
    return r


def _whole(z):
    """the integer term equal to a real case distinction over integer literals"""
    if z3.is_rational_value(z):
        return z3.IntVal(z.numerator_as_long()) if z.denominator_as_long() == 1 else None
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE:
        x, y = _whole(z.arg(1)), _whole(z.arg(2))
        if x is not None and y is not None:
            return z3.If(z.arg(0), x, y)
    return None


def _linear(z, memo):
    """integer arithmetic only: no function applications, no reals"""
    i = z.get_id()
    if i not in memo:
        k = z.decl().kind() if z3.is_app(z) else None
        if z.num_args() == 0:
            memo[i] = z3.is_int(z) or z3.is_bool(z)
        else:
            memo[i] = k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_ADD,
                            z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR,
                            z3.Z3_OP_ITE) and all(_linear(c, memo) for c in z.children())
            if memo[i] and k == z3.Z3_OP_MUL:
                memo[i] = sum(_numval(c) is None for c in z.children()) <= 1
    return memo[i]


def _conditions(z, seen, out):
    """conditions of the case distinctions in z that depend on KVAR"""
    if z.get_id() in seen:
        return
    seen.add(z.get_id())
    for c in z.children():
        _conditions(c, seen, out)
    if z.decl().kind() == z3.Z3_OP_ITE and has_kvar(z.arg(0)):
        out.append(z.arg(0))


_split_cache = {}


def split_range(hi, body):
    """body with the conditions that the range 0 <= k < hi decides replaced by
    their value, and ('first' | 'last') when one of them separates that index
    from the rest of the range"""
    key = (hi.get_id(), body.get_id())
    if key in _split_cache:
        return _split_cache[key][0]
    conds, memo = [], {}
    _conditions(body, set(), conds)
    conds = [c for c in conds if _linear(c, memo)]
    where, subs = None, []
    if conds and _linear(hi, memo):
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(KVAR >= 0, KVAR < hi)

        def valid(f):
            s.push()
            s.add(z3.Not(f))
            r = s.check() == z3.unsat
            s.pop()
            return r
        for c in conds:
            if valid(c):
                subs.append((c, z3.BoolVal(True)))
            elif valid(z3.Not(c)):
                subs.append((c, z3.BoolVal(False)))
            elif where is None:
                for w, e in (('last', KVAR == hi - 1), ('first', KVAR == 0)):
                    if valid(c == e) or valid(c == z3.Not(e)):
                        where = w
                        break
    out = z3.simplify(z3.substitute(body, *subs)) if subs else body
    _split_cache[key] = ((out, where), hi, body)
    return out, where


def sum_term(hi, body):
    """sum of body (over KVAR) for KVAR in [0, hi)"""
    body = z3.simplify(body)
    if body.decl().kind() != z3.Z3_OP_ITE:
        body, where = split_range(hi, body)
        zero = z3.RealVal(0) if body.sort() == z3.RealSort() else z3.IntVal(0)
        if where is not None:
            less = z3.simplify(hi - 1)
            if where == 'last':
                one, rest = less, body
            else:
                one, rest = z3.IntVal(0), z3.substitute(body, (KVAR, KVAR + 1))
            # every index but this one: within the remaining range the
            # condition is decided, which the recursive call finds
            return z3.If(hi > 0, z3.simplify(z3.substitute(body, (KVAR, one))) + sum_term(less, rest), zero)
    body = ordered(body, {})
    if z3.is_rational_value(body) and body.numerator_as_long() == 0:
        return z3.RealVal(0)
    if z3.is_int_value(body) and body.as_long() == 0:
        return z3.IntVal(0)
    if body.decl().kind() == z3.Z3_OP_ITE:
        # a condition that does not depend on the index, or that picks one index
        c, x, y = body.children()
        if not has_kvar(c):
            return z3.If(c, sum_term(hi, x), sum_term(hi, y))
        zero = z3.RealVal(0) if x.sort() == z3.RealSort() else z3.IntVal(0)
        if x.eq(zero):
            c, x, y = znot(c), y, x
        if y.eq(zero):
            parts = c.children() if z3.is_and(c) else [c]
            free = [p for p in parts if not has_kvar(p)]
            if free:
                rest = [p for p in parts if has_kvar(p)]
                return z3.If(z3.And(*free), sum_term(hi, z3.If(z3.And(*rest), x, y)), zero)
            for p in parts:
                if z3.is_eq(p) and p.arg(0).sort() == _I:
                    for a, t in ((p.arg(0), p.arg(1)), (p.arg(1), p.arg(0))):
                        if a.eq(KVAR) and not has_kvar(t):
                            rest = [q for q in parts if not q.eq(p)]
                            v = z3.substitute(z3.If(z3.And(*rest), x, y) if rest else x, (KVAR, t))
                            return z3.If(z3.And(t >= 0, t < hi), z3.simplify(v), zero)
    if body.sort() == z3.RealSort():
        whole = _whole(body)
        if whole is not None:
            return z3.ToReal(sum_term(hi, whole))
    ps = int_consts(body)
    ph = [z3.Int('sp!%d' % i) for i in range(len(ps))]
    ab = z3.substitute(body, *zip(ps, ph)) if ps else body
    key = ab.get_id()
    if key not in SUMS.by_body:
        d = z3.Function('sum!%d' % SUMS.n, *([_I] * (1 + len(ps)) + [body.sort()]))
        SUMS.n += 1
        SUMS.by_body[key] = d
        SUMS.info[d.name()] = (ph, ab, d)
    return SUMS.by_body[key](hi, *ps)


def sum_parts(app):
    """(hi, body) of a sum application"""
    ph, ab, d = SUMS.info[app.decl().name()]
    args = app.children()
    body = z3.substitute(ab, *zip(ph, args[1:])) if ph else ab
    return args[0], body


def Sum(lo, hi, fn):
    """sum of fn(k) for lo <= k < hi (0 when the range is empty)"""
    l, h = _cint(lo), _cint(hi)
    if l is not None and h is not None and (h - l <= 64 or not _issym(lo, hi)):
        r = None
        for i in range(l, h):
            v = fn(i)
            r = v if r is None else r + v
        if r is None:
            return 0
        return r
    lo, hi = lift(lo), lift(hi)
    # nested sums: the index of this one, until its body is complete
    own = z3.Int('k!sum%d' % _level[0])
    k = SInt(own) if l == 0 else sadd(lo, SInt(own))
    _level[0] += 1
    try:
        body = to_intish(fn(k))
    finally:
        _level[0] -= 1
    z = z3.substitute(body.z, (own, KVAR))
    if isinstance(body, SInt):
        return SInt(sum_term(z3.simplify(ssub(hi, lo).z), z))
    if body.nan is not False:
        raise Unsupported('sum of possibly NaN terms')
    return SReal(sum_term(z3.simplify(ssub(hi, lo).z), z))


# ---------------------------------------------------------------- vectors

class V2:
    """2-D vector of scalars in specifications."""
    __veclen__ = 2
    __slots__ = ('x', 'y')

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __len__(self):
        return 2

    def __getitem__(self, i):
        return (self.x, self.y)[i]

    def __iter__(self):
        return iter((self.x, self.y))

    def __add__(self, o):
        return V2(self.x + o[0], self.y + o[1])

    def __sub__(self, o):
        return V2(self.x - o[0], self.y - o[1])

    def __mul__(self, k):
        return V2(self.x * k, self.y * k)
    __rmul__ = __mul__

    def __truediv__(self, k):
        return V2(self.x / k, self.y / k)

    def __neg__(self):
        return V2(-self.x, -self.y)

    def __repr__(self):
        return 'V2(%s, %s)' % (self.x, self.y)


def dot2(a, b):
    return a[0] * b[0] + a[1] * b[1]


def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def norm2(a):
    return sqrt(a[0] * a[0] + a[1] * a[1])


# ----------------------------------------------------- opaque spec functions

OPAQUE = {}     # decl name -> (placeholder constants, body term)


def _flat_args(x, out):
    if isinstance(x, (tuple, list)) or hasattr(x, '__veclen__'):
        for i in range(len(x)):
            _flat_args(x[i], out)
    else:
        out.append(x)


def _rebuild(x, it):
    if hasattr(x, '__veclen__'):
        return type(x)(*[_rebuild(x[i], it) for i in range(len(x))])
    if isinstance(x, (tuple, list)):
        return tuple(_rebuild(y, it) for y in x)
    return next(it)


def opaque(name, fn):
    """specification function kept folded in obligations: its definition is
    used only when a proof does not go through without it"""
    def call(*args):
        flat = []
        _flat_args(args, flat)
        if _isnum(*flat) or not _issym(*flat):
            return fn(*args)
        flat = [lift(x) for x in flat]
        flat = [x if isinstance(x, SBool) else to_real(x) if isinstance(x, SReal) else x for x in flat]
        if any(isinstance(x, SReal) and x.nan is not False for x in flat):
            return fn(*args)
        # integer literals count as reals
        flat = [to_real(x) if isinstance(x, SInt) and _numval(x.z) is not None else x for x in flat]
        sig = ''.join({SReal: 'r', SInt: 'i', SBool: 'b'}[type(x)] for x in flat)
        base = '%s:%s' % (name, sig)
        if base not in OPAQUE:
            ph = [z3.Const('op!%s!%d' % (base, i), x.z.sort()) for i, x in enumerate(flat)]
            body = fn(*_rebuild(tuple(args), iter([type(x)(p) for x, p in zip(flat, ph)])))
            comps = []
            _flat_args((body,), comps)
            comps = [lift(c) for c in comps]
            if any(isinstance(c, SReal) and c.nan is not False for c in comps):
                raise Unsupported('opaque function with NaN result')
            decls = []
            for j, c in enumerate(comps):
                d = z3.Function('%s#%d' % (base, j), *([p.sort() for p in ph] + [c.z.sort()]))
                OPAQUE[d.name()] = (ph, c.z)
                decls.append((d, type(c)))
            OPAQUE[base] = (decls, body)
        decls, body = OPAQUE[base]
        zs = [x.z for x in flat]
        return _rebuild((body,), iter([t(d(*zs)) for d, t in decls]))[0]
    call.unfolded = fn
    return call


def chosen(name, shape, concrete):
    """the (unspecified) choice a deterministic function makes among the results
    its contract allows: an uninterpreted function of its arguments in proofs,
    `concrete` on concrete values"""
    def call(*args):
        flat = []
        _flat_args(args, flat)
        if _isnum(*flat) or not _issym(*flat):
            return concrete(*args)
        flat = [to_real(lift(x)) for x in flat]
        zs = [x.z for x in flat]
        k = [0]

        def build(t):
            if isinstance(t, tuple):
                return tuple(build(x) for x in t)
            if t == 'v':
                return V2(build('r'), build('r'))
            d = z3.Function('choice:%s#%d' % (name, k[0]), *([z3.RealSort()] * (len(zs) + 1)))
            k[0] += 1
            return SReal(d(*zs))
        return build(shape)
    return call


def unfold(fs):
    """replace applications of opaque functions by their definitions"""
    memo = {}

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i][0]
        r = e
        if z3.is_app(e) and e.num_args():
            ch = e.children()
            new = [go(c) for c in ch]
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in OPAQUE:
                ph, body = OPAQUE[e.decl().name()]
                r = go(z3.substitute(body, *zip(ph, new)))
            elif any(not a.eq(b) for a, b in zip(ch, new)):
                r = z3.substitute(e, *[(a, b) for a, b in zip(ch, new) if not a.eq(b)])
        memo[i] = (r, e)
        return r
    return [go(f) for f in fs]


def has_opaque(fs):
    seen, stack = set(), list(fs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in OPAQUE:
                return True
            stack.extend(e.children())
    return False


def lift_abs(x):
    return abs(x) if isinstance(x, (Num, int, float)) else sabs(x)
