"""Mathematical specification functions shared by the contracts."""
from pyvc.contract import (ArrView, Arr, ArrT, Bool, BoolT, ConstT, Contract, Eff, Int, IntT, NS, NoneV, NoneT, Real, RealN,
                           RealT, RecT, RecView, SeqT, Rows2, TupT, Vec2, contract, REG)
from pyvc.core import (K3, blur, near, root, Num, PI, SBool, SInt, SReal, Sum, TWOPIK, TWO_PI, V2, atan2, cos, cross2, dot2, eq, exists,
                       exists_real, exp, floor, forall, forall_real, iff, implies, isnan, ite, land, le, lift, lnot, lor,
                       lt, ne, norm2, pi_like, power, same, sin, smax, smin, sqrt)
import pyvc.core as C

PROPS = {}


def prop(id, *keys, lemmas=(), note='', drivers=(), assume=()):
    """keys: functions whose contracts state the property; drivers: names of
    run-time contract modules in rt/ (bounded, never counted as proof). A property
    with drivers only is decided at level 'exploration'."""
    PROPS[id] = dict(keys=list(keys), lemmas=list(lemmas), note=note, assume=list(assume),
                     drivers=[(d, rt_driver(d)) for d in drivers], level='proof' if keys or lemmas else 'exploration')


def rt_driver(name):
    def drv(worker, seed, seconds, tier, bad):
        r = worker.call({'driver': name, 'seed': seed, 'seconds': seconds, 'tier': tier}, timeout=seconds + 60)
        if 'error' in r or r.get('timeout'):
            raise RuntimeError('driver %s: %s' % (name, r))
        v = r['violation']
        if v is not None:
            v = dict(module=name, args=v['case'], bad=v['bad'], obligation=v['bad'][0][0])
        return v, {k: r.get(k) for k in ('runs', 'distinct', 'sample', 'rule', 'exhausted', 'skipped')}
    return drv


def vrows(n, f):
    """(n, 2) array whose row k is the vector f(k)"""
    def get(i):
        v = f(i[0])
        if isinstance(i[1], int):
            return v[i[1]]
        return ite(eq(i[1], 0), v[0], v[1])
    return ArrView((n, 2), get)


def vec(n, f):
    return ArrView((n,), lambda i: f(i[0]))


def zero():
    return V2(0.0, 0.0)


def _unit(v):
    """v/|v|, the zero vector for the zero vector"""
    l = norm2(v)
    return ite(eq(l, 0.0), V2(v.x * 0.0, v.y * 0.0), V2(sdiv(v.x, l), sdiv(v.y, l)))


unit_of = C.opaque('unit', _unit)


def sdiv(a, b):
    """division in specifications; only meaningful where b != 0"""
    if isinstance(b, (int, float)) and b == 0:
        return a * 0.0
    return a / b


def two_pi_times(k, like):
    if isinstance(like, (Num, K3)):
        k = k if isinstance(k, Num) else Num(k)
        return k * (2 * pi_like(like))
    return SReal(TWOPIK(lift(k).z))


def wrap(x):
    """the representative of x modulo 2 pi in [-pi, pi]"""
    pi = pi_like(x)
    q = floor(x / (2 * pi))
    r = x - two_pi_times(q, x)
    return ite(land(x < 0, eq(r, pi)), -pi, ite(r > pi, r - 2 * pi, r))


def rot90(v):
    return V2(-v.y, v.x)


def rot270(v):
    return V2(v.y, -v.x)
