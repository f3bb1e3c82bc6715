"""Executor-level values: heap contents, array references, records, sequences."""
import z3

from . import core as C
from .core import SBool, SInt, SReal, Sym, Unsupported, lift

ZERO = {'f8': lambda: SReal(z3.RealVal(0)), 'i8': lambda: SInt(0), 'b1': lambda: SBool(False)}
SORT = {'f8': z3.RealSort(), 'i8': z3.IntSort(), 'b1': z3.BoolSort()}


def cint(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SInt):
        return C._numval(x.z)
    return None


def norm_int(x):
    """python int if concrete, else SInt"""
    c = cint(x)
    if c is not None:
        return c
    if isinstance(x, SInt):
        s = x.z
        if z3.is_app(s) and s.num_args() > 0:
            t = z3.simplify(s)
            n = C._numval(t)
            if n is not None:
                return n
        return x
    if isinstance(x, SBool):
        return C.to_intish(x)
    raise Unsupported('not an integer index: %r' % (x,))


def zint(x):
    return z3.IntVal(x) if isinstance(x, int) else x.z


def coerce(v, dtype):
    v = lift(v)
    if dtype == 'f8':
        return C.to_real(v)
    if dtype == 'i8':
        if isinstance(v, SReal):
            raise Unsupported('real stored in integer array')
        return C.to_intish(v)
    if dtype == 'b1':
        if isinstance(v, SBool):
            return v
        return SBool(C._cmp('!=', v, 0).z)
    return v


class Content:
    """immutable array contents"""
    __slots__ = ('shape', 'dtype', 'fn', 'cells', '_memo')

    def __init__(self, shape, dtype, fn=None, cells=None):
        self.shape, self.dtype, self.fn, self.cells = tuple(shape), dtype, fn, cells
        self._memo = {}

    def get(self, idx):
        idx = tuple(norm_int(i) for i in idx)
        assert len(idx) == len(self.shape), (idx, self.shape)
        if self.cells is not None:
            if all(isinstance(i, int) for i in idx):
                if idx not in self.cells:
                    raise IndexError(idx)
                return self.cells[idx]
            # symbolic index into concrete array: ite chain
            items = sorted(self.cells.items())
            v = items[-1][1]
            for k, c in reversed(items[:-1]):
                cond = C.zand(*[zint(a) == b for a, b in zip(idx, k) if not (isinstance(a, int) and a == b)]) \
                    if all(not isinstance(a, int) or a == b for a, b in zip(idx, k)) else z3.BoolVal(False)
                v = C.ite(SBool(cond), c, v)
            return v
        key = tuple(i if isinstance(i, int) else ('z', i.z.get_id()) for i in idx)
        m = self._memo.get(key)
        if m is None:
            v = coerce(self.fn(idx), self.dtype)
            self._memo[key] = m = (v, idx)
        return m[0]

    def store(self, idx, val):
        idx = tuple(norm_int(i) for i in idx)
        val = coerce(val, self.dtype)
        if self.cells is not None:
            cells = dict(self.cells)
            if all(isinstance(i, int) for i in idx):
                if idx not in cells:
                    raise IndexError(idx)
                cells[idx] = val
            else:
                for k in cells:
                    cond = C.zand(*[zint(a) == b for a, b in zip(idx, k)])
                    cells[k] = C.ite(SBool(z3.simplify(cond)), val, cells[k])
            return Content(self.shape, self.dtype, cells=cells)
        old = self

        def fn(j):
            cond = idx_eq(idx, j)
            if cond is True:
                return val
            if cond is False:
                return old.get(j)
            return C.ite(SBool(cond), val, old.get(j))
        return Content(self.shape, self.dtype, fn)

    def update(self, newfn):
        """general functional update: newfn(idx, oldvalue) -> value"""
        if self.cells is not None:
            return Content(self.shape, self.dtype,
                           cells={k: coerce(newfn(k, v), self.dtype) for k, v in self.cells.items()})
        old = self
        return Content(self.shape, self.dtype, lambda j: newfn(j, old.get(j)))


def idx_eq(a, b):
    """True / False / z3 condition that two index tuples are equal"""
    cs = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
            continue
        zx, zy = zint(x), zint(y)
        if zx.eq(zy):
            continue
        e = z3.simplify(zx == zy)
        if z3.is_false(e):
            return False
        if z3.is_true(e):
            continue
        cs.append(zx == zy)
    if not cs:
        return True
    return C.zand(*cs)


def small_concrete(shape):
    n = 1
    for s in shape:
        c = cint(s)
        if c is None:
            return False
        n *= c
    return n <= 64


def indices(shape):
    out = [()]
    for s in shape:
        out = [o + (i,) for o in out for i in range(cint(s))]
    return out


def make_content(shape, dtype, fn):
    shape = tuple(norm_int(s) for s in shape)
    if small_concrete(shape):
        return Content(shape, dtype, cells={i: coerce(fn(i), dtype) for i in indices(shape)})
    return Content(shape, dtype, fn)


class DType:
    def __init__(self, name, fields=None):
        self.name, self.fields = name, fields

    def __repr__(self):
        return 'DType(%s)' % self.name


class ArrRef:
    """view of a heap array. dims: per base dimension ('i', idx) or ('d', off, len)"""
    __slots__ = ('key', 'dims', 'dtype', 'readonly')

    def __init__(self, key, dims, dtype, readonly=False):
        self.key, self.dims, self.dtype, self.readonly = key, tuple(dims), dtype, readonly

    @property
    def shape(self):
        return tuple(d[2] for d in self.dims if d[0] == 'd')

    def base_index(self, idx):
        it = iter(idx)
        out = []
        for d in self.dims:
            if d[0] == 'i':
                out.append(d[1])
            else:
                i = next(it)
                off = d[1]
                out.append(i if isinstance(off, int) and off == 0 else norm_int(C.sadd(i, off)))
        return tuple(out)

    def __repr__(self):
        return 'ArrRef(%s,%s)' % (self.key, self.shape)


class RecArr:
    __slots__ = ('id', 'n', 'dt', 'off')

    def __init__(self, id, n, dt, off=0):
        self.id, self.n, self.dt, self.off = id, n, dt, off

    def __repr__(self):
        return 'RecArr(%s,%s,%s)' % (self.id, self.n, self.dt.name)


class RecRow:
    __slots__ = ('rec', 'idx')

    def __init__(self, rec, idx):
        self.rec, self.idx = rec, idx


class RecSel:
    """agents[mask]: selection of records (a copy when read)"""
    __slots__ = ('rec', 'sel', 'heap')

    def __init__(self, rec, sel, heap):
        self.rec, self.sel, self.heap = rec, sel, heap


class Obj:
    """instance of a repository class (heap object)"""
    __slots__ = ('id', 'cls')

    def __init__(self, id, cls):
        self.id, self.cls = id, cls

    def __repr__(self):
        return 'Obj(%s,%s)' % (self.id, self.cls)


class PList:
    """python list on the heap"""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class PDict:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Native:
    """engine-level callable: fn(ex, args, kwargs)"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Native(%s)' % self.name


class Seq:
    """immutable iterable with symbolic or concrete length"""
    __slots__ = ('n', 'get', 'src')

    def __init__(self, n, get, src=()):
        self.n, self.get, self.src = n, get, src


class Poison:
    def __init__(self, why):
        self.why = why


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


ELLIPSIS = object()


class PyRaise(Exception):
    """definite raise of a Python exception on the current path"""
    def __init__(self, exc, args=()):
        self.exc, self.args_ = exc, args
        Exception.__init__(self, str(exc))
