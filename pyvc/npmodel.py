"""Meaning given to the builtins, numpy and the other libraries the verified
functions call (the trusted model of the libraries)."""
import ast
import builtins as _bi

import z3

from . import core as C
from . import solve
from .core import SBool, SInt, SReal, Q, Sym, Unsupported, lift
from .source import Ext, FuncVal, ClassVal, Module
from .values import (ArrRef, Bound, Content, DType, ELLIPSIS, Native, Obj, PDict, PList, Poison, PyRaise, RecArr,
                     RecRow, Seq, Slice, ZERO, cint, coerce, indices, make_content, norm_int, small_concrete, zint)
from .execu import Out, State, Frame, is_scalar, vsub, vmap, fid

DT = {'f8': DType('f8'), 'i8': DType('i8'), 'b1': DType('b1')}


class ArrSel:
    """a[mask]: the elements of a where mask holds, in order"""
    is_sel = True

    def __init__(self, shape, dtype, get, mask, n, maskid):
        self.shape, self.dtype, self.get, self.mask, self.n, self.maskid = shape, dtype, get, mask, n, maskid


class RecMasked:
    """agents[mask]: a copy of the selected records"""
    def __init__(self, fields):
        self.fields = fields

    def getitem(self, ex, st, idx, node):
        if idx not in self.fields if isinstance(idx, str) else True:
            raise Unsupported('part of selected records')
        return self.fields[idx]


class TypeObj:
    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return 'TypeObj(%s)' % self.kind


class Opaque:
    """value of a library object the model knows only by name"""
    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


def result_dtype(a, b, op):
    if op == 'Div':
        return 'f8'
    if op in ('BitAnd', 'BitOr', 'BitXor') and a == 'b1' and b == 'b1':
        return 'b1'
    if 'f8' in (a, b):
        return 'f8'
    return 'i8'


def scalar_dtype(v):
    v = lift(v)
    return 'f8' if isinstance(v, SReal) else 'i8' if isinstance(v, SInt) else 'b1'


class ArrRefOps:
    pass


FUNCS = {}


def ext(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


class Natives:
    def __init__(self):
        self.draws = []

    # ------------------------------------------------------------ sequences
    def sequence(self, ex, st, v):
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return Seq(len(v), lambda i: self._tget(ex, v, i))
        if isinstance(v, PList):
            c = st.heap[v.id]
            if c[0] == 'list':
                items = c[1]
                return Seq(len(items), lambda i: self._tget(ex, items, i))
            if c[0] == 'seq':
                return c[1]
            raise Unsupported('iteration over a list under construction')
        if isinstance(v, PDict):
            c = st.heap[v.id]
            if c[0] == 'dict':
                keys = [k for k, _ in c[1]]
                return Seq(len(keys), lambda i: keys[i])
            raise Unsupported('iteration over a symbolic dict')
        if isinstance(v, ArrRef):
            n = v.shape[0]
            s = Seq(n, lambda i: self.arr_row(ex, st, v, norm_int(i)))
            if len(v.shape) == 1:
                s.src = (v.key,)
            return s
        if isinstance(v, RecArr):
            return Seq(v.n, lambda i: RecRow(v, norm_int(i)))
        if isinstance(v, str):
            return Seq(len(v), lambda i: v[i])
        if isinstance(v, ArrSel):
            return self.sequence(ex, st, self.materialise(ex, st, v))
        h = getattr(v, 'sequence', None)
        if h is not None:
            return h(ex, st)
        return None

    @staticmethod
    def _tget(ex, items, i):
        i = norm_int(i)
        if isinstance(i, int):
            return items[i]
        if all(is_scalar(x) for x in items) and items:
            v = lift(items[-1])
            for k in range(len(items) - 2, -1, -1):
                v = C.ite(SBool(i.z == k), items[k], v)
            return v
        if all(isinstance(x, ArrRef) for x in items) and items:
            raise Unsupported('symbolic index of a tuple of arrays')
        raise Unsupported('symbolic index into a tuple')

    def arr_row(self, ex, st, v, i):
        """v[i] without bounds obligation"""
        dims = []
        done = False
        for d in v.dims:
            if d[0] == 'd' and not done:
                done = True
                dims.append(('i', norm_int(C.sadd(i, d[1])) if not (isinstance(d[1], int) and d[1] == 0) else i))
            else:
                dims.append(d)
        r = ArrRef(v.key, dims, v.dtype, v.readonly)
        if not r.shape:
            return st.heap[r.key].get(r.base_index(()))
        return r

    # ---------------------------------------------------------------- arrays
    def as_array(self, ex, st, v):
        """(shape, dtype, get) of an array-like"""
        if isinstance(v, ArrRef):
            return v.shape, v.dtype, ex.arr_fn(st, v)
        if is_scalar(v):
            return (), scalar_dtype(v), lambda i: lift(v)
        if isinstance(v, ArrSel):
            return self.as_array(ex, st, self.materialise(ex, st, v))
        if isinstance(v, (tuple, PList)):
            seq = self.sequence(ex, st, v)
            n = norm_int(seq.n)
            if isinstance(n, int):
                items = [self.as_array(ex, st, seq.get(i)) for i in range(n)]
                if not items:
                    return (0,), 'f8', lambda i: ZERO['f8']()
                sh = items[0][0]
                for it in items:
                    if len(it[0]) != len(sh):
                        raise Unsupported('ragged array')
                    for p, q in zip(it[0], sh):
                        ex.same_dim(st, p, q)
                dts = [it[1] for it in items]
                dt = 'f8' if 'f8' in dts else 'i8' if 'i8' in dts else 'b1'

                def get(i):
                    k = norm_int(i[0])
                    if isinstance(k, int):
                        return coerce(items[k][2](i[1:]), dt)
                    v = coerce(items[-1][2](i[1:]), dt)
                    for m in range(n - 2, -1, -1):
                        v = C.ite(SBool(k.z == m), coerce(items[m][2](i[1:]), dt), v)
                    return v
                return (n,) + tuple(sh), dt, get
            probe = seq.get(SInt(ex.fresh_z(z3.IntSort(), 'probe')))
            if is_scalar(probe):
                return (n,), scalar_dtype(probe), lambda i: lift(seq.get(i[0]))
            if isinstance(probe, ArrRef):
                return (n,) + probe.shape, probe.dtype, lambda i: self._elem(ex, st, seq.get(i[0]), i[1:])
            if isinstance(probe, tuple) and all(is_scalar(p) for p in probe):
                dts = [scalar_dtype(p) for p in probe]
                dt = 'f8' if 'f8' in dts else 'i8'
                return (n, len(probe)), dt, lambda i: coerce(self._tget(ex, seq.get(i[0]), i[1]), dt)
        raise Unsupported('array from %r' % (v,))

    def _elem(self, ex, st, ref, idx):
        return st.heap[ref.key].get(ref.base_index(idx))

    def broadcast(self, ex, st, shapes, node=None):
        r = max(len(s) for s in shapes)
        out = []
        for k in range(r):
            dims = [s[len(s) - r + k] for s in shapes if len(s) - r + k >= 0]
            big = [d for d in dims if not (isinstance(d, int) and d == 1)]
            if not big:
                out.append(1)
                continue
            for d in big[1:]:
                ex.same_dim(st, big[0], d, node)
            conc = [d for d in big if isinstance(d, int)]
            out.append(conc[0] if conc else big[0])
        return tuple(out)

    @staticmethod
    def bidx(shape, idx):
        """index of a broadcast operand"""
        off = len(idx) - len(shape)
        return tuple(0 if (isinstance(d, int) and d == 1) else idx[off + k] for k, d in enumerate(shape))

    def elementwise(self, ex, st, args, fn, dtype, node=None):
        ars = [self.as_array(ex, st, a) for a in args]
        shape = self.broadcast(ex, st, [a[0] for a in ars], node)
        if not shape:
            return coerce(fn(*[a[2](()) for a in ars]), dtype)
        return ex.alloc(st, shape, dtype, lambda i: fn(*[a[2](self.bidx(a[0], i)) for a in ars]))

    def arr_binop(self, ex, st, op, a, b, node):
        if isinstance(a, ArrSel) or isinstance(b, ArrSel):
            return self.sel_binop(ex, st, op, a, b, node)
        if op == 'MatMult':
            raise Unsupported('matrix product')
        x, y = self.as_array(ex, st, a), self.as_array(ex, st, b)
        dt = result_dtype(x[1], y[1], op)
        shape = self.broadcast(ex, st, [x[0], y[0]], node)
        if op in ('Div', 'FloorDiv', 'Mod') and not ex.opt.get('allow_div0'):
            self.nonzero_all(ex, st, y, node)
        if not shape:
            return ex.scalar_op(op, x[2](()), y[2](()), st, node, check=False)
        return ex.alloc(st, shape, dt,
                        lambda i: ex.scalar_op(op, x[2](self.bidx(x[0], i)), y[2](self.bidx(y[0], i)), st, node,
                                               check=False))

    def nonzero_all(self, ex, st, y, node):
        shape, _, get = y
        if not shape:
            ex.div_check(st, get(()), node)
            return
        if small_concrete(shape):
            for i in indices(shape):
                ex.div_check(st, get(i), node)
            return
        ex.oblige(st, 'division by zero impossible', self.forall_idx(shape, lambda i: C.ne(get(i), 0)), node=node)

    @staticmethod
    def forall_idx(shape, fn):
        def rec(k, idx):
            if k == len(shape):
                return solve.lift_formula(fn(tuple(idx)))
            return C.forall(0, shape[k], lambda j: rec(k + 1, idx + [norm_int(j)]))
        return rec(0, [])

    @staticmethod
    def exists_idx(shape, fn):
        def rec(k, idx):
            if k == len(shape):
                return solve.lift_formula(fn(tuple(idx)))
            return C.exists(0, shape[k], lambda j: rec(k + 1, idx + [norm_int(j)]))
        return rec(0, [])

    def sel_binop(self, ex, st, op, a, b, node):
        def part(v):
            if isinstance(v, ArrSel):
                return v
            if is_scalar(v):
                return None
            raise Unsupported('operation on a selection')
        sa, sb = part(a), part(b)
        s = sa or sb
        if sa and sb and sa.maskid != sb.maskid:
            raise Unsupported('operation on different selections')
        ga = sa.get if sa else (lambda i: lift(a))
        gb = sb.get if sb else (lambda i: lift(b))
        da, db = (sa.dtype if sa else scalar_dtype(a)), (sb.dtype if sb else scalar_dtype(b))
        if op in ('Div', 'FloorDiv', 'Mod') and not ex.opt.get('allow_div0'):
            ex.oblige(st, 'division by zero impossible', self.forall_idx(
                s.shape, lambda i: C.implies(s.mask(i[:1]), C.ne(gb(i), 0))), node=node)
        return ArrSel(s.shape, result_dtype(da, db, op),
                      lambda i: ex.scalar_op(op, ga(i), gb(i), st, node, check=False), s.mask, s.n, s.maskid)

    def arr_compare(self, ex, st, op, a, b, node):
        def f(x, y):
            if op == '>':
                return C._cmp('<', y, x)
            if op == '>=':
                return C._cmp('<=', y, x)
            return C._cmp(op, x, y)
        return self.elementwise(ex, st, [a, b], f, 'b1', node)

    def materialise(self, ex, st, s):
        """compress a selection: order-preserving enumeration of the selected indices"""
        key = ('sel', s.maskid)
        cache = ex.__dict__.setdefault('_sels', {})
        n = s.shape[0]
        if s.maskid not in cache:
            m = SInt(ex.fresh_z(z3.IntSort(), 'nsel'))
            sel = ex.fresh_fun('i8', 1, 'sel')
            rank = ex.fresh_fun('i8', 1, 'rank')
            cache[s.maskid] = (m, sel, rank, s.mask, n)
            ex.nonneg.add(m.z.get_id())
            ex.__dict__.setdefault('_keep', []).append(m)
        m, sel, rank, mask, _ = cache[s.maskid]
        told = ex.__dict__.setdefault('_seltold', {}).setdefault(s.maskid, [])
        pc = [fid(p) for p in st.pc]
        if not any(pc[:len(t)] == t for t in told):
            if not ex.loopvars:
                told.append(pc)
            ex.fact(st, C.land(C.le(0, m), C.le(m, n)))
            ex.fact(st, C.forall(0, m, lambda k: C.land(C.le(0, sel((k,))), C.lt(sel((k,)), n), mask((sel((k,)),)),
                                                        C.eq(rank((sel((k,)),)), k))))
            ex.fact(st, C.forall(0, n, lambda j: C.implies(mask((j,)), C.land(
                C.le(0, rank((j,))), C.lt(rank((j,)), m), C.eq(sel((rank((j,)),)), j)))))
            ex.fact(st, C.forall(0, m, lambda k: C.forall(0, m, lambda l: C.implies(
                C.lt(k, l), C.lt(sel((k,)), sel((l,)))))))
        get = s.get
        return ex.alloc(st, (m,) + tuple(s.shape[1:]), s.dtype, lambda i: get((norm_int(sel(i[:1])),) + tuple(i[1:])))

    # --------------------------------------------------------------- indexing
    def slice_bounds(self, ex, st, s, n):
        step = s.step
        if step is not None and cint(step) != 1:
            raise Unsupported('slice step')

        def bound(v, default):
            if v is None:
                return default
            v = norm_int(v)
            if isinstance(v, int) and isinstance(n, int):
                return max(0, min(n, v + n if v < 0 else v))
            if isinstance(v, int):
                if v == 0:
                    return 0
                if v < 0:
                    w = norm_int(C.sadd(n, v))
                    if ex.entails(st, C.le(0, w)):
                        return w
                    return norm_int(C.ite(C.le(0, w), w, 0))
                if ex.entails(st, C.le(v, n)):
                    return v
                return norm_int(C.ite(C.le(v, n), v, lift(n)))
            if not (v.z.get_id() in ex.nonneg or ex.entails(st, C.le(0, v))):
                raise Unsupported('possibly negative slice bound')
            if isinstance(n, SInt) and v.z.eq(n.z):
                return n
            if ex.entails(st, C.le(v, n)):
                return v
            return norm_int(C.ite(C.le(v, n), v, lift(n)))
        lo, hi = bound(s.lo, 0), bound(s.hi, n)
        if isinstance(lo, int) and lo == 0:
            return lo, hi
        ln = norm_int(C.ssub(hi, lo))
        if isinstance(ln, int):
            return lo, max(0, ln)
        if not ex.entails(st, C.le(0, ln)):
            ln = norm_int(C.ite(C.le(0, ln), ln, 0))
        return lo, ln

    def expand_index(self, idx, rank):
        ii = idx if isinstance(idx, tuple) else (idx,)
        if any(i is ELLIPSIS for i in ii):
            k = [i is ELLIPSIS for i in ii].index(True)
            ii = ii[:k] + (Slice(None, None, None),) * (rank - len(ii) + 1) + ii[k + 1:]
        return ii

    def arr_view(self, ex, st, base, ii, node):
        dims, it = [], iter(ii)
        used = 0
        if len(ii) > len(base.shape):
            raise PyRaise('IndexError')
        for d in base.dims:
            if d[0] == 'i':
                dims.append(d)
                continue
            try:
                i = next(it)
            except StopIteration:
                dims.append(d)
                continue
            used += 1
            off, n = d[1], d[2]
            if isinstance(i, Slice):
                lo, ln = self.slice_bounds(ex, st, i, n)
                dims.append(('d', off if isinstance(lo, int) and lo == 0 else norm_int(C.sadd(off, lo)), ln))
            else:
                j = ex.index(st, i, n, node)
                dims.append(('i', j if isinstance(off, int) and off == 0 else norm_int(C.sadd(j, off))))
        return ArrRef(base.key, dims, base.dtype, base.readonly)

    def is_mask(self, i):
        return isinstance(i, ArrRef) and i.dtype == 'b1' or (isinstance(i, PList))

    def getitem(self, ex, st, base, idx, node=None):
        if isinstance(base, ArrRef):
            ii = self.expand_index(idx, len(base.shape))
            if any(isinstance(i, (ArrRef, PList, ArrSel)) for i in ii):
                return self.fancy_get(ex, st, base, ii, node)
            if any(i is None for i in ii):
                raise Unsupported('newaxis')
            if not all(isinstance(i, Slice) or is_scalar(i) for i in ii):
                raise Unsupported('index %r' % (ii,))
            r = self.arr_view(ex, st, base, ii, node)
            if not r.shape:
                return st.heap[r.key].get(r.base_index(()))
            return r
        if isinstance(base, RecArr):
            if isinstance(idx, str):
                return self.rec_field(base, None, idx)
            if isinstance(idx, Slice):
                lo, ln = self.slice_bounds(ex, st, idx, base.n)
                if isinstance(lo, int) and lo == 0:
                    return RecArr(base.id, ln, base.dt, base.off)
                return RecArr(base.id, ln, base.dt, norm_int(C.sadd(base.off, lo)))
            if is_scalar(idx):
                return RecRow(base, ex.index(st, idx, base.n, node))
            if idx is ELLIPSIS:
                return base
            if isinstance(idx, ArrRef) and idx.dtype == 'b1' and len(idx.shape) == 1:
                return RecMasked({f: self.getitem(ex, st, self.rec_field(base, None, f), idx, node) for f in base.dt.fields})
            raise Unsupported('record selection')
        if isinstance(base, RecRow):
            if isinstance(idx, str):
                r = self.rec_field(base.rec, base.idx, idx)
                if not r.shape:
                    return st.heap[r.key].get(r.base_index(()))
                return r
            raise Unsupported('record index')
        if isinstance(base, (tuple, str)):
            if isinstance(idx, Slice):
                b = [None if x is None else cint(x) for x in (idx.lo, idx.hi, idx.step)]
                return base[slice(*b)]
            i = norm_int(idx)
            if isinstance(i, int):
                if not -len(base) <= i < len(base):
                    raise PyRaise('IndexError')
                return base[i]
            n = len(base)
            i = norm_int(ex.index(st, i, n, node))
            if isinstance(i, int):
                return base[i]
            if all(is_scalar(x) for x in base):
                return self._tget(ex, base, i)
            v = base[n - 1]
            for k in range(n - 2, -1, -1):
                v = ex.merge_value(SBool(i.z == k), base[k], v, st.heap, st.heap, st.heap)
            return v
        if isinstance(base, PList):
            c = st.heap[base.id]
            if isinstance(idx, Slice):
                if c[0] == 'list':
                    b = [None if x is None else cint(x) for x in (idx.lo, idx.hi, idx.step)]
                    return ex.new_list(st, c[1][slice(*b)])
                if c[0] == 'seq':
                    p = PList(ex.new_key('list'))
                    st.heap[p.id] = ('seq', seq_slice(ex, st, c[1], idx))
                    return p
                raise Unsupported('slice of a list under construction')
            if c[0] == 'list':
                return self.getitem(ex, st, c[1], idx, node)
            if c[0] == 'seq':
                i = ex.index(st, idx, norm_int(c[1].n), node)
                return c[1].get(i)
            raise Unsupported('read of a list under construction')
        if isinstance(base, PDict):
            c = st.heap[base.id]
            if c[0] == 'dict':
                for k, v in c[1]:
                    if self.key_same(k, idx):
                        return v
                raise PyRaise('KeyError')
            raise Unsupported('symbolic dict')
        if isinstance(base, Seq):
            if isinstance(idx, Slice):
                return seq_slice(ex, st, base, idx)
            i = ex.index(st, idx, norm_int(base.n), node)
            return base.get(i)
        h = getattr(base, 'getitem', None)
        if h is not None:
            return h(ex, st, idx, node)
        if isinstance(base, Obj):
            c, f = base.cls.lookup('__getitem__')
            if isinstance(f, FuncVal):
                return ex.call_function(f, [base, idx], {}, st, node)
        if isinstance(base, ArrSel):
            return self.getitem(ex, st, self.materialise(ex, st, base), idx, node)
        raise Unsupported('subscript of %r' % (base,))

    @staticmethod
    def key_same(a, b):
        if isinstance(a, ClassVal) or isinstance(b, ClassVal):
            return a is b
        return type(a) is type(b) and a == b

    @staticmethod
    def rec_field(rec, idx, name):
        if name not in rec.dt.fields:
            raise PyRaise('KeyError', (name,))
        base, shape = rec.dt.fields[name]
        first = ('d', rec.off, rec.n) if idx is None else \
            ('i', idx if isinstance(rec.off, int) and rec.off == 0 else norm_int(C.sadd(idx, rec.off)))
        return ArrRef((rec.id, name), [first] + [('d', 0, s) for s in shape], base)

    def mask_of(self, ex, st, m):
        if isinstance(m, PList):
            raise Unsupported('list index')
        f = ex.arr_fn(st, m)
        mid = (id(st.heap[m.key]), tuple(str(d) for d in m.dims))
        ex.__dict__.setdefault('_keep', []).append(st.heap[m.key])
        return f, mid

    def fancy_get(self, ex, st, base, ii, node):
        if len(ii) == 1 and isinstance(ii[0], ArrRef) and ii[0].dtype == 'b1':
            m = ii[0]
            for p, q in zip(m.shape, base.shape):
                ex.same_dim(st, p, q, node)
            f, mid = self.mask_of(ex, st, m)
            if len(m.shape) != 1:
                raise Unsupported('multi-dimensional mask')
            return ArrSel(base.shape, base.dtype, ex.arr_fn(st, base), f, base.shape[0], mid)
        if all(isinstance(i, (ArrRef, PList, ArrSel)) or is_scalar(i) for i in ii) and len(ii) <= len(base.shape):
            ars = [self.as_array(ex, st, i) for i in ii]
            if any(a[1] != 'i8' for a in ars):
                raise Unsupported('index array type')
            shape = self.broadcast(ex, st, [a[0] for a in ars], node)
            g = ex.arr_fn(st, base)
            rest = base.shape[len(ii):]
            for a, n in zip(ars, base.shape):
                ex.oblige(st, 'index in bounds', self.forall_idx(a[0], lambda i, a=a, n=n: C.land(
                    C.le(0, a[2](i)), C.lt(a[2](i), n))), node=node)
            k = len(shape)
            return ex.alloc(st, tuple(shape) + tuple(rest), base.dtype, lambda i: g(tuple(
                norm_int(a[2](self.bidx(a[0], i[:k]))) for a in ars) + tuple(i[k:])))
        raise Unsupported('fancy index')

    def setitem(self, ex, st, base, idx, v, node=None):
        if isinstance(base, ArrRef):
            ii = self.expand_index(idx, len(base.shape))
            if any(isinstance(i, (ArrRef, PList, ArrSel)) for i in ii):
                return self.fancy_set(ex, st, base, ii, v, node)
            r = self.arr_view(ex, st, base, ii, node)
            return self.store_view(ex, st, r, v, node)
        if isinstance(base, RecArr):
            if isinstance(idx, str):
                return self.store_view(ex, st, self.rec_field(base, None, idx), v, node)
            if isinstance(idx, Slice):
                raise Unsupported('record slice assignment')
            if is_scalar(idx):
                row = RecRow(base, ex.index(st, idx, base.n, node))
                return self.rec_row_assign(ex, st, row, v, node)
            raise Unsupported('record assignment')
        if isinstance(base, RecRow) and isinstance(idx, str):
            return self.store_view(ex, st, self.rec_field(base.rec, base.idx, idx), v, node)
        if isinstance(base, PList):
            c = st.heap[base.id]
            i = norm_int(idx)
            if c[0] == 'list' and isinstance(i, int):
                if not -len(c[1]) <= i < len(c[1]):
                    raise PyRaise('IndexError')
                items = list(c[1])
                items[i] = v
                st.heap[base.id] = ('list', tuple(items))
                return
            raise Unsupported('store into a symbolic list')
        if isinstance(base, PDict):
            c = st.heap[base.id]
            if c[0] != 'dict' or isinstance(idx, Sym):
                raise Unsupported('store into a symbolic dict')
            items = list(c[1])
            for k, (a, _) in enumerate(items):
                if self.key_same(a, idx):
                    items[k] = (a, v)
                    break
            else:
                items.append((idx, v))
            st.heap[base.id] = ('dict', tuple(items))
            return
        h = getattr(base, 'setitem', None)
        if h is not None:
            return h(ex, st, idx, v, node)
        if isinstance(base, Obj):
            c, f = base.cls.lookup('__setitem__')
            if isinstance(f, FuncVal):
                ex.call_function(f, [base, idx, v], {}, st, node)
                return
        raise Unsupported('store into %r' % (base,))

    def rec_row_assign(self, ex, st, row, v, node):
        if isinstance(v, RecRow):
            for name in row.rec.dt.fields:
                src = self.rec_field(v.rec, v.idx, name)
                val = src if src.shape else st.heap[src.key].get(src.base_index(()))
                self.store_view(ex, st, self.rec_field(row.rec, row.idx, name), val, node)
            return
        if isinstance(v, RecArr):
            ex.same_dim(st, v.n, 1, node)
            return self.rec_row_assign(ex, st, row, RecRow(v, 0), node)
        raise Unsupported('record row assignment')

    def store_view(self, ex, st, r, v, node):
        if isinstance(v, ArrSel):
            v = self.materialise(ex, st, v)
        if not r.shape:
            if isinstance(v, ArrRef) and not any(not (isinstance(s, int) and s == 1) for s in v.shape):
                v = ex.arr_get(st, v, tuple(0 for _ in v.shape))
            if not is_scalar(v):
                raise Unsupported('array stored in a scalar cell')
            self.narrow(r.dtype, v)
            ex.arr_store_cell(st, r, (), v)
            return
        sh, dt, get = self.as_array(ex, st, v)
        if len(sh) > len(r.shape):
            raise Unsupported('assignment shape')
        off = len(r.shape) - len(sh)
        for k, d in enumerate(sh):
            if not (isinstance(d, int) and d == 1):
                ex.same_dim(st, d, r.shape[off + k], node)
        self.narrow_dt(r.dtype, dt)
        ex.arr_assign(st, r, lambda i: coerce(get(self.bidx(sh, i)), r.dtype))

    def narrow(self, dt, v):
        self.narrow_dt(dt, scalar_dtype(v))

    @staticmethod
    def narrow_dt(dt, src):
        if dt == 'i8' and src == 'f8':
            raise Unsupported('float stored into an integer array')

    def fancy_set(self, ex, st, base, ii, v, node):
        if len(ii) == 1 and isinstance(ii[0], ArrRef) and ii[0].dtype == 'b1':
            m = ii[0]
            for p, q in zip(m.shape, base.shape):
                ex.same_dim(st, p, q, node)
            f, mid = self.mask_of(ex, st, m)
            r = len(m.shape)
            old = ex.arr_fn(st, base)
            if isinstance(v, ArrSel):
                if v.maskid != mid:
                    raise Unsupported('assignment between different selections')
                g = v.get
            elif is_scalar(v):
                g = lambda i: lift(v)
            else:
                sh, dt, get = self.as_array(ex, st, v)
                if len(sh) == len(base.shape) and r == 1 and len(m.shape) == 1:
                    # row k of v goes to the k-th selected row
                    self.materialise(ex, st, ArrSel((base.shape[0],), 'b1', f, f, m.shape[0], mid))
                    cnt, _, rank, _, _ = ex._sels[mid]
                    for p, q in zip(sh, (cnt,) + tuple(base.shape[1:])):
                        ex.same_dim(st, p, q, node)
                    g = lambda i: get((norm_int(rank(i[:1])),) + tuple(i[1:]))
                elif len(sh) > len(base.shape) - r:
                    raise Unsupported('mask assignment from an array')
                else:
                    g = lambda i: get(self.bidx(sh, i))
            ex.arr_assign(st, base, lambda i: C.ite(f(i[:r]), coerce(g(i), base.dtype), old(i)))
            return
        raise Unsupported('fancy assignment')

    # --------------------------------------------------------------- generic
    def truth(self, ex, st, v):
        if isinstance(v, ArrRef):
            if all(isinstance(s, int) and s == 1 for s in v.shape):
                return ex.truth(ex.arr_get(st, v, tuple(0 for _ in v.shape)), st)
            if len(v.shape) == 1 and isinstance(v.shape[0], int) and v.shape[0] == 0:
                return False
            raise PyRaise('ValueError')
        if isinstance(v, PList):
            c = st.heap[v.id]
            if c[0] == 'list':
                return len(c[1]) > 0
            if c[0] == 'seq':
                return ex.wrapb(C.lt(0, lift(c[1].n)))
        if isinstance(v, PDict):
            c = st.heap[v.id]
            if c[0] == 'dict':
                return len(c[1]) > 0
        if isinstance(v, (FuncVal, ClassVal, Bound, Native, Ext, Module, Opaque, RecRow)):
            return True
        h = getattr(v, 'truth', None)
        if h is not None:
            return h(ex, st)
        if isinstance(v, Obj):
            for nm in ('__bool__', '__len__'):
                c, f = v.cls.lookup(nm)
                if isinstance(f, FuncVal):
                    return ex.truth(ex.call_function(f, [v], {}, st), st)
            return True
        return None

    def is_same(self, ex, st, a, b):
        if a is None or b is None:
            if a is b:
                return True
            if hasattr(a, 'is_none'):
                return a.is_none(ex, st)
            if hasattr(b, 'is_none'):
                return b.is_none(ex, st)
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, SBool) and isinstance(b, bool):
            return a if b else C.lnot(a)
        if isinstance(b, SBool) and isinstance(a, bool):
            return b if a else C.lnot(b)
        if isinstance(a, DType) and isinstance(b, DType):
            if a is b:
                return True
            if a.name != b.name:
                return False
            k = tuple(sorted([id(a), id(b)]))
            ex.__dict__.setdefault('_keep', []).extend([a, b])
            c = ex.__dict__.setdefault('_same', {})
            if k not in c:
                c[k] = SBool(z3.Bool('same_dtype_object!%d' % len(c)))
            return c[k]
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.id == b.id
        if isinstance(a, (ClassVal, FuncVal, Ext, Module)) or isinstance(b, (ClassVal, FuncVal, Ext, Module)):
            return a is b or (type(a) is type(b) and isinstance(a, Ext) and a == b)
        if isinstance(a, ArrRef) and isinstance(b, ArrRef):
            raise Unsupported('identity of arrays')
        h = getattr(a, 'is_same', None) or getattr(b, 'is_same', None)
        if h is not None:
            return h(ex, st, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        raise Unsupported('identity of %r and %r' % (a, b))

    def contains(self, ex, st, c, x):
        if isinstance(c, (tuple, PList)):
            seq = self.sequence(ex, st, c)
            n = norm_int(seq.n)
            if isinstance(n, int):
                r = False
                for i in range(n):
                    e = self.equal(ex, st, seq.get(i), x)
                    r = C.lor(r, e)
                return ex.wrapb(r) if isinstance(r, SBool) else r
        if isinstance(c, PDict):
            d = st.heap[c.id]
            if d[0] == 'dict' and not isinstance(x, Sym):
                return any(self.key_same(k, x) for k, _ in d[1])
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        h = getattr(c, 'contains', None)
        if h is not None:
            return h(ex, st, x)
        raise Unsupported('membership in %r' % (c,))

    def equal(self, ex, st, a, b):
        if is_scalar(a) and is_scalar(b):
            return C.eq(lift(a), lift(b)) if isinstance(a, Sym) or isinstance(b, Sym) else a == b
        r = self.other_compare(ex, st, '==', a, b)
        if r is NotImplemented:
            raise Unsupported('equality of %r and %r' % (a, b))
        return r

    def other_compare(self, ex, st, op, a, b):
        if op in ('==', '!='):
            neg = op == '!='

            def out(x):
                return C.lnot(x) if neg else x
            for cls in (str, type(None), ClassVal, FuncVal, Ext, DType):
                if isinstance(a, cls) or isinstance(b, cls):
                    if isinstance(a, DType) and isinstance(b, DType):
                        return out(a.name == b.name)
                    h = getattr(a, 'equal', None) or getattr(b, 'equal', None)
                    if h is not None:
                        return out(h(ex, st, a, b))
                    if type(a) is type(b):
                        return out(a == b)
                    return out(False)
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return out(False)
                r = True
                for x, y in zip(a, b):
                    r = C.land(r, self.equal(ex, st, x, y))
                return out(ex.wrapb(r) if isinstance(r, SBool) else r)
            if isinstance(a, PList) and isinstance(b, PList):
                ca, cb = st.heap[a.id], st.heap[b.id]
                if ca[0] == 'list' and cb[0] == 'list':
                    return out(self.equal(ex, st, ca[1], cb[1]))
            h = getattr(a, 'equal', None) or getattr(b, 'equal', None)
            if h is not None:
                return out(h(ex, st, a, b))
            if isinstance(a, Obj) and isinstance(b, Obj):
                return out(a.id == b.id)
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        return NotImplemented

    def other_binop(self, ex, st, op, a, b, node):
        if op == 'Add':
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, PList) and isinstance(b, PList):
                ca, cb = st.heap[a.id], st.heap[b.id]
                if ca[0] == 'list' and cb[0] == 'list':
                    return ex.new_list(st, ca[1] + cb[1])
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, PList) and cint(y) is not None and st.heap[x.id][0] == 'list':
                    return ex.new_list(st, st.heap[x.id][1] * cint(y))
                if isinstance(x, (tuple, str)) and isinstance(y, int):
                    return x * y
        h = getattr(a, 'binop', None) or getattr(b, 'binop', None)
        if h is not None:
            return h(ex, st, op, a, b, node)
        return NotImplemented

    # -------------------------------------------------------------- attributes
    def getattr(self, ex, st, v, attr, node=None):
        if isinstance(v, Module):
            r = v.get(attr)
            if r is None:
                sub = v.repo.module(v.name + '.' + attr)
                if sub is not None:
                    return sub
                raise Unsupported('%s.%s' % (v.name, attr))
            return ex.static_value(r, attr, st, v)
        if isinstance(v, Ext):
            p = v.path + '.' + attr
            if p in CONSTS:
                return CONSTS[p]()
            return Ext(p)
        if isinstance(v, ArrSel):
            v = self.materialise(ex, st, v)
        if isinstance(v, ArrRef):
            return self.arr_attr(ex, st, v, attr, node)
        if isinstance(v, RecArr):
            if attr == 'dtype':
                return v.dt
            if attr == 'size':
                return v.n
            if attr == 'shape':
                return (v.n,)
            if attr == 'ndim':
                return 1
            raise Unsupported('record array attribute %s' % attr)
        if isinstance(v, RecRow):
            if attr == 'dtype':
                return v.rec.dt
            raise Unsupported('record attribute %s' % attr)
        if isinstance(v, DType):
            if attr == 'fields':
                return tuple(v.fields)
            if attr == 'names':
                return tuple(v.fields)
            raise Unsupported('dtype attribute %s' % attr)
        if isinstance(v, (PList, PDict, str, tuple)):
            return Bound(Native('%s.%s' % (type(v).__name__, attr),
                                lambda ex, st, a, k, n: self.method(ex, st, attr, a, k, n)), v)
        if isinstance(v, Obj):
            return self.obj_getattr(ex, st, v, attr, node)
        if isinstance(v, ClassVal):
            if attr == '__name__':
                return v.qual.split('.')[-1]
            c, m = v.lookup(attr)
            if isinstance(m, FuncVal):
                kinds = [n for n, _ in ex.decorators(m)]
                if 'classmethod' in kinds:
                    return Bound(m, v)
                return m
            if isinstance(m, tuple) and m[0] == 'expr':
                return ex.static_value(('expr', c.module, m[1]), c.qual + '.' + attr, st, c.module)
            if m is not None:
                return m
        if isinstance(v, Super):
            mro = v.obj.cls.mro()
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassVal):
                    if attr in c.own():
                        return Bound(c.own()[attr], v.obj)
                else:
                    return Bound(Native('super.' + attr, lambda ex, st, a, k, n: self.ext_super(ex, st, c, attr, a, k, n)),
                                 v.obj)
            raise Unsupported('super attribute %s' % attr)
        h = getattr(v, 'getattr', None)
        if h is not None:
            return h(ex, st, attr, node)
        raise Unsupported('attribute %s of %r' % (attr, v))

    def ext_super(self, ex, st, cls, attr, args, kwargs, node):
        if attr == '__init__':
            for k, v in kwargs.items():
                self.setattr(ex, st, args[0], k, v, node)
            return None
        raise Unsupported('library method %s.%s' % (cls, attr))

    def obj_getattr(self, ex, st, v, attr, node):
        key = (v.id, attr)
        if key in st.heap:
            x = st.heap[key]
            if isinstance(x, Poison):
                raise Unsupported(x.why)
            return x
        if attr == '__class__':
            return v.cls
        c, m = v.cls.lookup(attr)
        if isinstance(m, FuncVal):
            kinds = [n for n, _ in ex.decorators(m)]
            if 'property' in kinds:
                return ex.call_function(m, [v], {}, st, node)
            if 'staticmethod' in kinds:
                return m
            if 'classmethod' in kinds:
                return Bound(m, v.cls)
            return Bound(m, v)
        hook = getattr(self, 'trait_default', None)
        if m is not None and isinstance(m, tuple) and m[0] == 'expr':
            r = self.trait_value(ex, st, v, attr, c, m[1], node)
            if r is not NotImplemented:
                st.heap[key] = r
                return r
            return ex.static_value(('expr', c.module, m[1]), c.qual + '.' + attr, st, c.module)
        if isinstance(m, ClassVal):
            return m
        raise PyRaise('AttributeError', (attr,))

    def trait_value(self, ex, st, v, attr, cls, node, where):
        """default value of a trait never assigned"""
        d = trait_call(node)
        if d is None:
            return NotImplemented
        kind, call = d
        # dynamic default: method decorated with @default('attr')
        for c in v.cls.mro():
            if isinstance(c, ClassVal):
                for nm, m in c.own().items():
                    if isinstance(m, FuncVal):
                        for dn in m.node.decorator_list:
                            if isinstance(dn, ast.Call) and getattr(dn.func, 'id', '') == 'default' and \
                                    dn.args and isinstance(dn.args[0], ast.Constant) and dn.args[0].value == attr:
                                return ex.call_function(m, [v], {}, st, where)
        kw = {k.arg: k.value for k in call.keywords}
        if 'default_value' in kw:
            s = State({}, st.heap, st.pc, Frame(cls.module, None))
            val = ex.expr(kw['default_value'], s)
            if kind == 'Float' and is_scalar(val):
                return C.to_real(lift(val))
            if kind == 'Array':
                sh, dt, get = self.as_array(ex, st, val)
                return ex.alloc(st, sh, 'f8', get)
            return val
        if kind == 'Float':
            return lift(0.0)
        if kind == 'Int':
            return 0
        if kind == 'Bool':
            return False
        if kind == 'Unicode':
            return ''
        if kind == 'List':
            return ex.new_list(st, ())
        if kind in ('Instance', 'Type', 'Union'):
            return None
        return NotImplemented

    def setattr(self, ex, st, v, attr, val, node=None):
        if isinstance(v, Obj):
            h = ex.opt.get('setattr_hook')
            if h is not None and h(ex, st, v, attr, val, node):
                return
            ex.log_store(v.id, (attr,))
            st.heap[(v.id, attr)] = val
            return
        h = getattr(v, 'setattr', None)
        if h is not None:
            return h(ex, st, attr, val, node)
        raise Unsupported('attribute store on %r' % (v,))

    def arr_attr(self, ex, st, v, attr, node):
        if attr == 'shape':
            return v.shape
        if attr == 'ndim':
            return len(v.shape)
        if attr == 'size':
            n = 1
            for s in v.shape:
                n = n * s if isinstance(n, int) and isinstance(s, int) else norm_int(C.smul(n, s))
            return n
        if attr == 'dtype':
            return DT[v.dtype]
        if attr == 'T':
            if len(v.shape) <= 1:
                return v
            if len(v.shape) == 2:
                f = ex.arr_fn(st, v)
                r = ex.alloc(st, (v.shape[1], v.shape[0]), v.dtype, lambda i: f((i[1], i[0])), readonly=True)
                return r
        return Bound(Native('ndarray.' + attr, lambda ex, st, a, k, n: self.arr_method(ex, st, attr, a, k, n)), v)

    def arr_method(self, ex, st, attr, a, k, node):
        v, a = a[0], a[1:]
        if attr in ('copy', 'sum', 'min', 'max', 'mean', 'argmax', 'argsort', 'all', 'any'):
            return FUNCS['numpy.' + attr](ex, st, [v] + list(a), k, node)
        if attr == 'fill':
            self.store_view(ex, st, v, a[0], node)
            return None
        if attr == 'item':
            if all(isinstance(s, int) and s == 1 for s in v.shape):
                return ex.arr_get(st, v, tuple(0 for _ in v.shape))
        if attr == 'astype':
            dt = self.dtype_name(ex, st, a[0])
            f = ex.arr_fn(st, v)
            if dt == 'i8' and v.dtype == 'f8':
                return ex.alloc(st, v.shape, 'i8', lambda i: trunc_int(f(i)))
            return ex.alloc(st, v.shape, dt, f)
        if attr == 'flatten' or attr == 'ravel':
            if len(v.shape) == 1:
                return FUNCS['numpy.copy'](ex, st, [v], {}, node)
        raise Unsupported('array method %s' % attr)

    def method(self, ex, st, attr, a, k, node):
        v, a = a[0], a[1:]
        if isinstance(v, PList):
            c = st.heap[v.id]
            if attr == 'append':
                ex.log_store(v.id, ())
                if c[0] in ('list', 'app'):
                    st.heap[v.id] = c[:-1] + (c[-1] + (a[0],),)
                    return None
                if c[0] == 'seq':
                    old, x = c[1], a[0]
                    n = norm_int(old.n)
                    m = norm_int(C.sadd(n, 1))

                    def get(i):
                        i = norm_int(i)
                        cond = C.lt(lift(i), lift(n))
                        if C.is_true(z3.simplify(cond.z)):
                            return old.get(i)
                        if C.is_false(z3.simplify(cond.z)):
                            return x
                        return C.ite(cond, old.get(i), x)
                    st.heap[v.id] = ('seq', Seq(m, get))
                    return None
            if attr == 'extend':
                return self.list_extend(ex, st, v, a[0])
            if attr == 'copy' and c[0] == 'list':
                return ex.new_list(st, c[1])
            if attr == 'pop' and c[0] == 'list' and c[1]:
                i = cint(a[0]) if a else -1
                items = list(c[1])
                x = items.pop(i)
                st.heap[v.id] = ('list', tuple(items))
                return x
            if attr == 'clear':
                st.heap[v.id] = ('list', ())
                return None
        if isinstance(v, PDict):
            c = st.heap[v.id]
            if c[0] == 'dict':
                if attr == 'items':
                    return tuple((x, y) for x, y in c[1])
                if attr == 'keys':
                    return tuple(x for x, y in c[1])
                if attr == 'values':
                    return tuple(y for x, y in c[1])
                if attr == 'get':
                    for x, y in c[1]:
                        if self.key_same(x, a[0]):
                            return y
                    return a[1] if len(a) > 1 else None
                if attr == 'update':
                    d = dict(c[1])
                    if a:
                        d.update(dict(st.heap[a[0].id][1]))
                    d.update(k)
                    st.heap[v.id] = ('dict', tuple(d.items()))
                    return None
        if isinstance(v, str) and all(isinstance(x, (str, int)) for x in list(a) + list(k.values())):
            try:
                r = getattr(v, attr)(*a, **k)
            except (KeyError, IndexError) as e:
                raise PyRaise(type(e).__name__)
            if isinstance(r, list):
                return ex.new_list(st, tuple(r))
            return r
        if isinstance(v, str) and attr == 'format':
            return Opaque('str', (v,) + tuple(a))
        h = ex.opt.get('method_hook')
        if h is not None:
            r = h(ex, st, v, attr, a, k, node)
            if r is not NotImplemented:
                return r
        raise Unsupported('method %s of %s' % (attr, type(v).__name__))

    def list_extend(self, ex, st, v, rhs):
        seq = self.sequence(ex, st, rhs)
        n = norm_int(seq.n)
        c = st.heap[v.id]
        ex.log_store(v.id, ())
        if isinstance(n, int) and c[0] in ('list', 'app'):
            st.heap[v.id] = c[:-1] + (c[-1] + tuple(seq.get(i) for i in range(n)),)
            return None
        raise Unsupported('extend by a symbolic sequence')

    def as_kwargs(self, ex, st, d):
        if isinstance(d, PDict) and st.heap[d.id][0] == 'dict':
            return dict(st.heap[d.id][1])
        raise Unsupported('** of %r' % (d,))

    # ------------------------------------------------------------------- calls
    def builtin(self, name):
        if name in BUILTINS:
            return Native('builtins.' + name, BUILTINS[name])
        o = getattr(_bi, name, None)
        if isinstance(o, type) and issubclass(o, BaseException):
            return Ext('builtins.' + name)
        if name in ('int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'object', 'property', 'NotImplemented'):
            return Ext('builtins.' + name)
        if name in ('__name__',):
            return '__main__'
        return None

    def ext(self, path):
        f = FUNCS.get(path)
        if f is not None:
            return f
        if path.startswith('builtins.'):
            n = path[9:]
            if n in CASTS:
                return CASTS[n]
            o = getattr(_bi, n, None)
            if isinstance(o, type) and issubclass(o, BaseException):
                return lambda ex, st, a, k, node: Opaque('exc', (n, tuple(a)))
        return None

    def construct(self, ex, st, cls, args, kwargs, node):
        h = ex.opt.get('construct_hook')
        if h is not None:
            r = h(ex, st, cls, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if is_exception_class(cls):
            return Opaque('exc', (cls, tuple(args)))
        o = Obj(ex.new_key('obj'), cls)
        c, init = cls.lookup('__init__')
        if isinstance(init, FuncVal):
            ex.call_function(init, [o] + list(args), kwargs, st, node)
        elif args:
            raise Unsupported('construction of %s' % cls.key)
        else:
            for k, v in kwargs.items():
                self.setattr(ex, st, o, k, v, node)
        return o

    def call_other(self, ex, st, f, args, kwargs, node):
        h = getattr(f, 'call', None)
        if h is not None:
            return h(ex, st, args, kwargs, node)
        if isinstance(f, Obj):
            c, m = f.cls.lookup('__call__')
            if isinstance(m, FuncVal):
                return ex.call_function(m, [f] + list(args), kwargs, st, node)
        return NotImplemented

    def vectorized(self, ex, st, f, args, node):
        """numpy ufunc built from a scalar function: element-wise application"""
        ars = [self.as_array(ex, st, a) for a in args]
        shape = self.broadcast(ex, st, [a[0] for a in ars], node)
        from .values import small_concrete
        scalar = FuncVal(f.module, f.qual, f.node, f.cls, f.closure)
        if small_concrete(shape):
            cells = {i: self._scalar_call(ex, st, f, [a[2](self.bidx(a[0], i)) for a in ars], node)
                     for i in indices(shape)}
            return ex.alloc(st, shape, scalar_dtype(next(iter(cells.values()))) if cells else 'f8',
                            lambda i: cells[i])
        return self.generic_map(ex, st, shape, lambda s, i: self._scalar_call(
            ex, s, f, [a[2](self.bidx(a[0], i)) for a in ars], node))

    @staticmethod
    def _scalar_call(ex, st, f, args, node):
        loc, pos = ex.bind(f, args, {}, st)
        con = ex.registry.lookup(f, pos, ex, st) if ex.registry else None
        if con is not None:
            ex.used_contracts.add((con.key, con.variant))
            return con.apply(ex, st, f, pos, node)
        return ex.inline(f, loc, st, node)

    def generic_map(self, ex, st, shape, fn):
        """array whose element at idx is fn(state, idx), evaluated once for a generic index"""
        its = [z3.Int(ex.fresh_name('it')) for _ in shape]
        for it in its:
            ex.nonneg.add(it.get_id())
            ex.__dict__.setdefault('_keep', []).append(it)
        nf = len(ex.facts)
        s = st.copy()
        base_pc = st.pc
        for it, n in zip(its, shape):
            ex.assume(s, SBool(z3.And(it >= 0, it < zint(n))))
        ex.loopvars.extend(its)
        try:
            v = fn(s, tuple(SInt(i) for i in its))
        finally:
            del ex.loopvars[len(ex.loopvars) - len(its):]
        new = ex.facts[nf:]
        del ex.facts[nf:]
        for pc, f in new:
            rel = [p for p in pc if not any(fid(p) == fid(q) for q in base_pc)]
            body = C.implies(C.land(*rel), f) if rel else f
            ex.facts.append((base_pc, self.forall_idx(shape, lambda idx, body=body: vsub(
                body, [(it, zint(norm_int(k))) for it, k in zip(its, idx)]))))
        return ex.alloc(st, shape, scalar_dtype(v),
                        lambda idx: vsub(lift(v), [(it, zint(norm_int(k))) for it, k in zip(its, idx)]))

    def generated(self, ex, st, f, args, kwargs, node):
        """numba.generated_jit: the body chooses the implementation from the argument types"""
        kinds = []
        for a in args:
            kinds.append(TypeObj('Array' if isinstance(a, (ArrRef, RecArr)) else
                                 'Float' if is_scalar(a) and scalar_dtype(a) == 'f8' else
                                 'Integer' if is_scalar(a) else 'other'))
        loc, _ = ex.bind(f, kinds, {}, st)
        impl = ex.inline(f, loc, st, node)
        if not isinstance(impl, FuncVal):
            raise Unsupported('generated_jit implementation')
        return ex.call(impl, args, kwargs, st, node)

    # ---------------------------------------------------------------- strings
    def format_value(self, ex, st, x):
        return Opaque('str', x)

    def str_concat(self, ex, st, parts):
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return Opaque('str', tuple(parts))

    # ------------------------------------------------------------- exceptions
    def ctx_enter(self, ex, st, v):
        h = getattr(v, 'ctx_enter', None)
        if h is not None:
            return h(ex, st)
        raise Unsupported('with %r' % (v,))

    def ctx_exit(self, ex, st, v, out):
        h = getattr(v, 'ctx_exit', None)
        if h is not None:
            return h(ex, st, out)

    def exc_name(self, v):
        """candidate class of a raised value"""
        if isinstance(v, str):
            return Ext('builtins.' + v)
        if isinstance(v, Opaque) and v.tag == 'exc':
            c = v.data[0]
            return Ext('builtins.' + c) if isinstance(c, str) else c
        return v

    def exc_matches(self, ex, st, val, typ):
        if typ is None:
            return True
        t = ex.expr(typ, State(st.loc, st.heap, st.pc, st.frame))
        ts = t if isinstance(t, tuple) else (t,)
        c = self.exc_name(val[0])
        return any(exc_subclass(c, x) for x in ts)

    def global_expr(self, ex, mod, id, node):
        """globals whose value is a library object the model interprets"""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'dtype' \
                and not node.args:
            c = mod.eval_static(node.func.value)
            if isinstance(c, ClassVal):
                return record_dtype(ex, c)
        if isinstance(node, ast.Call) and mod.eval_static(node.func) == Ext('numpy.dtype'):
            return dtype_literal(mod, id, node.args[0])
        return None

    def dtype_name(self, ex, st, d):
        if d is None:
            return 'f8'
        if isinstance(d, DType):
            return d.name if d.fields is None else d
        if isinstance(d, Ext):
            p = d.path.split('.')[-1]
            r = {'float64': 'f8', 'float': 'f8', 'float_': 'f8', 'f8': 'f8', 'int64': 'i8', 'int': 'i8', 'int_': 'i8',
                 'i8': 'i8', 'intp': 'i8', 'bool_': 'b1', 'bool': 'b1', 'bool8': 'b1'}.get(p)
            if r:
                return r
        if isinstance(d, str) and d in DT:
            return d
        raise Unsupported('dtype %r' % (d,))


def trunc_int(x):
    """float -> int conversion truncates toward zero"""
    x = C.to_real(x)
    if isinstance(x, SReal) and z3.is_app(x.z) and x.z.decl().kind() == z3.Z3_OP_TO_REAL:
        return SInt(x.z.arg(0))
    return C.ite(C.le(0, x), C.sfloor_int(x), C.sneg(C.sfloor_int(C.sneg(x))))


def is_exception_class(cls):
    for c in cls.mro():
        if isinstance(c, Ext):
            o = getattr(_bi, c.path.split('.')[-1], None)
            if isinstance(o, type) and issubclass(o, BaseException):
                return True
            if c.path.endswith('TraitError'):
                return True
    return False


def exc_subclass(c, x):
    if c == x:
        return True
    if isinstance(c, ClassVal):
        return any(exc_subclass(b, x) for b in c.mro()[1:])
    if isinstance(c, Ext) and isinstance(x, Ext):
        a = getattr(_bi, c.path.split('.')[-1], None)
        b = getattr(_bi, x.path.split('.')[-1], None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        if isinstance(b, type) and b in (Exception, BaseException):
            return True
    return False


def trait_call(node):
    """(kind, call) of a trait declaration, looking through .valid(...)"""
    n = node
    while isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('valid', 'tag'):
        n = n.func.value
    if isinstance(n, ast.Call):
        f = n.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if nm in ('Float', 'Int', 'Bool', 'Complex', 'Unicode', 'Array', 'Instance', 'Type', 'List', 'Union', 'Dict',
                  'Enum', 'Any'):
            return nm, n
    return None


def record_dtype(ex, cls):
    """numpy structured dtype of an agent class: its scalar and array traits,
    not those declared in BodyType itself"""
    cache = ex.repo.__dict__.setdefault('_recdt', {})
    if cls.key in cache:
        return cache[cls.key]
    fields = {}
    for c in reversed(cls.mro()):
        if not isinstance(c, ClassVal) or c.qual == 'BodyType':
            continue
        for name, m in c.own().items():
            if isinstance(m, tuple) and m[0] == 'expr':
                t = trait_call(m[1])
                if t is None:
                    continue
                kind, call = t
                if kind == 'Float':
                    fields[name] = ('f8', ())
                elif kind == 'Int':
                    fields[name] = ('i8', ())
                elif kind == 'Bool':
                    fields[name] = ('b1', ())
                elif kind == 'Array':
                    kw = {k.arg: k.value for k in call.keywords}
                    dv = kw.get('default_value')
                    if isinstance(dv, ast.Tuple):
                        fields[name] = ('f8', (len(dv.elts),))
    d = cache[cls.key] = DType(cls.key, fields)
    return d


def dtype_literal(mod, id, node):
    if not isinstance(node, ast.List):
        return None
    fields = {}
    for e in node.elts:
        nm = e.elts[0].value
        base = mod.eval_static(e.elts[1])
        b = {'float64': 'f8', 'int64': 'i8', 'bool_': 'b1'}[base.path.split('.')[-1]]
        shape = ()
        if len(e.elts) > 2:
            s = e.elts[2]
            shape = (s.value,) if isinstance(s, ast.Constant) else tuple(x.value for x in s.elts)
        fields[nm] = (b, shape)
    return DType('%s:%s' % (mod.name, id), fields)


CONSTS = {
    'numpy.pi': lambda: SReal(C.PI),
    'math.pi': lambda: SReal(C.PI),
    'numpy.nan': lambda: SReal(z3.RealVal(0), True),
    'numpy.NaN': lambda: SReal(z3.RealVal(0), True),
}


# --------------------------------------------------------------------- builtins

def b_range(ex, st, a, k, node):
    if len(a) == 1:
        lo, hi = 0, norm_int(a[0])
    else:
        lo, hi = norm_int(a[0]), norm_int(a[1])
    if len(a) == 3:
        s = cint(a[2])
        if s is None or s == 0:
            raise Unsupported('range step')
        if isinstance(lo, int) and isinstance(hi, int):
            r = range(lo, hi, s)
            return Seq(len(r), lambda i: r[i] if isinstance(norm_int(i), int) else norm_int(C.sadd(lo, C.smul(s, i))))
        if s == -1:
            n = norm_int(C.ssub(lo, hi))
            if isinstance(n, SInt) and not ex.entails(st, C.le(0, n)):
                n = norm_int(C.ite(C.le(0, n), n, 0))
            return Seq(n, lambda i: norm_int(C.ssub(lo, i)))
        if s != 1:
            raise Unsupported('range step')
    if isinstance(lo, int) and isinstance(hi, int):
        return Seq(max(0, hi - lo), lambda i: norm_int(C.sadd(lo, i)))
    n = norm_int(C.ssub(hi, lo)) if not (isinstance(lo, int) and lo == 0) else hi
    if isinstance(n, SInt) and n.z.get_id() not in ex.nonneg and not ex.entails(st, C.le(0, n)):
        n = norm_int(C.ite(C.le(0, n), n, 0))
    return Seq(n, lambda i: norm_int(C.sadd(lo, i)) if not (isinstance(lo, int) and lo == 0) else norm_int(i))


def b_len(ex, st, a, k, node):
    v = a[0]
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, ArrRef):
        if not v.shape:
            raise PyRaise('TypeError')
        return v.shape[0]
    if isinstance(v, RecArr):
        return v.n
    h = getattr(v, 'length', None)
    if h is not None:
        return h(ex, st)
    if isinstance(v, PDict) and st.heap[v.id][0] == 'dict':
        return len(st.heap[v.id][1])
    if isinstance(v, Obj):
        c, f = v.cls.lookup('__len__')
        if isinstance(f, FuncVal):
            return ex.call_function(f, [v], {}, st, node)
    s = ex.natives.sequence(ex, st, v)
    if s is not None:
        return norm_int(s.n)
    raise Unsupported('len of %r' % (v,))


def seq_slice(ex, st, s, idx):
    """s[lo:hi] with constant bounds"""
    if idx.step is not None and cint(idx.step) != 1:
        raise Unsupported('slice with a step')
    n = norm_int(s.n)
    ends = []
    for b, default in ((idx.lo, 0), (idx.hi, n)):
        if b is None:
            ends.append(default)
            continue
        b = cint(b)
        if b is None:
            raise Unsupported('slice of a symbolic sequence with symbolic bounds')
        ends.append(norm_int(C.smin(lift(b), lift(n)) if b >= 0 else C.smax(C.sadd(n, b), lift(0))))
    lo, hi = ends
    return Seq(norm_int(C.smax(C.ssub(hi, lo), lift(0))), lambda i: s.get(norm_int(C.sadd(lo, i))), s.src)


def b_map(ex, st, a, k, node):
    if len(a) == 1 or k:
        raise Unsupported('map')
    src = b_zip(ex, st, a[1:], {}, node)
    tgt = ast.Name(id='$map x', ctx=ast.Store())
    gen = ast.comprehension(target=tgt, iter=ast.Name(id='$map s', ctx=ast.Load()), ifs=[], is_async=0)
    fake = ast.GeneratorExp(elt=tgt, generators=[gen])
    ast.copy_location(fake, node)
    ast.fix_missing_locations(fake)
    s = State(dict(st.loc), st.heap, st.pc, st.frame)
    s.loc['$map s'] = src
    r = ex._comp(fake, s, lambda s: ex.call(a[0], list(s.loc['$map x']), {}, s, node))
    st.pc = s.pc if len(s.pc) >= len(st.pc) else st.pc
    return r if isinstance(r, Seq) else Seq(len(r), lambda i: r[i])


class ChainVal:
    """the elements of the sequences of a sequence, in order"""
    def __init__(self, parts):
        self.parts = parts

    def vmap(self, f):
        return ChainVal(vmap(self.parts, f))


@ext('itertools.chain.from_iterable')
def n_chain(ex, st, a, k, node):
    s = ex.natives.sequence(ex, st, a[0])
    if s is None or k or len(a) != 1:
        raise Unsupported('chain of %r' % (a,))
    n = norm_int(s.n)
    if isinstance(n, int):
        return n_chain_of(ex, st, [s.get(i) for i in range(n)])
    return ChainVal(s)


@ext('itertools.chain')
def n_chain_(ex, st, a, k, node):
    return n_chain_of(ex, st, a)


def n_chain_of(ex, st, parts):
    seqs = [ex.natives.sequence(ex, st, p) for p in parts]
    if all(s is not None and isinstance(norm_int(s.n), int) for s in seqs):
        items = [s.get(i) for s in seqs for i in range(norm_int(s.n))]
        return Seq(len(items), lambda i: ex.natives._tget(ex, tuple(items), i))
    raise Unsupported('chain of symbolic sequences')


def b_zip(ex, st, a, k, node):
    seqs = [ex.natives.sequence(ex, st, x) for x in a]
    if any(s is None for s in seqs):
        raise Unsupported('zip')
    ns = [norm_int(s.n) for s in seqs]
    n = ns[0]
    for m in ns[1:]:
        if ex._same_int(n, m):
            continue
        if isinstance(n, int) and isinstance(m, int):
            n = min(n, m)
        elif ex.entails(st, C.le(n, m)):
            pass
        elif ex.entails(st, C.le(m, n)):
            n = m
        else:
            n = norm_int(C.smin(lift(n), lift(m)))
    r = Seq(n, lambda i: tuple(s.get(i) for s in seqs))
    r.src = tuple(x for s in seqs for x in s.src)
    return r


def b_enumerate(ex, st, a, k, node):
    s = ex.natives.sequence(ex, st, a[0])
    if s is None:
        raise Unsupported('enumerate')
    start = a[1] if len(a) > 1 else k.get('start', 0)
    r = Seq(s.n, lambda i: (norm_int(C.sadd(start, i)) if not (isinstance(start, int) and start == 0) else i, s.get(i)))
    r.src = s.src
    return r


def b_abs(ex, st, a, k, node):
    if isinstance(a[0], ArrRef):
        return FUNCS['numpy.abs'](ex, st, a, k, node)
    if isinstance(a[0], int):
        return abs(a[0])
    return C.sabs(a[0])


def _minmax(ex, st, a, k, node, ismax):
    if len(a) == 1:
        s = ex.natives.sequence(ex, st, a[0])
        n = norm_int(s.n)
        if not isinstance(n, int):
            return FUNCS['numpy.max' if ismax else 'numpy.min'](ex, st, a, k, node)
        a = [s.get(i) for i in range(n)]
    if k.get('key') is not None:
        raise Unsupported('key function')
    if not all(is_scalar(x) for x in a):
        raise Unsupported('min/max of non-numbers')
    if all(not isinstance(x, Sym) for x in a):
        return max(a) if ismax else min(a)
    r = lift(a[0])
    for x in a[1:]:
        x = lift(x)
        c = C._cmp('<', r, x) if ismax else C._cmp('<', x, r)
        r = C.ite(c, x, r)
    return r


def b_isinstance(ex, st, a, k, node):
    v, t = a
    if isinstance(t, tuple):
        r = False
        for x in t:
            r = C.lor(r, b_isinstance(ex, st, [v, x], k, node))
        return r
    h = getattr(v, 'isinstance', None)
    if h is not None:
        return h(ex, st, t)
    if isinstance(v, TypeObj):
        p = t.path if isinstance(t, Ext) else ''
        return p.split('.')[-1] == v.kind
    if isinstance(v, Obj) and isinstance(t, ClassVal):
        return v.cls.is_subclass(t)
    if isinstance(v, Obj) and isinstance(t, Ext):
        return any(c == t for c in v.cls.mro())
    if isinstance(t, Ext):
        n = t.path.split('.')[-1]
        if is_scalar(v):
            dt = scalar_dtype(v)
            if n in ('float', 'float64', 'floating'):
                return dt == 'f8'
            if n in ('int', 'integer', 'int64'):
                return dt == 'i8' or (dt == 'b1' and n == 'int')
            if n == 'bool':
                return dt == 'b1'
            if n in ('str', 'list', 'tuple', 'dict', 'ndarray', 'Iterable', 'Collection', 'Generator', 'Callable'):
                return False
        kinds = {str: ('str',), tuple: ('tuple',), PList: ('list',), PDict: ('dict',), ArrRef: ('ndarray',),
                 RecArr: ('ndarray',)}
        for cls, ns in kinds.items():
            if isinstance(v, cls):
                if n in ns:
                    return True
                if n in ('Iterable', 'Collection', 'Sized', 'Container') and cls is not RecRow:
                    return True
                if n in ('str', 'list', 'tuple', 'dict', 'ndarray', 'int', 'float', 'bool', 'Generator', 'Callable'):
                    return False
        if v is None:
            return False
    raise Unsupported('isinstance(%r, %r)' % (v, t))


def b_hash(ex, st, a, k, node):
    if isinstance(a[0], DType):
        return 'hash:' + a[0].name
    raise Unsupported('hash')


def b_callable(ex, st, a, k, node):
    v = a[0]
    h = getattr(v, 'callable', None)
    if h is not None:
        return h(ex, st)
    if isinstance(v, (FuncVal, Native, Bound, ClassVal, Ext)):
        return True
    if is_scalar(v) or isinstance(v, (tuple, str, PList, PDict, ArrRef, Seq)) or v is None:
        return False
    raise Unsupported('callable(%r)' % (v,))


def b_sum(ex, st, a, k, node):
    s = ex.natives.sequence(ex, st, a[0])
    n = norm_int(s.n)
    start = a[1] if len(a) > 1 else 0
    if isinstance(n, int):
        r = start
        for i in range(n):
            r = ex.binop('Add', r, s.get(i), st, node)
        return r
    return C.sadd(start, C.Sum(0, n, lambda i: s.get(i)))


def b_all_any(isall):
    def f(ex, st, a, k, node):
        s = ex.natives.sequence(ex, st, a[0])
        n = norm_int(s.n)
        if isinstance(n, int):
            vs = [ex.truth(s.get(i), st) for i in range(n)]
            r = C.land(*vs) if isall else C.lor(*vs)
            if not vs:
                r = isall
            return ex.wrapb(r) if isinstance(r, SBool) else r
        r = SBool(ex.fresh_z(z3.BoolSort(), 'all' if isall else 'any'))
        q = (C.forall if isall else C.exists)(0, n, lambda i: lift_b(s.get(i)))
        ex.fact(st, C.iff(r, q))
        return r
    return f


def lift_b(v):
    v = lift(v)
    if isinstance(v, SBool):
        return v
    return C.ne(v, 0)


def b_super(ex, st, a, k, node):
    if a:
        return Super(a[1], a[0])
    self_ = st.loc[st.frame.func.node.args.args[0].arg]
    return Super(self_, st.frame.func.cls)


def b_getattr(ex, st, a, k, node):
    try:
        return ex.getattr(a[0], a[1], st, node)
    except PyRaise as e:
        if len(a) > 2 and e.exc == 'AttributeError':
            return a[2]
        raise


def b_hasattr(ex, st, a, k, node):
    try:
        ex.getattr(a[0], a[1], st, node)
        return True
    except PyRaise:
        return False


def b_setattr(ex, st, a, k, node):
    ex.setattr(a[0], a[1], a[2], st, node)


def b_next(ex, st, a, k, node):
    h = getattr(a[0], 'next', None)
    if h is not None:
        return h(ex, st, node)
    raise Unsupported('next of %r' % (a[0],))


def b_iter(ex, st, a, k, node):
    return a[0]


def b_print(ex, st, a, k, node):
    return None


def b_type(ex, st, a, k, node):
    if isinstance(a[0], Obj):
        return a[0].cls
    raise Unsupported('type()')


def b_reversed(ex, st, a, k, node):
    s = ex.natives.sequence(ex, st, a[0])
    n = norm_int(s.n)
    r = Seq(n, lambda i: s.get(norm_int(C.ssub(C.ssub(n, 1), i))))
    r.src = s.src
    return r


BUILTINS = {
    'range': b_range, 'map': b_map, 'len': b_len, 'zip': b_zip, 'enumerate': b_enumerate, 'abs': b_abs,
    'min': lambda ex, st, a, k, n: _minmax(ex, st, a, k, n, False),
    'max': lambda ex, st, a, k, n: _minmax(ex, st, a, k, n, True),
    'isinstance': b_isinstance, 'hash': b_hash, 'callable': b_callable, 'sum': b_sum,
    'all': b_all_any(True), 'any': b_all_any(False), 'super': b_super, 'getattr': b_getattr,
    'hasattr': b_hasattr, 'setattr': b_setattr, 'next': b_next, 'iter': b_iter, 'print': b_print, 'type': b_type,
    'reversed': b_reversed,
}


def c_int(ex, st, a, k, node):
    v = a[0] if a else 0
    if is_scalar(v):
        v = lift(v)
        if isinstance(v, SReal):
            return norm_int(trunc_int(v))
        return norm_int(C.to_intish(v))
    raise Unsupported('int()')


def c_float(ex, st, a, k, node):
    if a and is_scalar(a[0]):
        return C.to_real(lift(a[0]))
    raise Unsupported('float()')


def c_bool(ex, st, a, k, node):
    return ex.truth(a[0], st) if a else False


def c_tuple(ex, st, a, k, node):
    if not a:
        return ()
    s = ex.natives.sequence(ex, st, a[0])
    n = norm_int(s.n) if s is not None else None
    if isinstance(n, int):
        return tuple(s.get(i) for i in range(n))
    raise Unsupported('tuple()')


def c_list(ex, st, a, k, node):
    if not a:
        return ex.new_list(st, ())
    s = ex.natives.sequence(ex, st, a[0])
    if s is None:
        raise Unsupported('list()')
    n = norm_int(s.n)
    if isinstance(n, int):
        return ex.new_list(st, tuple(s.get(i) for i in range(n)))
    p = PList(ex.new_key('list'))
    st.heap[p.id] = ('seq', Seq(n, s.get))
    return p


def c_dict(ex, st, a, k, node):
    p = PDict(ex.new_key('dict'))
    d = {}
    if a:
        if not isinstance(a[0], PDict):
            raise Unsupported('dict()')
        d.update(dict(st.heap[a[0].id][1]))
    d.update(k)
    st.heap[p.id] = ('dict', tuple(d.items()))
    return p


def c_str(ex, st, a, k, node):
    if a and isinstance(a[0], (str, int)) and not isinstance(a[0], bool):
        return str(a[0])
    return ex.natives.format_value(ex, st, a[0])


CASTS = {'int': c_int, 'float': c_float, 'bool': c_bool, 'tuple': c_tuple, 'list': c_list, 'dict': c_dict,
         'str': c_str}


# ------------------------------------------------------------------------ numpy

def shape_of(v):
    if isinstance(v, tuple):
        return tuple(norm_int(x) for x in v)
    return (norm_int(v),)


def kwarg(a, k, pos, name, default=None):
    if name in k:
        return k[name]
    return a[pos] if len(a) > pos else default


@ext('numpy.zeros', 'numpy.empty', 'numpy.ones')
def n_zeros(ex, st, a, k, node):
    shape = kwarg(a, k, 0, 'shape')
    dt = ex.natives.dtype_name(ex, st, kwarg(a, k, 1, 'dtype'))
    one = 'ones' in (getattr(node.func, 'attr', '') if node is not None else '')
    empty = 'empty' in (getattr(node.func, 'attr', '') if node is not None else '')
    if isinstance(shape, PList):
        shape = st.heap[shape.id][1]
    if isinstance(shape, ArrRef):
        raise Unsupported('array shape')
    sh = shape_of(shape)
    if isinstance(dt, DType):
        if len(sh) != 1:
            raise Unsupported('record array of rank > 1')
        r = RecArr(ex.new_key('rec'), sh[0], dt)
        for f, (b, s) in dt.fields.items():
            st.heap[(r.id, f)] = make_content((sh[0],) + s, b, lambda i, b=b: ZERO[b]())
        return r
    if empty:
        return ex.alloc(st, sh, dt, ex.fresh_fun(dt, len(sh), 'empty'))
    v = {'f8': SReal(z3.RealVal(1)), 'i8': SInt(1), 'b1': SBool(True)}[dt] if one else ZERO[dt]()
    return ex.alloc(st, sh, dt, lambda i: v)


@ext('numpy.zeros_like', 'numpy.empty_like', 'numpy.ones_like')
def n_zeros_like(ex, st, a, k, node):
    sh, dt, _ = ex.natives.as_array(ex, st, a[0])
    if k.get('dtype') is not None:
        dt = ex.natives.dtype_name(ex, st, k['dtype'])
    one = 'ones' in (getattr(node.func, 'attr', '') if node is not None else '')
    v = C.sadd(coerce(ZERO[dt](), dt), 1) if one else ZERO[dt]()
    return ex.alloc(st, sh, dt, lambda i: v)


@ext('numpy.full')
def n_full(ex, st, a, k, node):
    sh = shape_of(kwarg(a, k, 0, 'shape'))
    v = kwarg(a, k, 1, 'fill_value')
    d = kwarg(a, k, 2, 'dtype')
    dt = scalar_dtype(v) if d is None else ex.natives.dtype_name(ex, st, d)
    if dt == 'i8' and scalar_dtype(v) == 'f8':
        v = trunc_int(v)
    v = coerce(v, dt)
    return ex.alloc(st, sh, dt, lambda i: v)


@ext('numpy.full_like')
def n_full_like(ex, st, a, k, node):
    sh, dt, _ = ex.natives.as_array(ex, st, a[0])
    v = coerce(a[1], dt)
    return ex.alloc(st, sh, dt, lambda i: v)


@ext('numpy.array', 'numpy.copy', 'numpy.asarray', 'numpy.ascontiguousarray')
def n_array(ex, st, a, k, node):
    v = a[0]
    nm = getattr(node.func, 'attr', '') if node is not None and isinstance(node, ast.Call) else 'array'
    if isinstance(v, RecArr):
        r = RecArr(ex.new_key('rec'), v.n, v.dt)
        for f, (b, s) in v.dt.fields.items():
            ref = ex.natives.rec_field(v, None, f)
            st.heap[(r.id, f)] = make_content(ref.shape, b, ex.arr_fn(st, ref))
        return r
    if isinstance(v, Obj):
        c, m = v.cls.lookup('__array__')
        if isinstance(m, FuncVal):
            return ex.call_function(m, [v], {}, st, node)
    h = getattr(v, 'as_ndarray', None)
    if h is not None:
        return h(ex, st)
    d = kwarg(a, k, 1, 'dtype')
    if isinstance(v, ArrRef) and 'as' in nm and d is None:
        return v
    if d is not None and isinstance(ex.natives.dtype_name(ex, st, d), DType):
        return rec_array(ex, st, v, ex.natives.dtype_name(ex, st, d))
    sh, dt, get = ex.natives.as_array(ex, st, v)
    if d is not None:
        nd = ex.natives.dtype_name(ex, st, d)
        if nd == 'i8' and dt == 'f8':
            return ex.alloc(st, sh, 'i8', lambda i: trunc_int(get(i)))
        dt = nd
    if not sh:
        return coerce(get(()), dt)
    return ex.alloc(st, sh, dt, get)


def rec_array(ex, st, v, dt):
    """np.array(list of tuples, dtype=record type)"""
    if not isinstance(v, PList):
        raise Unsupported('record array of %r' % (v,))
    seq = ex.natives.sequence(ex, st, v)
    n = norm_int(seq.n)
    r = RecArr(ex.new_key('rec'), n, dt)
    items = [seq.get(i) for i in range(n)] if isinstance(n, int) else [seq.get(SInt(ex.fresh_z(z3.IntSort(), 'probe')))]
    for x in items:
        if not isinstance(x, tuple) or len(x) != len(dt.fields):
            raise Unsupported('record array of %r' % (x,))
        for (f, (b, s)), c in zip(dt.fields.items(), x):
            sh, _, _ = ex.natives.as_array(ex, st, c)
            if len(sh) != len(s):
                raise Unsupported('record field of another shape')
            for p, q in zip(sh, s):
                ex.same_dim(st, p, q)
    for j, (f, (b, s)) in enumerate(dt.fields.items()):
        def get(i, j=j):
            k = norm_int(i[0])
            if isinstance(n, int) and not isinstance(k, int):
                v = ex.natives.as_array(ex, st, items[-1][j])[2](i[1:])
                for m in range(n - 2, -1, -1):
                    v = C.ite(SBool(k.z == m), ex.natives.as_array(ex, st, items[m][j])[2](i[1:]), v)
                return v
            return lift(ex.natives.as_array(ex, st, seq.get(k)[j])[2](i[1:]))
        if isinstance(n, int) and n == 0:
            st.heap[(r.id, f)] = make_content((0,) + s, b, lambda i, b=b: ZERO[b]())
        else:
            st.heap[(r.id, f)] = make_content((n,) + s, b, lambda i, get=get, b=b: coerce(get(i), b))
    return r


@ext('numpy.vstack', 'numpy.stack', 'numpy.concatenate', 'numpy.hstack', 'numpy.column_stack')
def n_stack(ex, st, a, k, node):
    nm = node.func.attr
    axis = cint(kwarg(a, k, 1, 'axis', 0))
    seq = ex.natives.sequence(ex, st, a[0])
    n = norm_int(seq.n)
    if not isinstance(n, int):
        if nm == 'stack' and axis == 0 or nm == 'vstack':
            v = a[0]
            if not isinstance(v, PList):
                raise Unsupported('stack of %r' % (v,))
            sh, dt, get = ex.natives.as_array(ex, st, v)
            if len(sh) != 2 and nm == 'vstack':
                raise Unsupported('stack of arrays of higher rank')
            ex.oblige(st, 'at least one array to stack', C.gt(n, 0) if hasattr(C, 'gt') else C.lt(0, n), 'precondition', node)
            return ex.alloc(st, sh, dt, get)
        raise Unsupported('stack of a symbolic sequence')
    items0 = [seq.get(i) for i in range(n)]
    if all(isinstance(x, RecArr) for x in items0) and nm == 'concatenate':
        return rec_concat(ex, st, items0, node)
    items = [ex.natives.as_array(ex, st, x) for x in items0]
    r = len(items[0][0])
    dts = [x[1] for x in items]
    dt = 'f8' if 'f8' in dts else 'i8' if 'i8' in dts else 'b1'
    if nm == 'column_stack' and r == 1:
        nm, axis = 'stack', 1
    if nm == 'vstack' and r == 1:
        nm, axis = 'stack', 0
    elif nm == 'vstack':
        nm, axis = 'concatenate', 0
    elif nm == 'hstack':
        nm, axis = 'concatenate', (0 if r == 1 else 1)
    for x in items[1:]:
        if len(x[0]) != r:
            raise Unsupported('stack of different ranks')
        for j, (p, q) in enumerate(zip(x[0], items[0][0])):
            if nm == 'stack' or j != axis:
                ex.same_dim(st, p, q, node)
    if nm == 'stack':
        if axis < 0:
            axis += r + 1
        sh = items[0][0][:axis] + (n,) + items[0][0][axis:]

        def get(i):
            m = norm_int(i[axis])
            rest = tuple(i[:axis]) + tuple(i[axis + 1:])
            if isinstance(m, int):
                return coerce(items[m][2](rest), dt)
            v = coerce(items[-1][2](rest), dt)
            for j in range(n - 2, -1, -1):
                v = C.ite(SBool(m.z == j), coerce(items[j][2](rest), dt), v)
            return v
        return ex.alloc(st, sh, dt, get)
    tot = 0
    offs = []
    for x in items:
        offs.append(tot)
        tot = norm_int(C.sadd(tot, x[0][axis])) if not (isinstance(tot, int) and isinstance(x[0][axis], int)) \
            else tot + x[0][axis]
    sh = items[0][0][:axis] + (tot,) + items[0][0][axis + 1:]

    def cget(i):
        j = norm_int(i[axis])
        v = None
        for x, o in reversed(list(zip(items, offs))):
            w = coerce_lazy(x, i, axis, j, o)
            if v is None:
                v = w
            else:
                nxt = offs[items.index(x) + 1]
                if isinstance(j, int) and isinstance(nxt, int):
                    v = (lambda w=w: w()) if j < nxt else v
                else:
                    v = (lambda w=w, v=v, nxt=nxt: C.ite(C.lt(lift(j), lift(nxt)), coerce(w(), dt), coerce(v(), dt)))
        return coerce(v(), dt)
    return ex.alloc(st, sh, dt, cget)


def coerce_lazy(x, i, axis, j, o):
    def f():
        k = j - o if isinstance(j, int) and isinstance(o, int) else norm_int(C.ssub(j, o))
        return x[2](tuple(i[:axis]) + (k,) + tuple(i[axis + 1:]))
    return f


def rec_concat(ex, st, items, node):
    dt = items[0].dt
    if any(x.dt.name != dt.name for x in items):
        raise PyRaise('TypeError')
    n = 0
    offs = []
    for x in items:
        offs.append(n)
        n = norm_int(C.sadd(n, x.n))
    r = RecArr(ex.new_key('rec'), n, DType(dt.name, dt.fields))
    for f, (b, s) in dt.fields.items():
        gets = [ex.arr_fn(st, ex.natives.rec_field(x, None, f)) for x in items]

        def get(i, gets=gets, b=b):
            j = i[0]
            v = None
            for x, o, g in reversed(list(zip(items, offs, gets))):
                k = norm_int(C.ssub(j, o)) if not (isinstance(o, int) and o == 0) else j
                if v is None:
                    v = g((k,) + tuple(i[1:]))
                else:
                    nxt = norm_int(C.sadd(o, x.n))
                    if isinstance(nxt, int) and nxt == 0:
                        continue
                    v = C.ite(C.lt(lift(j), lift(nxt)), g((k,) + tuple(i[1:])), v)
            return v
        st.heap[(r.id, f)] = make_content((n,) + s, b, get)
    return r


@ext('numpy.arange')
def n_arange(ex, st, a, k, node):
    if 'step' in k or len(a) == 3 or any(scalar_dtype(x) == 'f8' for x in a):
        raise Unsupported('arange with step')
    lo, hi = (0, norm_int(a[0])) if len(a) == 1 else (norm_int(a[0]), norm_int(a[1]))
    s = b_range(ex, st, a, {}, node)
    return ex.alloc(st, (norm_int(s.n),), 'i8', lambda i: s.get(i[0]))


def _unary(name, f, dtype='f8', pre=None):
    def g(ex, st, a, k, node):
        if pre is not None:
            pre(ex, st, a[0], node)
        return ex.natives.elementwise(ex, st, a[:1], f, dtype, node)
    FUNCS['numpy.' + name] = g
    if name in ('sqrt', 'sin', 'cos', 'exp'):
        FUNCS['math.' + name] = g


_unary('sqrt', lambda x: C.ssqrt(x))
_unary('sin', lambda x: C.sfun(C.SIN, x))
_unary('cos', lambda x: C.sfun(C.COS, x))
_unary('exp', lambda x: C.sfun(C.EXP, x))
_unary('isnan', lambda x: C.isnan(x), 'b1')
_unary('square', lambda x: C.smul(x, x))


@ext('numpy.abs', 'numpy.absolute', 'numpy.fabs')
def n_abs(ex, st, a, k, node):
    dt = ex.natives.as_array(ex, st, a[0])[1]
    return ex.natives.elementwise(ex, st, a[:1], C.sabs, dt, node)


@ext('numpy.sign')
def n_sign(ex, st, a, k, node):
    dt = ex.natives.as_array(ex, st, a[0])[1]

    def f(x):
        x = C.to_intish(x)
        if isinstance(x, SReal):
            z = C.zite(x.z > 0, z3.RealVal(1), C.zite(x.z < 0, z3.RealVal(-1), z3.RealVal(0)))
            return SReal(z, x.nan)
        return SInt(C.zite(x.z > 0, z3.IntVal(1), C.zite(x.z < 0, z3.IntVal(-1), z3.IntVal(0))))
    return ex.natives.elementwise(ex, st, a[:1], f, dt, node)


@ext('numpy.hypot', 'math.hypot')
def n_hypot(ex, st, a, k, node):
    return ex.natives.elementwise(ex, st, a[:2], C.shypot, 'f8', node)


@ext('numpy.arctan2', 'math.atan2')
def n_arctan2(ex, st, a, k, node):
    return ex.natives.elementwise(ex, st, a[:2], C.atan2, 'f8', node)


@ext('numpy.minimum', 'numpy.maximum')
def n_minimum(ex, st, a, k, node):
    ismax = node.func.attr == 'maximum'
    x, y = [ex.natives.as_array(ex, st, v) for v in a[:2]]

    def f(p, q):
        c = C._cmp('<', p, q)
        return C.ite(c, q, p) if ismax else C.ite(c, p, q)
    return ex.natives.elementwise(ex, st, a[:2], f, result_dtype(x[1], y[1], 'Add'), node)


@ext('numpy.floor')
def n_floor(ex, st, a, k, node):
    return ex.natives.elementwise(ex, st, a[:1], lambda x: C.to_real(C.sfloor_int(x)), 'f8', node)


@ext('numpy.logical_not')
def n_lnot(ex, st, a, k, node):
    return ex.natives.elementwise(ex, st, a[:1], lambda x: C.lnot(lift_b(x)), 'b1', node)


@ext('numpy.logical_and', 'numpy.logical_or')
def n_land(ex, st, a, k, node):
    f = C.land if node.func.attr.endswith('and') else C.lor
    return ex.natives.elementwise(ex, st, a[:2], lambda x, y: f(lift_b(x), lift_b(y)), 'b1', node)


@ext('numpy.power')
def n_power(ex, st, a, k, node):
    return ex.binop('Pow', a[0], a[1], st, node)


@ext('numpy.where')
def n_where(ex, st, a, k, node):
    if len(a) != 3:
        raise Unsupported('where with one argument')
    x, y = [ex.natives.as_array(ex, st, v) for v in a[1:3]]
    return ex.natives.elementwise(ex, st, a[:3], lambda c, p, q: C.ite(lift_b(c), p, q),
                                  result_dtype(x[1], y[1], 'Add'), node)


@ext('numpy.isclose')
def n_isclose(ex, st, a, k, node):
    rtol, atol = k.get('rtol', lift(1e-05)), k.get('atol', lift(1e-08))
    return ex.natives.elementwise(ex, st, a[:2], lambda x, y: C.le(C.sabs(C.ssub(C.to_real(x), y)),
                                                                   C.sadd(atol, C.smul(rtol, C.sabs(C.to_real(y))))),
                                  'b1', node)


@ext('numpy.all', 'numpy.any')
def n_all(ex, st, a, k, node):
    nm = node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else 'all'
    isall = nm == 'all'
    sh, dt, get = ex.natives.as_array(ex, st, a[0])
    if not sh:
        return lift_b(get(()))
    if small_concrete(sh):
        vs = [lift_b(get(i)) for i in indices(sh)]
        return (C.land if isall else C.lor)(*vs) if vs else isall
    r = SBool(ex.fresh_z(z3.BoolSort(), nm))
    q = (ex.natives.forall_idx if isall else ex.natives.exists_idx)(sh, lambda i: lift_b(get(i)))
    ex.fact(st, C.iff(r, q))
    return r


@ext('numpy.count_nonzero')
def n_count_nonzero(ex, st, a, k, node):
    if len(a) != 1 or k:
        raise Unsupported('count_nonzero along an axis')
    sh, dt, get = ex.natives.as_array(ex, st, a[0])
    if dt != 'b1':
        g0 = get
        get = lambda i: C.lnot(C.eq(g0(i), 0))

    def rec(d, idx):
        if d == len(sh):
            return C.to_intish(get(tuple(idx)))
        return C.Sum(0, sh[d], lambda j: rec(d + 1, idx + [norm_int(j)]))
    return lift(rec(0, []))


@ext('numpy.sum')
def n_sum(ex, st, a, k, node):
    axis = kwarg(a, k, 1, 'axis')
    sh, dt, get = ex.natives.as_array(ex, st, a[0])
    if dt == 'b1':
        g0, dt = get, 'i8'
        get = lambda i: C.to_intish(g0(i))
    if axis is None:
        if not sh:
            return get(())

        def rec(k, idx):
            if k == len(sh):
                return get(tuple(idx))
            return C.Sum(0, sh[k], lambda j: rec(k + 1, idx + [norm_int(j)]))
        return lift(rec(0, []))
    ax = cint(axis)
    if ax < 0:
        ax += len(sh)
    osh = sh[:ax] + sh[ax + 1:]
    fn = lambda i: lift(C.Sum(0, sh[ax], lambda j: get(tuple(i[:ax]) + (norm_int(j),) + tuple(i[ax:]))))
    if not osh:
        return fn(())
    return ex.alloc(st, osh, dt, fn)


@ext('numpy.mean', 'numpy.average')
def n_mean(ex, st, a, k, node):
    axis = kwarg(a, k, 1, 'axis')
    sh, dt, get = ex.natives.as_array(ex, st, a[0])
    s = n_sum(ex, st, a, {x: y for x, y in k.items() if x == 'axis'}, node)
    if axis is None:
        n = 1
        for d in sh:
            n = norm_int(C.smul(n, d))
    else:
        n = sh[cint(axis)]
    return ex.binop('Div', s, n, st, node)


@ext('numpy.dot')
def n_dot(ex, st, a, k, node):
    x, y = [ex.natives.as_array(ex, st, v) for v in a[:2]]
    if len(x[0]) == 1 and len(y[0]) == 1:
        ex.same_dim(st, x[0][0], y[0][0], node)
        return lift(C.Sum(0, x[0][0], lambda j: C.smul(x[2]((norm_int(j),)), y[2]((norm_int(j),)))))
    raise Unsupported('dot')


@ext('numpy.linalg.norm')
def n_norm(ex, st, a, k, node):
    sh, dt, get = ex.natives.as_array(ex, st, a[0])
    axis = kwarg(a, k, 2, 'axis')
    sq = lambda v: C.smul(C.to_real(v), C.to_real(v))
    if axis is None and len(sh) == 1:
        return C.ssqrt(C.Sum(0, sh[0], lambda j: sq(get((norm_int(j),)))))
    if axis is not None and len(sh) == 2 and cint(axis) in (1, -1):
        return ex.alloc(st, sh[:1], 'f8', lambda i: C.ssqrt(C.Sum(0, sh[1], lambda j: sq(get((i[0], norm_int(j)))))))
    raise Unsupported('norm')


def _no_nan(ex, sh, get):
    probe = get(tuple(SInt(z3.Int('probe!%d' % i)) if not isinstance(s, int) else 0 for i, s in enumerate(sh)))
    if isinstance(probe, SReal) and probe.nan is not False:
        raise Unsupported('extremum of possibly NaN values')


@ext('numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin')
def n_max(ex, st, a, k, node):
    nm = node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else \
        getattr(getattr(node, 'func', None), 'id', 'max')
    ismax = 'max' in nm
    if kwarg(a, k, 1, 'axis') is not None:
        raise Unsupported('max along an axis')
    sh, dt, get = ex.natives.as_array(ex, st, a[0])
    if len(sh) != 1:
        raise Unsupported('max of an array of rank %d' % len(sh))
    n = sh[0]
    if small_concrete(sh) and cint(n) > 0:
        r = get((0,))
        for i in range(1, cint(n)):
            c = C._cmp('<', r, get((i,))) if ismax else C._cmp('<', get((i,)), r)
            r = C.ite(c, get((i,)), r)
        return r
    ex.oblige(st, 'maximum of a non-empty array', C.lt(0, lift(n)), node=node)
    _no_nan(ex, sh, get)
    r = ex.fresh(dt, nm)
    ex.fact(st, C.forall(0, n, lambda i: C.le(get((i,)), r) if ismax else C.le(r, get((i,)))))
    w = SInt(ex.fresh_z(z3.IntSort(), 'argext'))
    ex.fact(st, C.implies(C.lt(0, lift(n)), C.land(C.le(0, w), C.lt(w, n), C.eq(get((w,)), r))))
    return r


@ext('numpy.argmax', 'numpy.argmin')
def n_argmax(ex, st, a, k, node):
    ismax = 'max' in node.func.attr
    sh, dt, get = ex.natives.as_array(ex, st, a[0])
    if len(sh) != 1 or k:
        raise Unsupported('argmax')
    n = sh[0]
    ex.oblige(st, 'maximum of a non-empty array', C.lt(0, lift(n)), node=node)
    _no_nan(ex, sh, get)
    w = SInt(ex.fresh_z(z3.IntSort(), 'argext'))
    ex.nonneg.add(w.z.get_id())
    ex.__dict__.setdefault('_keep', []).append(w)
    better = (lambda p, q: C.le(p, q)) if ismax else (lambda p, q: C.le(q, p))
    sbet = (lambda p, q: C.lt(p, q)) if ismax else (lambda p, q: C.lt(q, p))
    ex.fact(st, C.land(C.le(0, w), C.lt(w, n)))
    ex.fact(st, C.forall(0, n, lambda i: better(get((i,)), get((w,)))))
    ex.fact(st, C.forall(0, w, lambda i: sbet(get((i,)), get((w,)))))
    return w


@ext('numpy.argsort')
def n_argsort(ex, st, a, k, node):
    sh, dt, get = ex.natives.as_array(ex, st, a[0])
    if len(sh) != 1:
        raise Unsupported('argsort')
    n = sh[0]
    _no_nan(ex, sh, get)
    p = ex.fresh_fun('i8', 1, 'perm')
    q = ex.fresh_fun('i8', 1, 'iperm')
    ex.fact(st, C.forall(0, n, lambda i: C.land(C.le(0, p((i,))), C.lt(p((i,)), n), C.eq(q((p((i,)),)), i))))
    ex.fact(st, C.forall(0, n, lambda i: C.land(C.le(0, q((i,))), C.lt(q((i,)), n), C.eq(p((q((i,)),)), i))))
    ex.fact(st, C.forall(0, n, lambda i: C.forall(0, n, lambda j: C.implies(
        C.lt(i, j), C.le(get((norm_int(p((i,))),)), get((norm_int(p((j,))),)))))))
    # (the same, to be found from the keys)
    ex.fact(st, C.forall(0, n, lambda i: C.eq(get((norm_int(p((norm_int(q((i,))),))),)), get((i,)))))
    # ranks of a permutation: its inverse (lemma 'argsort')
    perms = ex.__dict__.setdefault('_perms', [])
    probe = SInt(z3.Int('!probe'))
    g = get((probe,))
    for m, p0, q0 in perms:
        if isinstance(g, SInt) and g.z.eq(lift(p0((probe,))).z) and (m is n or ex.entails(st, C.eq(m, n))):
            ex.used_lemmas.add('argsort')
            ex.fact(st, C.forall(0, n, lambda i: C.eq(p((i,)), q0((i,)))))
    perms.append((n, p, q))
    return ex.alloc(st, (n,), 'i8', p)


@ext('numpy.searchsorted')
def n_searchsorted(ex, st, a, k, node):
    sh, dt, get = ex.natives.as_array(ex, st, a[0])
    x = a[1]
    side = k.get('side', a[2] if len(a) > 2 else 'left')
    if set(k) - {'side'} or len(a) > 3 or not is_scalar(x) or side not in ('left', 'right'):
        raise Unsupported('searchsorted')
    below = C.lt if side == 'left' else C.le
    n = sh[0]
    ex.oblige(st, 'searchsorted on a sorted array', C.forall(0, n, lambda i: C.forall(0, n, lambda j: C.implies(
        C.lt(i, j), C.le(get((i,)), get((j,)))))), node=node)
    w = SInt(ex.fresh_z(z3.IntSort(), 'ins'))
    ex.nonneg.add(w.z.get_id())
    ex.__dict__.setdefault('_keep', []).append(w)
    ex.fact(st, C.land(C.le(0, w), C.le(w, n)))
    ex.fact(st, C.forall(0, w, lambda i: below(get((i,)), x)))
    ex.fact(st, C.forall(w, n, lambda i: C.lnot(below(get((i,)), x))))
    return w


class ExtClass:
    """class of an object made by an external library: only its stated attributes"""
    def __init__(self, name):
        self.name = self.key = name

    def lookup(self, attr):
        return None, None


@ext('scipy.spatial.qhull.Delaunay', 'scipy.spatial.Delaunay')
def n_delaunay(ex, st, a, k, node):
    """assumed: m >= 1 triangles with corners among the points (what else the
    contract of the caller states about them)"""
    g = ex.opt.get('delaunay')
    if g is None or k or len(a) != 1:
        raise Unsupported('Delaunay')
    o = Obj(ex.new_key('obj'), ExtClass('Delaunay'))
    st.heap[(o.id, 'simplices')] = ex.alloc(st, (g[0], 3), 'i8', g[1])
    return o


@ext('numpy.asscalar')
def n_asscalar(ex, st, a, k, node):
    v = a[0]
    return ex.natives.arr_method(ex, st, 'item', [v], {}, node) if isinstance(v, ArrRef) else v


@ext('numpy.float64', 'numpy.float')
def n_float(ex, st, a, k, node):
    return C.to_real(lift(a[0]))


@ext('numpy.int64', 'numpy.int')
def n_int(ex, st, a, k, node):
    return c_int(ex, st, a, k, node)


@ext('numpy.fliplr')
def n_fliplr(ex, st, a, k, node):
    sh, dt, get = ex.natives.as_array(ex, st, a[0])
    return ex.alloc(st, sh, dt, lambda i: get((i[0], norm_int(C.ssub(C.ssub(sh[1], 1), i[1]))) + tuple(i[2:])),
                    readonly=True)


# random draws: arbitrary values in the documented range

# With a contract that names its draws (st.heap['$rng'] counts them) they are the
# terms u(c): the c-th number of one stream, scaled by the documented parameters.

DRAWS = {k: z3.Function('draw:' + k, z3.IntSort(), z3.RealSort()) for k in ('uniform', 'exponential', 'normal', 'truncnorm')}
DRAW_RANGE = {'uniform': lambda v: C.land(C.le(0, v), C.lt(v, 1)), 'exponential': lambda v: C.le(0, v),
              'normal': lambda v: True, 'truncnorm': lambda v: True}


def stream(kind, c):
    return SReal(DRAWS[kind](z3.simplify(zint(norm_int(lift(c))))))


def _draw(ex, st, kind, size=None, move=lambda v: v):
    """draws of the standard distribution, moved by the parameters"""
    rng = DRAW_RANGE[kind]
    if '$rng' in st.heap:
        # truncated normal numbers are counted on their own
        key = '$rngT' if kind == 'truncnorm' else '$rng'
        base = st.heap[key]
        if size is None:
            v = stream(kind, base)
            st.heap[key] = C.sadd(base, 1)
            return move(v)
        sh = shape_of(size)
        if len(sh) != 1:
            raise Unsupported('array of draws')
        get = lambda i: stream(kind, C.sadd(base, norm_int(i[0])))
        st.heap[key] = C.sadd(base, lift(sh[0]))
        return ex.alloc(st, sh, 'f8', lambda i: move(get(i)))
    if size is None:
        v = ex.fresh('f8', 'draw')
        g = rng(v)
        if g is not True:
            ex.fact(st, g)
        return move(v)
    sh = shape_of(size)
    f = ex.fresh_fun('f8', len(sh), 'draws')
    ex.fact(st, ex.natives.forall_idx(sh, lambda i: lift(rng(f(i)))))
    return ex.alloc(st, sh, 'f8', lambda i: move(f(i)))


@ext('numpy.random.random', 'numpy.random.random_sample')
def n_random(ex, st, a, k, node):
    return _draw(ex, st, 'uniform', kwarg(a, k, 0, 'size'))


@ext('numpy.random.rand')
def n_rand(ex, st, a, k, node):
    return _draw(ex, st, 'uniform', tuple(a) if a else None)


@ext('numpy.random.uniform')
def n_uniform(ex, st, a, k, node):
    lo, hi = kwarg(a, k, 0, 'low', lift(0.0)), kwarg(a, k, 1, 'high', lift(1.0))
    if not (is_scalar(lo) and is_scalar(hi)):
        raise Unsupported('uniform with array bounds')
    if C._numval(lift(lo).z) == 0 and C._numval(lift(hi).z) == 1:
        return _draw(ex, st, 'uniform', kwarg(a, k, 2, 'size'))
    return _draw(ex, st, 'uniform', kwarg(a, k, 2, 'size'), lambda v: C.sadd(lo, C.smul(C.ssub(hi, lo), v)))


@ext('numpy.random.exponential')
def n_exponential(ex, st, a, k, node):
    sc = kwarg(a, k, 0, 'scale', lift(1.0))
    if not is_scalar(sc):
        raise Unsupported('exponential with array scale')
    return _draw(ex, st, 'exponential', kwarg(a, k, 1, 'size'), lambda v: C.smul(sc, v))


@ext('numpy.random.normal')
def n_normal(ex, st, a, k, node):
    lo, sc = kwarg(a, k, 0, 'loc', lift(0.0)), kwarg(a, k, 1, 'scale', lift(1.0))
    if not (is_scalar(lo) and is_scalar(sc)):
        raise Unsupported('normal with array parameters')
    return _draw(ex, st, 'normal', kwarg(a, k, 2, 'size'), lambda v: C.sadd(lo, C.smul(sc, v)))


@ext('scipy.stats.truncnorm.rvs')
def n_truncnorm(ex, st, a, k, node):
    """loc + scale * z, z a number of the truncated standard distribution in [start, end]"""
    start, end = kwarg(a, k, 0, 'a'), kwarg(a, k, 1, 'b')
    loc, sc = kwarg(a, k, 2, 'loc', lift(0.0)), kwarg(a, k, 3, 'scale', lift(1.0))
    size, seed = kwarg(a, k, 4, 'size', 1), kwarg(a, k, 5, 'random_state')
    if seed is not None or not (is_scalar(start) and is_scalar(end) and is_scalar(loc)):
        raise Unsupported('truncated normal distribution with these parameters')
    z = _draw(ex, st, 'truncnorm', size)
    sh, _, get = ex.natives.as_array(ex, st, z)
    ex.fact(st, ex.natives.forall_idx(sh, lambda i: C.land(C.le(start, get(i)), C.le(get(i), end))))
    r = ex.binop('Mult', z, sc, st, node)
    return ex.binop('Add', r, loc, st, node)


@ext('numpy.random.shuffle')
def n_shuffle(ex, st, a, k, node):
    v = a[0]
    n = v.shape[0]
    p = ex.fresh_fun('i8', 1, 'perm')
    q = ex.fresh_fun('i8', 1, 'iperm')
    ex.fact(st, C.forall(0, n, lambda i: C.land(C.le(0, p((i,))), C.lt(p((i,)), n), C.eq(q((p((i,)),)), i))))
    ex.fact(st, C.forall(0, n, lambda i: C.land(C.le(0, q((i,))), C.lt(q((i,)), n), C.eq(p((q((i,)),)), i))))
    f = ex.arr_fn(st, v)
    ex.arr_assign(st, v, lambda i: f((norm_int(p(i[:1])),) + tuple(i[1:])))
    return None


# cell lists: iter_nearest_neighbors yields an arbitrary finite sequence of index
# pairs; the assumption that it enumerates neighbouring pairs exactly once is stated
# where a property uses it

class Pairs:
    def __init__(self, n, fi, fj):
        self.n, self.fi, self.fj = n, fi, fj


@ext('cell_lists.iter_nearest_neighbors')
def n_pairs(ex, st, a, k, node):
    key = tuple((x.key, id(st.heap[x.key])) if isinstance(x, ArrRef) else repr(x) for x in a)
    cache = ex.__dict__.setdefault('_pairs', {})
    if key not in cache:
        cache[key] = ex.opt['pairs'](ex, st, a)
    return cache[key]


@ext('cell_lists.add_to_cells')
def n_add_to_cells(ex, st, a, k, node):
    return ex.opt['add_to_cells'](ex, st, a)


@ext('cell_lists.neighboring_cells')
def n_neighboring_cells(ex, st, a, k, node):
    return ex.opt['neighboring_cells'](ex, st, a)
