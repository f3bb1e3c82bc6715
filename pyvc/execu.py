"""Symbolic execution of the real functions of the repository (their ast, read
on every run): branch merging, loop summaries, callee contracts, obligations."""
import ast

import z3

from . import core as C
from . import solve
from .core import SBool, SInt, SReal, Q, Sym, Unsupported, lift
from .source import Ext, FuncVal, ClassVal, Module
from .values import (ArrRef, Bound, Content, DType, ELLIPSIS, Native, Obj, PDict, PList, Poison,
                     PyRaise, RecArr, RecRow, RecSel, Seq, SORT, Slice, ZERO, cint, coerce, idx_eq,
                     indices, make_content, norm_int, small_concrete, zint)

UNROLL = 64
MAXSTATES = 48


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class MergeFail(Exception):
    pass


class Frame:
    __slots__ = ('module', 'func', 'closure', 'yielder')

    def __init__(self, module, func, closure=None, yielder=None):
        self.module, self.func, self.closure, self.yielder = module, func, closure, yielder


class Heap(dict):
    """locations; arrays made on demand by elements of symbolic lists are the
    same in every state"""
    made = {}

    def __missing__(self, key):
        return Heap.made[key]

    @staticmethod
    def make(content):
        key = 'made#%d' % len(Heap.made)
        Heap.made[key] = content
        return key


class State:
    __slots__ = ('loc', 'heap', 'pc', 'frame')

    def __init__(self, loc, heap, pc, frame):
        self.loc, self.heap, self.pc, self.frame = loc, heap if isinstance(heap, Heap) else Heap(heap), pc, frame

    def copy(self):
        return State(dict(self.loc), Heap(self.heap), self.pc, self.frame)


class Out:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Obl:
    __slots__ = ('name', 'goal', 'pc', 'facts', 'kind', 'line', 'func', 'hint', 'raw', 'drop')

    def __init__(self, name, goal, pc, facts, kind, line, func):
        self.name, self.goal, self.pc, self.facts, self.kind, self.line, self.func = \
            name, goal, pc, facts, kind, line, func
        self.drop = ()

    def hyps(self):
        """`drop`: parts of the path condition that the proof is not shown"""
        out = [p for p in self.pc if fid(p) not in self.drop]
        ids = set(fid(p) for p in self.pc)
        for pc, f in self.facts:
            rest = [p for p in pc if fid(p) not in ids]
            out.append(f if not rest else C.implies(C.land(*rest), f))
        return out


def fid(f):
    if isinstance(f, SBool):
        return ('z', f.z.get_id())
    return ('q', id(f))


# ------------------------------------------------------------- substitution

def zsub(z, pairs):
    return z3.substitute(z, *pairs) if pairs else z


def vsub(v, pairs):
    """substitute z3 constants in any value"""
    if not pairs:
        return v
    return vmap(v, lambda z: z3.substitute(z, *pairs))


def vmap(v, f):
    """apply a term transformation to every z3 term of a value"""
    if isinstance(v, SReal):
        return SReal(f(v.z), v.nan if isinstance(v.nan, bool) else f(v.nan))
    if isinstance(v, SInt):
        return SInt(f(v.z))
    if isinstance(v, SBool):
        return SBool(f(v.z))
    if isinstance(v, Q):
        if v.op in ('forall', 'exists'):
            return Q(v.op, (), None if v.lo is None else vmap(lift(v.lo), f),
                     None if v.hi is None else vmap(lift(v.hi), f),
                     (lambda fn: lambda k: vmap(solve.lift_formula(fn(k)), f))(v.fn), v.sort)
        return Q(v.op, [vmap(a, f) for a in v.args])
    if isinstance(v, tuple):
        return tuple(vmap(x, f) for x in v)
    if isinstance(v, Content):
        if v.cells is not None:
            return Content(v.shape, v.dtype, cells={k: vmap(x, f) for k, x in v.cells.items()})
        old = v
        return Content(tuple(vmap(s, f) for s in v.shape), v.dtype, lambda idx: vmap(old.get(idx), f))
    if isinstance(v, ArrRef):
        return ArrRef(v.key, tuple((d[0],) + tuple(vmap(x, f) for x in d[1:]) for d in v.dims), v.dtype, v.readonly)
    if isinstance(v, RecArr):
        return RecArr(v.id, vmap(v.n, f), v.dt, vmap(v.off, f))
    if isinstance(v, RecRow):
        return RecRow(vmap(v.rec, f), vmap(v.idx, f))
    if isinstance(v, Seq):
        return Seq(vmap(v.n, f) if not isinstance(v.n, int) else v.n, lambda i: vmap(v.get(i), f), v.src)
    h = getattr(v, 'vmap', None)
    if h is not None:
        return h(f)
    return v


def mentions(v, ids):
    """does the value mention an uninterpreted symbol whose decl name is in ids"""
    zs = []

    def col(v):
        if isinstance(v, (SReal, SInt, SBool)):
            zs.append(v.z)
            if isinstance(v, SReal) and not isinstance(v.nan, bool):
                zs.append(v.nan)
        elif isinstance(v, tuple):
            for x in v:
                col(x)
        elif isinstance(v, z3.ExprRef):
            zs.append(v)
    col(v)
    for e in solve.apps_of(zs).values():
        if e.decl().name() in ids:
            return True
    return False


def is_scalar(v):
    return isinstance(v, (SReal, SInt, SBool, bool, int, float))


class Executor:
    def __init__(self, repo, registry, natives, options=None):
        self.repo = repo
        self.registry = registry
        self.natives = natives
        self.facts = []
        self.obls = []
        self.muted = 0
        self.counter = [0]
        self.loopvars = []
        self.nonneg = set()
        self.pending = []
        self.aliases = {}
        self.protected = set()
        self.frames = []
        self.callstack = []
        self.store_log = None
        self.opt = options or {}
        self.used_contracts = set()
        self.used_natives = set()
        self.inlined = set()
        self.used_lemmas = set()
        self.local_read = None
        self.dtypes = {}
        self.top_key = None

    # ---------------------------------------------------------- primitives
    def fresh_name(self, base):
        self.counter[0] += 1
        return '%s!%d' % (base, self.counter[0])

    def fresh_z(self, sort, base='v'):
        nm = self.fresh_name(base)
        if self.loopvars:
            f = z3.Function(nm, *([z3.IntSort()] * len(self.loopvars) + [sort]))
            return f(*self.loopvars)
        return z3.Const(nm, sort)

    def depends(self, res, a, names):
        """note what the fresh result of a deterministic function is a function of"""
        flat = []
        try:
            C._flat_args([getattr(a, n) for n in names], flat)
            zs = [lift(x).z for x in flat]
        except Exception:
            return
        out = []
        C._flat_args((res,), out)
        for r in out:
            if isinstance(r, C.Sym):
                deps = self.__dict__.setdefault('deps', {})
                deps[r.z.decl().name()] = zs
                if getattr(r, 'nan', False) is not False and z3.is_app(r.nan):
                    deps[r.nan.decl().name()] = zs

    def fresh(self, dtype, base='v'):
        z = self.fresh_z(SORT[dtype], base)
        return {'f8': SReal, 'i8': SInt, 'b1': SBool}[dtype](z)

    def fresh_fun(self, dtype, rank, base='A'):
        """fresh function of `rank` integer indices (and the active loop counters)"""
        nm = self.fresh_name(base)
        lv = list(self.loopvars)
        wrap = {'f8': SReal, 'i8': SInt, 'b1': SBool}[dtype]
        f = z3.Function(nm, *([z3.IntSort()] * (len(lv) + rank) + [SORT[dtype]]))
        return lambda idx: wrap(f(*(lv + [zint(i) for i in idx])))

    def new_key(self, base='arr'):
        return '%s#%s' % (base, self.fresh_name(''))

    def fact(self, st, f):
        f = solve.lift_formula(f)
        if isinstance(f, SBool) and C.is_true(f.z):
            return
        self.facts.append((st.pc, f))

    def assume(self, st, f):
        """extend path condition"""
        f = solve.lift_formula(f)
        if isinstance(f, SBool) and C.is_true(f.z):
            return
        if isinstance(f, SBool) and z3.is_and(f.z):
            for c in f.z.children():
                self.assume(st, SBool(c))
            return
        if any(fid(p) == fid(f) for p in st.pc):
            return
        st.pc = st.pc + (f,)

    def oblige(self, st, name, goal, kind='definedness', node=None):
        if self.muted:
            return
        g = solve.lift_formula(goal)
        if isinstance(g, SBool) and C.is_true(g.z):
            self.trivial = getattr(self, 'trivial', 0) + 1
            if kind == 'definedness':
                return
        func = st.frame.func.key if st.frame and st.frame.func else self.top_key
        self.obls.append(Obl(name, g, st.pc, list(self.facts), kind, getattr(node, 'lineno', 0), func))

    def known(self, st, cond):
        """decide a condition from the path condition syntactically"""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, Q):
            return None
        z = cond.z
        if C.is_true(z):
            return True
        if C.is_false(z):
            return False
        s = z3.simplify(z)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        nz = C.znot(z)
        for p in st.pc:
            if isinstance(p, SBool):
                if p.z.eq(z):
                    return True
                if p.z.eq(nz):
                    return False
        return None

    def entails(self, st, cond, rlimit=200000, extra=()):
        """cheap check that the ground path condition and facts entail cond"""
        if isinstance(cond, bool):
            return cond
        if C.is_true(cond.z):
            return True
        k = self.known(st, cond)
        if k is not None:
            return k
        if len(st.pc) > 1 and any(isinstance(p, SBool) and self._hasnl(p.z) for p in st.pc):
            s = z3.Solver()
            s.set('rlimit', rlimit)
            for p in st.pc:
                if isinstance(p, SBool) and not self._hasnl(p.z):
                    s.add(p.z)
            for z in extra:
                s.add(z)
            s.add(C.znot(cond.z))
            if s.check() == z3.unsat:
                return True
        s = z3.Solver()
        s.set('rlimit', rlimit)
        for p in st.pc:
            if isinstance(p, SBool):
                s.add(p.z)
        for pc, f in self.facts[-200:]:
            if isinstance(f, SBool) and len(pc) <= len(st.pc) and not self._hasnl(f.z):
                if all(any(fid(p) == fid(x) for x in st.pc) for p in pc):
                    s.add(f.z)
        for z in extra:
            s.add(z)
        s.add(C.znot(cond.z))
        return s.check() == z3.unsat

    def entails_inst(self, st, cond):
        """entails, with the universally quantified facts taken at the integer
        constants of cond; non-arithmetic subterms are abstracted"""
        ks = [SInt(z) for z in {e.get_id(): e for e in C.int_consts(cond.z)}.values()]
        extra = []
        for pc, f in self.facts[-200:]:
            if isinstance(f, C.Q) and f.op == 'forall' and f.sort == 'int':
                if len(pc) > len(st.pc) or not all(any(fid(p) == fid(x) for x in st.pc) for p in pc):
                    continue
                for k in ks:
                    b = f.fn(k)
                    if isinstance(b, SBool):
                        extra.append(z3.Implies(z3.And(k.z >= zint(f.lo), k.z < zint(f.hi)), b.z))
        if not extra:
            return False
        memo = {}

        def flat(e):
            if e.get_id() in memo:
                return memo[e.get_id()][0]
            if z3.is_app(e) and e.num_args():
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED or e.decl().kind() == z3.Z3_OP_DIV:
                    r = z3.Const('abs!%d' % e.get_id(), e.sort())
                else:
                    ch = [flat(c) for c in e.children()]
                    r = e if all(x.eq(y) for x, y in zip(ch, e.children())) else e.decl()(*ch)
            else:
                r = e
            memo[e.get_id()] = (r, e)
            return r
        s = z3.Solver()
        s.set('rlimit', 200000)
        for z in extra:
            s.add(flat(z))
        for p in st.pc:
            if isinstance(p, SBool):
                s.add(flat(p.z))
        s.add(flat(C.znot(cond.z)))
        return s.check() == z3.unsat

    def _hasnl(self, z):
        k = ('nl', z.get_id())
        c = self.__dict__.setdefault('_nlc', {})
        if k not in c:
            r = any(e.sort() == z3.RealSort() for e in solve.apps_of([z]).values())
            c[k] = (r, z)
        return c[k][0]

    # ------------------------------------------------------------- arrays
    def alloc(self, st, shape, dtype, fn=None, cells=None, base='arr', readonly=False):
        if cells is not None:
            c = Content(shape, dtype, cells=cells)
        else:
            c = make_content(shape, dtype, fn)
        key = self.new_key(base)
        st.heap[key] = c
        return ArrRef(key, [('d', 0, s) for s in c.shape], dtype, readonly)

    def content(self, st, ref):
        c = st.heap[ref.key]
        return c

    def arr_get(self, st, ref, idx):
        return st.heap[ref.key].get(ref.base_index(idx))

    def arr_fn(self, st, ref):
        """closure reading the current content of a view"""
        c = st.heap[ref.key]
        return lambda idx: c.get(ref.base_index(idx))

    def arr_snapshot(self, st, ref):
        f = self.arr_fn(st, ref)
        return make_content(ref.shape, ref.dtype, f)

    def check_writable(self, ref, st):
        if ref.readonly:
            raise Unsupported('store through a possibly aliased array')
        if ref.key in self.protected:
            raise Unsupported('store into an array owned by the caller')
        for merged, sources in self.aliases.items():
            if ref.key in sources and self.live(merged, st):
                raise Unsupported('store into an array that may be aliased')

    def live(self, key, st):
        """is an array key referenced from a local of an active frame"""
        seen = set()

        def look(v):
            if isinstance(v, ArrRef):
                return v.key == key
            if isinstance(v, tuple):
                return any(look(x) for x in v)
            if isinstance(v, (PList, PDict)) and v.id not in seen:
                seen.add(v.id)
                c = st.heap.get(v.id)
                return isinstance(c, tuple) and look(c[1])
            return False
        return any(look(v) for loc in [st.loc] + self.frames for v in loc.values())

    def log_store(self, key, idx):
        if self.store_log is not None:
            self.store_log.append((key, idx))

    def arr_store_cell(self, st, ref, idx, val):
        self.check_writable(ref, st)
        bi = ref.base_index(idx)
        self.log_store(ref.key, bi)
        st.heap[ref.key] = st.heap[ref.key].store(bi, val)

    def arr_assign(self, st, ref, fn):
        """ref[...] = fn(idx) over the whole view"""
        self.check_writable(ref, st)
        shape = ref.shape
        c = st.heap[ref.key]
        if small_concrete(shape):
            vals = [(i, fn(i)) for i in indices(shape)]
            for i, v in vals:
                bi = ref.base_index(i)
                self.log_store(ref.key, bi)
                c = c.store(bi, v)
            st.heap[ref.key] = c
            return
        self.log_store(ref.key, tuple(d[1] if d[0] == 'i' else None for d in ref.dims))
        dims = ref.dims

        def newfn(j, old):
            conds = []
            sub = []
            for d, x in zip(dims, j):
                if d[0] == 'i':
                    e = idx_eq((d[1],), (x,))
                    if e is False:
                        return old
                    if e is not True:
                        conds.append(e)
                else:
                    off, ln = d[1], d[2]
                    k = norm_int(C.ssub(x, off)) if not (isinstance(off, int) and off == 0) else x
                    zi, zl = zint(k), zint(ln)
                    if not (isinstance(k, int) and isinstance(ln, int) and 0 <= k < ln):
                        conds.append(C.zand(zi >= 0, zi < zl))
                    sub.append(k)
            v = fn(tuple(sub))
            if not conds:
                return v
            return C.ite(SBool(C.zand(*conds)), v, old)

        # whole-array assignment: every index in range belongs to the view
        whole = all(d[0] == 'd' and isinstance(d[1], int) and d[1] == 0 and self._same_int(d[2], s)
                    for d, s in zip(dims, c.shape))
        if whole:
            st.heap[ref.key] = make_content(c.shape, c.dtype, fn)
        else:
            st.heap[ref.key] = c.update(newfn)

    @staticmethod
    def _same_int(a, b):
        if isinstance(a, int) or isinstance(b, int):
            return isinstance(a, int) and isinstance(b, int) and a == b
        return a.z.eq(b.z)

    def same_dim(self, st, a, b, node=None, what='shape'):
        """require equal dimensions (obligation when not syntactic)"""
        if self._same_int(a, b):
            return
        cond = SBool(zint(a) == zint(b))
        if self.known(st, cond) is True:
            return
        if isinstance(a, int) and isinstance(b, int):
            raise Unsupported('%s mismatch %s %s' % (what, a, b))
        self.oblige(st, '%s agrees' % what, cond, node=node)

    def index(self, st, i, n, node=None):
        """normalise an index for a dimension of length n; emits the bounds obligation"""
        i = norm_int(i)
        if isinstance(i, int):
            if isinstance(n, int):
                if not -n <= i < n:
                    raise PyRaise('IndexError')
                return i + n if i < 0 else i
            if i < 0:
                self.oblige(st, 'index in bounds', SBool(zint(n) >= -i), node=node)
                return norm_int(C.sadd(n, i))
            self.oblige(st, 'index in bounds', SBool(zint(n) > i), node=node)
            return i
        zi, zn = i.z, zint(n)
        if zi.get_id() in self.nonneg or (st.frame and self.entails(st, SBool(zi >= 0))):
            self.oblige(st, 'index in bounds', SBool(zi < zn), node=node)
            return i
        if st.frame and self.entails_inst(st, SBool(zi >= 0)):
            self.oblige(st, 'index in bounds', SBool(zi < zn), node=node)
            return i
        if st.frame and self.entails(st, SBool(zi < 0)):
            self.oblige(st, 'index in bounds', SBool(zi + zn >= 0), node=node)
            return norm_int(SInt(zi + zn))
        self.oblige(st, 'index in bounds', SBool(z3.And(zi < zn, zi + zn >= 0)), node=node)
        return SInt(z3.If(zi < 0, zi + zn, zi))

    # -------------------------------------------------------------- merging
    def merge_value(self, cond, a, b, h1, h2, heap):
        """value under cond ? a : b"""
        if a is b:
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return Poison('unbound on some path')
        if is_scalar(a) and is_scalar(b):
            if type(a) is type(b) and not isinstance(a, Sym) and a == b:
                return a
            la, lb = lift(a), lift(b)
            if isinstance(la, SBool) != isinstance(lb, SBool):
                if isinstance(la, SBool):
                    raise MergeFail
                raise MergeFail
            if type(la) is not type(lb):
                return C.ite(cond, C.to_real(la), C.to_real(lb))
            if la.z.eq(lb.z) and (not isinstance(la, SReal) or la.nan is lb.nan or
                                  (not isinstance(la.nan, bool) and not isinstance(lb.nan, bool) and la.nan.eq(lb.nan))):
                return a
            return C.ite(cond, la, lb)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if a == b and type(a) is type(b):
                return a
            raise MergeFail
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_value(cond, x, y, h1, h2, heap) for x, y in zip(a, b))
        if isinstance(a, ArrRef) and isinstance(b, ArrRef):
            if a.key == b.key and a.dtype == b.dtype and len(a.dims) == len(b.dims) and \
                    all(x[0] == y[0] and all(self._same_int(p, q) for p, q in zip(x[1:], y[1:]))
                        for x, y in zip(a.dims, b.dims)):
                return a
            sa, sb = a.shape, b.shape
            if len(sa) != len(sb) or a.dtype != b.dtype or \
                    not all(self._same_int(x, y) for x, y in zip(sa, sb)):
                raise MergeFail
            ca, cb = h1[a.key], h2[b.key]

            def fn(idx):
                return C.ite(cond, ca.get(a.base_index(idx)), cb.get(b.base_index(idx)))
            key = self.new_key('merged')
            heap[key] = make_content(sa, a.dtype, fn)
            self.aliases[key] = self.alias_sources(a.key) | self.alias_sources(b.key)
            return ArrRef(key, [('d', 0, s) for s in sa], a.dtype, readonly=True)
        if isinstance(a, RecRow) and isinstance(b, RecRow) and a.rec.id == b.rec.id:
            return RecRow(a.rec, norm_int(C.ite(cond, lift(a.idx), lift(b.idx))))
        for cls in (Obj, PList, PDict):
            if isinstance(a, cls) and isinstance(b, cls) and a.id == b.id:
                return a
        if isinstance(a, FuncVal) and isinstance(b, FuncVal) and a.node is b.node:
            return a
        if isinstance(a, (Ext, Module, ClassVal)) and a == b:
            return a
        if hasattr(a, 'merge_with'):
            r = a.merge_with(cond, b)
            if r is not None:
                return r
        raise MergeFail

    def alias_sources(self, key):
        return {key} | self.aliases.get(key, set())

    def merge_content(self, cond, a, b):
        if a is b:
            return a
        if isinstance(a, Content) and isinstance(b, Content):
            if len(a.shape) != len(b.shape):
                raise MergeFail
            if not all(self._same_int(x, y) for x, y in zip(a.shape, b.shape)):
                raise MergeFail
            if a.cells is not None:
                cells = {}
                for k in a.cells:
                    x, y = a.cells[k], b.cells[k]
                    cells[k] = x if x is y else self.merge_value(cond, x, y, None, None, None)
                return Content(a.shape, a.dtype, cells=cells)
            return Content(a.shape, a.dtype, lambda idx: C.ite(cond, a.get(idx), b.get(idx)))
        if isinstance(a, tuple) and a and a[0] == 'list':
            if isinstance(b, tuple) and len(a) == 2 and len(b) == 2 and len(a[1]) == len(b[1]):
                return ('list', tuple(self.merge_value(cond, x, y, {}, {}, {}) for x, y in zip(a[1], b[1])))
            raise MergeFail
        return self.merge_value(cond, a, b, {}, {}, {})

    @staticmethod
    def split_pc(p1, p2):
        n = 0
        while n < len(p1) and n < len(p2) and (p1[n] is p2[n] or fid(p1[n]) == fid(p2[n])):
            n += 1
        return p1[:n], p1[n:], p2[n:]

    def merge2(self, s1, s2, v1=None, v2=None):
        """merge two states (and optional values); raises MergeFail"""
        pre, r1, r2 = self.split_pc(s1.pc, s2.pc)
        if any(isinstance(x, Q) for x in r1):
            if any(isinstance(x, Q) for x in r2):
                raise MergeFail
            # use the ground side as selector
            if not r2:
                raise MergeFail
            return self.merge2(s2, s1, v2, v1)
        if not r1:
            raise MergeFail
        c1 = C.land(*r1)
        heap = {}
        for k in s1.heap:
            if k in s2.heap:
                heap[k] = s1.heap[k] if s1.heap[k] is s2.heap[k] else self.merge_content(c1, s1.heap[k], s2.heap[k])
            else:
                heap[k] = s1.heap[k]
        for k in s2.heap:
            if k not in s1.heap:
                heap[k] = s2.heap[k]
        loc = {}
        names = list(s1.loc) + [k for k in s2.loc if k not in s1.loc]
        for k in names:
            if k in s1.loc and k in s2.loc:
                loc[k] = self.merge_value(c1, s1.loc[k], s2.loc[k], s1.heap, s2.heap, heap)
            else:
                loc[k] = Poison('unbound on some path')
        val = None
        if v1 is not None or v2 is not None:
            val = self.merge_value(c1, v1, v2, s1.heap, s2.heap, heap)
        pc = pre
        if not (len(r1) == 1 and len(r2) == 1 and self.complementary(r1[0], r2[0])):
            if len(r1) >= 1 and len(r2) >= 1 and self.complementary(r1[0], r2[0]):
                pc = pre + (C.lor(C.land(*r1), C.land(*r2)),)
            else:
                pc = pre + (C.lor(C.land(*r1), C.land(*r2)),)
        return State(loc, heap, pc, s1.frame), val

    @staticmethod
    def complementary(a, b):
        if isinstance(a, SBool) and isinstance(b, SBool):
            return C.znot(a.z).eq(b.z) or C.znot(b.z).eq(a.z)
        return False

    def merge_all(self, items):
        """items: list of (state, value); merge greedily; returns list"""
        items = list(items)
        changed = True
        while changed and len(items) > 1:
            changed = False
            # prefer merging the pair with the longest common prefix
            best = None
            order = sorted(((len(self.split_pc(items[i][0].pc, items[j][0].pc)[0]), -i, -j)
                            for i in range(len(items)) for j in range(i + 1, len(items))), reverse=True)
            for _, i, j in order:
                i, j = -i, -j
                try:
                    best = (i, j, self.merge2(items[i][0], items[j][0], items[i][1], items[j][1]))
                    break
                except MergeFail:
                    continue
            if best:
                i, j, m = best
                items = [x for k, x in enumerate(items) if k not in (i, j)]
                items.insert(i, m)
                changed = True
        if len(items) > MAXSTATES:
            raise Unsupported('too many unmergeable paths')
        return items

    # ----------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for x in cur:
                for o in self.exec_stmt(s, x):
                    if o.kind == 'n':
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            cur = nxt
            if len(cur) > 1:
                cur = [m[0] for m in self.merge_all([(x, None) for x in cur])]
            if not cur:
                break
        return outs + [Out('n', x) for x in cur]

    def exec_stmt(self, node, st):
        snap = st.copy()
        nf, no, ctr, npend = len(self.facts), len(self.obls), self.counter[0], len(self.pending)
        saved_pending = self.pending
        self.pending = []
        try:
            try:
                m = getattr(self, 's_' + type(node).__name__, None)
                if m is None:
                    raise Unsupported('statement %s' % type(node).__name__)
                outs = m(node, st)
            except PyRaise as e:
                outs = [Out('x', st, (e.exc, e.args_))]
            outs = outs + self.pending
            return outs
        except NeedFork as f:
            del self.facts[nf:]
            del self.obls[no:]
            self.pending = saved_pending
            res = []
            mx = ctr
            for c in (f.cond, C.lnot(f.cond)):
                self.counter[0] = ctr
                s = snap.copy()
                self.assume(s, c)
                res += self.exec_stmt(node, s)
                mx = max(mx, self.counter[0])
            self.counter[0] = mx
            return res
        except Unsupported as e:
            if not getattr(e, 'where', None):
                e.where = '%s:%s' % (st.frame.func.key if st.frame.func else '?', getattr(node, 'lineno', '?'))
            raise
        finally:
            self.pending = saved_pending

    def s_Pass(self, node, st):
        return [Out('n', st)]

    def s_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [Out('n', st)]
        self.expr(node.value, st)
        return [Out('n', st)]

    def s_Import(self, node, st):
        for a in node.names:
            st.loc[a.asname or a.name.split('.')[0]] = self.repo.modref(a.name if a.asname else a.name.split('.')[0])
        return [Out('n', st)]

    def s_ImportFrom(self, node, st):
        for a in node.names:
            st.loc[a.asname or a.name] = self.repo.resolve_from(node.module or '', a.name)
        return [Out('n', st)]

    def s_FunctionDef(self, node, st):
        st.loc[node.name] = FuncVal(st.frame.module, '%s.<locals>.%s' % (st.frame.func.qual, node.name), node,
                                    closure=(st.frame.closure, st.loc))
        return [Out('n', st)]

    def s_Return(self, node, st):
        v = self.expr(node.value, st) if node.value is not None else None
        return [Out('r', st, v)]

    def s_Break(self, node, st):
        return [Out('b', st)]

    def s_Continue(self, node, st):
        return [Out('c', st)]

    def s_Raise(self, node, st):
        if node.exc is None:
            return [Out('x', st, ('reraise', ()))]
        v = self.expr(node.exc, st)
        return [Out('x', st, (v, ()))]

    def s_Assert(self, node, st):
        c = self.truth(self.expr(node.test, st), st)
        k = self.known(st, c)
        if k is True:
            return [Out('n', st)]
        if not self.opt.get('assert_raises'):
            self.oblige(st, 'assertion holds', c, node=node)
            self.assume(st, c)
            return [Out('n', st)]
        s2 = st.copy()
        self.assume(s2, C.lnot(c))
        self.assume(st, c)
        return [Out('n', st), Out('x', s2, ('AssertionError', ()))]

    def s_Global(self, node, st):
        raise Unsupported('global statement')

    def s_Delete(self, node, st):
        for t in node.targets:
            if isinstance(t, ast.Name):
                st.loc.pop(t.id, None)
            else:
                raise Unsupported('del of a non-name')
        return [Out('n', st)]

    def s_Assign(self, node, st):
        v = self.expr(node.value, st)
        for t in node.targets:
            self.assign(t, v, st)
        return [Out('n', st)]

    def s_AnnAssign(self, node, st):
        if node.value is not None:
            self.assign(node.target, self.expr(node.value, st), st)
        return [Out('n', st)]

    def s_AugAssign(self, node, st):
        t = node.target
        op = type(node.op).__name__
        if isinstance(t, ast.Name):
            old = self.name(t.id, st, t)
            rhs = self.expr(node.value, st)
            if isinstance(old, ArrRef):
                self.arr_inplace(st, old, op, rhs, node)
            elif isinstance(old, PList) and op == 'Add':
                self.natives.list_extend(self, st, old, rhs)
            else:
                st.loc[t.id] = self.binop(op, old, rhs, st, node)
            return [Out('n', st)]
        if isinstance(t, ast.Subscript):
            base = self.expr(t.value, st)
            idx = self.subscript_index(t.slice, st)
            old = self.getitem(base, idx, st, t)
            rhs = self.expr(node.value, st)
            if isinstance(old, ArrRef) and not getattr(idx, 'is_mask', False) and self.is_view_index(base, idx, st):
                self.arr_inplace(st, old, op, rhs, node)
            else:
                self.setitem(base, idx, self.binop(op, old, rhs, st, node), st, t)
            return [Out('n', st)]
        if isinstance(t, ast.Attribute):
            base = self.expr(t.value, st)
            old = self.getattr(base, t.attr, st, t)
            rhs = self.expr(node.value, st)
            if isinstance(old, ArrRef):
                self.arr_inplace(st, old, op, rhs, node)
                self.setattr(base, t.attr, old, st, t)
            elif isinstance(old, PList) and op == 'Add':
                self.natives.list_extend(self, st, old, rhs)
            else:
                self.setattr(base, t.attr, self.binop(op, old, rhs, st, node), st, t)
            return [Out('n', st)]
        raise Unsupported('augmented assignment target')

    def is_view_index(self, base, idx, st):
        ii = idx if isinstance(idx, tuple) else (idx,)
        return not any(isinstance(i, (ArrRef, RecSel, PList)) or getattr(i, 'is_sel', False) for i in ii)

    def arr_inplace(self, st, ref, op, rhs, node):
        res = self.binop(op, ref, rhs, st, node)
        if isinstance(res, ArrRef):
            if ref.dtype == 'b1' and res.dtype != 'b1' or ref.dtype == 'i8' and res.dtype == 'f8':
                raise Unsupported('in-place operation changes the number type')
            for a, b in zip(res.shape, ref.shape):
                self.same_dim(st, a, b, node)
            c = st.heap[res.key]
            r = res
            self.arr_assign(st, ref, lambda i: c.get(r.base_index(i)))
        else:
            self.arr_assign(st, ref, lambda i: res)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.expr(t.value, st)
            self.setitem(base, self.subscript_index(t.slice, st), v, st, t)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, st), t.attr, v, st, t)
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred target')
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, v, st, node):
        vals = self.natives.sequence(self, st, v)
        if vals is None:
            raise Unsupported('unpacking of %r' % (v,))
        n = cint(vals.n)
        if n is None:
            n = len(elts)
            self.oblige(st, 'unpacking matches', SBool(zint(vals.n) == n), node=node)
        if any(isinstance(e, ast.Starred) for e in elts):
            raise Unsupported('starred unpacking')
        if n != len(elts):
            raise PyRaise('ValueError')
        items = [vals.get(i) for i in range(n)]
        for e, x in zip(elts, items):
            self.assign(e, x, st)

    def s_If(self, node, st):
        c = self.truth(self.expr(node.test, st), st)
        k = self.known(st, c)
        if k is True:
            return self.exec_block(node.body, st)
        if k is False:
            return self.exec_block(node.orelse, st)
        s1, s2 = st, st.copy()
        self.assume(s1, c)
        self.assume(s2, C.lnot(c))
        o1 = self.exec_block(node.body, s1)
        o2 = self.exec_block(node.orelse, s2)
        norm = [o.st for o in o1 + o2 if o.kind == 'n']
        rest = [o for o in o1 + o2 if o.kind != 'n']
        norm = self.merge_all([(x, None) for x in norm])
        return rest + [Out('n', x[0]) for x in norm]

    def s_With(self, node, st):
        exits = []
        for item in node.items:
            v = self.expr(item.context_expr, st)
            r = self.natives.ctx_enter(self, st, v)
            exits.append(v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, r, st)
        outs = self.exec_block(node.body, st)
        res = []
        for o in outs:
            for v in reversed(exits):
                self.natives.ctx_exit(self, o.st, v, o)
            res.append(o)
        return res

    def s_Try(self, node, st):
        saved, self.pending = self.pending, []
        outs = self.exec_block(node.body, st) + self.pending
        self.pending = saved
        res = []
        for o in outs:
            if o.kind == 'x':
                handled = False
                for h in node.handlers:
                    m = self.natives.exc_matches(self, o.st, o.val, h.type)
                    if m:
                        handled = True
                        if h.name:
                            o.st.loc[h.name] = o.val[0]
                        for p in self.exec_block(h.body, o.st):
                            if p.kind == 'x' and p.val[0] == 'reraise':
                                p.val = o.val
                            res.append(p)
                        break
                if not handled:
                    res.append(o)
            elif o.kind == 'n' and node.orelse:
                res += self.exec_block(node.orelse, o.st)
            else:
                res.append(o)
        if node.finalbody:
            fin = []
            for o in res:
                for p in self.exec_block(node.finalbody, o.st):
                    if p.kind == 'n':
                        fin.append(Out(o.kind, p.st, o.val))
                    else:
                        fin.append(p)
            res = fin
        return res

    # ---------------------------------------------------------------- loops
    def s_For(self, node, st):
        v = self.expr(node.iter, st)
        seq = self.natives.sequence(self, st, v)
        if seq is None:
            raise Unsupported('iteration over %r' % (v,))
        n = norm_int(seq.n)
        if isinstance(n, SInt):
            n = self.simplify_len(st, n)
        if isinstance(n, int) and n <= UNROLL:
            return self.unrolled(node, st, [seq.get(i) for i in range(n)])
        from . import loopinv
        inv = loopinv.find(self, node, st)
        if inv is not None:
            return loopinv.InvLoop(self, node, st, n, seq, inv).run()
        from .loops import SymLoop
        return SymLoop(self, node, st, n, seq).run()

    def simplify_len(self, st, n):
        z = z3.simplify(n.z)
        v = C._numval(z)
        if v is not None:
            return v
        # max(0, m) when m >= 0 is entailed
        if z3.is_app(n.z) and n.z.decl().kind() == z3.Z3_OP_ITE:
            c = SBool(n.z.arg(0))
            if self.entails(st, c):
                return norm_int(SInt(n.z.arg(1)))
            if self.entails(st, C.lnot(c)):
                return norm_int(SInt(n.z.arg(2)))
        return n

    def unrolled(self, node, st, items):
        cur = [st]
        outs = []
        brk = []
        for x in items:
            nxt = []
            for s in cur:
                self.assign(node.target, x, s)
                for o in self.exec_block(node.body, s):
                    if o.kind in ('n', 'c'):
                        nxt.append(o.st)
                    elif o.kind == 'b':
                        brk.append(o.st)
                    else:
                        outs.append(o)
            cur = [m[0] for m in self.merge_all([(s, None) for s in nxt])]
            if not cur:
                break
        done = []
        for s in cur:
            if node.orelse:
                for o in self.exec_block(node.orelse, s):
                    if o.kind == 'n':
                        done.append(o.st)
                    else:
                        outs.append(o)
            else:
                done.append(s)
        merged = self.merge_all([(s, None) for s in done + brk])
        return outs + [Out('n', m[0]) for m in merged]

    def s_While(self, node, st):
        from .loops import SymLoop
        from . import loopinv
        inv = loopinv.find(self, node, st)
        if inv is not None:
            return loopinv.InvLoop(self, node, st, None, None, inv).run()
        # concrete unrolling while the condition is decided
        outs, brk, cur = [], [], st
        for _ in range(UNROLL):
            probe = cur.copy()
            nf, no, ctr = len(self.facts), len(self.obls), self.counter[0]
            c = self.truth(self.expr(node.test, probe), probe)
            k = self.known(probe, c)
            if k is None or (k is True and isinstance(node.test, ast.Constant)):
                del self.facts[nf:]
                del self.obls[no:]
                self.counter[0] = ctr
                break
            if k is False:
                if node.orelse:
                    return outs + self.exec_block(node.orelse, probe)
                return outs + [Out('n', m[0]) for m in self.merge_all([(s, None) for s in [probe] + brk])]
            nxt = []
            for o in self.exec_block(node.body, probe):
                if o.kind in ('n', 'c'):
                    nxt.append(o.st)
                elif o.kind == 'b':
                    brk.append(o.st)
                else:
                    outs.append(o)
            nxt = self.merge_all([(s, None) for s in nxt])
            if not nxt:
                return outs + [Out('n', m[0]) for m in self.merge_all([(s, None) for s in brk])]
            if len(nxt) > 1:
                raise Unsupported('while loop with unmergeable paths')
            cur = nxt[0][0]
        else:
            raise Unsupported('long concrete while loop')
        if brk or outs:
            raise Unsupported('while loop entered after conditional exits')
        return SymLoop(self, node, cur, None, None).run()

    # ---------------------------------------------------------- expressions
    def expr(self, node, st):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(node).__name__)
        return m(node, st)

    def e_Constant(self, node, st):
        v = node.value
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, float):
            return lift(v)
        return v

    def e_Name(self, node, st):
        return self.name(node.id, st, node)

    def name(self, id, st, node=None):
        if id in st.loc:
            v = st.loc[id]
            if isinstance(v, Poison):
                raise Unsupported('read of %s: %s' % (id, v.why))
            return v
        cl = st.frame.closure
        while cl is not None:
            if id in cl[1]:
                v = cl[1][id]
                if isinstance(v, Poison):
                    raise Unsupported('read of %s: %s' % (id, v.why))
                return v
            cl = cl[0]
        return self.global_value(st.frame.module, id, st)

    def global_value(self, module, id, st):
        v = module.get(id)
        if v is None:
            b = self.natives.builtin(id)
            if b is None:
                raise Unsupported('unknown name %s' % id)
            return b
        return self.static_value(v, id, st, module)

    def static_value(self, v, id, st, module):
        if isinstance(v, tuple) and v and v[0] == 'expr':
            mod, node = v[1], v[2]
            key = ('global', mod.name, id)
            c = self.__dict__.setdefault('_globals', {})
            if key not in c:
                s = State({}, st.heap, (), Frame(mod, None))
                sp = self.natives.global_expr(self, mod, id, node)
                c[key] = sp if sp is not None else self.expr(node, s)
            return c[key]
        return v

    def e_Tuple(self, node, st):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                seq = self.natives.sequence(self, st, self.expr(e.value, st))
                n = cint(seq.n)
                if n is None:
                    raise Unsupported('starred of symbolic length')
                out += [seq.get(i) for i in range(n)]
            else:
                out.append(self.expr(e, st))
        return tuple(out)

    def e_List(self, node, st):
        items = self.e_Tuple(node, st)
        return self.new_list(st, items)

    def new_list(self, st, items):
        r = PList(self.new_key('list'))
        st.heap[r.id] = ('list', tuple(items))
        return r

    def e_Dict(self, node, st):
        d = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                raise Unsupported('dict unpacking')
            d[self.expr(k, st)] = self.expr(v, st)
        r = PDict(self.new_key('dict'))
        st.heap[r.id] = ('dict', tuple(d.items()))
        return r

    def e_JoinedStr(self, node, st):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.expr(v.value, st)
                if isinstance(x, (str, int)) and not isinstance(x, bool) and v.format_spec is None:
                    parts.append(str(x))
                else:
                    r = self.natives.format_value(self, st, x)
                    parts.append(r)
        return self.natives.str_concat(self, st, parts)

    def e_Lambda(self, node, st):
        return FuncVal(st.frame.module, '%s.<lambda>' % (st.frame.func.qual if st.frame.func else ''), node,
                       closure=(st.frame.closure, st.loc))

    def e_Starred(self, node, st):
        raise Unsupported('starred expression')

    def e_NamedExpr(self, node, st):
        v = self.expr(node.value, st)
        st.loc[node.target.id] = v
        return v

    def e_UnaryOp(self, node, st):
        v = self.expr(node.operand, st)
        op = type(node.op).__name__
        if op == 'Not':
            return self.wrapb(C.lnot(self.truth(v, st)))
        return self.unop(op, v, st, node)

    @staticmethod
    def wrapb(b):
        if isinstance(b, SBool):
            if C.is_true(b.z):
                return True
            if C.is_false(b.z):
                return False
        return b

    def unop(self, op, v, st, node=None):
        if isinstance(v, ArrRef):
            f = self.arr_fn(st, v)
            dt = v.dtype
            if op == 'USub':
                return self.alloc(st, v.shape, 'i8' if dt == 'b1' else dt, lambda i: C.sneg(f(i)))
            if op == 'Invert' and dt == 'b1':
                return self.alloc(st, v.shape, 'b1', lambda i: C.lnot(f(i)))
            if op == 'UAdd':
                return self.alloc(st, v.shape, dt, f)
            raise Unsupported('unary %s on array' % op)
        if isinstance(v, (Sym, int, float, bool)):
            if op == 'USub':
                return -v if isinstance(v, int) else C.sneg(v)
            if op == 'UAdd':
                return v
            if op == 'Invert':
                if isinstance(v, (SBool,)):
                    return C.lnot(v)
                if isinstance(v, int) and not isinstance(v, bool):
                    return ~v
        raise Unsupported('unary %s' % op)

    def e_BinOp(self, node, st):
        a = self.expr(node.left, st)
        b = self.expr(node.right, st)
        return self.binop(type(node.op).__name__, a, b, st, node)

    def binop(self, op, a, b, st, node=None):
        if isinstance(a, (ArrRef, RecSel)) or isinstance(b, (ArrRef, RecSel)):
            return self.natives.arr_binop(self, st, op, a, b, node)
        if is_scalar(a) and is_scalar(b):
            return self.scalar_op(op, a, b, st, node)
        r = self.natives.other_binop(self, st, op, a, b, node)
        if r is not NotImplemented:
            return r
        raise Unsupported('binary %s on %s, %s' % (op, type(a).__name__, type(b).__name__))

    def div_check(self, st, b, node):
        b = lift(b)
        n = C._numval(b.z) if not isinstance(b, SBool) else None
        if n is not None:
            if n == 0:
                raise PyRaise('ZeroDivisionError')
            return
        if self.opt.get('allow_div0'):
            return
        self.oblige(st, 'division by zero impossible', C.ne(b, 0), node=node)

    def scalar_op(self, op, a, b, st, node=None, check=True):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and op in ('Add', 'Sub', 'Mult'):
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b}[op]()
        if isinstance(a, bool) and isinstance(b, bool) and op in ('BitAnd', 'BitOr', 'BitXor'):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
        if op == 'Add':
            return C.sadd(a, b)
        if op == 'Sub':
            return C.ssub(a, b)
        if op == 'Mult':
            return C.smul(a, b)
        if op == 'Div':
            if check:
                self.div_check(st, b, node)
            return C.sdiv(a, b)
        if op == 'FloorDiv':
            if check:
                self.div_check(st, b, node)
            if isinstance(a, int) and isinstance(b, int):
                return a // b
            return C.sfloordiv(a, b)
        if op == 'Mod':
            if check:
                self.div_check(st, b, node)
            if isinstance(a, int) and isinstance(b, int):
                return a % b
            return C.smod(a, b)
        if op == 'Pow':
            if isinstance(a, int) and isinstance(b, int) and b >= 0:
                return a ** b
            lb = C._numval(lift(b).z)
            if lb is not None and lb < 0 and check:
                self.div_check(st, a, node)
            return C.spow(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = lift(a), lift(b)
            if isinstance(x, SBool) and isinstance(y, SBool):
                if op == 'BitAnd':
                    return C.land(x, y)
                if op == 'BitOr':
                    return C.lor(x, y)
                return C.lnot(C.iff(x, y))
        raise Unsupported('operator %s' % op)

    def truth(self, v, st):
        """Python truth value as bool / SBool"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, SBool):
            return self.wrapb(v)
        if isinstance(v, (SReal, SInt)):
            r = C._cmp('!=', v, 0)
            if isinstance(v, SReal) and v.nan is not False:
                pass
            return self.wrapb(r)
        if isinstance(v, (int, float, str)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Q):
            return v
        r = self.natives.truth(self, st, v)
        if r is not None:
            return r
        raise Unsupported('truth value of %r' % (v,))

    def guarded(self, st, cond, thunk):
        """evaluate thunk(st') under an extra condition; heap effects merged"""
        k = self.known(st, cond)
        if k is True:
            return thunk(st)
        s2 = st.copy()
        self.assume(s2, cond)
        v = thunk(s2)
        for key, c in s2.heap.items():
            if key in st.heap:
                if st.heap[key] is not c:
                    try:
                        st.heap[key] = self.merge_content(cond, c, st.heap[key])
                    except MergeFail:
                        raise NeedFork(cond)
            else:
                st.heap[key] = c
        for n, x in s2.loc.items():
            if n in st.loc and st.loc[n] is not x:
                st.loc[n] = self.merge_value(cond, x, st.loc[n], s2.heap, st.heap, st.heap)
        return v

    def e_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)
        vals = node.values
        v = self.expr(vals[0], st)
        for nx in vals[1:]:
            t = self.truth(v, st)
            go = t if isand else C.lnot(t)
            k = self.known(st, go) if not isinstance(go, bool) else go
            if k is False:
                return v
            if k is True:
                v = self.expr(nx, st)
                continue
            w = self.guarded(st, go, lambda s: self.expr(nx, s))
            boolish = isinstance(lift(v) if is_scalar(v) else v, SBool) and \
                isinstance(lift(w) if is_scalar(w) else w, SBool)
            if boolish or isinstance(w, Q) or isinstance(v, Q):
                v = self.wrapb(C.land(t, self.truth(w, st)) if isand else C.lor(t, self.truth(w, st)))
            elif is_scalar(v) and is_scalar(w):
                # value semantics
                try:
                    v = self.merge_value(go, w, v, st.heap, st.heap, st.heap)
                except MergeFail:
                    v = self.wrapb(C.land(t, self.truth(w, st)) if isand else C.lor(t, self.truth(w, st)))
            else:
                raise NeedFork(go)
        return v

    def e_IfExp(self, node, st):
        c = self.truth(self.expr(node.test, st), st)
        k = self.known(st, c)
        if k is True:
            return self.expr(node.body, st)
        if k is False:
            return self.expr(node.orelse, st)
        a = self.guarded(st, c, lambda s: self.expr(node.body, s))
        b = self.guarded(st, C.lnot(c), lambda s: self.expr(node.orelse, s))
        try:
            return self.merge_value(c, a, b, st.heap, st.heap, st.heap)
        except MergeFail:
            raise NeedFork(c)

    CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}

    def compare(self, op, a, b, st, node=None):
        nm = type(op).__name__
        if nm in ('Is', 'IsNot'):
            r = self.natives.is_same(self, st, a, b)
            return r if nm == 'Is' else C.lnot(r)
        if nm in ('In', 'NotIn'):
            r = self.natives.contains(self, st, b, a)
            return r if nm == 'In' else C.lnot(r)
        if isinstance(a, (ArrRef, RecSel)) or isinstance(b, (ArrRef, RecSel)):
            return self.natives.arr_compare(self, st, self.CMP[nm], a, b, node)
        if is_scalar(a) and is_scalar(b):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[self.CMP[nm]]
            o = self.CMP[nm]
            if o == '>':
                return self.wrapb(C._cmp('<', b, a))
            if o == '>=':
                return self.wrapb(C._cmp('<=', b, a))
            return self.wrapb(C._cmp(o, a, b))
        r = self.natives.other_compare(self, st, self.CMP[nm], a, b)
        if r is not NotImplemented:
            return r
        raise Unsupported('comparison %s of %r and %r' % (nm, a, b))

    def e_Compare(self, node, st):
        left = self.expr(node.left, st)
        res = None
        for i, (op, rn) in enumerate(zip(node.ops, node.comparators)):
            if res is None:
                right = self.expr(rn, st)
                res = self.compare(op, left, right, st, node)
            else:
                t = self.truth(res, st)
                if t is False:
                    return False
                if t is True:
                    right = self.expr(rn, st)
                    res = self.compare(op, left, right, st, node)
                else:
                    right = self.guarded(st, t, lambda s: self.expr(rn, s))
                    res = self.wrapb(C.land(t, self.truth(self.compare(op, left, right, st, node), st)))
            left = right
        return res

    def e_Attribute(self, node, st):
        return self.getattr(self.expr(node.value, st), node.attr, st, node)

    def getattr(self, v, attr, st, node=None):
        return self.natives.getattr(self, st, v, attr, node)

    def setattr(self, v, attr, val, st, node=None):
        return self.natives.setattr(self, st, v, attr, val, node)

    def subscript_index(self, node, st):
        if isinstance(node, ast.Index):     # py<3.9
            node = node.value
        if isinstance(node, ast.Slice):
            return Slice(*[self.expr(x, st) if x is not None else None for x in (node.lower, node.upper, node.step)])
        if isinstance(node, ast.Tuple):
            return tuple(self.subscript_index(e, st) for e in node.elts)
        return self.expr(node, st)

    def e_Subscript(self, node, st):
        base = self.expr(node.value, st)
        return self.getitem(base, self.subscript_index(node.slice, st), st, node)

    def getitem(self, base, idx, st, node=None):
        return self.natives.getitem(self, st, base, idx, node)

    def setitem(self, base, idx, v, st, node=None):
        return self.natives.setitem(self, st, base, idx, v, node)

    def _comp(self, node, st, elt):
        """list of values of a comprehension (concrete length) or a Seq"""
        gens = node.generators
        s = State(dict(st.loc), st.heap, st.pc, st.frame)
        s.heap = st.heap

        def rec(k, s):
            if k == len(gens):
                return [elt(s)]
            g = gens[k]
            seq = self.natives.sequence(self, s, self.expr(g.iter, s))
            if seq is None:
                raise Unsupported('comprehension source')
            n = norm_int(seq.n)
            if isinstance(n, SInt):
                n = self.simplify_len(s, n)
            if not isinstance(n, int):
                if len(gens) == 1 and not g.ifs:
                    return self._symcomp(node, s, g, seq, n, elt)
                raise Unsupported('comprehension over a symbolic sequence with filter or nesting')
            out = []
            for i in range(n):
                self.assign(g.target, seq.get(i), s)
                keep = True
                for c in g.ifs:
                    t = self.truth(self.expr(c, s), s)
                    kk = self.known(s, t)
                    if kk is None:
                        raise NeedFork(t)
                    if not kk:
                        keep = False
                        break
                if keep:
                    r = rec(k + 1, s)
                    if isinstance(r, Seq):
                        raise Unsupported('nested symbolic comprehension')
                    out += r
            return out
        r = rec(0, s)
        st.pc = s.pc if len(s.pc) >= len(st.pc) else st.pc
        return r

    def _symcomp(self, node, s, g, seq, n, elt):
        """element-wise comprehension over symbolic length: value as function of index"""
        it = z3.Int(self.fresh_name('it'))
        self.nonneg.add(it.get_id())
        self.__dict__.setdefault('_keep', []).append(it)
        nf = len(self.facts)
        self.loopvars.append(it)
        s2 = s.copy()
        self.assume(s2, SBool(z3.And(it >= 0, it < zint(n))))
        base_pc = s.pc
        try:
            before = dict(s2.heap)
            self.assign(g.target, seq.get(SInt(it)), s2)
            v = elt(s2)
        finally:
            self.loopvars.pop()
        for k, c in before.items():
            if s2.heap.get(k) is not c:
                raise Unsupported('comprehension with side effects')
        extra = {k: c for k, c in s2.heap.items() if k not in before}
        new = self.facts[nf:]
        del self.facts[nf:]
        for pc, f in new:
            rel = [p for p in pc if not any(fid(p) == fid(q) for q in base_pc)]
            self.facts.append((base_pc, C.forall(SInt(0), n, (lambda f, rel: lambda k: vsub(
                C.implies(C.land(*rel), f) if rel else f, [(it, lift(k).z)]))(f, rel))))

        def get(k):
            pairs = [(it, zint(norm_int(k)))]
            if isinstance(v, ArrRef) and v.key in extra:
                key = Heap.make(vsub(extra[v.key], pairs))
                return ArrRef(key, vsub(v, pairs).dims, v.dtype, True)
            return vsub(v, pairs)
        return Seq(n, get)

    def e_ListComp(self, node, st):
        r = self._comp(node, st, lambda s: self.expr(node.elt, s))
        if isinstance(r, Seq):
            p = PList(self.new_key('list'))
            st.heap[p.id] = ('seq', r)
            return p
        return self.new_list(st, r)

    def e_GeneratorExp(self, node, st):
        r = self._comp(node, st, lambda s: self.expr(node.elt, s))
        if isinstance(r, Seq):
            return r
        return Seq(len(r), lambda i: r[i])

    def e_DictComp(self, node, st):
        r = self._comp(node, st, lambda s: (self.expr(node.key, s), self.expr(node.value, s)))
        if isinstance(r, Seq):
            p = PDict(self.new_key('dict'))
            st.heap[p.id] = ('dseq', r)
            return p
        p = PDict(self.new_key('dict'))
        d = {}
        for k, v in r:
            d[k] = v
        st.heap[p.id] = ('dict', tuple(d.items()))
        return p

    def e_Yield(self, node, st):
        v = self.expr(node.value, st) if node.value is not None else None
        y = st.frame.yielder
        if y is None:
            raise Unsupported('yield outside a generator contract')
        return y(self, st, v, node)

    # ---------------------------------------------------------------- calls
    def e_Call(self, node, st):
        f = self.expr(node.func, st)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                seq = self.natives.sequence(self, st, self.expr(a.value, st))
                n = cint(seq.n)
                if n is None:
                    raise Unsupported('starred argument of symbolic length')
                args += [seq.get(i) for i in range(n)]
            else:
                args.append(self.expr(a, st))
        kwargs = {}
        for k in node.keywords:
            if k.arg is None:
                d = self.expr(k.value, st)
                kwargs.update(self.natives.as_kwargs(self, st, d))
            else:
                kwargs[k.arg] = self.expr(k.value, st)
        return self.call(f, args, kwargs, st, node)

    def call(self, f, args, kwargs, st, node=None):
        if isinstance(f, Native):
            self.used_natives.add(f.name)
            return f.fn(self, st, args, kwargs, node)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kwargs, st, node)
        if isinstance(f, FuncVal):
            return self.call_function(f, args, kwargs, st, node)
        if isinstance(f, Ext):
            n = self.natives.ext(f.path)
            if n is None:
                raise Unsupported('external function %s' % f.path)
            self.used_natives.add(f.path)
            return n(self, st, args, kwargs, node)
        if isinstance(f, ClassVal):
            return self.natives.construct(self, st, f, args, kwargs, node)
        r = self.natives.call_other(self, st, f, args, kwargs, node)
        if r is not NotImplemented:
            return r
        raise Unsupported('call of %r' % (f,))

    def bind(self, f, args, kwargs, st):
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        loc = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise('TypeError')
            loc[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in loc and k in names:
                raise PyRaise('TypeError')
            if k in names or k in kwonly:
                loc[k] = v
            else:
                extra[k] = v
        if extra and a.kwarg is None:
            raise PyRaise('TypeError')
        fr = Frame(f.module, f, f.closure)
        dflt = names[len(names) - len(a.defaults):]
        for n, d in list(zip(dflt, a.defaults)) + [(n, d) for n, d in zip(kwonly, a.kw_defaults) if d is not None]:
            if n not in loc:
                s = State({}, st.heap, st.pc, Frame(f.module, f, f.closure))
                loc[n] = self.expr(d, s)
        if a.kwarg is not None:
            p = PDict(self.new_key('dict'))
            st.heap[p.id] = ('dict', tuple(extra.items()))
            loc[a.kwarg.arg] = p
        for n in names + kwonly:
            if n not in loc:
                raise PyRaise('TypeError')
        return loc, [loc[n] for n in names]

    TRANSPARENT = ('jit', 'njit', 'log_with', 'wraps', 'lru_cache', 'staticmethod', 'classmethod', 'property',
                   'default', 'observe', 'validate', 'contextmanager')

    def decorators(self, f):
        out = []
        for d in getattr(f.node, 'decorator_list', []):
            t = d.func if isinstance(d, ast.Call) else d
            nm = t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', '?')
            out.append((nm, d))
        return out

    def call_function(self, f, args, kwargs, st, node=None):
        decos = self.decorators(f)
        for nm, d in decos:
            if nm == 'vectorize':
                if any(isinstance(a, ArrRef) for a in args):
                    return self.natives.vectorized(self, st, f, args, node)
            elif nm == 'generated_jit':
                return self.natives.generated(self, st, f, args, kwargs, node)
            elif nm not in self.TRANSPARENT:
                raise Unsupported('decorator %s on %s' % (nm, f.key))
        loc, pos = self.bind(f, args, kwargs, st)
        con = self.registry.lookup(f, pos, self, st) if self.registry else None
        if con is not None and not (f.key == self.top_key and not self.callstack):
            self.used_contracts.add((con.key, con.variant))
            return con.apply(self, st, f, pos, node)
        if f.key in self.callstack:
            raise Unsupported('recursion in %s without contract' % f.key)
        if len(self.callstack) > 40:
            raise Unsupported('call depth')
        return self.inline(f, loc, st, node)

    def inline(self, f, loc, st, node=None):
        self.inlined.add(f.key)
        s = State(loc, st.heap, st.pc, Frame(f.module, f, f.closure))
        self.callstack.append(f.key)
        self.frames.append(st.loc)
        saved = self.pending
        self.pending = []
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.expr(f.node.body, s)
                st.heap, st.pc = s.heap, s.pc
                saved += self.pending
                return v
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                if f.key != self.top_key or self.opt.get('yielder') is None or len(self.callstack) > 1:
                    raise Unsupported('generator %s without contract' % f.key)
                s.frame.yielder = self.opt['yielder']
            outs = self.exec_block(f.node.body, s.copy())
        finally:
            self.callstack.pop()
            self.frames.pop()
            self.pending = saved
        rets, raises = [], []
        for o in outs:
            if o.kind == 'n':
                rets.append((o.st, NONE))
            elif o.kind == 'r':
                rets.append((o.st, (NONE if o.val is None else o.val)))
            elif o.kind == 'x':
                raises.append(o)
            else:
                raise Unsupported('break outside loop')
        strip = [(State({}, x.heap, x.pc, st.frame), v) for x, v in rets]
        if not strip:
            if len(raises) == 1:
                st.heap, st.pc = raises[0].st.heap, raises[0].st.pc
                raise PyRaise(*raises[0].val)
            for o in raises:
                self.pending.append(Out('x', State(dict(st.loc), o.st.heap, o.st.pc, st.frame), o.val))
            raise PyRaise('unreachable')
        merged = self.merge_all(strip)
        if len(merged) > 1:
            base = st.pc
            extra = [p for p in merged[0][0].pc if not any(fid(p) == fid(q) for q in base)]
            ground = [p for p in extra if isinstance(p, SBool)]
            if not ground:
                raise Unsupported('call of %s returns incompatible values' % f.key)
            raise NeedFork(ground[0])
        for o in raises:
            self.pending.append(Out('x', State(dict(st.loc), o.st.heap, o.st.pc, st.frame), o.val))
        r, v = merged[0]
        st.heap, st.pc = r.heap, r.pc
        return None if v is NONE else v


class _None:
    def merge_with(self, cond, other):
        return self if other is self else None

    def __repr__(self):
        return 'NONE'


NONE = _None()
