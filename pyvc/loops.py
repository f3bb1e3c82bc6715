"""Loops over symbolic ranges.

A loop is summarised by symbolically executing one generic iteration `it` and
deriving, for every location the body changes, its value at the start of an
arbitrary iteration: a closed form when the one-iteration effect has one of the
shapes below (each is the solution of the recurrence X(0) = x0,
X(it+1) = E(it, X(it)) by induction on it), or an uninterpreted X(it) together
with the recurrence itself otherwise.

  constant      E = x0 whenever every constant location still has its entry value
  last value    E does not depend on X
  counter/fold  E = X + D, D free of X            X(k) = x0 + sum_{j<k} D(j)
  point-wise    every store of the array in iteration it is at index it (+c)
  cells         every store is at an index independent of it (scalar per cell)
  scatter       content' = content + D(index, it), D free of the content
  any / all     E = X or c / E = X and c
  min / max     E = ite(g and t < X, t, X), with every location overwritten
                under the same condition following the selected iteration

Obligations raised in the body are those of the generic iteration."""
import ast
import itertools

import z3

from . import core as C
from . import solve
from .core import SBool, SInt, SReal, Q, Sym, Unsupported, lift
from .values import (ArrRef, Content, PList, PDict, Poison, RecArr, RecRow, Seq, SORT, coerce, cint, idx_eq, indices,
                     make_content, norm_int, small_concrete, zint)

WRAP = {'f8': SReal, 'i8': SInt, 'b1': SBool}


def dtype_of(v):
    v = lift(v)
    return 'f8' if isinstance(v, SReal) else 'i8' if isinstance(v, SInt) else 'b1'


def assigned_names(nodes):
    out = []

    def tgt(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in out:
                out.append(x.id)

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
    v = V()
    for n in nodes:
        v.visit(n)
    return out


def rewrite_apps(z, table, cache):
    """bottom-up replacement of applications of the functions in table"""
    i = z.get_id()
    if i in cache:
        return cache[i][0]
    if not z3.is_app(z) or z.num_args() == 0:
        r = z
    else:
        ch = [rewrite_apps(c, table, cache) for c in z.children()]
        f = table.get(z.decl().name())
        if f is not None:
            r = f(ch)
        elif z.decl().name() in C.SUMS.info:
            r = rewrite_sum(z.decl()(*ch), table, cache)
        elif all(a.eq(b) for a, b in zip(ch, z.children())):
            r = z
        else:
            k = z.decl().kind()
            if k == z3.Z3_OP_AND:
                r = C.zand(*ch)
            elif k == z3.Z3_OP_OR:
                r = C.zor(*ch)
            elif k == z3.Z3_OP_NOT:
                r = C.znot(ch[0])
            elif k == z3.Z3_OP_ITE:
                r = C.zite(*ch)
            elif k == z3.Z3_OP_ADD and len(ch) == 2:
                r = C._z_add(*ch)
            elif k == z3.Z3_OP_MUL and len(ch) == 2:
                r = C._z_mul(*ch)
            elif k == z3.Z3_OP_SUB and len(ch) == 2:
                r = C._z_sub(*ch)
            else:
                r = z.decl()(*ch)
    cache[i] = (r, z)
    return r


_RW = itertools.count()


def rewrite_sum(z, table, cache):
    """the replacement inside the summed terms"""
    own = z3.Int('k!rw%d' % next(_RW))
    hi, body = C.sum_parts(z)
    body = z3.substitute(body, (C.KVAR, own))
    new = rewrite_apps(body, table, cache)
    return z if new.eq(body) else C.sum_term(hi, z3.substitute(new, (own, C.KVAR)))


def is_carry(key):
    return isinstance(key, tuple) and len(key) == 2 and key[0] == 'carry'


def depends(f, x, deep=0):
    """does a formula mention the integer constant x"""
    if isinstance(f, C.Q):
        if f.op in ('forall', 'exists'):
            k = z3.Int('dep!%d' % deep) if f.sort == 'int' else z3.Real('depr!%d' % deep)
            b = f.fn(SInt(k) if f.sort == 'int' else SReal(k))
            return any(depends(y, x, deep + 1) for y in (f.lo, f.hi, b) if y is not None)
        return any(depends(y, x, deep) for y in f.args)
    if isinstance(f, (bool, int, float)):
        return False
    zs = [f.z] + ([f.nan] if isinstance(f, SReal) and not isinstance(f.nan, bool) else [])
    return any(c.eq(x) for z in zs for c in C.int_consts(z))


def prune(z, known=None):
    """drop branches of conditional terms decided by an enclosing condition"""
    known = known or {}

    def learn(c, v, k):
        if z3.is_not(c):
            learn(c.arg(0), not v, k)
            return
        k[c.get_id()] = (c, v)
        if v and z3.is_and(c) or not v and z3.is_or(c):
            for x in c.children():
                learn(x, v, k)

    def value(c):
        if c.get_id() in known:
            return known[c.get_id()][1]
        if z3.is_not(c):
            v = value(c.arg(0))
            return None if v is None else not v
        return None
    if not z3.is_app(z) or not z.num_args():
        return z
    if z.sort() == z3.BoolSort():
        v = value(z)
        if v is not None:
            return z3.BoolVal(v)
    if z.decl().kind() == z3.Z3_OP_ITE:
        c = z3.simplify(prune(z.arg(0), known))
        v = True if z3.is_true(c) else False if z3.is_false(c) else value(c)
        if v is not None:
            return prune(z.arg(1 if v else 2), known)
        k1, k2 = dict(known), dict(known)
        learn(c, True, k1)
        learn(c, False, k2)
        x, y = prune(z.arg(1), k1), prune(z.arg(2), k2)
        return x if x.eq(y) else z3.If(c, x, y)
    ch = [prune(c, known) for c in z.children()]
    return z if all(x.eq(y) for x, y in zip(ch, z.children())) else z3.simplify(z.decl()(*ch))


class Slot:
    """scalar location: ('loc', name) | ('heap', key) | ('cell', key, idx)"""

    def __init__(self, loop, where, x0):
        self.loop, self.where, self.x0 = loop, where, lift(x0)
        self.dtype = dtype_of(x0)
        self.nan = isinstance(self.x0, SReal) and self.x0.nan is not False
        self.closed = None
        self.E = None
        self.mk()

    def mk(self):
        ex = self.loop.ex
        lv = list(ex.loopvars)
        base = 'X'
        nm = ex.fresh_name(base)
        self.name = nm
        self.f = z3.Function(nm, *([z3.IntSort()] * (len(lv) + 1) + [SORT[self.dtype]]))
        self.fn = None
        if self.nan:
            self.fn = z3.Function(nm + 'n', *([z3.IntSort()] * (len(lv) + 1) + [z3.BoolSort()]))
        self.lv = lv
        self.x0 = coerce(self.x0, self.dtype)

    def raw(self, k):
        a = self.lv + [zint(k)]
        v = WRAP[self.dtype](self.f(*a))
        if self.fn is not None:
            v = SReal(v.z, self.fn(*a))
        return v

    def at(self, k):
        return self.closed(k) if self.closed else self.raw(k)

    def names(self):
        return {self.name, self.name + 'n'}


class ArrSlot:
    def __init__(self, loop, key, entry):
        self.loop, self.key, self.entry = loop, key, entry
        self.mode = None          # None | 'cells' | 'point' | 'scatter' | 'raw'
        self.perm = None          # (n, p, q): stored at p(it), q the inverse of p on 0..n-1
        self.scan = None          # scalar slot: the cell stored by the previous iteration
        self.cells = []
        ex = loop.ex
        self.lv = list(ex.loopvars)
        self.name = ex.fresh_name('C')
        r = len(entry.shape)
        self.f = z3.Function(self.name, *([z3.IntSort()] * (len(self.lv) + 1 + r) + [SORT[entry.dtype]]))
        self.closed = None        # fn(k, idx) -> scalar

    def raw(self, k, idx):
        return WRAP[self.entry.dtype](self.f(*(self.lv + [zint(k)] + [zint(norm_int(i)) for i in idx])))

    def content(self, k):
        """content at the start of iteration k"""
        if self.mode == 'cells':
            c = self.entry
            for s in self.cells:
                c = c.store(s.where[2], s.at(k))
            return c
        if self.closed:
            return make_content(self.entry.shape, self.entry.dtype, lambda idx: self.closed(k, idx))
        if self.scan is not None and self.perm is None:
            def get(idx):
                z = z3.simplify(zint(norm_int(idx[0])) - self.off + 1 - zint(k))
                return self.scan.at(k) if z3.is_int_value(z) and z.as_long() == 0 else self.raw(k, idx)
            return make_content(self.entry.shape, self.entry.dtype, get)
        return make_content(self.entry.shape, self.entry.dtype, lambda idx: self.raw(k, idx))

    def names(self):
        return {self.name}


def simp_bool(z):
    s = z3.simplify(z)
    if z3.is_true(s) or z3.is_false(s):
        return s
    return z


def ground(v):
    """z3 terms of a scalar"""
    return [v.z] + ([] if not isinstance(v, SReal) or isinstance(v.nan, bool) else [v.nan])


class SymLoop:
    def __init__(self, ex, node, st, n, seq):
        self.ex, self.node, self.st, self.n, self.seq = ex, node, st, n, seq
        self.slots = []
        self.arrs = {}
        self.lists = {}
        self.kept = []        # facts of contributing passes
        self.keep = []

    # ------------------------------------------------------------ one pass
    def setup(self):
        ex, node = self.ex, self.node
        self.isfor = self.seq is not None
        body = list(node.body) + ([] if self.isfor else [ast.Expr(node.test)])
        names = assigned_names(body + ([node.target] if self.isfor else []))
        tnames = assigned_names([node.target]) if self.isfor else []
        self.names = names
        from .execu import is_scalar
        for nm in names:
            if nm in self.st.loc and nm not in tnames:
                v = self.st.loc[nm]
                if is_scalar(v):
                    self.slots.append(Slot(self, ('loc', nm), v))
                elif isinstance(v, ArrRef) and small_concrete(v.shape):
                    c = ex.arr_snapshot(self.st, v)
                    a = ArrSlot(self, ('carry', nm), c)
                    a.mode = 'cells'
                    for i in indices(c.shape):
                        s = Slot(self, ('cell', ('carry', nm), i), c.get(i))
                        a.cells.append(s)
                        self.slots.append(s)
                    a.ref = v
                    self.arrs[a.key] = a
        self.it = z3.Int(ex.fresh_name('it'))
        ex.nonneg.add(self.it.get_id())
        ex.__dict__.setdefault('_keep', []).append(self.it)
        self.N = None
        if not self.isfor:
            self.N = ex.fresh_z(z3.IntSort(), 'it')
            ex.fact(self.st, SBool(self.N >= 0))
            ex.nonneg.add(self.N.get_id())
            ex._keep.append(self.N)
            self.n = SInt(self.N)

    def do_pass(self):
        """returns dict(end, outs, log, facts, obls, start)"""
        ex, st = self.ex, self.st
        it = SInt(self.it)
        s = st.copy()
        for nm in self.names:
            if nm in s.loc:
                s.loc[nm] = Poison('changed by a loop')
        for k, a in self.arrs.items():
            if is_carry(k):
                key = ex.new_key('carry')
                s.heap[key] = a.content(it)
                s.loc[k[1]] = ArrRef(key, [('d', 0, x) for x in a.entry.shape], a.entry.dtype, readonly=True)
            else:
                s.heap[k] = a.content(it)
        for sl in self.slots:
            if sl.where[0] == 'loc':
                s.loc[sl.where[1]] = sl.at(it)
            elif sl.where[0] == 'heap':
                s.heap[sl.where[1]] = sl.at(it)
        for k in self.lists:
            s.heap[k] = ('app', k, ())
        base = s.pc
        nf, no = len(ex.facts), len(ex.obls)
        saved_log = ex.store_log
        ex.store_log = []
        saved_pending, ex.pending = ex.pending, []
        rng = SBool(z3.And(self.it >= 0, self.it < zint(self.n)))
        cond = None
        ex.loopvars.append(self.it)
        try:
            s.pc = s.pc + (rng,)
            start = s.copy()
            if self.isfor:
                ex.assign(self.node.target, self.seq.get(it), s)
            else:
                cond = ex.truth(ex.expr(self.node.test, s), s)
                if cond is True:
                    cond = SBool(True)
                if cond is False:
                    cond = SBool(False)
                self.cond = cond
                ex.assume(s, cond)
            outs = ex.exec_block(self.node.body, s) + ex.pending
        finally:
            ex.loopvars.pop()
            log, ex.store_log = ex.store_log, saved_log
            ex.pending = saved_pending
        facts = ex.facts[nf:]
        obls = ex.obls[no:]
        del ex.facts[nf:]
        del ex.obls[no:]
        norm = [o.st for o in outs if o.kind in ('n', 'c')]
        exits = [o for o in outs if o.kind not in ('n', 'c')]
        end = None
        if norm:
            merged = ex.merge_all([(x, None) for x in norm])
            if len(merged) > 1:
                raise Unsupported('loop body with unmergeable paths')
            end = merged[0][0]
        return dict(start=start, end=end, exits=exits, log=log, facts=facts, obls=obls, base=base)

    # ------------------------------------------------------------- updating
    def in_loop(self, z):
        """does a term depend on the iteration"""
        return any(c.eq(self.it) for c in C.int_consts(z))

    def update(self, r):
        """extend slots / closed forms; True when another pass is needed"""
        ex = self.ex
        start, end = r['start'], r['end']
        if end is None:
            return False
        # newly written heap entries
        new = False
        for key, c in self.st.heap.items():
            e = end.heap.get(key)
            if e is start.heap.get(key):
                continue
            if key in self.arrs or key in self.lists or any(s.where == ('heap', key) for s in self.slots):
                continue
            if isinstance(c, Content):
                self.arrs[key] = ArrSlot(self, key, c)
            elif isinstance(c, tuple) and c and c[0] in ('list', 'seq'):
                self.lists[key] = c
            elif isinstance(c, (Sym, int, float, bool)):
                self.slots.append(Slot(self, ('heap', key), c))
            elif c is None or isinstance(c, (str, ArrRef)):
                raise Unsupported('loop changes a non-numeric location %s' % (key,))
            else:
                raise Unsupported('loop changes heap entry %s' % (key,))
            new = True
        if new:
            return True
        # modes
        for key, a in self.arrs.items():
            if a.mode is None:
                a.mode = self.choose_mode(a, r)
                if a.mode == 'cells':
                    new = True
        if new:
            return True
        # dtype / NaN promotion
        for s in self.slots:
            e = self.end_value(s, r)
            if isinstance(e, Poison):
                s.E = e
                continue
            dt = dtype_of(e)
            if dt != s.dtype:
                if {dt, s.dtype} == {'i8', 'f8'}:
                    if s.dtype == 'i8':
                        s.dtype = 'f8'
                        s.closed = None
                        s.mk()
                        new = True
                    else:
                        e = coerce(e, 'f8')
                elif s.dtype == 'b1' or dt == 'b1':
                    raise Unsupported('loop changes the type of a variable')
            if isinstance(e, SReal) and e.nan is not False and not s.nan:
                s.nan = True
                s.closed = None
                s.mk()
                new = True
            s.E = e
        if new:
            return True
        return self.close(r)

    def end_value(self, s, r):
        w, end = s.where, r['end']
        if w[0] == 'loc':
            v = end.loc.get(w[1], Poison('deleted'))
            from .execu import is_scalar
            return v if isinstance(v, Poison) or is_scalar(v) else Poison('type changes in loop')
        if w[0] == 'heap':
            return end.heap[w[1]]
        if w[0] == 'scan':
            a = self.arrs[w[1]]
            return end.heap[w[1]].get((norm_int(SInt(z3.simplify(self.it + a.off))),))
        key, idx = w[1], w[2]
        if is_carry(key):
            v = end.loc.get(key[1])
            if isinstance(v, ArrRef) and len(v.shape) == len(idx) and \
                    all(self.ex._same_int(x, y) for x, y in zip(v.shape, self.arrs[key].entry.shape)):
                return end.heap[v.key].get(v.base_index(idx))
            return Poison('array shape changes in loop')
        return end.heap[key].get(idx)

    def choose_mode(self, a, r):
        log = [i for k, i in r['log'] if k == a.key]
        if any(i is None for i in log):
            return 'scatter'
        sh = a.entry.shape
        # cells: expand concrete ranges
        cells, ok = [], True
        for idx in log:
            opts = [()]
            for x, n in zip(idx, sh):
                if x is None:
                    if not isinstance(n, int) or n > 8:
                        ok = False
                        break
                    opts = [o + (i,) for o in opts for i in range(n)]
                else:
                    x = norm_int(x)
                    if isinstance(x, SInt) and self.in_loop(x.z):
                        ok = False
                        break
                    opts = [o + (x,) for o in opts]
            if not ok:
                break
            for o in opts:
                for c in cells:
                    e = idx_eq(c, o)
                    if e is True:
                        break
                    if e is not False:
                        ok = False
                else:
                    cells.append(o)
                if not ok or len(cells) > 16:
                    ok = False
                    break
            if not ok:
                break
        if ok and cells:
            for c in cells:
                s = Slot(self, ('cell', a.key, c), a.entry.get(c))
                a.cells.append(s)
                self.slots.append(s)
            return 'cells'
        for d in range(len(sh)):
            offs = []
            for idx in log:
                x = idx[d]
                if x is None:
                    break
                x = norm_int(x)
                off = z3.simplify(zint(x) - self.it)
                if self.in_loop(off):
                    break
                offs.append(off)
            else:
                if offs and all(o.eq(offs[0]) for o in offs):
                    a.dim, a.off = d, offs[0]
                    return 'point'
        # one store per iteration, through a permutation
        for d in range(len(sh)):
            # (number of images, map, inverse on the images, is j an image)
            maps = [(m, p, q, lambda j, m=m: C.land(C.le(0, j), C.lt(j, m))) for m, p, q in getattr(self.ex, '_perms', ())]
            maps += [(m, p, q, lambda j, mask=mask, n=n: C.land(C.le(0, j), C.lt(j, n), mask((j,))))
                     for m, p, q, mask, n in getattr(self.ex, '_sels', {}).values()]
            for m, p, q, member in maps:
                want = lift(p((SInt(self.it),))).z
                if log and all(x[d] is not None and zint(norm_int(x[d])).eq(want) for x in log) and \
                        self.ex.entails(self.st, C.le(SInt(zint(self.n)), m)):
                    a.dim, a.off, a.perm = d, None, (m, p, q, member)
                    return 'point'
        return 'scatter'

    # ----------------------------------------------------------- closing
    def table(self):
        t = {}
        for s in self.slots:
            if s.closed:
                def f(ch, s=s):
                    return coerce(s.closed(norm_int(SInt(ch[-1]))), s.dtype).z
                t[s.name] = f
        for a in self.arrs.values():
            if a.closed:
                def g(ch, a=a):
                    m = len(a.lv)
                    return coerce(a.closed(norm_int(SInt(ch[m])), tuple(SInt(x) for x in ch[m + 1:])), a.entry.dtype).z
                t[a.name] = g
        return t

    def resolve(self, v):
        from .execu import vmap
        t = self.table()
        cache = {}

        def f(z):
            for _ in range(6):
                z2 = rewrite_apps(z, t, cache)
                if z2.eq(z):
                    return z
                z = z2
            return z
        return vmap(v, f)

    def at_iter(self, v, k):
        """value of the generic iteration at iteration k, closed forms applied"""
        from .execu import vsub
        k = lift(k)
        return self.resolve(vsub(v, [(self.it, k.z)]) if not k.z.eq(self.it) else v)

    def open_names(self):
        out = set()
        for s in self.slots:
            if not s.closed:
                out |= s.names()
        return out

    def close(self, r):
        from .execu import mentions
        new = False
        todo = [s for s in self.slots if not s.closed and not isinstance(s.E, Poison)]
        # constants (optimistic set, then shrink)
        cand = list(todo)
        while cand:
            pairs = []
            table = {}
            for s in cand:
                table[s.name] = (lambda s: lambda ch: s.x0.z)(s)
                if s.fn is not None:
                    table[s.name + 'n'] = (lambda s: lambda ch: z3.BoolVal(s.x0.nan) if isinstance(s.x0.nan, bool) else s.x0.nan)(s)
            cache = {}
            drop = []
            for s in cand:
                e = coerce(s.E, s.dtype)
                z = rewrite_apps(e.z, table, cache)
                same = z.eq(s.x0.z) or z3.is_true(z3.simplify(z == s.x0.z))
                if same and isinstance(e, SReal):
                    en = e.nan if isinstance(e.nan, bool) else z3.simplify(rewrite_apps(e.nan, table, cache))
                    xn = s.x0.nan
                    same = (en is xn) or (not isinstance(en, bool) and
                                          (z3.is_true(en) and xn is True or z3.is_false(en) and xn is False
                                           or not isinstance(xn, bool) and en.eq(xn)))
                if not same:
                    drop.append(s)
            if not drop:
                break
            cand = [s for s in cand if s not in drop]
        for s in cand:
            s.closed = (lambda x0: lambda k: x0)(s.x0)
            new = True
        if new:
            self.kept += r['facts']
            return True
        for s in todo:
            if self.close_scalar(s, r):
                new = True
        done = []
        for others in (False, True):
            for a in self.arrs.values():
                if not a.closed and a.mode == 'point' and a.key not in done and self.close_point(a, r, others):
                    new = True
                    done.append(a.key)
        for a in self.arrs.values():
            if a.closed or a.mode in ('cells', 'raw') or a.key in done:
                continue
            if a.mode == 'point':
                a.mode = 'scatter'
            if a.mode == 'scatter':
                if self.close_scatter(a, r):
                    new = True
                else:
                    a.mode = 'raw'
                    new = True
        if new:
            self.kept += r['facts']
        return new

    def close_scalar(self, s, r):
        from .execu import mentions, vsub
        e = coerce(s.E, s.dtype)
        names = s.names()
        it = self.it
        if not mentions(e, names):
            x0 = s.x0

            def last(k, e=e, x0=x0):
                c = simp_bool(zint(norm_int(k)) == 0)
                if z3.is_true(c):
                    return x0
                prev = norm_int(C.ssub(k, 1))
                v = self.at_iter(e, prev)
                if isinstance(v, SInt) and not z3.is_false(c) and z3.is_app(zint(norm_int(k))) and \
                        z3.simplify(z3.substitute(v.z, (zint(norm_int(k)), z3.IntVal(0))) == x0.z).eq(z3.BoolVal(True)):
                    return SInt(z3.simplify(v.z))  # also the value before the first iteration
                return C.ite(SBool(c), x0, v) if not z3.is_false(c) else v
            s.closed = last
            return True
        if s.dtype == 'b1' or s.nan:
            return False
        d = self.lin_delta(e, s.raw(SInt(it)), names)
        if d is None:
            return self.close_restart(s, e, names)
        dn = C._numval(d.z)
        x0 = s.x0
        if dn is not None:
            if s.dtype == 'i8':
                s.closed = lambda k: norm_int(C.sadd(x0, C.smul(int(dn), lift(k))))
            else:
                s.closed = lambda k: C.sadd(x0, C.smul(SReal(C.zreal(dn) if not isinstance(dn, int) else z3.RealVal(dn)), lift(k)))
            return True
        # sums of terms that still mention open recurrences are postponed once
        s.closed = lambda k: C.sadd(x0, C.Sum(0, k, lambda j: self.at_iter(d, j)))
        return True

    def close_restart(self, s, e, names):
        """E = B in the first iteration (B free of X), X + D in every other one"""
        z = e.z
        if not (z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE):
            return False
        c, x, y = z.children()
        pos = z3.And(self.it >= 0, c != (self.it == 0))
        neg = z3.And(self.it >= 0, c != (self.it != 0))
        sol = z3.Solver()
        sol.set('timeout', 300)
        if self._ment(c, names):
            return False
        if sol.check(pos) == z3.unsat:
            b, rest = x, y
        elif sol.check(neg) == z3.unsat:
            b, rest = y, x
        else:
            return False
        if self._ment(b, names):
            return False
        w = WRAP[s.dtype]
        d = self.lin_delta(w(rest), s.raw(SInt(self.it)), names)
        if d is None:
            return False
        x0 = s.x0
        if z3.simplify(b).eq(z3.simplify(d.z)):
            def closed(k):
                return C.ite(SBool(zint(norm_int(k)) <= 0), x0, C.Sum(0, k, lambda j: self.at_iter(d, j)))
        else:
            def closed(k):
                return C.ite(SBool(zint(norm_int(k)) <= 0), x0, C.sadd(
                    self.at_iter(w(b), 0), C.Sum(1, k, lambda j: self.at_iter(d, j))))
        s.closed = closed
        return True

    def lin_delta(self, e, x, names):
        """e = x + d with d free of names, or None"""
        def go(z):
            if z.eq(x.z):
                return z3.RealVal(0) if z.sort() == z3.RealSort() else z3.IntVal(0)
            if not z3.is_app(z):
                return None
            k = z.decl().kind()
            ch = z.children()
            if k == z3.Z3_OP_ADD:
                with_x = [c for c in ch if self._ment(c, names)]
                if len(with_x) != 1:
                    return None
                d = go(with_x[0])
                if d is None:
                    return None
                for c in ch:
                    if c is not with_x[0]:
                        d = C._z_add(d, c)
                return d
            if k == z3.Z3_OP_SUB and len(ch) == 2:
                if self._ment(ch[1], names):
                    return None
                d = go(ch[0])
                return None if d is None else C._z_sub(d, ch[1])
            if k == z3.Z3_OP_ITE:
                if self._ment(ch[0], names):
                    return None
                a, b = go(ch[1]), go(ch[2])
                if a is None or b is None:
                    return None
                return C.zite(ch[0], a, b)
            if k == z3.Z3_OP_TO_REAL:
                d = go(ch[0])
                return None if d is None else z3.ToReal(d)
            return None
        if isinstance(e, SReal) and e.nan is not False:
            return None
        d = go(e.z)
        if d is None or self._ment(d, names):
            return None
        return WRAP['f8' if d.sort() == z3.RealSort() else 'i8'](d)

    @staticmethod
    def _ment(z, names):
        for e in solve.apps_of([z]).values():
            if e.decl().name() in names:
                return True
        return False

    def close_point(self, a, r, others=True):
        """array stored only at index it + off along one dimension"""
        from .execu import vsub
        end = r['end'].heap[a.key]
        d, off, it = a.dim, a.off, self.it
        m = len(a.lv)
        where = lambda b: norm_int(b.perm[1]((SInt(it),)) if b.perm else SInt(z3.simplify(it + b.off)))
        # reads of the raw content must be at the index stored to
        if end.cells is not None:
            return False
        pts = [SInt(z3.Int('pt!%d' % i)) for i in range(len(a.entry.shape))]
        own = end.get(tuple(where(a) if i == d else x for i, x in enumerate(pts)))
        alone = None       # the stored value with all reads of the array replaced
        for app in solve.apps_of(ground(own)).values():
            if app.decl().name() == a.name:
                if a.perm:
                    if app.arg(m + 1 + d).eq(lift(a.perm[1]((SInt(app.arg(m)),))).z):
                        continue
                    alone = self.unstored_reads(a, own, r) if others else None
                    if alone is None:
                        return False
                    break
                z = z3.simplify(app.arg(m + 1 + d) - off - app.arg(m))
                if not (z3.is_int_value(z) and z.as_long() == 0):
                    if z3.is_int_value(z) and z.as_long() == -1 and len(a.entry.shape) == 1 and a.scan is None:
                        # reads what the previous iteration stored
                        a.scan = Slot(self, ('scan', a.key), a.entry.get((norm_int(SInt(z3.simplify(off - 1))),)))
                        self.slots.append(a.scan)
                        return True
                    alone = self.unstored_reads(a, own, r) if others else None
                    if alone is None:
                        return False
                    break

        def closed(k, idx, a=a, end=end):
            idx = tuple(norm_int(i) for i in idx)
            if a.perm:
                x = zint(idx[d])
                want = lift(a.perm[1]((SInt(it),))).z
                if z3.is_app(x) and x.decl().eq(want.decl()):
                    kk = x.arg(x.num_args() - 1)
                    size = [kk >= 0, kk < zint(norm_int(a.perm[0]))]
                else:
                    kk = zint(norm_int(a.perm[2]((lift(idx[d]),))))
                    size = [lift(a.perm[3](SInt(x))).z]
            else:
                kk, size = z3.simplify(zint(idx[d]) - off), []
            cond = simp_bool(C.zand(*size, simp_bool(kk >= 0), simp_bool(kk < zint(norm_int(k)))))
            if z3.is_false(cond):
                return a.entry.get(idx)
            if alone is not None:
                v = vsub(alone, [(pts[i].z, zint(x)) for i, x in enumerate(idx) if i != d])
            else:
                v = end.get(tuple(where(a) if i == d else x for i, x in enumerate(idx)))
            v = self.at_iter(v, SInt(kk))
            if z3.is_true(cond):
                return v
            return C.ite(SBool(cond), v, a.entry.get(idx))
        a.closed = closed
        return True

    def unstored_reads(self, a, own, r):
        """the value stored by the generic iteration, when every read of the
        array it depends on is of the cell stored to or is shown to be of a
        cell that no earlier iteration stores: these hold the entry value"""
        if isinstance(own, SReal) and own.nan is not False:
            return None
        own = self.resolve(own)
        m, d = len(a.lv), a.dim
        z = prune(z3.simplify(own.z))
        reads = {}

        def walk(z, cs):
            if not self._ment(z, {a.name}):
                return
            if z.decl().kind() == z3.Z3_OP_ITE:
                walk(z.arg(0), cs)
                walk(z.arg(1), cs + [z.arg(0)])
                walk(z.arg(2), cs + [C.znot(z.arg(0))])
                return
            if z.decl().name() == a.name:
                reads.setdefault(z.get_id(), (z, []))[1].append(cs)
            for c in z.children():
                walk(c, cs)
        walk(z, [])
        hyps = None
        for app, paths in reads.values():
            t = app.arg(m + 1 + d)
            if any(self._ment(c, {a.name}) for c in app.children()) or not app.arg(m).eq(self.it):
                return None
            if a.perm:
                if t.eq(lift(a.perm[1]((SInt(self.it),))).z):
                    continue
                stored = a.perm[3](SInt(t))
            else:
                x = z3.simplify(t - a.off - self.it)
                if z3.is_int_value(x) and x.as_long() == 0:
                    continue
                stored = C.land(C.le(a.off, SInt(t)), C.lt(SInt(t), SInt(a.off + self.it)))
            if hyps is None:
                hyps = [C.implies(C.land(*pc), f) if pc else f for pc, f in self.ex.facts + r['facts']]
                hyps = [self.resolve(solve.lift_formula(h)) for h in hyps + list(r['end'].pc)]
            for cs in paths:
                if solve.prove(hyps + [SBool(c) for c in cs], C.lnot(stored), budget=10.0).status != 'proved':
                    return None
        cache = {}
        z = rewrite_apps(z, {a.name: lambda ch: coerce(a.entry.get(tuple(SInt(c) for c in ch[m + 1:])), a.entry.dtype).z}, cache)
        return WRAP[a.entry.dtype](z)

    def close_scatter(self, a, r):
        end = r['end'].heap[a.key]
        if a.entry.dtype == 'b1':
            return False
        it = self.it
        sh = a.entry.shape
        if end.cells is not None:
            # small array with iteration-dependent index: one scalar per cell
            for i in indices(sh):
                s = Slot(self, ('cell', a.key, i), a.entry.get(i))
                a.cells.append(s)
                self.slots.append(s)
            a.mode = 'cells'
            return True
        names = a.names()
        gen = tuple(SInt(z3.Int('gi!%d' % i)) for i in range(len(sh)))
        raw = a.raw(SInt(it), gen)
        v = end.get(gen)
        d = self.scatter_delta(v, raw, names, a)
        if d is None:
            return False

        def closed(k, idx, a=a):
            from .execu import vsub
            pairs = [(g.z, zint(norm_int(i))) for g, i in zip(gen, idx)]
            return C.sadd(a.entry.get(idx), C.Sum(0, k, lambda j: self.at_iter(vsub(d, pairs), j)))
        a.closed = closed
        return True

    def scatter_delta(self, v, raw, names, a):
        """v = raw + d, with reads of the content at an equal index (under the
        branch condition) identified with raw"""
        m = len(a.lv)

        def norm(z, eqs):
            """replace apps of the content that are congruent to raw"""
            pairs = []
            for app in solve.apps_of([z]).values():
                if app.decl().name() == a.name and not app.eq(raw.z):
                    s = z3.Solver()
                    s.set('rlimit', 20000)
                    s.add(*eqs)
                    s.add(z3.Or([x != y for x, y in zip(app.children(), raw.z.children())]))
                    if s.check() == z3.unsat:
                        pairs.append((app, raw.z))
            return z3.substitute(z, *pairs) if pairs else z

        def go(z, eqs, depth=0):
            if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE and not self._ment(z.arg(0), names):
                c, p, q = z.children()
                x = go(p, eqs + [c], depth + 1)
                y = go(q, eqs + [z3.Not(c)], depth + 1)
                if x is None or y is None:
                    return None
                return C.zite(c, x, y)
            z2 = norm(z, [e for e in eqs])
            r = self.lin_delta(WRAP['f8' if z.sort() == z3.RealSort() else 'i8'](z2), raw, names)
            if r is not None:
                return r.z
            # push the branch into the additive structure
            if z3.is_app(z2) and z2.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and depth < 12:
                ch = z2.children()
                with_x = [c for c in ch if self._ment(c, names)]
                if len(with_x) == 1 and (z2.decl().kind() == z3.Z3_OP_ADD or with_x[0].eq(ch[0])):
                    d = go(with_x[0], eqs, depth + 1)
                    if d is None:
                        return None
                    rest = [c for c in ch if c is not with_x[0]]
                    for c in rest:
                        d = C._z_add(d, c) if z2.decl().kind() == z3.Z3_OP_ADD else C._z_sub(d, c)
                    return d
            return None
        if isinstance(v, SReal) and v.nan is not False:
            return None
        inside = []
        for g, n in zip(raw.z.children()[m + 1:], a.entry.shape):
            inside += [g >= 0, g < zint(n)]
        d = go(v.z, inside)
        if d is None:
            return None
        return WRAP['f8' if d.sort() == z3.RealSort() else 'i8'](d)

    # ------------------------------------------------------------------ run
    def run(self):
        ex = self.ex
        self.setup()
        r = None
        for _ in range(14):
            r = self.do_pass()
            if not self.isfor:
                self.recognise_count()
            if not self.update(r):
                break
        else:
            raise Unsupported('loop summary does not stabilise')
        return self.finish(r)

    def recognise_count(self):
        """while loops whose test is counter < bound"""
        if not isinstance(self.N, z3.ExprRef) or getattr(self, 'counted', False):
            return
        c = self.cond
        if not isinstance(c, SBool):
            return
        z = c.z
        neg = z3.is_not(z)
        if neg:
            z = z.arg(0)
        k = z.decl().kind() if z3.is_app(z) else None
        if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE) or z.arg(0).sort() != z3.IntSort():
            return
        a, b = z.arg(0), z.arg(1)
        if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
            a, b = b, a
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if neg:
            a, b, strict = b, a, not strict
        # a < b  (or <=): d = b - a must be  bound - it
        d = z3.simplify(b - a + self.it)
        if self.in_loop(d) or any(self._ment(d, s.names()) for s in self.slots):
            return
        n = d if strict else z3.simplify(d + 1)
        n = SInt(z3.If(n >= 0, n, z3.IntVal(0)))
        self.counted = True
        old = self.N
        self.n = self.ex.simplify_len(self.st, n)
        self.ex.fact(self.st, SBool(old == zint(self.n)))
        self.renew = True

    def generalise(self, facts, base):
        from .execu import fid, vsub
        ex = self.ex
        ids = set(fid(p) for p in base)
        rng = z3.And(self.it >= 0, self.it < zint(self.n))
        out = []
        for pc, f in facts:
            rel = [p for p in pc if fid(p) not in ids]
            g = C.implies(C.land(*rel), f) if rel else f
            own = [p for p in rel if not (isinstance(p, SBool) and p.z.eq(rng))]
            h = C.implies(C.land(*own), f) if own else f
            if not depends(h, self.it):
                out.append((self.st.pc, C.implies(C.le(SInt(1), lift(self.n)), h)))
                continue

            def body(k, g=g):
                return self.at_iter(g, k)
            out.append((self.st.pc, C.forall(SInt(0), lift(self.n), body)))
        return out

    def finish(self, r):
        from .execu import Out, State, fid, vsub, mentions
        ex, st, node = self.ex, self.st, self.node
        base = r['base']
        gen = self.generalise(self.kept + r['facts'], base)
        # obligations of the generic iteration
        pre = len(ex.facts)
        for o in r['obls']:
            o.facts = list(ex.facts) + [(p, f) for p, f in gen] + [x for x in o.facts[pre:]]
        ended = self.isfor and not r['exits'] and not self.lists and self.kept and \
            all(s.closed or isinstance(s.E, Poison) for s in self.slots) and \
            all(a.closed or a.mode in ('cells', 'raw') for a in self.arrs.values())
        # closed forms do not speak of the symbols of the last pass
        ex.facts += gen[:len(self.kept)] if ended else gen
        ex.obls += r['obls']
        n = lift(self.n)
        # effects on the enclosing loop's log
        if ex.store_log is not None:
            for key, idx in r['log']:
                if key in st.heap:
                    ex.store_log.append((key, None if idx is None else tuple(
                        None if x is None else (x if not (isinstance(norm_int(x), SInt) and self.in_loop(norm_int(x).z)) else None)
                        for x in idx)))
        end = r['end']
        outs = []
        results = []
        # exits
        exits = []
        for o in r['exits']:
            extra = [p for p in o.st.pc if not any(fid(p) == fid(q) for q in base)]
            extra = extra[1:]        # the range condition
            exits.append((o, C.land(*extra) if extra else SBool(True)))
        sel = []
        if exits:
            e = SInt(ex.fresh_z(z3.IntSort(), 'it'))
            ex.nonneg.add(e.z.get_id())
            ex._keep.append(e.z)
            R = C.lor(*[x for _, x in exits])

            def Rk(k):
                return self.at_iter(solve.lift_formula(R), k)
            ex.fact(st, C.implies(SBool(True), SBool(e.z >= 0)))
            prev = []
            for i, (o, cond) in enumerate(exits):
                if i == len(exits) - 1 and end is None and not self.may_be_empty():
                    B = None
                else:
                    B = SBool(ex.fresh_z(z3.BoolSort(), 'ex'))
                s2 = st.copy()
                for p in prev:
                    ex.assume(s2, C.lnot(p))
                if B is not None:
                    ex.assume(s2, B)
                    prev.append(B)
                pcs = s2.pc
                ex.facts.append((pcs, SBool(z3.And(e.z >= 0, e.z < zint(n)))))
                ex.facts.append((pcs, self.at_iter(solve.lift_formula(cond), e)))
                ex.facts.append((pcs, C.forall(SInt(0), e, lambda k: C.lnot(Rk(k)))))
                for key, c in o.st.heap.items():
                    if key not in st.heap or r['start'].heap.get(key) is not c or \
                            (key in self.arrs):
                        s2.heap[key] = self.at_iter(c, e) if isinstance(c, Content) else self.val_at(c, e)
                for sl in self.slots:
                    if sl.where[0] == 'heap':
                        s2.heap[sl.where[1]] = self.val_at(o.st.heap[sl.where[1]], e)
                for nm, v in o.st.loc.items():
                    if nm in self.names or nm not in st.loc:
                        s2.loc[nm] = self.val_at(v, e)
                for k in self.lists:
                    if o.st.heap[k] != ('app', k, ()):
                        raise Unsupported('list changed before leaving a loop')
                    raise Unsupported('leaving a loop that extends a list')
                if o.kind == 'b':
                    results.append(s2)
                else:
                    v = o.val
                    if o.kind == 'r':
                        v = self.val_at(v, e) if v is not None else None
                    outs.append(Out(o.kind, s2, v))
            sel = prev
        # normal completion
        if end is not None or self.may_be_empty():
            s1 = st.copy()
            for B in sel:
                ex.assume(s1, C.lnot(B))
            if exits:
                ex.facts.append((s1.pc, C.forall(SInt(0), n, lambda k: C.lnot(Rk(k)))))
            if end is not None:
                extra = [p for p in end.pc if not any(fid(p) == fid(q) for q in base)][1:]
                if not self.isfor and extra and not getattr(self, 'counted', False):
                    pass
                if extra:
                    f = C.land(*extra)
                    if not (not isinstance(f, Q) and C.is_true(f.z)):
                        ex.facts.append((s1.pc, C.forall(SInt(0), n, lambda k: self.at_iter(solve.lift_formula(f), k))))
                self.final_state(s1, end, n, r)
            if not self.isfor and not getattr(self, 'counted', False):
                c = self.at_iter(solve.lift_formula(self.cond), n)
                ex.facts.append((s1.pc, C.lnot(c)))
                ex.facts.append((s1.pc, C.implies(SBool(zint(n) >= 1),
                                                  self.at_iter(solve.lift_formula(self.cond), C.ssub(n, 1)))))
            for nm in self.names:
                if not any(s.where == ('loc', nm) for s in self.slots) and ('carry', nm) not in self.arrs:
                    s1.loc[nm] = Poison('assigned in a loop')
            if node.orelse:
                for o in ex.exec_block(node.orelse, s1):
                    if o.kind == 'n':
                        results.append(o.st)
                    else:
                        outs.append(o)
            else:
                results.append(s1)
        merged = ex.merge_all([(x, None) for x in results])
        return outs + [Out('n', m[0]) for m in merged]

    def may_be_empty(self):
        if not self.isfor and isinstance(self.node.test, ast.Constant) and self.node.test.value:
            return False
        return True

    def val_at(self, v, k):
        from .execu import NONE
        if isinstance(v, (Sym, tuple, ArrRef, RecArr, RecRow)) and not isinstance(v, Q):
            if isinstance(v, tuple) and v and isinstance(v[0], str):
                return v
            return self.at_iter(v, k)
        return v

    def final_state(self, s1, end, n, r):
        from .execu import Heap
        ex = self.ex
        self.group_facts(s1, n, r)
        for s in self.slots:
            if isinstance(s.E, Poison):
                if s.where[0] == 'loc':
                    s1.loc[s.where[1]] = Poison(s.E.why)
                    continue
                if s.where[0] == 'cell' and is_carry(s.where[1]):
                    continue
                raise Unsupported('loop result is not a number')
            v = self.resolve(s.at(n))
            if s.where[0] == 'loc':
                s1.loc[s.where[1]] = norm_int(v) if isinstance(v, SInt) else v
            elif s.where[0] == 'heap':
                s1.heap[s.where[1]] = v
        for key, a in self.arrs.items():
            if is_carry(key):
                if any(isinstance(s.E, Poison) for s in a.cells):
                    s1.loc[key[1]] = Poison('array changes shape in a loop')
                    continue
                same = end.loc.get(key[1])
                nk = ex.new_key('carry')
                s1.heap[nk] = self.resolve(a.content(n))
                s1.loc[key[1]] = ArrRef(nk, [('d', 0, x) for x in a.entry.shape], a.entry.dtype, readonly=True)
            else:
                s1.heap[key] = self.lazy(a, n)
        for key, c in self.lists.items():
            v = end.heap[key]
            if not (isinstance(v, tuple) and v[0] == 'app' and v[1] == key):
                raise Unsupported('list changed in a loop')
            items = v[2]
            m = len(items)
            if m == 0:
                s1.heap[key] = c
                continue
            if m != 1:
                raise Unsupported('several appends per iteration')
            item = items[0]
            if c[0] == 'list':
                n0 = len(c[1])
                old = c[1]
                if n0:
                    raise Unsupported('append to a non-empty list in a loop')
                made = end.heap[item.key] if isinstance(item, ArrRef) and item.key not in self.st.heap else None

                def get(k, item=item, made=made):
                    v = self.val_at(item, lift(k))
                    if made is not None:
                        # an array made in the iteration
                        return ArrRef(Heap.make(self.at_iter(made, lift(k))), v.dims, v.dtype, True)
                    return v
                s1.heap[key] = ('seq', Seq(n, get))
            else:
                raise Unsupported('append to a sequence in a loop')

    def lazy(self, a, n):
        c = a.content(n)
        if a.mode == 'cells' or c.cells is not None:
            return self.resolve(c)
        if not a.closed:
            return c
        return Content(c.shape, c.dtype, lambda idx: self.resolve(a.closed(n, idx)))

    # -------------------------------------------------- open recurrences
    def flatten(self, e, x):
        """paths [(conds, leaf)] of an ite tree"""
        out = []

        def go(z, cs):
            if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE:
                c = z.arg(0)
                go(z.arg(1), cs + [c])
                go(z.arg(2), cs + [C.znot(c)])
            else:
                out.append((cs, z))
        go(e, [])
        return out

    @staticmethod
    def conj(zs):
        out = []
        st = list(zs)
        while st:
            z = st.pop(0)
            if z3.is_and(z):
                st = list(z.children()) + st
            elif z3.is_not(z) and z3.is_or(z.arg(0)):
                st = [C.znot(c) for c in z.arg(0).children()] + st
            else:
                out.append(z)
        return out

    def group_facts(self, s1, n, r):
        ex = self.ex
        it = self.it
        open_ = [s for s in self.slots if not s.closed and not isinstance(s.E, Poison)]
        if not open_:
            return
        groups = {}
        for s in open_:
            e = coerce(s.E, s.dtype)
            x = s.raw(SInt(it))
            # recurrence
            ex.facts.append((s1.pc, C.same(s.raw(0), s.x0)))
            ex.facts.append((s1.pc, C.forall(SInt(0), n, (lambda s, e: lambda k: C.same(
                s.raw(C.sadd(k, 1)), self.at_iter(e, k)))(s, e))))
            if s.dtype == 'b1':
                t = z3.simplify(z3.substitute(e.z, (x.z, z3.BoolVal(True))))
                f = z3.simplify(z3.substitute(e.z, (x.z, z3.BoolVal(False))))
                xn = s.raw(n)
                if z3.is_true(t) and not self._ment(f, self.open_names()):
                    ex.facts.append((s1.pc, C.iff(xn, C.lor(s.x0, C.exists(SInt(0), n, (lambda f: lambda k: self.at_iter(SBool(f), k))(f))))))
                    continue
                if z3.is_false(f) and not self._ment(t, self.open_names()):
                    ex.facts.append((s1.pc, C.iff(xn, C.land(s.x0, C.forall(SInt(0), n, (lambda t: lambda k: self.at_iter(SBool(t), k))(t))))))
                    continue
                t1 = C.SBool(e.z)
            paths = self.flatten(e.z, x.z) if s.dtype != 'b1' else self.bool_paths(e.z, x.z)
            upd = [(cs, z) for cs, z in paths if not z.eq(x.z)]
            if len(upd) != 1 or (isinstance(e, SReal) and e.nan is not False):
                continue
            cs = []
            for c in self.conj(upd[0][0]):
                if not any(c.eq(d) for d in cs):
                    cs.append(c)
            key = tuple(sorted(c.get_id() for c in cs))
            groups.setdefault(key, []).append((s, cs, upd[0][1]))
        names = self.open_names()
        for key, members in groups.items():
            lead = None
            for s, cs, u in members:
                m = self.minmax(s, cs, u)
                if m:
                    lead = (s, m)
                    break
            if lead is None:
                continue
            s, m = lead
            if any(self._ment(x, names) for x in m[0] + [m[1]]):
                continue
            self.select(s1, n, s, m, [(y, u) for y, cs, u in members if not self._ment(u, names) or y is s])

    def select(self, s1, n, s, m, mem):
        """facts about s, which keeps the best of the selected values, and the
        slots mem that follow it"""
        ex = self.ex
        g, t, up, strict = m
        L = SInt(ex.fresh_z(z3.IntSort(), 'it'))
        B = SBool(ex.fresh_z(z3.BoolSort(), 'up'))
        G = lambda k: self.at_iter(SBool(C.zand(*g)), k)
        T = lambda k: self.at_iter(WRAP[s.dtype](t), k)
        xn = s.raw(n)
        better = (lambda a, b: C.le(a, b)) if not up else (lambda a, b: C.le(b, a))
        sbetter = (lambda a, b: C.lt(a, b)) if not up else (lambda a, b: C.lt(b, a))
        first = sbetter if strict else better
        pcs = s1.pc
        F = lambda f: ex.facts.append((pcs, f))
        F(C.implies(B, C.land(SBool(z3.And(L.z >= 0, L.z < zint(n))), G(L), C.eq(xn, T(L)),
                              first(T(L), s.x0))))
        F(C.implies(B, C.forall(SInt(0), n, lambda k: C.implies(G(k), better(T(L), T(k))))))
        if strict:
            F(C.implies(B, C.forall(SInt(0), L, lambda k: C.implies(G(k), sbetter(T(L), T(k))))))
        else:
            F(C.implies(B, C.forall(C.sadd(L, 1), n, lambda k: C.implies(G(k), sbetter(T(L), T(k))))))
        F(C.implies(C.lnot(B), C.forall(SInt(0), n, lambda k: C.implies(G(k), (better if strict else sbetter)(s.x0, T(k))))))
        # the value carried into each iteration (for guards that are evaluated,
        # and so known, only where the comparison succeeds)
        F(C.implies(C.lnot(B), C.forall(SInt(0), C.sadd(n, 1), lambda k: C.eq(s.raw(k), s.x0))))
        F(C.implies(B, C.forall(SInt(0), C.sadd(L, 1), lambda k: (sbetter if strict else better)(xn, s.raw(k)))))
        F(C.implies(B, C.forall(C.sadd(L, 1), C.sadd(n, 1), lambda k: C.eq(s.raw(k), xn))))
        for y, u in mem:
            if y is s:
                F(C.implies(C.lnot(B), C.eq(xn, s.x0)))
                continue
            uy = WRAP[y.dtype](u)
            F(C.implies(B, C.same(y.raw(n), self.at_iter(uy, L))))
            F(C.implies(C.lnot(B), C.same(y.raw(n), y.x0)))
        ex.used_lemmas.add('selection')

    def bool_paths(self, z, x):
        def put(e, v):
            if e.eq(x):
                return z3.BoolVal(v)
            if z3.is_and(e):
                return C.zand(*[put(c, v) for c in e.children()])
            if z3.is_or(e):
                return C.zor(*[put(c, v) for c in e.children()])
            if z3.is_not(e):
                return C.znot(put(e.arg(0), v))
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and z3.is_bool(e):
                c, p, q = [put(c, v) for c in e.children()]
                return p if z3.is_true(c) else q if z3.is_false(c) else z3.If(c, p, q)
            return e
        t, f = put(z, True), put(z, False)
        if self.always(t):
            return [([self.guard(f)], z3.BoolVal(True)), ([C.znot(f)], x)]
        if self.always(C.znot(f)):
            g = C.znot(t)
            return [([self.guard(g)], z3.BoolVal(False)), ([t], x)]
        return [([], z)]

    @staticmethod
    def always(z):
        if z3.is_true(z):
            return True
        s = z3.Solver()
        s.set('timeout', 200)
        s.add(z3.Not(z))
        return s.check() == z3.unsat

    @staticmethod
    def guard(z):
        """conjunction in which disjuncts already decided are dropped"""
        if not z3.is_and(z):
            return z
        out = []
        for c in z.children():
            if z3.is_or(c):
                keep = [d for d in c.children() if not any(C.znot(d).eq(o) for o in z.children())]
                c = C.zor(*keep)
            out.append(c)
        return C.zand(*out)

    def minmax(self, s, cs, u):
        """c = g and (t < X): returns (g, t, is_max, strict)"""
        if s.dtype == 'b1':
            return None
        x = s.raw(SInt(self.it)).z
        hit = None
        g = []
        for c in cs:
            m = self.cmp_with(c, x)
            if m is not None and hit is None:
                hit = m
            else:
                g.append(c)
        if hit is None:
            return None
        t, up, strict = hit
        if not (t.eq(u) or z3.is_true(z3.simplify(t == u))):
            return None
        return g, t, up, strict

    @staticmethod
    def cmp_with(c, x):
        """(t, is_max, strict) when c compares a term t with x"""
        neg = z3.is_not(c)
        z = c.arg(0) if neg else c
        if not z3.is_app(z):
            return None
        k = z.decl().kind()
        ops = {z3.Z3_OP_LT: '<', z3.Z3_OP_LE: '<=', z3.Z3_OP_GT: '>', z3.Z3_OP_GE: '>='}
        if k not in ops:
            return None
        op = ops[k]
        if neg:
            op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
        a, b = z.children()
        if b.eq(x):
            t = a
        elif a.eq(x):
            t = b
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
        else:
            return None
        # t op x
        return t, op in ('>', '>='), op in ('<', '>')
