"""Loops with an invariant given in the contract: the invariant is proved on
entry and preserved by one arbitrary iteration from arbitrary values of
everything the loop changes; after the loop only the invariant (and the negated
condition) is known.

contract(..., invariants={k: fn}) gives the k-th loop of the function (in textual
order) the invariant fn(a, l, it) -> {name: formula}; a are the parameters as at
entry, l the current values of the locals (l.old: before the loop), it the number
of completed iterations. A pair (fn, uses) as invariant names, in uses[name], the
parts of the invariant that the proof that `name` is preserved is shown."""
import ast

import z3

from . import core as C
from . import solve
from .core import SBool, SInt, SReal, Sym, Unsupported, lift
from .values import ArrRef, Content, PList, PDict, Poison, RecArr, RecRow, Seq, SORT, cint, coerce, make_content, norm_int, zint

WRAP = {'f8': SReal, 'i8': SInt, 'b1': SBool}
ZEROS = {'f8': 0.0, 'i8': 0, 'b1': False}


def loops_of(fnode):
    out = []

    def walk(ns):
        for n in ns:
            if isinstance(n, (ast.For, ast.While)):
                out.append(n)
            for f in ('body', 'orelse', 'finalbody', 'handlers'):
                walk(getattr(n, f, ()) or ())
    walk(fnode.body)
    return out


def find(ex, node, st):
    inv = ex.opt.get('invariants')
    if not inv or st.frame is None or getattr(st.frame.func, 'key', None) != ex.top_key:
        return None
    ls = loops_of(st.frame.func.node)
    for k, n in enumerate(ls):
        if n is node:
            return inv.get(k)
    return None


def listview(items):
    def get(i):
        i = norm_int(i[0])
        if isinstance(i, int):
            return lift(items[i]) if 0 <= i < len(items) else 0
        v = lift(items[-1]) if items else 0
        for k in range(len(items) - 2, -1, -1):
            v = C.ite(SBool(zint(i) == k), lift(items[k]), v)
        return v
    from .contract import ArrView
    return ArrView((len(items),), get)


def view(ex, st, v):
    from .contract import ArrView, RecView
    from .execu import is_scalar
    if is_scalar(v):
        return lift(v)
    if isinstance(v, ArrRef):
        f = ex.arr_fn(st, v)
        if v.shape == (2,) and v.dtype == 'f8':
            return C.V2(f((0,)), f((1,)))
        return ArrView(v.shape, f)
    if isinstance(v, RecArr):
        return None
    if isinstance(v, tuple):
        return tuple(view(ex, st, x) for x in v)
    if isinstance(v, PList):
        c = st.heap.get(v.id)
        if c and c[0] == 'list':
            return listview(c[1]) if all(is_scalar(x) for x in c[1]) else None
        if c and c[0] == 'seq':
            return ArrView((norm_int(c[1].n),), lambda i: lift(c[1].get(norm_int(i[0]))))
    return None


def local_views(ex, st, old=None):
    from .contract import NS
    l = NS()
    for k, v in st.loc.items():
        if not isinstance(v, Poison):
            l.__dict__[k] = view(ex, st, v)
    for k, v in st.heap.items():
        if isinstance(k, str) and k.startswith('$'):
            l.__dict__[k[1:]] = lift(v) if isinstance(v, (Sym, int, float)) else None
    if st.frame.yielder is not None and isinstance(st.frame.yielder, PList):
        l.yields = view(ex, st, st.frame.yielder)
    l.post = ex.param_views(st) if hasattr(ex, 'param_views') else None
    l.old = old
    return l


class InvLoop:
    def __init__(self, ex, node, st, n, seq, inv):
        inv, self.uses = inv if isinstance(inv, tuple) else (inv, {})
        self.ex, self.node, self.st, self.n, self.seq, self.inv = ex, node, st, n, seq, inv
        self.isfor = seq is not None
        self.types = {}      # heap key -> ('arr'|'scalar'|'list', dtype)
        self.ltypes = {}     # local name -> ('scalar', dtype) | ('arr', dtype, shape)

    # ------------------------------------------------------------- havoc
    def havoc(self, s, tag):
        ex = self.ex
        for nm in self.names:
            if nm not in s.loc:
                continue
            t = self.ltypes.get(nm)
            if t is None:
                s.loc[nm] = Poison('changed by a loop')
            elif t[0] == 'scalar':
                s.loc[nm] = WRAP[t[1]](ex.fresh_z(SORT[t[1]], nm + '!' + tag))
            elif t[0] == 'arr':
                s.loc[nm] = ex.alloc(s, t[2], t[1], ex.fresh_fun(t[1], len(t[2]), nm))
        for k, t in self.types.items():
            if t[0] == 'arr':
                c = s.heap[k]
                s.heap[k] = make_content(c.shape, c.dtype, ex.fresh_fun(c.dtype, len(c.shape), 'H'))
            elif t[0] == 'scalar':
                s.heap[k] = WRAP[t[1]](ex.fresh_z(SORT[t[1]], 'h!' + tag))
            else:
                n = SInt(ex.fresh_z(z3.IntSort(), 'len'))
                ex.nonneg.add(n.z.get_id())
                ex.__dict__.setdefault('_keep', []).append(n)
                ex.fact(s, SBool(n.z >= 0))
                f = ex.fresh_fun(t[1], 1, 'L')
                s.heap[k] = ('seq', Seq(n, lambda i, f=f: f((norm_int(i),))))

    def iterate(self, it, tag):
        """(state at the start of iteration it with everything havocked, outcomes)"""
        ex = self.ex
        s = self.st.copy()
        flag = SBool(ex.fresh_z(z3.BoolSort(), 'iter'))
        s.pc = s.pc + (flag,)
        self.havoc(s, tag)
        rng = [SBool(it.z >= 0)] + ([SBool(it.z < zint(self.n))] if self.isfor else [])
        for r in rng:
            ex.assume(s, r)
        return s

    def body(self, s, it):
        ex = self.ex
        if self.isfor:
            ex.assign(self.node.target, self.seq.get(it), s)
        else:
            c = ex.truth(ex.expr(self.node.test, s), s)
            ex.assume(s, SBool(c) if isinstance(c, bool) else c)
        saved, ex.pending = ex.pending, []
        outs = ex.exec_block(self.node.body, s) + ex.pending
        ex.pending = saved
        return outs

    def trial(self):
        """find out what the body changes"""
        ex = self.ex
        for _ in range(8):
            nf, no = len(ex.facts), len(ex.obls)
            it = SInt(ex.fresh_z(z3.IntSort(), 'try'))
            ex.nonneg.add(it.z.get_id())
            ex.__dict__.setdefault('_keep', []).append(it)
            s = self.iterate(it, 'try')
            start = s.copy()
            outs = self.body(s, it)
            del ex.facts[nf:]
            del ex.obls[no:]
            new = False
            for o in outs:
                if o.kind == 'x' or o.kind == 'r':
                    continue
                for k, c in self.st.heap.items():
                    e = o.st.heap.get(k)
                    if e is start.heap.get(k):
                        continue
                    if isinstance(e, Content):
                        t = ('arr', e.dtype)
                    elif isinstance(e, tuple) and e and e[0] in ('list', 'seq'):
                        v = e[1][-1] if e[0] == 'list' and e[1] else e[1].get(SInt(0)) if e[0] == 'seq' else None
                        if e == start.heap.get(k) or v is None:
                            continue
                        t = ('list', self.dt(v))
                    elif isinstance(e, (Sym, int, float)):
                        t = ('scalar', self.dt(e))
                    else:
                        raise Unsupported('loop changes heap entry %s' % (k,))
                    old = self.types.get(k)
                    if old is None or old != t and old[1] != 'f8':
                        self.types[k] = t
                        new = True
                for nm in self.names:
                    if nm in self.st.loc and nm not in self.tnames:
                        t = self.ltype(o.st, o.st.loc.get(nm))
                        e = self.ltype(self.st, self.st.loc.get(nm))
                        if t is None or e is None or t[0] != e[0] or t[0] == 'arr' and not self.same(t[2], e[2]):
                            continue
                        if t[0] == 'scalar' and e[1] == 'f8':
                            t = e
                        old = self.ltypes.get(nm)
                        if old is None or old[1] != t[1] and old[1] != 'f8':
                            self.ltypes[nm] = t
                            new = True
            if not new:
                return
        raise Unsupported('loop changes do not settle')

    @staticmethod
    def same(a, b):
        return len(a) == len(b) and all(
            (isinstance(x, int) and isinstance(y, int) and x == y) or
            (not isinstance(x, int) and not isinstance(y, int) and x.z.eq(y.z)) for x, y in zip(a, b))

    @staticmethod
    def dt(v):
        v = lift(v)
        if isinstance(v, SReal) and v.nan is not False:
            raise Unsupported('NaN in a loop with invariant')
        return 'f8' if isinstance(v, SReal) else 'i8' if isinstance(v, SInt) else 'b1'

    def ltype(self, st, v):
        from .execu import is_scalar
        if is_scalar(v):
            return ('scalar', self.dt(v))
        if isinstance(v, ArrRef):
            return ('arr', v.dtype, v.shape)
        return None

    def formulas(self, st, it):
        try:
            fs = self.inv(self.ex.top_views, local_views(self.ex, st, self.before), it)
        except AttributeError as e:
            # the locals the invariant speaks of are called something else now
            raise Unsupported('invariant of a loop: %s' % e)
        return [(k, solve.lift_formula(g)) for k, g in fs.items()]

    # ------------------------------------------------------------- the rule
    def run(self):
        from .loops import assigned_names
        from .execu import Out, fid
        ex, st, node = self.ex, self.st, self.node
        if ex.loopvars:
            raise Unsupported('loop with invariant inside a summarised loop')
        if node.orelse:
            raise Unsupported('else of a loop with invariant')
        body = list(node.body) + ([] if self.isfor else [ast.Expr(node.test)])
        self.names = assigned_names(body + ([node.target] if self.isfor else []))
        self.tnames = assigned_names([node.target]) if self.isfor else []
        self.before = local_views(ex, st)
        self.trial()
        k = getattr(node, 'lineno', 0)
        nm = 'loop invariant at line %d' % k if False else 'loop invariant'
        for t, g in self.formulas(self.with_types(st), SInt(0)):
            ex.oblige(st, '%s holds on entry: %s' % (nm, t), g, 'invariant', node)
        it = SInt(ex.fresh_z(z3.IntSort(), 'it'))
        ex.nonneg.add(it.z.get_id())
        ex.__dict__.setdefault('_keep', []).append(it)
        s = self.iterate(it, 'iter')
        shown = {}
        for t, g in self.formulas(s, it):
            had = len(s.pc)
            ex.assume(s, g)
            shown[t] = {fid(p) for p in s.pc[had:]}
        ends, outs = [], []
        nxt = SInt(z3.simplify(it.z + 1))
        for o in self.body(s, it):
            if o.kind in ('n', 'c'):
                done = []
                for t, g in self.formulas(o.st, nxt):
                    had = len(ex.obls)
                    ex.oblige(o.st, '%s is preserved: %s' % (nm, t), g, 'invariant', node)
                    if t in self.uses and len(ex.obls) > had:
                        ex.obls[-1].drop = frozenset().union(*[
                            ids for x, ids in shown.items() if x not in self.uses[t]])
            elif o.kind == 'b':
                ends.append(o.st)
            else:
                outs.append(o)
        s2 = st.copy()
        s2.pc = s2.pc + (SBool(ex.fresh_z(z3.BoolSort(), 'done')),)
        self.havoc(s2, 'end')
        if self.isfor:
            n = SInt(zint(self.n))
            ex.assume(s2, SBool(n.z >= 0))
        else:
            n = SInt(ex.fresh_z(z3.IntSort(), 'N'))
            ex.nonneg.add(n.z.get_id())
            ex._keep.append(n)
            ex.assume(s2, SBool(n.z >= 0))
        for t, g in self.formulas(s2, n):
            ex.assume(s2, g)
        for t in self.tnames:
            s2.loc[t] = Poison('loop variable after the loop')
        if not self.isfor:
            c = ex.truth(ex.expr(node.test, s2), s2)
            c = SBool(c) if isinstance(c, bool) else c
            if C.is_true(c.z):
                s2 = None
            else:
                ex.assume(s2, C.lnot(c))
        if s2 is not None:
            ends.append(s2)
        merged = ex.merge_all([(x, None) for x in ends])
        return outs + [Out('n', m[0]) for m in merged]

    def with_types(self, st):
        """entry values coerced to the types they have in the loop"""
        s = st.copy()
        for nm, t in self.ltypes.items():
            if t[0] == 'scalar':
                s.loc[nm] = coerce(s.loc[nm], t[1])
        return s
