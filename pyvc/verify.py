"""Verification of one function against one contract: symbolic execution of the
real source, obligations, discharge in forked worker processes."""
import ast
import os
import pickle
import select
import signal
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import contract as K
from . import core as C
from . import solve
from .core import SBool, SInt, SReal, Q, Unsupported
from .execu import Executor, Frame, Obl, State
from . import npmodel
from .npmodel import Natives
from .source import FuncVal, Repo, ClassVal
from .values import ArrRef, Content, PList, RecArr, PyRaise, indices, zint

sys.setrecursionlimit(20000)


def exc_name(v):
    e = v[0] if isinstance(v, tuple) else v
    if isinstance(e, str):
        return e
    if isinstance(e, ClassVal):
        return e.node.name
    if hasattr(e, 'data') and isinstance(e.data, tuple):
        return exc_name(e.data[0])
    if hasattr(e, 'path'):
        return e.path.split('.')[-1]
    return str(e)


class FnProof:
    """obligations of one contract variant"""

    def __init__(self, con, repo, registry):
        self.con, self.repo, self.registry = con, repo, registry
        self.obls = []
        self.unsupported = None
        self.missing = False
        self.results = []
        self.paths = 0
        self.used = set()
        self.natives = set()
        self.inlined = set()
        self.lemmas = set()
        self.gen_s = 0.0

    def generate(self):
        t0 = time.time()
        abstract(self.con)
        try:
            self._generate()
        except (Unsupported, PyRaise, AssertionError, TypeError, KeyError, AttributeError, IndexError, ValueError,
                NotImplementedError, RecursionError, z3.Z3Exception) as e:
            where = getattr(e, 'where', '')
            self.unsupported = '%s: %s %s' % (type(e).__name__, e, where)
            self.tb = traceback.format_exc()
        self.gen_s = time.time() - t0

    def _generate(self):
        con = self.con
        f = self.repo.function(con.key)
        if not isinstance(f, FuncVal):
            self.missing = True
            raise Unsupported('function %s not found' % con.key)
        opt = dict(con.opt)
        opt['allow_div0'] = con.allow_div0
        ex = self.ex = Executor(self.repo, self.registry, Natives(), opt)
        ex.top_key = con.key
        ex.opt['invariants'] = con.invariants
        if con.yields_ is not None:
            ex.opt['yielder'] = self.yielder
        st = State({}, {}, (), Frame(f.module, None, None))
        if con.draws is not None:
            st.heap['$rng'] = st.heap['$rngT'] = SInt(0)
            for kind, rng in npmodel.DRAW_RANGE.items():
                if kind != 'normal':
                    ex.fact(st, C.forall(0, None, lambda k, r=rng, d=kind: r(npmodel.stream(d, k))))
            st.heap['$last'] = SInt(0)
        env = {}
        if con.setup_ is not None:
            con.setup_(ex, st, env)
        pos = [t.sym(ex, st, name, env) for name, t in con.params]
        a = K.NS(**{name: t.view(ex, st, v) for (name, t), v in zip(con.params, pos)})
        a.env = env
        a.draw = lambda k, kind='uniform': K.stream_at(kind, 0, k)
        if con.yields_ is not None:
            ylist = self.ylist = PList(ex.new_key('list'))
            st.heap[ylist.id] = ('list', ())
        for d in env.get('$new', []):
            ex.assume(st, SBool(d.z >= 0))
        for d, n in env.get('$min', []):
            ex.assume(st, SBool(zint(d) >= n))
        for nm, g in con.requires(a):
            ex.assume(st, g)
        for g in con.facts(a):
            ex.fact(st, g)
        self.pc0 = len(st.pc)
        heap0 = ex.entry_heap = dict(st.heap)
        self.pos, self.heap0, self.a = pos, heap0, a
        ex.top_views = a
        ex.param_views = lambda s: K.NS(**{name: t.view(ex, s, v) for (name, t), v in zip(con.params, pos)})
        args = ['$a%d' % i for i in range(len(pos))]
        st.loc = dict(zip(args, pos))
        st.loc['$f'] = f
        node = ast.Return(ast.Call(ast.Name('$f', ast.Load()), [ast.Name(x, ast.Load()) for x in args], []))
        ast.fix_missing_locations(node)
        node.lineno = f.node.lineno
        outs = ex.exec_stmt(node, st)
        outs = [o for o in outs if not (o.kind == 'x' and exc_name(o.val) == 'unreachable')]
        self.paths = len(outs)
        if not outs:
            if not con.opt.get('endless'):
                raise Unsupported('no outcome')
            ex.oblige(st, 'no path leads to an end', True, 'postcondition', node)
        for i, o in enumerate(outs):
            tag = '' if len(outs) == 1 else ' (path %d)' % (i + 1)
            if o.kind == 'x':
                nm = exc_name(o.val)
                goal = False
                for e, cond in con.raises.items():
                    if e == nm:
                        goal = cond(a)
                self.add(ex, o.st, 'no %s is raised%s' % (nm, '' if goal is False else ' otherwise') + tag, goal, 'exception')
                if con.raises_post is not None and goal is not False:
                    self.posts(ex, o.st, None, tag + ' [%s]' % nm, con.raises_post, raised=nm)
                continue
            for e, cond in con.raises.items():
                self.add(ex, o.st, '%s is raised when required' % e + tag, C.lnot(cond(a)), 'exception')
            if con.yields_ is not None:
                o.val = self.ylist if con.result is not None else None
            if callable(con.draws):
                self.add(ex, o.st, 'number of random numbers used' + tag, C.land(
                    C.eq(o.st.heap['$rng'], con.draws(a)[0]), C.eq(o.st.heap['$rngT'], con.draws(a)[1])), 'postcondition')
            if isinstance(con.draws, int):
                self.add(ex, o.st, 'number of random numbers used' + tag, C.eq(o.st.heap['$rng'], con.draws), 'postcondition')
            self.posts(ex, o.st, o.val, tag)
        self.obls = ex.obls + self.obls
        self.used, self.natives, self.inlined, self.lemmas = ex.used_contracts, ex.used_natives, ex.inlined, ex.used_lemmas

    def yielder(self, ex, st, v, node):
        con = self.con
        if not con.ytype.match(ex, st, v):
            ex.oblige(st, 'yielded value has the declared type', False, 'postcondition', node)
            return None
        b = K.NS(**self.a.__dict__)
        b.value = con.ytype.view(ex, st, v)
        base = st.heap.get('$last', 0)
        b.draw = lambda k, kind='uniform': K.stream_at(kind, base, k)
        b.used = C.ssub(st.heap['$rng'], base) if '$rng' in st.heap else 0
        for nm, g in K._named(con.yields_(b), 'yields'):
            ex.oblige(st, 'each value: ' + nm, g, 'postcondition', node)
        for key, c0 in self.heap0.items():
            c1 = st.heap.get(key)
            if c1 is not c0 and heap_path(key) is not None and heap_path(key) not in con.modified_paths(b):
                ex.oblige(st, 'frame: %s unchanged' % heap_path(key), content_same(c0, c1), 'frame', node)
        if '$rng' in st.heap:
            st.heap['$last'] = st.heap['$rng']
        if con.result is not None:
            ex.natives.method(ex, st, 'append', [self.ylist, v], {}, node)
        return None

    def posts(self, ex, st, val, tag, ens=None, raised=None):
        con, a = self.con, self.a
        b = K.NS(**a.__dict__)
        b.post = K.NS(**{name: t.view(ex, st, v) for (name, t), v in zip(con.params, self.pos)})
        b.result = None
        if con.result is not None and ens is None:
            if not con.result.match(ex, st, val):
                self.add(ex, st, 'result has the declared type' + tag, False, 'postcondition')
                self.note = 'returned %r' % (val,)
                return
            b.result = con.result.view(ex, st, val)
            if not con.result_alias:
                for r in arrays(val):
                    srcs = ex.alias_sources(r.key)
                    if any(isinstance(k, tuple) and k and k[0] == 'param' or k in self.heap0 for k in srcs):
                        self.add(ex, st, 'result is a fresh array' + tag, False, 'frame')
        if con.pick is not None and ens is None:
            self.add(ex, st, 'result is determined by the arguments named in the contract' + tag,
                     determined(ex, b.result, con.pick(a), st.pc[self.pc0:]), 'postcondition')
        done = []
        for nm, g in con.steps(b) if ens is None else []:
            self.add(ex, st, 'step: ' + nm + tag, g, 'postcondition', done)
            done.append(((), solve.lift_formula(g)))
        cases = con.cases(b) if ens is None else []
        if cases:
            self.add(ex, st, 'the cases are exhaustive' + tag, C.lor(*[c for _, c, _ in cases]), 'postcondition', done)
        for nm, g in (con.ensures(b) if ens is None else K._named(ens(b), 'ensures')):
            if not cases:
                self.add(ex, st, nm + tag, g, 'postcondition', done)
            for cn, c, hint in cases:
                self.add(ex, st, '%s [%s]%s' % (nm, cn, tag), g, 'postcondition', done + [((), solve.lift_formula(c))],
                         hint)
        mod = set(p.replace('.', '_') if p.split('.')[-1].isdigit() else p for p in con.modified_paths(b))
        for key, c0 in self.heap0.items():
            c1 = st.heap.get(key)
            if c1 is c0:
                continue
            path = heap_path(key)
            if path is None or path in mod or path.split('.')[0] in mod:
                continue
            if isinstance(c0, Content) and isinstance(c1, Content):
                self.add(ex, st, 'frame: %s unchanged' % path + tag, content_same(c0, c1), 'frame')
            else:
                self.add(ex, st, 'frame: %s unchanged' % path + tag, False, 'frame')

    def add(self, ex, st, name, goal, kind, steps=(), hint=None):
        g = solve.lift_formula(goal)
        for i, x in enumerate(split(g)):
            self.obls.append(Obl(name if i == 0 else '%s #%d' % (name, i + 1), x, st.pc, list(ex.facts) + list(steps), kind, 0,
                                 self.con.key))
            if hint is not None:
                self.obls[-1].hint = split(solve.lift_formula(hint))


def split(g, depth=0):
    if isinstance(g, Q) and g.op == 'and':
        return [y for x in g.args for y in split(x)]
    if isinstance(g, SBool) and z3.is_and(g.z):
        return [y for x in g.z.children() for y in split(SBool(x))]
    return [g]


def heap_path(key):
    if isinstance(key, tuple) and key[0] == 'param':
        return key[1]
    if isinstance(key, tuple) and isinstance(key[0], tuple) and key[0][0] == 'param':
        return '%s.%s' % (key[0][1], key[1])
    return None


MATH = {'pi', 'sqrt', 'sin', 'cos', 'exp', 'atan2', 'pow', 'floor', 'two_pi_times'}


def determined(ex, result, pick, pc):
    """the result is a term over the arguments of the choice function alone (the
    code being deterministic, a call with the same arguments gives the same result)"""
    flat = []
    C._flat_args((pick,), flat)
    args = flat[0].z.children()
    subst = [(x, z3.Const('arg!%d' % i, x.sort())) for i, x in enumerate(args) if z3.is_app(x)]
    flat = []
    C._flat_args((result,), flat)
    todo = [C.lift(x).z for x in flat]
    for c in pc:        # the choice of the path
        if not isinstance(c, SBool):
            return False
        todo.append(c.z)
    keep = []
    seen, names = set(), set()
    while todo:
        e = z3.substitute(todo.pop(), *subst)
        stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            keep.append(x)
            stack.extend(x.children())
            if x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            nm = x.decl().name()
            if nm in MATH or nm in C.OPAQUE or nm.startswith(('arg!', 'choice:')) or nm in names:
                continue
            names.add(nm)
            if nm not in getattr(ex, 'deps', {}):
                if os.environ.get('DBGDET'): print('undetermined', nm, str(x)[:300])
                return False
            todo += ex.deps[nm]
    return True


def content_same(c0, c1):
    def rec(k, idx):
        if k == len(c0.shape):
            return C.same(c1.get(tuple(idx)), c0.get(tuple(idx)))
        return C.forall(0, c0.shape[k], lambda j: rec(k + 1, idx + [K._ix(j)]))
    return rec(0, [])


def arrays(v):
    if isinstance(v, ArrRef):
        return [v]
    if isinstance(v, tuple):
        return [y for x in v for y in arrays(x)]
    return []


class Ev:
    """evaluation of symbolic inputs in a model"""
    def __init__(self, model, heap):
        self.m, self.heap = model, heap

    def real(self, v):
        if isinstance(v, (int, float)):
            return float(v)
        v = C.to_real(v)
        if v.nan is not False and (v.nan is True or z3.is_true(self.m.eval(v.nan, model_completion=True))):
            return float('nan')
        z = self.m.eval(v.z, model_completion=True)
        if z3.is_rational_value(z):
            return float(Fraction(z.numerator_as_long(), z.denominator_as_long()))
        if z3.is_algebraic_value(z):
            z = z.approx(20)
            return float(Fraction(z.numerator_as_long(), z.denominator_as_long()))
        raise ValueError('no value for %s' % v)

    def int(self, v):
        if isinstance(v, int):
            return v
        z = self.m.eval(v.z, model_completion=True)
        return z.as_long()

    def bool(self, v):
        if isinstance(v, bool):
            return v
        return z3.is_true(self.m.eval(v.z, model_completion=True))


def abstract(con):
    C.ABSTRACT.clear()
    solve.LAZY = 4.0 if con is None else con.opt.get('lazy', 4.0)
    if con is not None:
        C.ABSTRACT.update(con.opt.get('abstract', ()))


def discharge_one(proof, i, budget):
    o = proof.obls[i]
    abstract(getattr(proof, 'con', None))
    if getattr(o, 'raw', False):
        from . import lemmas
        t0 = time.time()
        r = lemmas.prove(o, budget)
        return dict(status='proved' if r == z3.unsat else 'unknown', backend='z3-smt (quantified)', time=time.time() - t0,
                    note='', args=None)
    if proof.con is not None and proof.con.budget:
        budget = max(budget, proof.con.budget)
    hyps = o.hyps()
    t0 = time.time()
    hs = getattr(o, 'hint', ())
    if hs and solve.prove(hyps, o.goal, budget=budget, quick=True).status == 'proved':
        hs = ()
    for h in hs:
        # an intermediate claim: used when it is proved itself
        if time.time() - t0 < 5 * budget and solve.prove(hyps, h, budget=budget / 2).status == 'proved':
            hyps = hyps + [h]
    r = solve.prove(hyps, o.goal, budget=budget, want_model=True)
    r.time = time.time() - t0
    args = None
    if r.status != 'proved' and r.model is not None and proof.con is not None:
        try:
            ev = Ev(r.model, proof.heap0)
            args = [t.model(ev, v) for (n, t), v in zip(proof.con.params, proof.pos)]
        except Exception as e:
            r.note += ' model not extracted: %s' % e
    return dict(status=r.status, backend=r.backend, time=r.time, note=r.note, args=args)


def discharge(jobs, budget=10.0, workers=None, hard=None, deadline=None):
    """jobs: list of (proof, index); returns list of dicts. Forks worker processes."""
    workers = workers or min(8, os.cpu_count() or 1)
    results = [None] * len(jobs)
    order = list(range(len(jobs)))
    running = {}
    hard = hard or budget * 8 + 20

    def start(k):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            try:
                os.setpgid(0, 0)
                if os.environ.get('VERIF_STUCK'):
                    import faulthandler
                    faulthandler.dump_traceback_later(hard - 2)
                p, i = jobs[k]
                r = discharge_one(p, i, budget)
            except Exception as e:
                r = dict(status='unknown', backend='error', time=0.0, note='%s: %s' % (type(e).__name__, e), args=None)
            try:
                with os.fdopen(wfd, 'wb') as f:
                    pickle.dump(r, f)
            finally:
                os._exit(0)
        os.close(wfd)
        running[rfd] = (k, pid, time.time(), b'')

    while order or running:
        while order and len(running) < workers:
            start(order.pop(0))
        rl, _, _ = select.select(list(running), [], [], 0.2)
        for fd in rl:
            k, pid, t0, buf = running[fd]
            d = os.read(fd, 1 << 16)
            if d:
                running[fd] = (k, pid, t0, buf + d)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            try:
                results[k] = pickle.loads(buf)
            except Exception:
                results[k] = dict(status='unknown', backend='crash', time=time.time() - t0, note='worker died', args=None)
        now = time.time()
        for fd in list(running):
            k, pid, t0, buf = running[fd]
            if now - t0 > hard or (deadline and now > deadline):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                results[k] = dict(status='unknown', backend='timeout', time=now - t0, note='hard limit', args=None)
        if deadline and now > deadline:
            for k in order:
                results[k] = dict(status='unknown', backend='timeout', time=0.0, note='time budget used up', args=None)
            order = []
    return results
