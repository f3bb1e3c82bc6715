"""Contracts on the functions of the repository.

A contract names a function (module:qualname), the types of its positional
parameters (bound by position, so renaming a parameter of the code changes
nothing), and
  requires(a)  preconditions
  define(a)    functional result (or None)
  ensures(a)   named postconditions over a.<param> (values at entry),
               a.post.<param> (values at exit) and a.result
  effects(a)   functional description of what is modified; everything not
               mentioned must be unchanged (frame obligations)
  raises       exceptions allowed, with the condition under which they occur
The same specification text is evaluated on symbolic values (proof) and on
concrete values (replay and run-time cross-check)."""
import math
import random

import z3

from . import core as C
from . import solve
from .core import Num, SBool, SInt, SReal, Sym, Unsupported, V2, lift
from .execu import Out, State, is_scalar
from .npmodel import record_dtype, dtype_literal
from .values import (ArrRef, Content, DType, Obj, PList, PyRaise, RecArr, RecRow, Seq, SORT, cint, coerce, indices,
                     make_content, norm_int, small_concrete, zint)


class ObjView:
    """attributes of an object, entries of a dictionary"""
    def field(self, name):
        return self.__dict__[name]


class NS:
    """attribute namespace"""
    def __init__(_, **kw):
        _.__dict__.update(kw)

    def __getitem__(self, k):
        return self.__dict__[k]


# -------------------------------------------------------------------- views

class ArrView:
    """array in a specification. With a trailing dimension 2, indexing all but
    the last dimension gives a V2."""

    def __init__(self, shape, get, vec=True):
        self.shape, self.get = tuple(shape), get
        self.vec = vec and len(self.shape) >= 1 and cint(self.shape[-1]) == 2 and len(self.shape) > 1

    @property
    def n(self):
        return self.shape[0]

    def __len__(self):
        return cint(self.shape[0])

    def __getitem__(self, i):
        if not isinstance(i, tuple):
            i = (i,)
        i = tuple(_ix(x) for x in i)
        if len(i) == len(self.shape):
            return self.get(i)
        if self.vec and len(i) == len(self.shape) - 1:
            return V2(self.get(i + (0,)), self.get(i + (1,)))
        g = self.get
        return ArrView(self.shape[len(i):], lambda j: g(i + tuple(j)), self.vec or len(self.shape) - len(i) > 1)


def _ix(x):
    if isinstance(x, Num):
        return int(x.v)
    if isinstance(x, int):
        return x
    return norm_int(x)


class RecView:
    def __init__(self, n, fields):
        self.__dict__['n'] = n
        self.__dict__['_f'] = fields

    def __getattr__(self, k):
        try:
            return self._f[k]
        except KeyError:
            raise AttributeError(k)

    def field(self, k):
        return self._f[k]


# -------------------------------------------------------------------- types

def num_in(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v
    return Num(float(v), 0.0)


OUT_EPS = 1e-9


def num_out(v):
    if isinstance(v, bool) or isinstance(v, int):
        return v
    v = float(v)
    if v != v or math.isinf(v):
        return Num(v, 0.0)
    return Num(v, OUT_EPS * (1e-3 + abs(v)))


def pick(rng, lo=-4.0, hi=4.0):
    r = rng.random()
    if r < 0.45:
        c = [x for x in (-2.0, -1.0, -0.5, 0.0, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0) if lo <= x <= hi]
        if c:
            return rng.choice(c)
    if r < 0.9:
        return rng.uniform(lo, hi)
    return round(rng.uniform(lo, hi), 1)


class T:
    fresh_result = True


class RealT(T):
    def __init__(self, lo=None, hi=None, nan=False):
        self.lo, self.hi, self.nan = lo, hi, nan

    def sym(self, ex, st, name, env):
        z = z3.Real(name)
        v = SReal(z, z3.Bool(name + '.nan') if self.nan else False)
        return v

    def match(self, ex, st, v):
        return is_scalar(v) and not isinstance(lift(v), SBool) or \
            isinstance(v, ArrRef) and v.shape == ()

    def view(self, ex, st, v):
        return C.to_real(lift(v))

    def fresh(self, ex, st, env):
        z = ex.fresh_z(z3.RealSort(), 'res')
        return SReal(z, ex.fresh_z(z3.BoolSort(), 'resnan') if self.nan else False)

    def of_view(self, ex, st, w):
        return C.to_real(lift(w))

    def gen(self, rng, env):
        return {'t': 'f', 'v': pick(rng, self.lo if self.lo is not None else -4.0,
                                    self.hi if self.hi is not None else 4.0)}

    def cview(self, j, conv):
        return conv(float(j['v']))

    def model(self, ev, v):
        return {'t': 'f', 'v': ev.real(v)}


class IntT(T):
    def __init__(self, lo=-3, hi=6):
        self.lo, self.hi = lo, hi

    def sym(self, ex, st, name, env):
        return SInt(z3.Int(name))

    def match(self, ex, st, v):
        return is_scalar(v) and isinstance(lift(v), SInt)

    def view(self, ex, st, v):
        return norm_int(v)

    def fresh(self, ex, st, env):
        return SInt(ex.fresh_z(z3.IntSort(), 'res'))

    def of_view(self, ex, st, w):
        return norm_int(w)

    def gen(self, rng, env):
        return {'t': 'i', 'v': rng.randint(self.lo, self.hi)}

    def cview(self, j, conv):
        return int(j['v'])

    def model(self, ev, v):
        return {'t': 'i', 'v': ev.int(v)}


class BoolT(T):
    def sym(self, ex, st, name, env):
        return SBool(z3.Bool(name))

    def match(self, ex, st, v):
        return is_scalar(v) and isinstance(lift(v), SBool)

    def view(self, ex, st, v):
        return lift(v)

    def fresh(self, ex, st, env):
        return SBool(ex.fresh_z(z3.BoolSort(), 'res'))

    def of_view(self, ex, st, w):
        return w if isinstance(w, bool) else lift(w)

    def gen(self, rng, env):
        return {'t': 'b', 'v': rng.random() < 0.5}

    def cview(self, j, conv):
        return C.K3(bool(j['v']))

    def model(self, ev, v):
        return {'t': 'b', 'v': ev.bool(v)}


class NoneT(T):
    def sym(self, ex, st, name, env):
        return None

    def match(self, ex, st, v):
        return v is None

    def view(self, ex, st, v):
        return None

    def fresh(self, ex, st, env):
        return None

    def of_view(self, ex, st, w):
        return None

    def gen(self, rng, env):
        return {'t': 'none'}

    def cview(self, j, conv):
        return None

    def model(self, ev, v):
        return {'t': 'none'}


class ConstT(T):
    """a fixed Python value (e.g. the model name)"""
    def __init__(self, v):
        self.v = v

    def sym(self, ex, st, name, env):
        return self.v

    def match(self, ex, st, v):
        return type(v) is type(self.v) and v == self.v

    def view(self, ex, st, v):
        return v

    def gen(self, rng, env):
        return {'t': 'const', 'v': self.v}

    def cview(self, j, conv):
        return self.v

    def model(self, ev, v):
        return {'t': 'const', 'v': self.v}


class ArrT(T):
    """dims: ints or names of symbolic lengths"""
    def __init__(self, dtype, dims, minlen=0, nan=False, vec=True, gen=None, lo=-4.0, hi=4.0, readonly=False):
        self.dtype, self.dims, self.minlen, self.nan, self.vec, self.gen_ = dtype, dims, minlen, nan, vec, gen
        self.lo, self.hi = lo, hi

    def shape(self, ex, env):
        out = []
        for d in self.dims:
            if isinstance(d, int):
                out.append(d)
            else:
                if d not in env:
                    env[d] = SInt(z3.Int('len.' + d))
                    ex.nonneg.add(env[d].z.get_id())
                    env.setdefault('$new', []).append(env[d])
                if self.minlen:
                    env.setdefault('$min', []).append((env[d], self.minlen))
                out.append(env[d])
        return tuple(out)

    def elem(self, name, idx):
        s = {'f8': SReal, 'i8': SInt, 'b1': SBool}[self.dtype]
        if idx is None:
            return None

    def sym(self, ex, st, name, env):
        sh = self.shape(ex, env)
        wrap = {'f8': SReal, 'i8': SInt, 'b1': SBool}[self.dtype]
        if small_concrete(sh):
            cells = {i: wrap(z3.Const('%s.%s' % (name, '.'.join(map(str, i))), SORT[self.dtype])) for i in indices(sh)}
            if self.nan:
                cells = {i: SReal(c.z, z3.Bool('%s.%s.nan' % (name, '.'.join(map(str, i))))) for i, c in cells.items()}
            c = Content(sh, self.dtype, cells=cells)
        else:
            f = z3.Function(name, *([z3.IntSort()] * len(sh) + [SORT[self.dtype]]))
            if self.nan:
                g = z3.Function(name + '.nan', *([z3.IntSort()] * len(sh) + [z3.BoolSort()]))
                c = Content(sh, self.dtype, lambda i: SReal(f(*map(zint, i)), g(*map(zint, i))))
            else:
                c = Content(sh, self.dtype, lambda i: wrap(f(*map(zint, i))))
        key = ('param', name)
        st.heap[key] = c
        return ArrRef(key, [('d', 0, s) for s in sh], self.dtype)

    def match(self, ex, st, v):
        if not isinstance(v, ArrRef):
            if isinstance(v, (tuple, PList)) and all(isinstance(d, int) for d in self.dims) and len(self.dims) == 1:
                return isinstance(v, tuple) and len(v) == self.dims[0] and all(is_scalar(x) for x in v)
            return False
        if v.dtype != self.dtype or len(v.shape) != len(self.dims):
            return False
        for d, s in zip(self.dims, v.shape):
            if isinstance(d, int) and isinstance(s, int) and d != s:
                return False
            if isinstance(d, int) and not isinstance(s, int):
                return False
        return True

    def view(self, ex, st, v):
        if isinstance(v, tuple):
            if len(v) == 2:
                return V2(C.to_real(lift(v[0])), C.to_real(lift(v[1])))
            return ArrView((len(v),), lambda i: lift(v[i[0]]), self.vec)
        f = ex.arr_fn(st, v)
        return self.mkview(v.shape, f)

    def mkview(self, shape, f):
        if self.dims == (2,) and self.vec and self.dtype == 'f8':
            return V2(f((0,)), f((1,)))
        return ArrView(shape, f, self.vec)

    def bind_dims(self, ex, st, v, env, node):
        if isinstance(v, tuple):
            return
        for d, s in zip(self.dims, v.shape):
            if isinstance(d, int):
                ex.same_dim(st, s, d, node)
            elif d in env:
                ex.same_dim(st, s, env[d], node)
            else:
                env[d] = s

    def fresh(self, ex, st, env):
        sh = tuple(d if isinstance(d, int) else env[d] for d in self.dims)
        f = ex.fresh_fun(self.dtype, len(sh), 'R')
        if self.nan:
            g = ex.fresh_fun('b1', len(sh), 'Rnan')
            h = f
            f = lambda i: SReal(h(i).z, g(i).z)
        return ex.alloc(st, sh, self.dtype, f, base='res')

    def of_view(self, ex, st, w):
        if isinstance(w, V2):
            return ex.alloc(st, (2,), 'f8', cells={(0,): C.to_real(lift(w.x)), (1,): C.to_real(lift(w.y))}, base='res')
        return ex.alloc(st, w.shape, self.dtype, lambda i: w.get(tuple(i)), base='res')

    def cshape(self, rng, env):
        out = []
        for d in self.dims:
            if isinstance(d, int):
                out.append(d)
            else:
                if d not in env:
                    env[d] = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]) if rng.random() > 0.05 else rng.randint(6, 16)
                    env[d] = max(env[d], self.minlen)
                out.append(env[d])
        return out

    def gen(self, rng, env):
        sh = self.cshape(rng, env)
        n = 1
        for s in sh:
            n *= s
        if self.gen_ is not None:
            data = [self.gen_(rng) for _ in range(n)]
        elif self.dtype == 'f8':
            data = [pick(rng, self.lo, self.hi) for _ in range(n)]
        elif self.dtype == 'i8':
            data = [rng.randint(int(self.lo), int(self.hi)) for _ in range(n)]
        else:
            data = [rng.random() < 0.5 for _ in range(n)]
        return {'t': 'arr', 'dtype': self.dtype, 'shape': sh, 'data': data}

    def cview(self, j, conv):
        sh = tuple(j['shape'])
        data = j['data']
        strides = []
        n = 1
        for s in reversed(sh):
            strides.insert(0, n)
            n *= s
        mk = {'f8': lambda x: conv(float(x)), 'i8': int, 'b1': lambda x: C.K3(bool(x))}[self.dtype]

        def get(i):
            if not all(0 <= a < b for a, b in zip(i, sh)):
                return mk(0)        # specifications are total
            return mk(data[sum(a * b for a, b in zip(i, strides))])
        return self.mkview(sh, get)

    def model(self, ev, v):
        sh = [ev.int(s) for s in v.shape]
        n = 1
        for s in sh:
            n *= max(s, 0)
        if n > 4000:
            raise ValueError('counterexample too large')
        c = ev.heap[v.key]
        f = {'f8': ev.real, 'i8': ev.int, 'b1': ev.bool}[self.dtype]
        data = [f(c.get(v.base_index(i))) for i in indices(sh)]
        return {'t': 'arr', 'dtype': self.dtype, 'shape': sh, 'data': data}


AGENTS = 'crowddynamics.simulation.agents'
REC_KINDS = {
    'circular': (AGENTS, 'Circular', 'agent_type_circular'),
    'three_circle': (AGENTS, 'ThreeCircle', 'agent_type_three_circle'),
    'obstacle': ('crowddynamics.core.structures', None, 'obstacle_type_linear'),
}

# ranges the traits of the agent classes enforce (min=0 and so on); assumed of
# agent records only where a contract requires them
POSITIVE = ('radius', 'r_t', 'r_s', 'r_ts', 'mass', 'inertia_rot', 'target_velocity', 'target_angular_velocity',
            'tau_adj', 'k_soc', 'tau_0', 'mu', 'kappa', 'damping', 'std_rand_force', 'tau_rot', 'std_rand_torque')


def rec_dt(ex, kind):
    mod, cls, glob = REC_KINDS[kind]
    m = ex.repo.module(mod)
    if cls is None:
        b = m.get(glob)
        return dtype_literal(m, glob, b[2].args[0])
    return record_dtype(ex, m.get(cls))


class RecT(T):
    def __init__(self, kind, n='n', minlen=0, fresh_dtype=True, gens=None):
        self.kind, self.dims, self.minlen, self.fresh_dtype, self.gens = kind, (n,), minlen, fresh_dtype, gens or {}

    def dt(self, ex):
        d = rec_dt(ex, self.kind)
        return DType(d.name, d.fields) if self.fresh_dtype else d

    def sym(self, ex, st, name, env):
        n = ArrT('f8', self.dims, self.minlen).shape(ex, env)[0]
        d = self.dt(ex)
        r = RecArr(('param', name), n, d)
        for f, (b, s) in d.fields.items():
            fn = z3.Function('%s.%s' % (name, f), *([z3.IntSort()] * (1 + len(s)) + [SORT[b]]))
            wrap = {'f8': SReal, 'i8': SInt, 'b1': SBool}[b]
            st.heap[(r.id, f)] = make_content((n,) + s, b, (lambda fn, wrap: lambda i: wrap(fn(*map(zint, i))))(fn, wrap))
        return r

    def match(self, ex, st, v):
        return isinstance(v, RecArr) and v.dt.name == rec_dt(ex, self.kind).name

    def view(self, ex, st, v):
        fields = {}
        for f, (b, s) in v.dt.fields.items():
            ref = ex.natives.rec_field(v, None, f)
            fields[f] = ArrView(ref.shape, ex.arr_fn(st, ref), True)
        r = RecView(v.n, fields)
        return r

    def bind_dims(self, ex, st, v, env, node):
        d = self.dims[0]
        if isinstance(d, int):
            ex.same_dim(st, v.n, d, node)
        elif d in env:
            ex.same_dim(st, v.n, env[d], node)
        else:
            env[d] = v.n

    def gen(self, rng, env):
        n = ArrT('f8', self.dims, self.minlen).cshape(rng, env)[0]
        return gen_rec(rng, self.kind, n, self.gens, rng.random() < 0.5 if self.fresh_dtype else False)

    def cview(self, j, conv):
        fields = {}
        for f, (b, s, data) in j['fields'].items():
            fields[f] = ArrT(b, ('n',) + tuple(s)).cview({'shape': [j['n']] + list(s), 'data': data}, conv)
        return RecView(j['n'], fields)

    def model(self, ev, v):
        n = ev.int(v.n)
        if n > 60:
            raise ValueError('counterexample too large')
        fields = {}
        for f, (b, s) in v.dt.fields.items():
            c = ev.heap[(v.id, f)]
            fn = {'f8': ev.real, 'i8': ev.int, 'b1': ev.bool}[b]
            fields[f] = [b, list(s), [fn(c.get(i)) for i in indices((n,) + s)]]
        return {'t': 'rec', 'kind': self.kind, 'n': n, 'fields': fields, 'fresh_dtype': self.fresh_dtype}


REC_FIELDS = {}      # kind -> {field: (base, shape)}; filled from the code


def init_records(repo):
    """field tables of the record types, from the code"""
    from .execu import Executor
    from .npmodel import Natives
    ex = Executor(repo, REG, Natives(), {})
    for kind in REC_KINDS:
        try:
            REC_FIELDS[kind] = dict(rec_dt(ex, kind).fields)
        except (Unsupported, AttributeError, TypeError, KeyError) as e:
            REC_FIELDS[kind] = {}
            print('record type %s not understood: %s' % (kind, e))


def gen_rec(rng, kind, n, gens, fresh):
    out = {}
    for f, (b, s) in REC_FIELDS[kind].items():
        k = 1
        for x in s:
            k *= x
        data = []
        for _ in range(n):
            if f in gens:
                v = gens[f](rng)
                data += list(v) if isinstance(v, (list, tuple)) else [v]
                continue
            for _ in range(k):
                if b == 'f8':
                    if f in ('radius', 'r_t', 'r_s', 'r_ts'):
                        data.append(rng.choice([0.25, 0.3, 0.1, 0.5]))
                    elif f in ('mass', 'inertia_rot', 'tau_adj', 'tau_rot', 'tau_0'):
                        data.append(rng.choice([0.5, 1.0, 2.0, 3.0, 80.0]))
                    elif f in POSITIVE:
                        data.append(rng.choice([0.0, 0.5, 1.0, 1.5, 4.0]))
                    elif f in ('orientation',):
                        data.append(rng.choice([0.0, 1.0, -2.0, 3.0, rng.uniform(-math.pi, math.pi)]))
                    elif f == 'target_direction':
                        data.append(0.0)
                    else:
                        data.append(pick(rng, -3.0, 3.0))
                elif b == 'i8':
                    data.append(rng.randint(-1, 2))
                else:
                    data.append(rng.random() < 0.5)
        if f == 'target_direction' and f not in gens:
            data = []
            for _ in range(n):
                a = rng.choice([None, 0.0, math.pi / 2, rng.uniform(-3, 3)])
                data += [0.0, 0.0] if a is None else [math.cos(a), math.sin(a)]
        if f in ('position_ls', 'position_rs') and f not in gens and 'position' in out:
            sg = -1 if f == 'position_ls' else 1
            # set from orientation by gen_shoulders below
        out[f] = [b, list(s), data]
    if kind == 'three_circle' and rng.random() < 0.7:
        for i in range(n):
            phi, r = out['orientation'][2][i], out['r_ts'][2][i]
            t = (math.sin(phi) * r, -math.cos(phi) * r)
            for c in (0, 1):
                p = out['position'][2][2 * i + c]
                out['position_ls'][2][2 * i + c] = p - t[c]
                out['position_rs'][2][2 * i + c] = p + t[c]
    return {'t': 'rec', 'kind': kind, 'n': n, 'fields': out, 'fresh_dtype': fresh}


class SeqT(T):
    """list (or the values of a generator) of scalars"""
    def __init__(self, dtype):
        self.dtype = dtype

    def match(self, ex, st, v):
        if not isinstance(v, PList):
            return False
        c = st.heap.get(v.id)
        return bool(c) and (c[0] == 'list' and all(is_scalar(x) for x in c[1]) or
                            c[0] == 'seq' and is_scalar(c[1].get(SInt(0))))

    def view(self, ex, st, v):
        c = st.heap[v.id]
        if c[0] == 'list':
            items = c[1]

            def get(i):
                i = norm_int(i[0])
                if isinstance(i, int):
                    return lift(items[i])
                r = lift(items[-1]) if items else lift(0)
                for k in range(len(items) - 2, -1, -1):
                    r = C.ite(SBool(zint(i) == k), lift(items[k]), r)
                return r
            return ArrView((len(items),), get)
        s = c[1]
        return ArrView((norm_int(s.n),), lambda i: lift(s.get(norm_int(i[0]))))

    def fresh(self, ex, st, env):
        n = SInt(ex.fresh_z(z3.IntSort(), 'len'))
        ex.nonneg.add(n.z.get_id())
        ex.__dict__.setdefault('_keep', []).append(n)
        ex.fact(st, SBool(n.z >= 0))
        f = ex.fresh_fun(self.dtype, 1, 'L')
        p = PList(ex.new_key('list'))
        st.heap[p.id] = ('seq', Seq(n, lambda i: f((norm_int(i),))))
        return p


class ObjT(T):
    """object with the given attributes: an instance of the class `cls` of the
    repository ('module:Class'), or of a class that is not looked into (None).
    The parts are heap entries of their own ('self.simulation.data' ...)"""
    def __init__(self, cls=None, **attrs):
        self.cls, self.attrs = cls, attrs

    def sym(self, ex, st, name, env):
        from .npmodel import ExtClass
        from .values import Obj
        c = ex.repo.function(self.cls) if self.cls else ExtClass('object')
        o = Obj(('param', name), c)
        for k, t in self.attrs.items():
            st.heap[(o.id, k)] = t.sym(ex, st, '%s.%s' % (name, k), env)
        return o

    def match(self, ex, st, v):
        return False

    def view(self, ex, st, v):
        o = ObjView()
        for k, t in self.attrs.items():
            o.__dict__[k] = t.view(ex, st, st.heap[(v.id, k)])
        return o

    def gen(self, rng, env):
        raise C.Unsupported('objects are not generated')


class DictT(T):
    """dictionary with exactly these entries"""
    def __init__(self, **entries):
        self.entries = entries

    def sym(self, ex, st, name, env):
        from .values import PDict
        p = PDict(('param', name))
        st.heap[p.id] = ('dict', tuple((k, t.sym(ex, st, '%s.%s' % (name, k), env)) for k, t in self.entries.items()))
        return p

    def view(self, ex, st, v):
        o = ObjView()
        o.keys_ = tuple(k for k, _ in st.heap[v.id][1])
        for k, x in st.heap[v.id][1]:
            o.__dict__[k] = self.entries[k].view(ex, st, x) if k in self.entries else None
        return o


class AnyT(T):
    """a value of its own kind: make(name) -> value"""
    def __init__(self, make):
        self.make = make

    def sym(self, ex, st, name, env):
        return self.make(name)

    def view(self, ex, st, v):
        return v


class TupT(T):
    def __init__(self, *ts):
        self.ts = ts

    def sym(self, ex, st, name, env):
        return tuple(t.sym(ex, st, '%s_%d' % (name, i), env) for i, t in enumerate(self.ts))

    def match(self, ex, st, v):
        return isinstance(v, tuple) and len(v) == len(self.ts) and all(t.match(ex, st, x) for t, x in zip(self.ts, v))

    def view(self, ex, st, v):
        return tuple(t.view(ex, st, x) for t, x in zip(self.ts, v))

    def bind_dims(self, ex, st, v, env, node):
        for t, x in zip(self.ts, v):
            if hasattr(t, 'bind_dims'):
                t.bind_dims(ex, st, x, env, node)

    def fresh(self, ex, st, env):
        return tuple(t.fresh(ex, st, env) for t in self.ts)

    def of_view(self, ex, st, w):
        return tuple(t.of_view(ex, st, x) for t, x in zip(self.ts, w))

    def gen(self, rng, env):
        return {'t': 'tup', 'v': [t.gen(rng, env) for t in self.ts]}

    def cview(self, j, conv):
        return tuple(t.cview(x, conv) for t, x in zip(self.ts, j['v']))

    def model(self, ev, v):
        return {'t': 'tup', 'v': [t.model(ev, x) for t, x in zip(self.ts, v)]}


Real, Int, Bool, NoneV = RealT(), IntT(), BoolT(), NoneT()
RealN = RealT(nan=True)
Vec2 = ArrT('f8', (2,))


def Arr(dtype, *dims, **kw):
    return ArrT(dtype, tuple(dims), **kw)


def Rows2(n='n', **kw):
    return ArrT('f8', (n, 2), **kw)


# ---------------------------------------------------------------- contracts

class Eff:
    """effect on a modified location: path 'agents.force' or 'x'; value(k) for
    every index k, or value() at the single index `at`"""
    def __init__(self, path, value, at=None, rank=1):
        self.path, self.value, self.at, self.rank = path, value, at, rank


class Contract:
    def __init__(self, key, variant, params, result, requires=None, define=None, ensures=None, effects=None,
                 modifies=(), raises=None, gen=None, allow_div0=False, opt=None, result_alias=False, note='', export=True,
                 assumed=False, search=None, timeout=None, result_dims=None, setup=None, facts=None,
                 raises_post=None, budget=None, steps=None, cases=None, pick=None,
                 draws=None, yields=None, ytype=None, invariants=None, at_call=None):
        self.key, self.variant, self.params, self.result = key, variant, params, result
        self.requires_, self.define_, self.ensures_, self.effects_ = requires, define, ensures, effects
        self.modifies = tuple(modifies)
        self.raises = raises or {}
        self.export = export    # callers may use the postconditions besides the definition
        self.gen_, self.allow_div0, self.opt = gen, allow_div0, opt or {}
        self.result_alias, self.note, self.assumed = result_alias, note, assumed
        self.search, self.timeout = False if draws is not None or any(isinstance(t, ObjT) for _, t in params) else search, timeout
        self.result_dims = result_dims
        self.setup_, self.facts_, self.raises_post, self.budget = setup, facts, raises_post, budget
        self.steps_, self.cases_, self.pick = steps, cases, pick
        # draws: number of random numbers used (int), or 'any' for a generator; yields: what holds
        # of each yielded value (of type ytype)
        # at_call(ex, st, arguments) -> more attributes for the specification at a call site
        self.at_call = at_call
        self.draws, self.yields_, self.ytype, self.invariants = draws, yields, ytype, invariants

    @property
    def id(self):
        return self.key + ('' if not self.variant else '[%s]' % self.variant)

    def requires(self, a):
        return _named(self.requires_(a), 'requires') if self.requires_ else []

    def facts(self, a):
        return [g for _, g in _named(self.facts_(a), 'fact')] if self.facts_ else []

    def steps(self, a):
        return _named(self.steps_(a), 'step') if self.steps_ else []

    def cases(self, a):
        """case distinction for the proof of the postconditions: (name, condition,
        what to prove first)"""
        if not self.cases_:
            return []
        return [(nm, c[0], c[1]) if isinstance(c, tuple) else (nm, c, None) for nm, c in self.cases_(a).items()]

    def ensures(self, a):
        out = []
        if self.define_ is not None:
            out += _same_named('value', a.result, self.define_(a))
        if self.effects_ is not None:
            for e in self.effects_(a):
                old, new = path_view(a, e.path), path_view(a.post, e.path)
                out += _eff_post(e, old, new)
        if self.ensures_ is not None:
            out += _named(self.ensures_(a), 'ensures')
        return out

    def modified_paths(self, a):
        m = list(self.modifies)
        if self.effects_ is not None:
            m += [e.path for e in self.effects_(a)]
        return m

    # ----------------------------------------------------------- call site
    def apply(self, ex, st, f, pos, node):
        env = {}
        # opt 'forget': calls told by the postconditions only, not by the definition
        define_ = self.define_ if self.key not in ex.opt.get('forget', ()) else None
        for (name, t), v in zip(self.params, pos):
            if hasattr(t, 'bind_dims'):
                t.bind_dims(ex, st, v, env, node)
        a = NS(**{name: t.view(ex, st, v) for (name, t), v in zip(self.params, pos)})
        a.env = env
        if self.at_call is not None:
            a.__dict__.update(self.at_call(ex, st, pos))
        short = self.key.split(':')[1]
        for nm, g in self.requires(a):
            ex.oblige(st, 'precondition of %s: %s' % (short, nm), g, 'precondition', node)
        for exc, cond in self.raises.items():
            c = solve.lift_formula(cond(a)) if not isinstance(cond(a), bool) else cond(a)
            if c is False:
                continue
            s2 = st.copy()
            s2 = State(dict(st.loc), dict(st.heap), st.pc, st.frame)
            ex.assume(s2, c)
            ex.assume(st, C.lnot(c) if not isinstance(c, bool) else SBool(False))
            ex.pending.append(Out('x', s2, (exc, ())))
        if self.draws is not None:
            if callable(self.draws) and '$rng' not in st.heap:
                raise C.Unsupported('call that draws arrays')
            if not isinstance(self.draws, int) and not callable(self.draws):
                raise C.Unsupported('call of a generator that draws')
            if '$rng' in st.heap:
                base = st.heap['$rng']
                tbase = st.heap['$rngT']
                used = self.draws(a) if callable(self.draws) else (self.draws, 0)
                st.heap['$rng'] = C.sadd(base, lift(used[0]))
                st.heap['$rngT'] = C.sadd(tbase, lift(used[1]))
            else:
                base = C.SInt(ex.fresh_z(z3.IntSort(), 'rng'))
                for k in range(self.draws):
                    ex.fact(st, draw_range('uniform', stream_at('uniform', base, k)))
                    ex.fact(st, draw_range('exponential', stream_at('exponential', base, k)))
            a.draw = lambda k, kind='uniform': stream_at(kind, tbase if kind == 'truncnorm' else base, k)
        vals = dict(zip([n for n, _ in self.params], pos))
        types = dict(self.params)
        res = None
        if self.result is not None and define_ is None and self.pick is None:
            if self.result_dims is not None:
                env.update(self.result_dims(ex, st, a))
            res = self.result.fresh(ex, st, env)
            a.result = self.result.view(ex, st, res)
        if self.effects_ is not None:
            todo = []
            for e in self.effects_(a):
                todo.append((e, path_ref(ex, e.path, vals)))
            for e, ref in todo:
                apply_effect(ex, st, e, ref, node)
        for p in self.modifies:
            ref = path_ref(ex, p, vals)
            f_ = ex.fresh_fun(ref.dtype, len(ref.shape), 'M')
            ex.arr_assign(st, ref, f_)
        a.post = NS(**{name: t.view(ex, st, v) for (name, t), v in zip(self.params, pos)})
        if self.result is not None:
            if define_ is not None:
                res = self.result.of_view(ex, st, define_(a))
            elif self.pick is not None:
                res = self.result.of_view(ex, st, self.pick(a))
            if self.result_alias:
                res = _readonly(res)
            a.result = self.result.view(ex, st, res)
            if define_ is None and self.pick is None:
                ex.depends(a.result, a, [n for n, _ in self.params])
        else:
            a.result = None
        if self.ensures_ is not None and self.export:
            for nm, g in _named(self.ensures_(a), 'ensures'):
                ex.fact(st, g)
        return res


def stream_at(kind, base, k):
    from .npmodel import stream
    return stream(kind, C.sadd(lift(base), lift(k)))


def draw_range(kind, v):
    from .npmodel import DRAW_RANGE
    return DRAW_RANGE[kind](v)


def _readonly(v):
    if isinstance(v, ArrRef):
        return ArrRef(v.key, v.dims, v.dtype, True)
    if isinstance(v, tuple):
        return tuple(_readonly(x) for x in v)
    return v


def _named(r, default):
    if r is None:
        return []
    if isinstance(r, dict):
        return [(k, v if isinstance(v, (Sym, C.K3, bool)) else v) for k, v in r.items()]
    if isinstance(r, list):
        return [('%s %d' % (default, i + 1), v) for i, v in enumerate(r)]
    return [(default, r)]


def _same_named(name, got, want):
    if isinstance(want, tuple):
        out = []
        for i, w in enumerate(want):
            out += _same_named('%s[%d]' % (name, i), got[i], w)
        return out
    if isinstance(want, ArrView):
        shape_ok = C.land(*[C.eq(lift_any(x), lift_any(y)) for x, y in zip(got.shape, want.shape)])

        def rec(k, idx):
            if k == len(want.shape):
                return C.same(got.get(tuple(idx)), want.get(tuple(idx)))
            return C.forall(0, want.shape[k], lambda j: rec(k + 1, idx + [_ix(j)]))
        return [(name + ' shape', shape_ok), (name, rec(0, []))]
    if want is None:
        return []
    return [(name, C.same(got, want))]


def lift_any(x):
    return x


def _eff_post(e, old, new):
    if e.at is not None:
        n = old.n
        return [(e.path + ' updated', C.same(new[e.at], e.value())),
                (e.path + ' unchanged elsewhere', C.forall(0, n, lambda k: C.implies(
                    C.ne(k, e.at), C.same(new[k], old[k]))))]
    if isinstance(old, V2):
        return [(e.path, C.same(new, e.value()))]

    def rec(k, idx):
        if k == e.rank:
            i = tuple(idx)
            return C.same(new[i], e.value(*i))
        return C.forall(0, old.shape[k], lambda j: rec(k + 1, idx + [_ix(j)]))
    return [(e.path, rec(0, []))]


def path_view(a, path):
    p = path.split('.')
    v = getattr(a, p[0])
    for x in p[1:]:
        v = v[int(x)] if x.isdigit() else type(v).field(v, x)
    return v


def path_ref(ex, path, vals):
    p = path.split('.')
    v = vals[p[0]]
    for x in p[1:]:
        v = v[int(x)] if x.isdigit() else ex.natives.rec_field(v, None, x)
    return v


def apply_effect(ex, st, e, ref, node):
    def comp(v, rest):
        if isinstance(v, V2):
            return v[cint(rest[0])] if cint(rest[0]) is not None else \
                C.ite(SBool(zint(rest[0]) == 0), v.x, v.y)
        return v
    if e.at is not None:
        row = ex.natives.arr_row(ex, st, ref, norm_int(e.at)) if len(ref.shape) > 1 else None
        v = e.value()
        if row is not None:
            ex.arr_assign(st, row, lambda i: comp(v, i))
        else:
            ex.arr_store_cell(st, ref, (norm_int(e.at),), v)
        return
    if ref.shape == (2,) and e.rank == 1 and not _takes_index(e.value):
        v = e.value()
        ex.arr_assign(st, ref, lambda i: comp(v, i))
        return
    r = e.rank
    ex.arr_assign(st, ref, lambda i: comp(e.value(*i[:r]), i[r:]))


def _takes_index(f):
    return f.__code__.co_argcount > 0


class Registry:
    def __init__(self):
        self.by_key = {}
        self.all = []
        self.disabled = set()

    def add(self, c):
        self.by_key.setdefault(c.key, []).append(c)
        self.all.append(c)
        return c

    def lookup(self, f, pos, ex, st):
        for c in self.by_key.get(f.key, ()) if f.key not in ex.opt.get("inline", ()) else ():
            if c.id in self.disabled:
                continue
            if len(pos) == len(c.params) and all(t.match(ex, st, v) for (n, t), v in zip(c.params, pos)):
                return c
        return None


REG = Registry()


def contract(key, params, result=None, variant='', **kw):
    """params: list of (name, type) or 'name:Type ...' pairs"""
    return REG.add(Contract(key, variant, list(params), result, **kw))
