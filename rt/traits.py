"""C33: traits to record layouts, options and types; agents to records and back."""
import inspect

import click
import numpy as np
import traitlets
from traitlets import HasTraits, Int, Float, Complex, Bool, Unicode, Enum, Tuple, List, Instance
from traittypes import Array

from crowddynamics.exceptions import InvalidType, InvalidValue
from crowddynamics.simulation.agents import AgentType, BodyType, Circular, ThreeCircle, States, Body, TranslationalMotion, \
    RotationalMotion
from crowddynamics.traits import class_own_traits, class_to_struct_dtype, class_traits, trait_to_dtype, trait_to_option, \
    trait_to_type
from rt.crowd import *

RULE = ('traits: class hierarchies of up to 4 classes (single and multiple inheritance) with up to 4 traits each of every kind, '
        'with attributes and classes excluded; agents of both types with all attributes set; every trait kind with several '
        'defaults; every case is non-trivial; distinct by value.')
DT = {'int': np.int64, 'float': np.float64, 'complex': np.complex128, 'bool': np.bool_}
FIELDS2 = ('position', 'velocity', 'force', 'force_prev')


def cases(rng, tier):
    for k in ('int', 'float', 'complex', 'bool', 'array', 'unicode', 'enum', 'list', 'notrait', 'tuple'):
        for v in range(4):
            yield dict(kind='trait', trait=k, var=v)
    for a in ('Circular', 'ThreeCircle'):
        yield dict(kind='layout', cls=a)
        yield dict(kind='agent', cls=a, seed=0, default=True)
    while True:
        if rng.random() < 0.4:
            yield dict(kind='agent', cls=rng.choice(('Circular', 'ThreeCircle')), seed=rng.randint(0, 10 ** 6))
            continue
        n = rng.randint(1, 4) if rng.random() < 0.9 else 7
        classes = []
        c = 0
        for i in range(n):
            ts = []
            for _ in range(rng.randint(0, 4)):
                ts.append(['%s%d' % (rng.choice('azmX_'), c), rng.choice(('int', 'float', 'complex', 'bool', 'array', 'arrayi')),
                           rng.choice(([2], [3], [2, 2], [1], []))])
                c += 1
            bases = sorted(rng.sample(range(i), rng.randint(0, min(i, 2))), reverse=True)
            classes.append(dict(traits=ts, bases=bases))
        yield dict(kind='hierarchy', classes=classes, skip=rng.choice((None, None, '_', 'a')), skipc=rng.choice((None, None, 0)))


def nontrivial(case):
    return True


def make(kind, shape=(2,), v=0):
    if kind == 'int':
        return Int([0, 3, -1, 7][v])
    if kind == 'float':
        return Float([0.0, 2.5, -1.0, 1e9][v])
    if kind == 'complex':
        return Complex([0j, 1 + 2j, 3.0, -1j][v])
    if kind == 'bool':
        return Bool(v % 2 == 1)
    if kind == 'unicode':
        return Unicode(['', 'a', 'b c', '-'][v])
    if kind == 'enum':
        return Enum(('a', 'b', 'c'), default_value='abca'[v])
    if kind == 'tuple':
        return [Tuple(Int(), Float(), default_value=(1, 2.0)), Tuple(Unicode(), Bool(), default_value=('u', True)),
                Tuple(Int(), Int(), Int(), default_value=(1, 2, 3)), Tuple(Complex(), Float(), default_value=(1j, 0.5))][v]
    if kind == 'array':
        return Array(default_value=np.zeros(shape), dtype=np.float64)
    if kind == 'arrayi':
        return Array(default_value=np.zeros(shape), dtype=np.int64)


def run(case):
    return globals()['run_' + case['kind']](case)


def run_trait(case):
    k, v = case['trait'], case['var']
    bad = []

    def fails(f, exc, what):
        try:
            r = f()
        except exc:
            return
        bad.append((what, repr(r)))
    if k == 'notrait':
        x = [3, 'int', None, int][v]
        for f in (lambda: trait_to_type(x), lambda: trait_to_dtype('n', x), lambda: trait_to_option('n', x)):
            fails(f, InvalidType, 'something that is no trait is rejected')
        return bad
    if k == 'list':
        x = [List(), Instance(dict), traitlets.Dict(), traitlets.Any()][v]
        for f in (lambda: trait_to_type(x), lambda: trait_to_dtype('n', x), lambda: trait_to_option('n', x)):
            fails(f, InvalidValue, 'an unsupported trait is rejected')
        return bad
    t = make(k, [(2,), (3,), (2, 2), (1,)][v], v)
    types = {'int': int, 'float': float, 'complex': complex, 'bool': bool, 'unicode': str}
    if k in types and trait_to_type(t) is not types[k]:
        bad.append(('the type of a trait', '%s: %s' % (k, trait_to_type(t))))
    if k in DT:
        if trait_to_dtype('n', t) != ('n', DT[k]):
            bad.append(('the record field of a trait', '%s: %s' % (k, trait_to_dtype('n', t))))
    elif k == 'array':
        if np.dtype([trait_to_dtype('n', t)]) != np.dtype([('n', np.float64, t.default_value.shape)]):
            bad.append(('the record field of a trait', '%s: %s' % (k, trait_to_dtype('n', t))))
    else:
        fails(lambda: trait_to_dtype('n', t), Exception, 'a trait without record type is rejected')
    if k == 'array':
        fails(lambda: trait_to_option('n', t), InvalidValue, 'an unsupported trait is rejected')
        return bad
    o = trait_to_option('opt', t)
    if not isinstance(o, click.Option) or o.name != 'opt' or '--opt' not in o.opts:
        return bad + [('an option has the name of the trait', repr(o))]
    c = click.Command('c', params=[o])
    default = t.make_dynamic_default() if k == 'tuple' else t.default_value
    got = c.make_context('c', []).params['opt']
    if got != default or isinstance(got, bool) != isinstance(default, bool):
        bad.append(('an option has the default of the trait', '%s: %r, not %r' % (k, got, default)))
    args, want = {'int': (['--opt', '5'], 5), 'float': (['--opt', '1.5'], 1.5), 'complex': (['--opt', '1j'], 1j),
                  'bool': (['--opt'], not default), 'unicode': (['--opt', 'xy'], 'xy'), 'enum': (['--opt', 'b'], 'b'),
                  'tuple': [(['--opt', '5', '1.5'], (5, 1.5)), (['--opt', 'x', '1'], ('x', True)),
                            (['--opt', '1', '2', '4'], (1, 2, 4)), (['--opt', '2j', '1'], (2j, 1.0))][v]}[k]
    got = c.make_context('c', args).params['opt']
    if got != want or type(got) is not type(want):
        bad.append(('an option value is converted to the type of the trait', '%s: %r, not %r' % (k, got, want)))
    if k == 'int':
        o = trait_to_option('opt', Int(3, min=0, max=5))
        for a in ('-1', '6'):
            fails(lambda: click.Command('c', params=[o]).make_context('c', ['--opt', a]), click.UsageError,
                  'an option value out of range is rejected')
    if k == 'enum':
        fails(lambda: c.make_context('c', ['--opt', 'zz']), click.UsageError, 'an option value out of range is rejected')
    return bad


def expected_layout(cls, skip, skipc):
    out = []
    for c in cls.__mro__:
        if skipc and skipc(c):
            continue
        if not issubclass(c, HasTraits):
            continue
        for n, t in c.__dict__.items():
            if isinstance(t, traitlets.TraitType) and not (skip and skip(n)):
                out.append((n, t))
    return out


def field(n, t):
    for k, c in ((Int, np.int64), (Float, np.float64), (Complex, np.complex128), (Bool, np.bool_)):
        if isinstance(t, k):
            return (n, c)
    return (n, t.dtype, t.default_value.shape)


def run_layout(case):
    cls = {'Circular': Circular, 'ThreeCircle': ThreeCircle}[case['cls']]
    want = expected_layout(cls, None, lambda c: c is BodyType)
    if cls.dtype() != np.dtype([field(n, t) for n, t in want]):
        return [('one field per attribute, in order, with matching type', '%s' % (cls.dtype(),))]
    own = {n for c in cls.__mro__ if c is not BodyType for n, t in vars(c).items() if isinstance(t, traitlets.TraitType)}
    if set(cls.dtype().names) != own:
        return [('exactly one field per declared attribute', str(set(cls.dtype().names) ^ own))]
    return []


def run_hierarchy(case):
    made = []
    for i, c in enumerate(case['classes']):
        ns = {n: make(k, tuple(s)) for n, k, s in c['traits']}
        ns['other%d' % i] = 3
        bases = tuple(made[b] for b in c['bases']) or (HasTraits,)
        try:
            made.append(type(HasTraits)('C%d' % i, bases, ns))
        except TypeError:
            return []          # no consistent order of the base classes
    cls = made[-1]
    skip = None if case['skip'] is None else (lambda n: n.startswith(case['skip']))
    skipc = None if case['skipc'] is None else (lambda c: c is made[0])
    want = expected_layout(cls, skip, skipc)
    got = list(class_traits(cls, exclude_attrs=skip, exclude_cls=skipc))
    if [n for n, _ in got] != [n for n, _ in want] or any(a is not b for (_, a), (_, b) in zip(got, want)):
        return [('every declared trait once, by class in resolution order', '%s, not %s' % ([n for n, _ in got], [n for n, _ in want]))]
    own = [n for n, _ in class_own_traits(cls, skip)]
    w = [n for n, _ in expected_layout(cls, skip, lambda c: c is not cls)]
    if own != w:
        return [('own traits of a class in declaration order', '%s, not %s' % (own, w))]
    if want and class_to_struct_dtype(cls, skip, skipc) != np.dtype([field(n, t) for n, t in want]):
        return [('one field per attribute, in order, with matching type', str(class_to_struct_dtype(cls, skip, skipc)))]
    return []


def run_agent(case):
    import random
    rng = random.Random(case['seed'])
    cls = {'Circular': Circular, 'ThreeCircle': ThreeCircle}[case['cls']]
    a = cls()
    dt = cls.dtype()
    vals = {}
    for n in dt.names:
        t = getattr(cls, n)
        if case.get('default'):
            continue
        if isinstance(t, Bool):
            v = rng.random() < 0.5
        elif isinstance(t, Int):
            v = rng.randint(-1, 9)
        elif isinstance(t, Float):
            v = rng.uniform(-3.1, 3.1) if n == 'orientation' else rng.uniform(0.01, 9)
        elif n == 'target_direction':
            x = rng.uniform(0, 6.3)
            v = np.array([math.cos(x), math.sin(x)])
        else:
            v = np.array([rng.uniform(-9, 9), rng.uniform(-9, 9)])
        setattr(a, n, v)
    for n in dt.names:
        vals[n] = np.array(getattr(a, n))
    for f in (lambda: np.array(a), a.array):
        r = f()
        if r.dtype != dt or r.shape != (1,):
            return [('an agent is one record of its type', '%s %s' % (r.dtype, r.shape))]
        for n in dt.names:
            if not np.array_equal(r[0][n], vals[n]):
                return [('the record holds the attributes', '%s: %s, not %s' % (n, r[0][n], vals[n]))]
    b = cls()
    b.from_array(r)
    for n in dt.names:
        if not np.array_equal(np.array(getattr(b, n)), vals[n]):
            return [('converting back reproduces every attribute', '%s: %s, not %s' % (n, getattr(b, n), vals[n]))]
    big = np.zeros(3, dtype=dt)
    big[1] = r[0]
    c = cls()
    c.from_array(big[1:2])
    for n in dt.names:
        if not np.array_equal(np.array(getattr(c, n)), vals[n]):
            return [('converting back reproduces every attribute', '%s of a row' % n)]
    for wrong in (big, big[:0]):
        try:
            cls().from_array(wrong)
            return [('only one record can be converted', str(len(wrong)))]
        except ValueError:
            pass
    return []
