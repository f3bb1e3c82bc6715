"""C36: load_config, remember_cwd, deprecated."""
import os
import warnings

from crowddynamics.config import load_config
from crowddynamics.exceptions import ValidationError, deprecated
from crowddynamics.utils import remember_cwd
from rt.scratch import scratch

RULE = ('configuration: files of up to 3 sections and 5 options (integers, floats, booleans, choices, lists, text; with and '
        'without defaults; repeated sections) with valid, out-of-range, ill-typed and missing values against a specification '
        'file; directory changes nested, failing and to missing directories; deprecated functions of any signature; every '
        'case is non-trivial; distinct by value.')
SPECS = {'integer(min=0, max=10)': (['0', '10', '3'], ['-1', '11', 'x', '1.5', '']),
         'integer': (['-5', '0'], ['x', '1.0']),
         'float(min=0, max=1)': (['0', '1', '0.25', '1e-3'], ['-0.1', '1.01', 'abc', '']),
         'boolean': (['True', 'no', '0'], ['maybe', '2']),
         "option('a', 'b')": (['a', 'b'], ['c', 'A', '']),
         'string(min=1, max=3)': (['x', 'abc'], ['abcd']),
         'int_list(min=1)': (['1, 2', '3,'], ['a, b', '1, x']),
         'float(min=0)': (['0', '2.5'], ['-1', 'nope'])}
DEFAULT = {'integer(min=0, max=10)': '4', 'float(min=0, max=1)': '0.5', 'boolean': 'True', 'integer': '1', 'float(min=0)': '2'}


def with_default(s):
    d = DEFAULT[s]
    return s[:-1] + ', default=%s)' % d if s.endswith(')') else '%s(default=%s)' % (s, d)


def cases(rng, tier):
    for s, (good, bad) in sorted(SPECS.items()):
        for v in good + bad + [None]:
            yield dict(kind='config', many=False, sections=[['', [['k', s, False, v], ['z', 'integer', False, '0']]]])
            yield dict(kind='config', many=True, sections=[['one', [['k', s, False, v]]], ['two', [['k', s, False, good[0]]]]])
    for err in ('', 'ValueError', 'KeyboardInterrupt', 'SystemExit', 'OSError', 'GeneratorExit'):
        for d in ('a', 'missing', 'a/b', '..'):
            yield dict(kind='cwd', dirs=[d], err=err, inner=False)
            yield dict(kind='cwd', dirs=['a', 'b'], err=err, inner=d == '..')
    for r in (None, 0, 5, 'text', [1, 2]):
        for n in range(3):
            yield dict(kind='deprecated', result=r, args=list(range(n)), kwargs={'k': n} if n else {}, fails=False)
            yield dict(kind='deprecated', result=r, args=list(range(n)), kwargs={}, fails=True)
    while True:
        secs = []
        many = rng.random() < 0.4
        keys = [['k%d' % i, s, s in DEFAULT and rng.random() < 0.4] for i, s in
                enumerate(rng.choice(sorted(SPECS)) for _ in range(rng.randint(1, 5)))]
        if many:
            for n in rng.sample(['one', 'two', 'three'], rng.randint(0, 3)):
                secs.append([n, [k + [pick(rng, k[1])] for k in keys]])
        else:
            for n in ['', 'one', 'two'][:rng.randint(1, 3)]:
                secs.append([n, [k + [pick(rng, k[1])] for k in keys]])
        yield dict(kind='config', many=many, sections=secs)


def pick(rng, s):
    m = rng.random()
    return rng.choice(SPECS[s][0]) if m < 0.8 else rng.choice(SPECS[s][1]) if m < 0.9 else None


def nontrivial(case):
    return True


def run(case):
    return globals()['run_' + case['kind']](case)


def run_config(case):
    with scratch() as d:
        lines, spec = [], []
        valid = True
        for n, opts in case['sections']:
            if n:
                lines.append('[%s]' % n)
            if n and not case['many']:
                spec.append('[%s]' % n)
            for k, s, dflt, v in opts:
                if v is not None:
                    lines.append('%s = %s' % (k, v))
                if not case['many']:
                    spec.append('%s = %s' % (k, with_default(s) if dflt else s))
                if v is None:
                    valid = valid and dflt
                else:
                    valid = valid and v in SPECS[s][0]
        if case['many']:
            spec.append('[__many__]')
            if case['sections']:
                for k, s, dflt, v in case['sections'][0][1]:
                    spec.append('%s = %s' % (k, with_default(s) if dflt else s))
        with open('c.cfg', 'w') as f:
            f.write('\n'.join(lines) + '\n')
        with open('s.cfg', 'w') as f:
            f.write('\n'.join(spec) + '\n')
        text = '\n'.join(lines)
        try:
            c = load_config('c.cfg', 's.cfg')
        except ValidationError:
            return [('a valid configuration is accepted', text)] if valid else []
        if not valid:
            return [('an invalid configuration is rejected', text)]
        for n, opts in case['sections']:
            sec = c[n] if n else c
            for k, s, dflt, v in opts:
                w = DEFAULT[s] if v is None else v
                x = sec[k]
                ok = (isinstance(x, int) and not isinstance(x, bool) and x == int(w) if s.startswith('integer') else
                      isinstance(x, float) and x == float(w) if s.startswith('float') else
                      x is (w in ('True',)) if s == 'boolean' else
                      x == [int(y) for y in w.replace(' ', '').split(',') if y] if s.startswith('int_list') else x == w)
                if not ok:
                    return [('every value satisfies the specification', '%s: %r for %r' % (s, x, w))]
        plain = load_config('c.cfg')
        for n, opts in case['sections']:
            for k, s, dflt, v in opts:
                if v is not None and k not in (plain[n] if n else plain):
                    return [('a configuration without specification is read as it is', k)]
        return []


def run_cwd(case):
    with scratch() as d:
        os.makedirs('a/b')
        start = os.getcwd()
        exc = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'OSError': OSError,
               'GeneratorExit': GeneratorExit}.get(case['err'])
        missing = 'missing' in case['dirs']
        got = None
        seen = []

        def go(ds):
            if not ds:
                seen.append(os.getcwd())
                if case['inner']:
                    os.chdir('/')
                if exc:
                    raise exc('inside')
                return
            here = os.getcwd()
            try:
                with remember_cwd(ds[0]):
                    go(ds[1:])
            finally:
                if os.getcwd() != here:
                    seen.append('not restored: %s instead of %s' % (os.getcwd(), here))
        try:
            go(case['dirs'])
        except BaseException as e:
            got = e
        if os.getcwd() != start:
            w = os.getcwd()
            os.chdir(start)
            return [('the working directory is restored', '%s instead of %s' % (w, start))]
        bad = [('the working directory is restored', s) for s in seen if s.startswith('not restored')]
        if missing:
            if not isinstance(got, OSError):
                bad.append(('a missing directory is an error', repr(got)))
        elif exc:
            if type(got) is not exc:
                bad.append(('an error inside is passed on', repr(got)))
        else:
            want = os.path.realpath(os.path.join(start, *case['dirs']))
            if got is not None or seen[:1] != [want]:
                bad.append(('the block runs inside the directory', '%s %r' % (seen, got)))
        return bad


def run_deprecated(case):
    calls = []

    def old_function(*args, **kwargs):
        """doc"""
        calls.append((args, kwargs))
        if case['fails']:
            raise KeyError('inside')
        return case['result']
    f = deprecated(old_function)
    for k in range(2):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                r = f(*case['args'], **case['kwargs'])
                if case['fails']:
                    return [('an error of the function is passed on', repr(r))]
            except KeyError:
                if not case['fails']:
                    raise
                r = case['result']
        if r is not case['result']:
            return [('a deprecated function returns its result', '%r, not %r' % (r, case['result']))]
        if calls != [(tuple(case['args']), case['kwargs'])] * (k + 1):
            return [('a deprecated function still runs once per call', str(calls))]
        if not any(issubclass(x.category, DeprecationWarning) and 'old_function' in str(x.message) for x in w):
            return [('a deprecated function warns', str([str(x.message) for x in w]))]
    return []
