"""Stand-in for numba (not installed here): decorators return the plain Python
function, so the real source runs unchanged under the interpreter."""
import functools
import sys
import types as _pytypes

import numpy as _np


class _Ty(object):
    """type expression: callable (signatures) and indexable (array types)"""
    def __init__(self, name, kind=None, ndim=0):
        self.name, self.kind, self.ndim = name, kind, ndim

    def __call__(self, *a, **k):
        return _Ty('%s(...)' % self.name)

    def __getitem__(self, i):
        n = len(i) if isinstance(i, tuple) else 1
        return _Ty(self.name + '[]', 'array', n)

    def __repr__(self):
        return self.name


class Float(_Ty):
    def __init__(self, name='float64', bitwidth=64):
        _Ty.__init__(self, name)


class Integer(_Ty):
    def __init__(self, name='int64', bitwidth=64):
        _Ty.__init__(self, name)


class Boolean(_Ty):
    def __init__(self, name='boolean'):
        _Ty.__init__(self, name)


class Array(_Ty):
    def __init__(self, dtype=None, ndim=1, layout='A'):
        _Ty.__init__(self, 'array', 'array', ndim)
        self.dtype = dtype


class NoneType(_Ty):
    pass


f8 = float64 = double = Float('float64')
f4 = float32 = Float('float32')
i8 = int64 = intp = Integer('int64')
i4 = int32 = Integer('int32')
u1 = uint8 = u8 = uint64 = Integer('uint')
boolean = b1 = bool_ = Boolean()
void = none = NoneType('none')


def optional(t):
    return _Ty('optional')


def typeof(v):
    return type_of(v)


def type_of(v):
    if v is None:
        return none
    if isinstance(v, (bool, _np.bool_)):
        return boolean
    if isinstance(v, (int, _np.integer)):
        return i8
    if isinstance(v, (float, _np.floating)):
        return f8
    if isinstance(v, _np.ndarray):
        return Array(v.dtype, v.ndim)
    return _Ty('record')


def jit(*args, **kw):
    if len(args) == 1 and isinstance(args[0], (_pytypes.FunctionType, _pytypes.BuiltinFunctionType)) and not kw:
        return args[0]

    def deco(f):
        return f
    return deco


njit = jit


def generated_jit(*args, **kw):
    def deco(f):
        @functools.wraps(f)
        def wrapper(*a):
            impl = f(*[type_of(x) for x in a])
            return impl(*a)
        wrapper.py_func = f
        return wrapper
    if len(args) == 1 and isinstance(args[0], _pytypes.FunctionType):
        return deco(args[0])
    return deco


def vectorize(*args, **kw):
    def deco(f):
        u = _np.vectorize(f, otypes=[float])

        @functools.wraps(f)
        def wrapper(*a):
            if any(isinstance(x, _np.ndarray) and x.ndim for x in a):
                if any(isinstance(x, _np.ndarray) and x.size == 0 for x in a):
                    return _np.zeros(_np.broadcast(*a).shape)
                return u(*a)
            return f(*a)
        return wrapper
    if len(args) == 1 and isinstance(args[0], _pytypes.FunctionType):
        return deco(args[0])
    return deco


guvectorize = vectorize


def prange(*a):
    return range(*a)


def _tuple(*a, **k):
    return _Ty('tuple')


types = _pytypes.ModuleType('numba.types')
for _n, _v in list(globals().items()):
    if isinstance(_v, _Ty) or _n in ('Float', 'Integer', 'Boolean', 'Array', 'NoneType'):
        setattr(types, _n, _v)
types.Tuple = types.UniTuple = types.Optional = _tuple
sys.modules['numba.types'] = types
typing = _pytypes.ModuleType('numba.typing')
typing.__path__ = []
_t = _pytypes.ModuleType('numba.typing.typeof')
_t.typeof = typeof
typing.typeof = _t
sys.modules['numba.typing'] = typing
sys.modules['numba.typing.typeof'] = _t
