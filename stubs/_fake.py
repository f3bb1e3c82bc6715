"""import hook: any module of the missing packages is an empty placeholder
whose attributes are placeholder classes (nothing of them is ever run, except
what worker.py installs explicitly)."""
import sys
import types
import importlib.abc
import importlib.machinery

MISSING = ('scipy', 'shapely', 'skimage', 'skfmm', 'cell_lists', 'matplotlib', 'bokeh', 'pandas', 'hypothesis',
           'sortedcontainers')


class StandInMissing(AttributeError):
    """the code under test uses something of a missing package that has no stand-in"""


class Meta(type):
    strict = False             # True while a bounded case runs: placeholders may be named but not used

    def __getattr__(cls, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return cls


class Placeholder(metaclass=Meta):
    def __init__(self, *a, **k):
        if Meta.strict:
            raise StandInMissing(type(self).__name__)


class Mod(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        v = Meta(k, (Placeholder,), {})
        setattr(self, k, v)
        return v


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in MISSING:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = Mod(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, module):
        pass


def install():
    for p in MISSING:
        try:
            __import__(p)
        except ImportError:
            sys.meta_path.append(Finder())
            break
