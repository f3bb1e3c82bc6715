"""C38: crowddynamics/core/geometry.py geom_to_linesegment, geom_to_linear_obstacles.

A geometry is a Point, a LineString (or LinearRing) or Polygon with any number of
vertices, or a multi-part geometry with any number of parts, which are geometries
again (`any`: their segments by the contract, the induction hypothesis)."""
import z3

from pyvc.contract import AnyT, ArrView, NS, T
from pyvc.execu import vsub
from pyvc.npmodel import ChainVal, seq_slice
from pyvc.source import Ext
from pyvc.values import Content, PList, RecArr, Seq, Slice, make_content, norm_int, zint
from .common import *
from .geom import Obstacles

SH = 'crowddynamics.core.geometry:'
SHAPELY = ('shapely geometries (not installed): kinds by isinstance; coords of a LineString, of a polygon\'s exterior (LinearRing) '
           'and geoms (or iteration) of a multi-part geometry are fixed sequences of vertex tuples, parts')
KINDS = {'Point': ('Point',), 'LineString': ('LineString',), 'Polygon': ('Polygon',), 'multi': ('BaseMultipartGeometry',),
         'other': ()}
DECIDED = ('Point', 'LineString', 'Polygon', 'BaseMultipartGeometry', 'BaseGeometry', 'str', 'list', 'tuple', 'dict', 'ndarray')


def _int(name, *args):
    return z3.Function(name, *([z3.IntSort()] * (len(args) + 1)))(*args)


def _real(name, *args):
    return SReal(z3.Function(name, *([z3.IntSort()] * len(args) + [z3.RealSort()]))(*args))


def length(ex, st, z):
    n = SInt(z)
    ex.nonneg.add(z.get_id())
    ex.__dict__.setdefault('_keep', []).append(n)
    return n


class Value:
    def getattr(self, ex, st, attr, node):
        raise C.Unsupported('attribute %s of a geometry' % attr)


class Coords(Value):
    """vertices: tuples of two numbers"""
    def __init__(self, name, index=None):
        self.name, self.ix = name, () if index is None else (index,)

    def sequence(self, ex=None, st=None):
        n = SInt(_int('vertices:' + self.name, *self.ix))
        if ex is not None:
            length(ex, st, n.z)
            ex.fact(st, SBool(n.z >= 0))
        return Seq(n, lambda i: tuple(_real('vertex:%s.%s' % (self.name, c), *(self.ix + (zint(norm_int(i)),))) for c in 'xy'))

    def length(self, ex, st):
        return norm_int(self.sequence(ex, st).n)

    def getitem(self, ex, st, idx, node):
        s = self.sequence(ex, st)
        if isinstance(idx, Slice):
            return seq_slice(ex, st, s, idx)
        return s.get(ex.index(st, idx, norm_int(s.n), node))

    def as_ndarray(self, ex, st):
        s = self.sequence(ex, st)
        return ex.alloc(st, (norm_int(s.n), 2), 'f8', lambda i: ex.natives._tget(ex, s.get(i[0]), i[1]))


class Geom(Value):
    def __init__(self, kind, name, index=None):
        self.kind, self.name, self.index = kind, name, index

    def as_ndarray(self, ex, st):
        if self.kind not in ('LineString', 'target'):
            raise C.Unsupported('array of a %s' % self.kind)
        return Coords(self.name, self.index).as_ndarray(ex, st)

    def vmap(self, f):
        return self if self.index is None else Geom(self.kind, self.name, f(self.index))

    def isinstance(self, ex, st, t):
        n = t.path.split('.')[-1] if isinstance(t, Ext) else None
        if n not in DECIDED or self.kind == 'any' and n != 'BaseGeometry':
            raise C.Unsupported('isinstance of a geometry and %s' % (n,))
        return n in KINDS[self.kind] or n == 'BaseGeometry' and self.kind != 'other' if self.kind != 'any' else True

    def getattr(self, ex, st, attr, node):
        if attr == 'coords' and self.kind == 'LineString':
            return Coords(self.name)
        if attr == 'exterior' and self.kind == 'Polygon':
            return Geom('LineString', self.name)
        if attr == 'geoms' and self.kind == 'multi':
            return self.sequence(ex, st)
        raise C.Unsupported('attribute %s of a %s' % (attr, self.kind))

    def sequence(self, ex=None, st=None):
        if self.kind != 'multi':
            raise C.Unsupported('iteration over a %s' % self.kind)
        n = SInt(_int('parts:' + self.name))
        if ex is not None:
            length(ex, st, n.z)
            ex.fact(st, SBool(n.z >= 0))
        return Seq(n, lambda i: Geom('any', self.name, zint(norm_int(i))))

    def walls(self):
        return SegView(self.segments())

    def segments(self):
        """the segments of any geometry"""
        k = () if self.index is None else (self.index,)
        n = SInt(_int('segments:' + self.name, *k))
        pt = lambda i, p: tuple(_real('segment:%s.%s%s' % (self.name, p, c), *(k + (zint(norm_int(i)),))) for c in 'xy')
        return Seq(norm_int(smax(n, 0)), lambda i: (pt(i, '0'), pt(i, '1')))


class Targets(Value):
    """line-like geometries with at least one vertex"""
    def __init__(self, name):
        self.name, self.n = name, SInt(_int('targets:' + name))

    def sequence(self, ex=None, st=None):
        if ex is not None:
            length(ex, st, self.n.z)
            ex.fact(st, SBool(self.n.z >= 0))
        return Seq(self.n, lambda i: Geom('target', self.name, zint(norm_int(i))))

    def length(self, ex, st):
        return norm_int(self.sequence(ex, st).n)

    def getitem(self, ex, st, idx, node):
        s = self.sequence(ex, st)
        return s.get(ex.index(st, idx, norm_int(s.n), node))

    def vertices(self, k):
        return Coords(self.name, zint(norm_int(k))).sequence()

    def center(self, k):
        s = self.vertices(k)
        mean = lambda j: sdiv(Sum(0, s.n, lambda i: s.get(i)[j]), s.n)
        return V2(mean(0), mean(1))


class GeomT(AnyT):
    def __init__(self, kind):
        self.kind = kind

    def make(self, name):
        return Geom(self.kind, name)

    def match(self, ex, st, v):
        return isinstance(v, Geom) and v.kind == self.kind


class SegView:
    """pairs of vertices"""
    def __init__(self, seq):
        self.n, self.seq = lift(norm_int(seq.n)), seq

    def __getitem__(self, i):
        p = self.seq.get(norm_int(i))
        if not (isinstance(p, tuple) and len(p) == 2 and all(isinstance(q, tuple) and len(q) == 2 for q in p)):
            raise C.Unsupported('segments that are no pairs of vertices')
        return [V2(lift(q[0]), lift(q[1])) for q in p]


class SegsT(T):
    """an iterable of pairs of vertices"""
    def match(self, ex, st, v):
        return isinstance(v, (Seq, ChainVal, tuple)) or isinstance(v, PList) and st.heap[v.id][0] in ('list', 'seq')

    def view(self, ex, st, v):
        if isinstance(v, ChainVal):
            return NS(parts=lift(norm_int(v.parts.n)), part=lambda k: SegView(ex.natives.sequence(ex, st, v.parts.get(norm_int(k)))),
                      flat=False)
        r = SegView(ex.natives.sequence(ex, st, v))
        r.flat = True
        return r

    def of_view(self, ex, st, w):
        return w


class Walls:
    """the wall segments of a geometry or of None, for specifications"""
    def __init__(self, geom):
        s = SegView(geom.segments()) if geom is not None else None
        self.n = s.n if s else 0
        self.p0 = Rows(lambda i: s[i][0])
        self.p1 = Rows(lambda i: s[i][1])


class Rows:
    def __init__(self, get):
        self.get = get

    def __getitem__(self, i):
        return self.get(i)


class WallsT(T):
    def match(self, ex, st, v):
        return Obstacles.match(ex, st, v)

    def view(self, ex, st, v):
        return Obstacles.view(ex, st, v)

    def fresh(self, ex, st, env):
        d = Obstacles.dt(ex)
        r = RecArr(ex.new_key('rec'), env['m'], d)
        w = env['walls']
        for j, f in enumerate(('p0', 'p1')):
            # what the postconditions say of the end points
            st.heap[(r.id, f)] = make_content((env['m'], 2), 'f8', lambda i, j=j: ex.natives._tget(
                ex, (w[i[0]][j].x, w[i[0]][j].y), i[1]))
        return r


def same_ends(p, q):
    return land(*[land(eq(u.x, v.x), eq(u.y, v.y)) for u, v in zip(p, q)])


def consecutive(name):
    """pairs of consecutive vertices"""
    s = Coords(name).sequence()
    v = lambda i: V2(*s.get(i))
    return smax(s.n - 1, 0), lambda i: [v(i), v(lift(i) + 1)]


def pairs_in_order(a):
    n, get = consecutive(a.geom.name)
    return {'one segment per pair of consecutive vertices': land(lift(a.result.flat), eq(a.result.n, n)) if a.result.flat else lift(False),
            'from each vertex to the next': forall(0, n, lambda i: same_ends(a.result[i], get(i))) if a.result.flat else lift(False)}


def of_parts(a):
    s = a.geom.sequence()
    if a.result.flat:
        raise C.Unsupported('parts of a multi-part geometry collected in another way')
    part = lambda k: SegView(s.get(k).segments())
    return {'all parts in order': eq(a.result.parts, s.n),
            'the segments of each part in order': forall(0, s.n, lambda k: land(
                eq(a.result.part(k).n, part(k).n),
                forall(0, part(k).n, lambda i: same_ends(a.result.part(k)[i], part(k)[i]))))}


def seg(kind, **kw):
    contract(SH + 'geom_to_linesegment', [('geom', GeomT(kind))], SegsT(), variant=kind, search=False, **kw)


seg('Point', ensures=lambda a: {'no segments': eq(a.result.n, 0) if a.result.flat else lift(False)})
seg('LineString', ensures=pairs_in_order)
seg('Polygon', ensures=pairs_in_order)
seg('multi', ensures=of_parts)
seg('other', raises={'TypeError': lambda a: lift(True)})
seg('any', assumed=True, pick=lambda a: a.geom.segments(),
    note='induction hypothesis: the segments of a part, given by the contracts above')


def walls_of(a):
    return SegView(a.geom.segments())


contract(SH + 'geom_to_linear_obstacles', [('geom', NoneV)], WallsT(), variant='none', search=False,
         result_dims=lambda ex, st, a: {'m': 0, 'walls': None},
         ensures=lambda a: {'no obstacles': eq(a.result.n, 0)})
contract(SH + 'geom_to_linear_obstacles', [('geom', GeomT('any'))], WallsT(), variant='geometry', search=False,
         result_dims=lambda ex, st, a: {'m': walls_of(a).n, 'walls': walls_of(a)},
         ensures=lambda a: {'one obstacle per segment': eq(a.result.n, walls_of(a).n),
                            'the end points of the segment': forall(0, a.result.n, lambda i: land(
                                eq(a.result.p0[i].x, walls_of(a)[i][0].x), eq(a.result.p0[i].y, walls_of(a)[i][0].y),
                                eq(a.result.p1[i].x, walls_of(a)[i][1].x), eq(a.result.p1[i].y, walls_of(a)[i][1].y)))})

prop('C38', SH + 'geom_to_linesegment', SH + 'geom_to_linear_obstacles', drivers=['segments'], assume=[SHAPELY])
