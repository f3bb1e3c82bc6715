"""C34, C35: crowddynamics/core/{quantities,rand}.py"""
from .common import *

Q = 'crowddynamics.core.quantities:'
R = 'crowddynamics.core.rand:'

# -------------------------------------------------------------- density grids


def cell(a, k, d):
    return floor(sdiv(a.points[k][d], a.cell_size))


def lowest(a, k, d):
    return forall(0, a.points.n, lambda l: cell(a, k, d) <= cell(a, l, d))


def highest(a, k, d):
    return forall(0, a.points.n, lambda l: cell(a, l, d) <= cell(a, k, d))


def in_cell(a, k, i, j):
    return land(eq(cell(a, k, 0), i), eq(cell(a, k, 1), j))


def agents(a, i, j):
    return Sum(0, a.points.n, lambda k: ite(in_cell(a, k, i, j), 1, 0))


def areas(a, i, j):
    return Sum(0, a.points.n, lambda k: ite(in_cell(a, k, i, j), a.area[k], 0.0))


def grid(value):
    def ensures(a):
        n = a.points.n
        s = a.result.shape
        agent = lambda f: forall(0, n, f)
        return {
            'the grid ends at the outermost agents': agent(lambda k: agent(lambda l: land(*[implies(
                land(lowest(a, k, d), highest(a, l, d)), eq(s[d], cell(a, l, d) - cell(a, k, d) + 1)) for d in (0, 1)]))),
            **{name: agent(lambda k: agent(lambda l: implies(
                land(lowest(a, k, 0), lowest(a, l, 1)), forall(0, s[0], lambda i: forall(0, s[1], lambda j: v(
                    a, a.result[i, j], cell(a, k, 0) + i, cell(a, l, 1) + j)))))) for name, v in value.items()}}
    return ensures


def sized(a):
    return {'cells have a size': a.cell_size > 0, 'at least one agent': a.points.n > 0}


def per_area(a, r, i, j):
    s = areas(a, i, j)
    return implies(s > 0, eq(r, sdiv(agents(a, i, j), ite(s > 0, s, 1.0))))


def bare(a, r, i, j):
    return implies(areas(a, i, j) <= 0, eq(r, agents(a, i, j)))


def grid_gen(core):
    """few agents over a small number of cells, cell borders included"""
    def gen(rng):
        n = rng.choice((0, 1, 1, 2, 2, 3, 4, 5))
        cell = rng.choice((0.5, 1.0, 2.0, rng.uniform(0.3, 2)))
        k = rng.choice((1, 1, 2, 3))
        o = [rng.randint(-5, 5) * cell for _ in range(2)]
        d = []
        for _ in range(n):
            for c in range(2):
                d.append(o[c] + (rng.randint(-k, k) * cell if rng.random() < 0.2 else rng.uniform(-k, k) * cell))
        a = [{'t': 'arr', 'dtype': 'f8', 'shape': [n, 2], 'data': d}, {'t': 'f', 'v': cell}]
        if core:
            a.append({'t': 'arr', 'dtype': 'f8', 'shape': [n], 'data': [
                rng.choice((0.0, 0.5, 1.0, rng.uniform(0.1, 3))) for _ in range(n)]})
            a.append({'t': 'arr', 'dtype': 'i8', 'shape': [n], 'data': rng.sample(range(n + 1), n)})
        return a
    return gen


contract(Q + 'density_classical', [('points', Rows2()), ('cell_size', RealT(0.3, 2.0))], Arr('f8', 'r', 'c'),
         requires=sized, gen=grid_gen(False), ensures=grid({'agents of a cell divided by its area': lambda a, r, i, j: eq(
             r, sdiv(agents(a, i, j), a.cell_size * a.cell_size))}))
contract(Q + '_core_2', [('points', Rows2()), ('cell_size', RealT(0.3, 2.0)), ('area', Arr('f8', 'n')),
                         ('point_region', Arr('i8', 'n'))], Arr('f8', 'r', 'c'),
         requires=sized, gen=grid_gen(True), ensures=grid({'agents of a cell divided by the areas of these agents': per_area,
                                       'number of agents where they have no area': bare}))
prop('C34', Q + 'density_classical', Q + '_core_2', drivers=['density'])
