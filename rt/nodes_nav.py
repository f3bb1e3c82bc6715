"""C29: Navigation.update."""
from rt import nodes
from rt.nodes import *

RULE = ('navigation node: crowds of 0 to 6 agents in and around a grid of different width and height, one to three targets '
        'with a distinct field value in every cell; non-trivial when there are agents; positions within 1e-6 of a cell border '
        'or less than one cell below the grid are not judged; distinct by value.')


def cases(rng, tier):
    while True:
        c = nodes.case_of(rng, 'Navigation')
        step = rng.choice((0.5, 1.0, 0.3))
        x0, y0 = rng.uniform(-3, 0), rng.uniform(-3, 0)
        c.update(step=step, bounds=[x0, y0, x0 + step * rng.randint(1, 7), y0 + step * rng.randint(1, 7)],
                 ntargets=rng.randint(1, 3), radius=0.5, strength=rng.choice((0.3, 0.8)))
        yield c
