"""C27: ExitDetection.update."""
from rt import nodes
from rt.nodes import *

RULE = ('exit detection node: crowds of 0 to 6 agents, one to four line targets, an obstacle line or none; non-trivial '
        'when there are agents; cases with a comparison closer than 1e-7 are not judged; distinct by value.')


def cases(rng, tier):
    while True:
        c = nodes.case_of(rng, 'ExitDetection')
        gs = []
        for _ in range(rng.randint(1, 4)):
            gs.append(['LineString'] + [[rng.uniform(-4, 4), rng.uniform(-4, 4)] for _ in range(rng.randint(2, 4))])
        c.update(targets=gs, range=rng.choice((1.0, 2.0, 5.0, 20.0)),
                 walls=None if rng.random() < 0.3 else
                 ['LineString'] + [[rng.uniform(-3, 3), rng.uniform(-3, 3)] for _ in range(rng.randint(2, 5))])
        yield c
