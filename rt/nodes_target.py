"""C41: TargetReached."""
from rt import nodes
from rt.nodes import *

RULE = ('target node: crowds of 0 to 6 agents, none to four targets of which some are no polygons, one to three updates with '
        'the agents moved in between; non-trivial when there are agents; distinct by value.')


def cases(rng, tier):
    while True:
        yield nodes.case_of(rng, 'TargetReached')
