"""C19: MutableBlockList against its abstract state, a list of (point, value)."""
import itertools
import math
from array import array
from collections import Counter

from crowddynamics.core.block_list import MutableBlockList

RULE = ('block list: sequences of insertions, cell look-ups and neighbourhood queries (radius 0 to 3, 1 to 3 dimensions, '
        'negative and boundary coordinates, duplicate values) on one or two lists; non-trivial when a query has something '
        'to find; distinct by value.')
LISTS = {'list': list, 'array': lambda: array('l')}


def cases(rng, tier):
    # all pairs of cells around the origin
    for r in (0, 1, 2, 3):
        for cs in (1.0, 0.5, 0.6):
            for a in range(-3, 4):
                for b in range(-3, 4):
                    yield dict(cell=cs, kind='list', ops=[['set', 0, [a * cs + cs / 2, 0.1], 7],
                                                         ['near', 0, [b * cs + cs / 4, 0.2], r],
                                                         ['get', 0, [b * cs + cs / 4, 0.2]],
                                                         ['near', 0, [b * cs + cs / 4, 0.2], r]])
    while True:
        dim = rng.choice((1, 2, 2, 2, 3))
        cs = rng.choice((1.0, 0.5, 2.0, 0.25, 0.6, 0.1, 3.0, 1))
        span = rng.choice((1, 3, 6, 6, 40, 1000))

        def pt():
            m = rng.random()
            return [(rng.randint(-span, span) * cs if m < 0.3 else rng.uniform(-span, span) * cs) for _ in range(dim)]
        ops = []
        big = rng.random() < 0.03
        for _ in range(rng.randint(1, 25) if not big else rng.randint(80, 400)):
            k = rng.choice(('set', 'set', 'set', 'get', 'near', 'near'))
            w = rng.choice((0, 0, 0, 1))
            if k == 'set':
                ops.append(['set', w, pt(), rng.choice((rng.randint(0, 4), rng.randint(0, 1000)))])
            elif k == 'get':
                ops.append(['get', w, pt()])
            else:
                ops.append(['near', w, pt(), rng.choice((0, 1, 1, 1, 2, 3)) if dim > 2 else rng.choice((0, 1, 1, 1, 2, 3, 4, 7))])
        yield dict(cell=cs, kind=rng.choice(('list', 'list', 'array')), ops=ops)


def nontrivial(case):
    seen = False
    for o in case['ops']:
        if o[0] == 'set':
            seen = True
        elif seen:
            return True
    return False


def cell(p, c):
    return tuple(x // c for x in p)


def run(case):
    c = case['cell']
    f = LISTS[case['kind']]
    bl = [MutableBlockList(c, f), MutableBlockList(c, f)]
    model = [[], []]
    bad = []
    for o in case['ops']:
        w = o[1]
        if o[0] == 'set':
            bl[w][o[2]] = o[3]
            model[w].append((o[2], o[3]))
        elif o[0] == 'get':
            want = [v for p, v in model[w] if cell(p, c) == cell(o[2], c)]
            got = list(bl[w][o[2]])
            if got != want:
                bad.append(('get returns the items of the cell in insertion order', '%s, not %s' % (got, want)))
        else:
            want = Counter(v for p, v in model[w] if all(abs(x - y) <= o[3] for x, y in zip(cell(p, c), cell(o[2], c))))
            r = bl[w].nearest(o[2], o[3]) if o[3] != 1 else bl[w].nearest(o[2])
            got = Counter(r)
            if got != want:
                bad.append(('nearest returns every item of the cells within the radius exactly once',
                            '%s, not %s' % (sorted(got.elements()), sorted(want.elements()))))
            if o[3] == 1:
                for p, v in model[w]:
                    if all(abs(x - y) < c * 0.999999 for x, y in zip(p, o[2])) and v not in got:
                        bad.append(('no item closer than one cell size is missed', '%s at %s' % (v, p)))
        if bad:
            return bad
    # queries have not changed what is stored
    for w in (0, 1):
        for p, v in model[w]:
            want = [y for x, y in model[w] if cell(x, c) == cell(p, c)]
            if list(bl[w][p]) != want:
                return [('queries never change what is stored', '%s, not %s' % (list(bl[w][p]), want))]
    return []
