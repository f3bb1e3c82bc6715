"""C24: editing and searching the logic tree."""
import itertools

from crowddynamics.simulation.base import LogicNodeBase

RULE = ('logic trees: every ordered tree of up to 5 (thorough: 6) nodes with every edit at every node (injecting a plain or a '
        'parent node before or after, attaching one or several nodes in a tuple, list or generator), then random edit '
        'sequences, each followed by look-ups of every name, with repeated names, from every node; non-trivial when the tree '
        'has at least two nodes; distinct by value.')


def trees(n):
    """parent lists of all ordered trees with n nodes in pre-order"""
    def rec(ps, stack):
        if len(ps) == n:
            yield list(ps)
            return
        for k in range(len(stack)):
            yield from rec(ps + [stack[k]], stack[:k + 1] + [len(ps)])
    yield from rec([-1], [0])


def cases(rng, tier):
    for n in range(1, 6 if tier == 'quick' else 7):
        for ps in trees(n):
            for i in range(n):
                for op in ('before', 'after', 'before+', 'after+', 'child', 'shift1', 'shift2', 'shiftl', 'shiftg', 'shift0',
                           'add', 'shiftold'):
                    yield dict(tree=ps, names=list('abcdefgh')[:n], ops=[[op, i]])
    while True:
        n = rng.randint(1, 8) if rng.random() < 0.9 else rng.randint(15, 40)
        ps = [-1] + [rng.randrange(i) for i in range(1, n)]
        yield dict(tree=ps, names=[rng.choice('abcd') for _ in range(n)],
                   ops=[[rng.choice(('before', 'after', 'before+', 'after+', 'shift1', 'shift2', 'shiftg', 'add')),
                         rng.randrange(8)] for _ in range(rng.randint(1, 5))])


def nontrivial(case):
    return len(case['tree']) > 1


class Model:
    def __init__(self, ps):
        self.par = list(ps)
        self.kids = [[j for j in range(len(ps)) if ps[j] == i] for i in range(len(ps))]

    def new(self):
        self.par.append(-1)
        self.kids.append([])
        return len(self.par) - 1

    def root(self, i):
        while self.par[i] >= 0:
            i = self.par[i]
        return i

    def pre(self, i):
        return [i] + [x for k in self.kids[i] for x in self.pre(k)]


def node(name):
    return LogicNodeBase(name=name)


def run(case):
    ns = [node(k) for k in case['names']]
    m = Model(case['tree'])
    for i in range(len(ns)):
        if m.par[i] >= 0:
            ns[i].parent = ns[m.par[i]]
    bad = compare(ns, m, None)
    if bad:
        return bad
    for q, (op, i) in enumerate(case['ops']):
        i = i % len(ns)

        def add(plus=False):
            k = m.new()
            ns.append(node('new%d' % q if len(case['ops']) == 1 else 'abcd'[(q + k) % 4]))
            if plus:
                c = add()
                ns[c].parent = ns[k]
                m.par[c] = k
                m.kids[k].append(c)
            return k
        free = None
        if op in ('before', 'before+'):
            k = add(op == 'before+')
            p = m.par[i]
            ns[i].inject_before(ns[k])
            m.par[i] = k
            m.par[k] = p
            m.kids[k].append(i)
            if p >= 0:
                m.kids[p][m.kids[p].index(i)] = k
            free = k           # where among its siblings the new node goes is not specified
        elif op in ('after', 'after+'):
            k = add(op == 'after+')
            ns[i].inject_after(ns[k])
            for c in m.kids[i]:
                m.par[c] = k
            m.kids[k] += m.kids[i]
            m.kids[i] = [k]
            m.par[k] = i
        elif op == 'shiftold':
            # an existing leaf elsewhere is moved below i
            ks = [x for x in range(len(ns)) if not m.kids[x] and x != i and m.par[x] >= 0]
            if not ks:
                continue
            k = ks[-1]
            r = ns[i] << ns[k]
            m.kids[m.par[k]].remove(k)
            m.par[k] = i
            m.kids[i].append(k)
            if r is not ns[i]:
                return [('attaching returns the node itself', repr(r))]
        else:
            n = {'child': 1, 'shift1': 1, 'add': 1, 'shift2': 2, 'shiftl': 3, 'shiftg': 2, 'shift0': 0}[op]
            ks = [add() for _ in range(n)]
            arg = [ns[k] for k in ks]
            if op in ('child', 'add'):
                r = ns[i].add_children(arg[0])
            elif op == 'shift1':
                r = ns[i] << arg[0]
            else:
                r = ns[i] << (tuple(arg) if op in ('shift2', 'shift0') else arg if op == 'shiftl' else (a for a in arg))
            if r is not ns[i]:
                return [('attaching returns the node itself', repr(r))]
            for k in ks:
                m.par[k] = i
                m.kids[i].append(k)
        bad = compare(ns, m, free)
        if bad:
            return [(op + ': ' + b, d) for b, d in bad]
        if free is not None and m.par[free] >= 0:
            m.kids[m.par[free]] = [ns.index(c) for c in ns[m.par[free]].children]
    return []


def compare(ns, m, free):
    for i, x in enumerate(ns):
        p = ns[m.par[i]] if m.par[i] >= 0 else None
        if x.parent is not p:
            return [('every node has the right parent', '%s below %s, not %s' % (x, x.parent, p))]
        got = [ns.index(c) for c in x.children]
        want = m.kids[i]
        if got != want and not (free in want and free in got and [g for g in got if g != free] == [w for w in want if w != free]):
            return [('every node has the right children in order', '%s has %s, not %s' % (i, got, want))]
    # look-ups
    if free is not None and m.par[free] >= 0:
        m.kids[m.par[free]] = [ns.index(c) for c in ns[m.par[free]].children]
    names = sorted(set(x.name for x in ns)) + ['nowhere', '']
    for i, x in enumerate(ns):
        order = m.pre(m.root(i))
        for nm in names:
            want = [k for k in order if ns[k].name == nm]
            try:
                got = x[nm]
            except KeyError:
                if want:
                    return [('a name in the tree is found', nm)]
                continue
            if not want:
                return [('a missing name is a key error', '%s gives %s' % (nm, got))]
            if got is not ns[want[0]]:
                return [('look-up returns the first node of that name in pre-order', '%s from node %d' % (nm, i))]
    return []
