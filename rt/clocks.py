"""C35: poisson_clock and poisson_timings under given random draws."""
import itertools

import numpy as np

from crowddynamics.core.rand import poisson_clock, poisson_timings

RULE = ('clocks: draws given explicitly (small, zero, beyond the window; every sequence over {0, 0.4, 1, 1.1} of length up to 4 '
        'for a window of 1), one to four players with any of these, and seeded real draws; non-trivial when a clock fires; '
        'distinct by value.')


def cases(rng, tier):
    for n in range(1, 5):
        for d in itertools.product((0.0, 0.4, 1.0, 1.1), repeat=n):
            yield dict(dt=1.0, interval=0.5, draws=list(d))
            yield dict(dt=1.0, interval=0.5, draws=list(d), players=[3, 5])
    while True:
        dt = rng.choice((0.01, 0.5, 1.0, 3.0))
        draws = [rng.choice((rng.expovariate(2 / dt), 0.0, dt / 2, dt, dt / 4)) for _ in range(rng.randint(1, 12) if rng.random() < 0.95 else 80)]
        if rng.random() < 0.3:
            # close to the end of the window
            draws[rng.randrange(len(draws))] = max(0.0, dt - sum(draws[:rng.randrange(len(draws))]) - dt * rng.choice((1e-12, 1e-9, 1e-6, 1e-4, 1e-2)))
        players = None
        if rng.random() < 0.7:
            players = rng.sample(range(9), rng.randint(0, 4)) if rng.random() < 0.9 else rng.sample(range(99), 12)
            if rng.random() < 0.3 and players:
                players.append(players[0])
        c = dict(dt=dt, interval=rng.choice((0.001, 0.1, 2.0)) if rng.random() < 0.0 else 0.5, draws=draws, players=players,
                 perm=rng.randint(0, 5))
        if rng.random() < 0.3:
            c = dict(dt=dt, interval=dt * rng.choice((0.1, 0.5, 2)), seed=rng.randint(0, 999), players=players)
        yield c


def nontrivial(case):
    return 'seed' in case or case['draws'][0] < case['dt']


class Stream:
    """stands in for numpy.random: given draws first, then one far beyond the window"""
    def __init__(self, case):
        self.draws = list(case['draws'])
        self.far = case['dt'] + 1
        self.used = []
        self.perm = case.get('perm', 0)
        self.scales = []
        self.bulk = False

    def exponential(self, scale=1.0, size=None):
        self.scales.append(scale)
        if size is not None:
            self.bulk = True
            return np.array([self.exponential(scale) for _ in range(int(np.prod(size)))]).reshape(size)
        d = self.draws.pop(0) if self.draws else self.far
        self.used.append(d)
        return d

    def shuffle(self, x):
        k = len(x)
        if k > 1:
            x[:] = np.roll(x.copy(), self.perm) if self.perm % 2 else x[::-1].copy()


def run(case):
    keep = np.random.exponential, np.random.shuffle
    dt = case['dt']
    try:
        if 'seed' in case:
            np.random.seed(case['seed'])
            rec = []

            def exponential(scale=1.0, size=None):
                r = keep[0](scale, size)
                rec.extend(np.ravel(r).tolist())
                return r
            np.random.exponential = exponential
            used, scales = rec, None
        else:
            s = Stream(case)
            np.random.exponential, np.random.shuffle = s.exponential, s.shuffle
            used, scales = s.used, s.scales
        if case.get('players') is None:
            got = [float(t) for t in poisson_clock(case['interval'], dt)]
            want = first(used, dt, 0)[0]
            if any(not t < dt for t in got):
                return [('firing times are inside the window', str(got))]
            if any(x > y for x, y in zip(got, got[1:])):
                return [('firing times do not decrease', str(got))]
            if used and (len(got) != len(want) or any(abs(x - y) > 1e-12 for x, y in zip(got, want))):
                return [('exactly the firing times before the end of the window are yielded', '%s, not %s' % (got, want))]
            if scales and set(scales) != {case['interval']}:
                return [('the expected time between firings is the interval', str(scales))]
            return []
        ps = np.array(case['players'], dtype=np.int64)
        orig = sorted(case['players'])
        out = [int(i) for i in poisson_timings(ps, case['interval'], dt)]
        if sorted(ps.tolist()) != orig:
            return [('the players are the same as before', str(ps))]
        if not used or 'seed' not in case and s.bulk or case['players'] and len(case['players']) > 4:
            return []
        # for some order of the players: every firing has one entry, in time order
        why = None
        for order in [ps.tolist()] + list(itertools.permutations(case['players'])):
            why2 = mismatch(used, dt, order, out)
            if why2 is None:
                return []
            why = why or why2
        return [why]
    finally:
        np.random.exponential, np.random.shuffle = keep


def first(draws, dt, at):
    t, out = 0.0, []
    while at < len(draws):
        t += draws[at]
        at += 1
        if not t < dt:
            break
        out.append(t)
    return out, at


def mismatch(used, dt, order, out):
    at, fire = 0, []
    for i in order:
        ts, at = first(used, dt, at)
        fire += [(t, i) for t in ts]
    if sorted(out) != sorted(i for _, i in fire):
        return 'one entry per firing of a player', '%s, not %s' % (sorted(out), sorted(i for _, i in fire))
    fire.sort()
    at = 0
    while at < len(fire):
        e = at
        while e < len(fire) and fire[e][0] - fire[at][0] < 1e-12:
            e += 1
        if sorted(out[at:e]) != sorted(i for _, i in fire[at:e]):
            return 'entries are in the order of the firing times', '%s, not %s' % (out, fire)
        at = e
    return None
