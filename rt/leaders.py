"""C37: leader_follower_interaction_brute and leader_follower_interaction."""
import math

import numpy as np

from crowddynamics.core.steering.collective_motion import leader_follower_interaction_brute, leader_follower_interaction, \
    leader_follower_with_herding_interaction
from crowddynamics.simulation.agents import NO_LEADER, NO_TARGET
from rt.crowd import *

RULE = ('leaders: crowds of up to 8 agents, up to 4 leaders (never a follower at the same time), up to 4 walls, remembered '
        'leaders that may be hidden or out of sight, standing agents; non-trivial when a follower and a leader are present; '
        'cases in which a comparison is closer than 1e-7 are not judged; distinct by value.')


def cases(rng, tier):
    while True:
        n = rng.randint(1, 8) if rng.random() < 0.95 else rng.randint(20, 60)
        span = rng.choice((1.0, 4.0))
        role = [rng.choice('LFFFN') for _ in range(n)]
        leaders = [i for i in range(n) if role[i] == 'L']
        yield dict(role=''.join(role), pos=rnd_points(rng, n, span),
                   vel=[[0.0, 0.0] if rng.random() < 0.15 else [rng.uniform(-2, 2), rng.uniform(-2, 2)] for _ in range(n)],
                   target=[rng.randint(-1, 4) for _ in range(n)], familiar=[rng.randint(-1, 4) for _ in range(n)],
                   mem=[rng.choice(leaders) if leaders and rng.random() < 0.5 else -1 for _ in range(n)],
                   walls=rnd_walls(rng, span, 4), sight=rng.choice((0.5, 1.5, 3.0, 20.0)) * rng.uniform(0.9, 1.1),
                   w=rng.choice((0.0, 1.0, 0.4, rng.random())), phi=rng.choice((0.45 * math.pi, math.pi / 2, rng.uniform(0.1, 3))),
                   api=rng.choice(('brute', 'wrap', 'herd')), model=rng.choice(('circular', 'three_circle')))


def nontrivial(case):
    return 'L' in case['role'] and 'F' in case['role']


def expect(case, i, phi, w):
    """(target, memory, direction, has_strategy) of follower i"""
    p, v = case['pos'], case['vel']
    leaders = [j for j in range(len(p)) if case['role'][j] == 'L']
    d = {j: math.dist(p[i], p[j]) for j in leaders}
    order = sorted(leaders, key=lambda j: d[j])
    for x, y in zip(order, order[1:]):
        lt(d[x], d[y])
    t, m = case['target'][i], case['mem'][i]
    for j in order:
        if lt(case['sight'], d[j]):
            continue
        if hidden(p[i], p[j], case['walls']):
            if m == j:
                return case['target'][j], m, (0.0, 0.0), True
            continue
        if heads_away(p[i], p[j], v[i], v[j], phi):
            e = unit((p[j][0] - p[i][0], p[j][1] - p[i][1]))
            u = unit(v[j])
            s = (w * e[0] + (1 - w) * u[0], w * e[1] + (1 - w) * u[1])
            if math.hypot(*s) < 1e-6:
                raise Close()
            return NO_TARGET, j, unit(s), True
    if m != NO_LEADER:
        return case['target'][m], m, (0.0, 0.0), True
    return t, m, (0.0, 0.0), False


def run(case):
    n = len(case['pos'])
    a = agents_array(case['model'], n, position=case['pos'], velocity=case['vel'], target=case['target'],
                     familiar_exit=case['familiar'], index_leader=case['mem'], is_leader=[r == 'L' for r in case['role']],
                     is_follower=[r == 'F' for r in case['role']], radius=[0.3] * n)
    walls = walls_array(case['walls'])
    before, wb = a.copy(), walls.copy()
    brute = case['api'] == 'brute'
    phi, w = (case['phi'], case['w']) if brute else (0.45 * math.pi, 0.40)
    bad = []
    if brute:
        d, has = leader_follower_interaction_brute(a['is_follower'], a['is_leader'], a['position'], a['velocity'], w, phi,
                                                   a['target'], a['index_leader'], walls, case['sight'])
    elif case['api'] == 'wrap':
        d = leader_follower_interaction(a, walls, case['sight'])
        has = None
    else:
        d = leader_follower_with_herding_interaction(a, walls, case['sight'], 3)
        has = None
    if changed(before, a) - {'target', 'index_leader'} or walls.tobytes() != wb.tobytes():
        return [('only target and remembered leader change', str(changed(before, a)))]
    for i in range(n):
        if case['role'][i] != 'F' and (a['target'][i] != before['target'][i] or a['index_leader'][i] != before['index_leader'][i]):
            return [('agents that are not followers keep target and remembered leader', 'agent %d' % i)]
    if d.shape != (n, 2):
        return [('a direction for every agent', str(d.shape))]
    if case['api'] == 'herd':
        return herd(case, before, a, d)
    try:
        for i in range(n):
            if case['role'][i] != 'F':
                continue
            t, m, e, h = expect(case, i, phi, w)
            if not h and not brute:
                t = case['familiar'][i]
            got = (int(a['target'][i]), int(a['index_leader'][i]))
            if got[1] != m:
                bad.append(('the right leader is remembered', 'agent %d remembers %d, not %d' % (i, got[1], m)))
            if got[0] != t:
                bad.append(('the target follows from the strategy', 'agent %d has target %d, not %d' % (i, got[0], t)))
            if math.dist(d[i], e) > 1e-6:
                bad.append(('the direction is the normalised weighted average', 'agent %d %s, not %s' % (i, d[i], e)))
            if has is not None and bool(has[i]) != h:
                bad.append(('a follower has a strategy exactly when one was found', 'agent %d' % i))
    except Close:
        return []
    return bad


def herd(case, before, a, d):
    """with herding: an isolated follower without memory uses its familiar exit; directions are unit or zero"""
    bad = []
    far = dict(case, sight=20.0)
    for i, r in enumerate(case['role']):
        if r == 'F':
            try:
                t, m, _, h = expect(far, i, 0.45 * math.pi, 0.4)
                got = int(a['target'][i]), int(a['index_leader'][i])
                if h and got != (t, m):
                    bad.append(('leaders come before neighbours', 'agent %d has target %d, leader %d, not %d, %d' % (
                        (i,) + got + (t, m))))
                if not h and (got[1] != m or got[0] not in (NO_TARGET, case['familiar'][i])):
                    bad.append(('without leader the familiar exit or the neighbours', 'agent %d has target %d' % (i, got[0])))
            except Close:
                pass
        l = math.hypot(*d[i])
        if abs(l - 1) > 1e-9 and l != 0:
            bad.append(('directions are unit vectors or zero', 'agent %d %s' % (i, d[i])))
        alone = all(j == i or math.dist(case['pos'][i], case['pos'][j]) > max(20.0, case['sight']) + 1e-6
                    for j in range(len(case['role'])))
        if r == 'F' and alone and case['mem'][i] == -1 and a['target'][i] != case['familiar'][i]:
            bad.append(('followers without any strategy use their familiar exit', 'agent %d' % i))
        if r == 'F' and case['vel'][i] == [0.0, 0.0] and case['mem'][i] == -1 and a['target'][i] != case['familiar'][i]:
            # a standing agent heads nowhere: nobody is to be followed
            bad.append(('followers without any strategy use their familiar exit', 'agent %d' % i))
    return bad
