"""C08-C11: crowddynamics/core/motion"""
from .common import *
from .vec import *
from pyvc.contract import path_view

A = 'crowddynamics.core.motion.adjusting:'
P = 'crowddynamics.core.motion.power_law:'
CT = 'crowddynamics.core.motion.contact:'

CIRC, THREE = RecT('circular', 'n'), RecT('three_circle', 'n')
VARIANTS = [('circular', CIRC), ('three_circle', THREE)]

# ------------------------------------------------------------------ C08


def adjust_force(m, tau, v0, e0, v):
    return (e0 * v0 - v) * (m / tau)


def adjust_torque(inertia, tau, phi0, phi, omega0, omega):
    return inertia / tau * (wrap(phi0 - phi) / pi_like(phi) * omega0 - omega)


contract(A + 'force_adjust', [('mass', Real), ('tau_adj', Real), ('v0', Real), ('e0', Vec2), ('v', Vec2)], Vec2,
         requires=lambda a: {'adjusting time is not zero': ne(a.tau_adj, 0.0)},
         define=lambda a: adjust_force(a.mass, a.tau_adj, a.v0, a.e0, a.v))
contract(A + 'torque_adjust', [('inertia_rot', Real), ('tau_rot', Real), ('phi_0', Real), ('phi', Real),
                               ('omega_0', Real), ('omega', Real)], Real,
         requires=lambda a: {'adjusting time is not zero': ne(a.tau_rot, 0.0)},
         define=lambda a: adjust_torque(a.inertia_rot, a.tau_rot, a.phi_0, a.phi, a.omega_0, a.omega))


def each(a, f):
    return forall(0, a.agents.n, f)


def agent_adjust_force(g, k):
    return adjust_force(g.mass[k], g.tau_adj[k], g.target_velocity[k], g.target_direction[k], g.velocity[k])


def agent_adjust_torque(g, k):
    return adjust_torque(g.inertia_rot[k], g.tau_rot[k], g.target_orientation[k], g.orientation[k],
                         g.target_angular_velocity[k], g.angular_velocity[k])


for nm, t in VARIANTS:
    contract(A + 'force_adjust_agents', [('agents', t)], None, variant=nm,
             requires=lambda a: {'adjusting times are not zero': each(a, lambda k: ne(a.agents.tau_adj[k], 0.0))},
             effects=lambda a: [Eff('agents.force', lambda k: a.agents.force[k] + agent_adjust_force(a.agents, k))])
contract(A + 'torque_adjust_agents', [('agents', THREE)], None,
         requires=lambda a: {'adjusting times are not zero': each(a, lambda k: ne(a.agents.tau_rot[k], 0.0))},
         effects=lambda a: [Eff('agents.torque', lambda k: a.agents.torque[k] + agent_adjust_torque(a.agents, k))])

prop('C08', A + 'force_adjust', A + 'torque_adjust', A + 'force_adjust_agents', A + 'torque_adjust_agents')

# ------------------------------------------------------------------ C09

contact = C.opaque('contact', lambda h, n, v, t, mu, kappa, damping:
                   (n * mu - t * (kappa * dot2(v, t))) * (h * -1.0) + n * (damping * dot2(v, n)))

contract(CT + 'force_contact', [('h', Real), ('n', Vec2), ('v', Vec2), ('t', Vec2), ('mu', Real), ('kappa', Real),
                                ('damping', Real)], Vec2,
         define=lambda a: contact(a.h, a.n, a.v, a.t, a.mu, a.kappa, a.damping))


def _sym(name):
    return SReal(C.Z.Real(name))


def _symv(name):
    return V2(_sym(name + '.x'), _sym(name + '.y'))


def _at_rest():
    h, n, mu, ka, c = _sym('h'), _symv('n'), _sym('mu'), _sym('kappa'), _sym('c')
    z = V2(SReal(C.Z.RealVal(0)), SReal(C.Z.RealVal(0)))
    return [h < 0, mu >= 0], eq(contact(h, n, z, rot270(n), mu, ka, c), n * (mu * (h * -1.0)))


def _friction():
    h, n, v, mu, ka, c = _sym('h'), _symv('n'), _symv('v'), _sym('mu'), _sym('kappa'), _sym('c')
    t = rot270(n)
    f = contact(h, n, v, t, mu, ka, c)
    # the tangential part times the sliding speed is not positive for overlap
    return [h < 0, ka >= 0, eq(dot2(n, n), 1.0)], dot2(f, t) * dot2(v, t) <= 0


prop('C09', CT + 'force_contact', lemmas=[
    ('overlap at rest: pushed along the outward normal with strength mu times the overlap', _at_rest),
    ('friction opposes tangential sliding', _friction)])

# ------------------------------------------------------------ C10 and C11


def coefficients(x, v, r):
    a = dot2(v, v)
    b = dot2(x, v) * -1.0
    c = dot2(x, x) - r * r
    return a, b, b * b - a * c


def collides(x, v, r):
    """(defined, tau): earliest positive time of touching"""
    a, b, D = coefficients(x, v, r)
    ok = land(D > 0, a > 0)
    tau = sdiv(b - root(D), a)
    return land(ok, tau > 0), tau


def tau_gradient(x, v, r):
    """gradient of the time to collision with respect to x"""
    a, b, D = coefficients(x, v, r)
    d = root(D)
    f = lambda vi, xi: sdiv(sdiv(b * vi + a * xi, d) - vi, a)
    return V2(f(v.x, x.x), f(v.y, x.y))


mag = C.opaque('magnitude', lambda tau, tau0: (sdiv(2.0, tau) + sdiv(1.0, tau0)) * exp(sdiv(tau * -1.0, tau0)) /
               (tau * tau))


def short(f, l):
    return ite(norm2(f) > l, f * sdiv(l, norm2(f)), f)


contract(P + 'magnitude', [('tau', Real), ('tau_0', Real)], Real,
         requires=lambda a: {'times are not zero': land(ne(a.tau, 0.0), ne(a.tau_0, 0.0))},
         define=lambda a: mag(a.tau, a.tau_0))

contract(P + 'gradient_circle_circle', [('x_rel', Vec2), ('v_rel', Vec2), ('a', Real), ('b', Real), ('d', Real)], Vec2,
         requires=lambda a: {'coefficients are not zero': land(ne(a.a, 0.0), ne(a.d, 0.0))},
         define=lambda a: V2(*[sdiv(v - sdiv(v * a.b + x * a.a, a.d), a.a)
                               for x, v in ((a.x_rel.x, a.v_rel.x), (a.x_rel.y, a.v_rel.y))]))
contract(P + 'gradient_three_circle', [('x_rel', Vec2), ('v_rel', Vec2), ('r_off', Vec2), ('a', Real), ('b', Real),
                                       ('d', Real)], Vec2,
         requires=lambda a: {'coefficients are not zero': land(ne(a.a, 0.0), ne(a.d, 0.0))},
         define=lambda a: V2(*[sdiv(v - sdiv(v * a.b + (x + o) * a.a, a.d), a.a) for x, v, o in (
             (a.x_rel.x, a.v_rel.x, a.r_off.x), (a.x_rel.y, a.v_rel.y, a.r_off.y))]))


def ttc_post(a):
    ok, tau = collides(a.x_rel, a.v_rel, a.r_tot)
    g = tau_gradient(a.x_rel, a.v_rel, a.r_tot)
    t, n = a.result
    return {'undefined exactly when there is no future contact': iff(isnan(t), lnot(ok)),
            'time to collision': implies(ok, eq(t, tau)),
            'vector against the gradient': implies(ok, eq(n, g * -1.0)),
            'zero vector when undefined': implies(lnot(ok), eq(n, zero()))}


contract(P + 'time_to_collision_circle_circle', [('x_rel', Vec2), ('v_rel', Vec2), ('r_tot', Real)],
         TupT(RealN, Vec2), ensures=ttc_post)


def _social(x, v, r, m, k, tau0):
    """force on the first disc: its mass times the negative gradient of its
    energy k/tau^2 exp(-tau/tau0), cut to 2000 N"""
    ok, tau = collides(x, v, r)
    g = tau_gradient(x, v, r)
    w = m * k * mag(tau, tau0)
    f = short(g * w, 2000.0)
    on = land(ok, tau <= 30.0)
    return V2(ite(on, f.x, 0.0), ite(on, f.y, 0.0))


social = C.opaque('social', _social)


def social_pair(g, i, j):
    x, v, r = g.position[i] - g.position[j], g.velocity[i] - g.velocity[j], g.radius[i] + g.radius[j]
    return (social(x, v, r, g.mass[i], g.k_soc[i], g.tau_0[i]),
            social(x, v, r, g.mass[j], g.k_soc[j], g.tau_0[j]) * -1.0)


def valid_pair(g, i, j):
    return {'indices in range': land(i >= 0, i < g.n, j >= 0, j < g.n),
            'interaction times are positive': land(g.tau_0[i] > 0, g.tau_0[j] > 0)}


def pair_gen(kind, rest=()):
    import math

    def gen(rng):
        from pyvc.contract import gen_rec
        n = rng.randint(1, 4)
        i = rng.randrange(n)
        j = rng.randrange(n)
        g = gen_rec(rng, kind, n, {}, False)
        f = g['fields']
        # mostly on collision course
        if rng.random() < 0.8 and i != j:
            p = f['position'][2]
            d = rng.uniform(0.3, 4.0)
            phi = rng.uniform(-math.pi, math.pi)
            q = [p[2 * i] + d * math.cos(phi), p[2 * i + 1] + d * math.sin(phi)]
            for nm in ('position_ls', 'position_rs'):
                if nm in f:
                    for c in (0, 1):
                        f[nm][2][2 * j + c] += q[c] - p[2 * j + c]
            p[2 * j:2 * j + 2] = q
            s = rng.choice([0.5, 1.0, 2.0, 5.0])
            off = rng.uniform(-0.4, 0.4)
            f['velocity'][2][2 * i:2 * i + 2] = [s * math.cos(phi + off), s * math.sin(phi + off)]
            s2 = rng.choice([0.0, 0.5, 1.0])
            f['velocity'][2][2 * j:2 * j + 2] = [-s2 * math.cos(phi), -s2 * math.sin(phi)]
        for k in range(n):
            f['k_soc'][2][k] = rng.choice([0.5, 1.0, 1.5])
            f['tau_0'][2][k] = rng.choice([1.0, 2.0, 3.0])
        return g, i, j
    return gen


def I(v):
    return {'t': 'i', 'v': v}


def social_gen(kind):
    base = pair_gen(kind)

    def gen(rng):
        g, i, j = base(rng)
        return [g, I(i), I(j)]
    return gen


contract(P + 'force_social_circular', [('agent', CIRC), ('i', Int), ('j', Int)], TupT(Vec2, Vec2),
         requires=lambda a: valid_pair(a.agent, a.i, a.j), gen=social_gen('circular'),
         define=lambda a: social_pair(a.agent, a.i, a.j))


def _touch():
    x, v, r = _symv('x'), _symv('v'), _sym('r')
    ok, tau = collides(x, v, r)
    p = x + v * tau
    return [ok], eq(dot2(p, p), r * r)


def _earliest():
    x, v, r, s = _symv('x'), _symv('v'), _sym('r'), _sym('s')
    ok, tau = collides(x, v, r)
    p = x + v * s
    return [ok, s >= 0, s < tau], dot2(p, p) > r * r


def _never():
    """apart and no collision: the discs do not come to overlap later on"""
    x, v, r, s = _symv('x'), _symv('v'), _sym('r'), _sym('s')
    ok, tau = collides(x, v, r)
    p = x + v * s
    return [lnot(ok), dot2(x, x) > r * r, s >= 0], dot2(p, p) >= r * r


def _implicit():
    """differentiating |x + tau v|^2 = r^2: grad tau = -(x + tau v) / (v.(x + tau v))"""
    x, v, r = _symv('x'), _symv('v'), _sym('r')
    ok, tau = collides(x, v, r)
    p = x + v * tau
    return [ok], eq(tau_gradient(x, v, r) * dot2(v, p), p * -1.0)


prop('C10', P + 'time_to_collision_circle_circle', P + 'magnitude', P + 'gradient_circle_circle',
     P + 'force_social_circular', lemmas=[
         ('at the time to collision the discs touch', _touch),
         ('the discs are apart before the time to collision', _earliest),
         ('discs without a time to collision never overlap', _never),
         ('the gradient is that of the time to collision', _implicit)])

# ------------------------------------------------------------------ C11


def discs(g, k):
    return ((g.position[k], g.r_t[k]), (blur(g.position_ls[k]), g.r_s[k]), (blur(g.position_rs[k]), g.r_s[k]))


def rigid(g, k):
    off = V2(sin(g.orientation[k]), cos(g.orientation[k]) * -1.0) * g.r_ts[k]
    return land(near(g.position_ls[k], g.position[k] - off), near(g.position_rs[k], g.position[k] + off))


def _social3(x, v, r, m, k, tau0):
    ok, tau = collides(x, v, r)
    return short(tau_gradient(x, v, r) * (m * k * mag(tau, tau0)), 2000.0)


social3 = C.opaque('social3', _social3)
ttc = C.opaque('ttc', collides)


def nine_pairs(a):
    g, i, j = a.agent, a.i, a.j
    v = g.velocity[i] - g.velocity[j]
    ps = [(xi - xj, ri + rj) for xi, ri in discs(g, i) for xj, rj in discs(g, j)]
    return g, i, j, v, ps, [ttc(x, v, r) for x, r in ps]


def pair_force(g, i, j, x, v, r, c, fi, fj):
    return land(eq(fi[c], social3(x, v, r, g.mass[i], g.k_soc[i], g.tau_0[i])[c]),
                eq(fj[c], social3(x, v, r, g.mass[j], g.k_soc[j], g.tau_0[j])[c] * -1.0))


def first_pair(a):
    g, i, j, v, ps, ts = nine_pairs(a)
    fi, fj = a.result
    out = {'no collision': land(*[lnot(ok) for ok, _ in ts])}
    for p, (ok, t) in enumerate(ts):
        x, r = ps[p]
        out['pair %d%d first' % divmod(p, 3)] = (
            land(ok, *[implies(o, t < u if q < p else t <= u) for q, (o, u) in enumerate(ts) if q != p]),
            land(*[pair_force(g, i, j, x, v, r, c, fi, fj) for c in (0, 1)]))
    return out


def social3_post(a):
    g, i, j, v, ps, ts = nine_pairs(a)
    fi, fj = a.result
    return {'zero without a collision': implies(lnot(lor(*[ok for ok, _ in ts])),
                                                land(eq(fi, zero()), eq(fj, zero()))),
            'force of the first pair to collide': implies(lor(*[ok for ok, _ in ts]), lor(*[
                land(ok, *[implies(o2, t <= t2) for o2, t2 in ts if o2 is not ok],
                     *[pair_force(g, i, j, x, v, r, c, fi, fj) for c in (0, 1)])
                for (x, r), (ok, t) in zip(ps, ts)]))}


def _first_force(pi, ri, pj, rj, vi, vj, ci, cj, place):
    """concrete: the force of the earliest pair, the first of equally early ones"""
    v = vi - vj
    z = V2(v.x * 0.0, v.x * 0.0)
    fi, fj, any_, tb = z, z, None, None
    for xi, a in zip(pi, ri):
        for xj, b in zip(pj, rj):
            x, r = xi - xj, a + b
            ok, t = collides(x, v, r)
            gi, gj = social3(x, v, r, *ci), social3(x, v, r, *cj) * -1.0
            if any_ is None:
                take, any_, tb = ok, ok, t
            else:
                take = land(ok, lor(lnot(any_), t < tb))
                tb, any_ = ite(take, t, tb), lor(any_, ok)
            fi, fj = [V2(ite(take, p.x, q.x), ite(take, p.y, q.y)) for p, q in ((gi, fi), (gj, fj))]
    return fi, fj


first_force = C.chosen('force_social_three_circle', ('v', 'v'), _first_force)


def social_three(g, i, j):
    di, dj = discs(g, i), discs(g, j)
    return first_force([x for x, r in di], [r for x, r in di], [x for x, r in dj], [r for x, r in dj],
                       g.velocity[i], g.velocity[j], (g.mass[i], g.k_soc[i], g.tau_0[i]),
                       (g.mass[j], g.k_soc[j], g.tau_0[j]), [f for k in (i, j) for f in (g.orientation[k], g.r_ts[k])])


contract(P + 'force_social_three_circle', [('agent', THREE), ('i', Int), ('j', Int)], TupT(Vec2, Vec2),
         requires=lambda a: dict(valid_pair(a.agent, a.i, a.j), **{
             'shoulders in place': land(rigid(a.agent, a.i), rigid(a.agent, a.j))}),
         gen=social_gen('three_circle'), ensures=social3_post, cases=first_pair,
         pick=lambda a: social_three(a.agent, a.i, a.j))
prop('C11', P + 'force_social_three_circle', P + 'gradient_three_circle')
