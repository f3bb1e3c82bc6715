"""C14, C15, C16: crowddynamics/core/integrator.py and shoulders of agents.py"""
from .common import *
from .motion import CIRC, THREE, VARIANTS, each

N = 'crowddynamics.core.integrator:'
AG = 'crowddynamics.simulation.agents:'


def speed(g, k):
    return norm2(g.velocity[k])


def steps_ok(a):
    return {'timestep bounds': land(a.dt_min > 0, a.dt_min <= a.dt_max),
            'target velocities are not negative': each(a, lambda k: a.agents.target_velocity[k] >= 0)}


def clip(x, lo, hi):
    return ite(x > hi, hi, ite(x < lo, lo, x))


def timestep_of(a, dt):
    g = a.agents
    still = forall(0, g.n, lambda k: eq(speed(g, k), 0.0))
    return {'largest step when nobody moves': implies(still, eq(dt, a.dt_max)),
            'bounded by the distance a fastest agent may move': forall(0, g.n, lambda m: forall(0, g.n, lambda w: implies(
                land(speed(g, m) > 0, forall(0, g.n, lambda k: speed(g, k) <= speed(g, m)),
                     forall(0, g.n, lambda k: g.target_velocity[k] <= g.target_velocity[w])),
                eq(dt, clip(sdiv(1.1 * g.target_velocity[w] * a.dt_max, speed(g, m)), a.dt_min, a.dt_max))))),
            'within the bounds': land(a.dt_min <= dt, dt <= a.dt_max)}


PARAMS = lambda t: [('agents', t), ('dt_min', RealT(0.001, 0.01)), ('dt_max', RealT(0.01, 0.1))]

for nm, t in VARIANTS:
    contract(N + 'adaptive_timestep', PARAMS(t), Real, variant=nm, requires=steps_ok,
             ensures=lambda a: timestep_of(a, a.result))

prop('C14', N + 'adaptive_timestep')

# -------------------------------------------------------------------- motion


def euler(x, v, acc, dt):
    return x + v * dt + acc * (0.5 * dt * dt), v + acc * dt


def verlet(x, v, a0, a1, dt):
    w = v + (a0 + a1) * (0.5 * dt)
    return x + w * dt + a1 * (0.5 * dt * dt), w


def over(v, m):
    return V2(sdiv(v.x, m), sdiv(v.y, m)) if isinstance(v, V2) else sdiv(v, m)


def t_euler(g, k, dt):
    return euler(g.position[k], g.velocity[k], over(g.force[k], g.mass[k]), dt)


def r_euler(g, k, dt):
    x, w = euler(g.orientation[k], g.angular_velocity[k], over(g.torque[k], g.inertia_rot[k]), dt)
    return wrap(x), w


def t_verlet(g, k, dt):
    return verlet(g.position[k], g.velocity[k], over(g.force_prev[k], g.mass[k]), over(g.force[k], g.mass[k]), dt)


def r_verlet(g, k, dt):
    i = g.inertia_rot[k]
    x, w = verlet(g.orientation[k], g.angular_velocity[k], over(g.torque_prev[k], i), over(g.torque[k], i), dt)
    return wrap(x), w


def moves(a, f, names, dt):
    return [Eff('agents.' + nm, lambda k, c=c: f(a.agents, k, dt)[c]) for c, nm in enumerate(names)]


def keeps(a, new, old):
    return [Eff('agents.' + new, lambda k: getattr(a.agents, old)[k])]


XV, PW = ('position', 'velocity'), ('orientation', 'angular_velocity')


def masses(a):
    return {'masses are positive': each(a, lambda k: a.agents.mass[k] > 0)}


def inertias(a):
    return {'rotational inertias are positive': each(a, lambda k: a.agents.inertia_rot[k] > 0)}


for nm, t in VARIANTS:
    contract(N + 'translational_euler', [('agents', t), ('dt', RealT(0.0, 0.5))], None, variant=nm, requires=masses,
             effects=lambda a: moves(a, t_euler, XV, a.dt))
    contract(N + 'translational_verlet', [('agents', t), ('dt', RealT(0.0, 0.5))], None, variant=nm, requires=masses,
             effects=lambda a: moves(a, t_verlet, XV, a.dt) + keeps(a, 'force_prev', 'force'))
contract(N + 'rotational_euler', [('agents', THREE), ('dt', RealT(0.0, 0.5))], None, requires=inertias,
         effects=lambda a: moves(a, r_euler, PW, a.dt))
contract(N + 'rotational_verlet', [('agents', THREE), ('dt', RealT(0.0, 0.5))], None, requires=inertias,
         effects=lambda a: moves(a, r_verlet, PW, a.dt) + keeps(a, 'torque_prev', 'torque'))


def shoulder(x, phi, r, side):
    return x + V2(sin(phi), cos(phi) * -1.0) * (r * side)


contract(AG + 'shoulders', [('agents', THREE)], None, effects=lambda a: [
    Eff('agents.' + f, lambda k, s=s: shoulder(a.agents.position[k], a.agents.orientation[k], a.agents.r_ts[k], s))
    for f, s in (('position_ls', -1.0), ('position_rs', 1.0))])


def attached(a, f, g, dt):
    """shoulders after the step"""
    return [Eff('agents.' + nm, lambda k, s=s: shoulder(f(a.agents, k, dt)[0], g(a.agents, k, dt)[0], a.agents.r_ts[k], s))
            for nm, s in (('position_ls', -1.0), ('position_rs', 1.0))]


def full(move, turn, keep):
    def eff(a):
        dt = a.result
        out = moves(a, move, XV, dt)
        if keep:
            out += keeps(a, 'force_prev', 'force')
        if 'orientation' in a.agents._f:
            out += moves(a, turn, PW, dt) + attached(a, move, turn, dt)
            if keep:
                out += keeps(a, 'torque_prev', 'torque')
        return out
    return eff


for nm, t in VARIANTS:
    three = nm == 'three_circle'
    for fn, eff in (('euler_integrator', full(t_euler, r_euler, False)),
                    ('velocity_verlet_integrator_init', full(t_euler, r_euler, True)),
                    ('velocity_verlet_integrator', full(t_verlet, r_verlet, True))):
        contract(N + fn, PARAMS(t), Real, variant=nm,
                 requires=lambda a, three=three: dict(steps_ok(a), **masses(a), **(inertias(a) if three else {})),
                 effects=eff, ensures=lambda a: timestep_of(a, a.result))

INTEGRATORS = [N + 'euler_integrator', N + 'velocity_verlet_integrator_init', N + 'velocity_verlet_integrator']
prop('C15', N + 'translational_euler', N + 'rotational_euler', N + 'translational_verlet', N + 'rotational_verlet',
     *INTEGRATORS)
