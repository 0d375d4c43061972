"""Results depend on the arguments only: earlier calls, other objects and shared arguments make no difference."""
import numpy as np
from numpy import sqrt, pi
import kerrgeopy as kg
import kerrgeopy.constants as kc
import kerrgeopy.frequencies as kf
import kerrgeopy.initial_conditions as ki
import kerrgeopy.stable as ks
import kerrgeopy.plunge as kp
import kg_ref as ref
from kg_ref import dontcare


def at(fs, lam):
    t, r, th, ph = fs
    return t(lam), r(lam), th(lam), ph(lam)


def deltas(o, lam):
    t_r, t_th, phi_r, phi_th = o.trajectory_deltas()
    return t_r(lam), t_th(lam), phi_r(lam), phi_th(lam)


def quiet(f):
    """an earlier call whose own outcome does not matter"""
    try:
        f()
    except Exception:
        pass


# ---------------------------------------------------------------- functions, after unrelated calls
def earlier_bound(b, r, d, y):
    quiet(lambda: kc.constants_of_motion(b, r, d, y))
    quiet(lambda: kc.stable_radial_roots(b, r, d, y))
    quiet(lambda: kc.stable_polar_roots(b, r, d, y))
    quiet(lambda: kf.mino_frequencies(b, r, d, y))
    quiet(lambda: kf.fundamental_frequencies(b, r, d, y))


def results_bound(a, p, e, x):
    return (kc.energy(a, p, e, x), kc.angular_momentum(a, p, e, x), kc.carter_constant(a, p, e, x), kc.constants_of_motion(a, p, e, x))


def bound_after(a, p, e, x, b, r, d, y):
    earlier_bound(b, r, d, y)
    return results_bound(a, p, e, x)


def bound_alone(a, p, e, x, b, r, d, y):
    return results_bound(a, p, e, x)


def results_frequency(a, p, e, x):
    return (kc.stable_radial_roots(a, p, e, x), kc.stable_polar_roots(a, p, e, x), kf.mino_frequencies(a, p, e, x),
            kf.fundamental_frequencies(a, p, e, x))


def frequency_after(a, p, e, x, b, r, d, y):
    earlier_bound(b, r, d, y)
    return results_frequency(a, p, e, x)


def frequency_alone(a, p, e, x, b, r, d, y):
    return results_frequency(a, p, e, x)


def separatrix_after(a, p, e, x, b, r, d, y):
    quiet(lambda: kc.separatrix(b, d, y))
    quiet(lambda: kc.is_stable(b, r, d, y))
    return kc.separatrix(a, e, x), kc.is_stable(a, p, e, x)


def separatrix_alone(a, p, e, x, b, r, d, y):
    return kc.separatrix(a, e, x), kc.is_stable(a, p, e, x)


def plunge_after(a, E, L, Q, b, F, K, P):
    quiet(lambda: kc.plunging_radial_roots(b, F, K, P))
    quiet(lambda: kf.plunging_mino_frequencies(b, F, K, P))
    quiet(lambda: kc.apex_from_constants(b, F, K, P))
    return kc.plunging_radial_roots(a, E, L, Q), kf.plunging_mino_frequencies(a, E, L, Q)


def plunge_alone(a, E, L, Q, b, F, K, P):
    return kc.plunging_radial_roots(a, E, L, Q), kf.plunging_mino_frequencies(a, E, L, Q)


def apex_after(a, E, L, Q, b, F, K, P):
    quiet(lambda: kc.apex_from_constants(b, F, K, P))
    quiet(lambda: kc.plunging_radial_roots(b, F, K, P))
    return kc.apex_from_constants(a, E, L, Q)


def apex_alone(a, E, L, Q, b, F, K, P):
    return kc.apex_from_constants(a, E, L, Q)


# ---------------------------------------------------------------- orbits share nothing
def stable_pair(a, p, e, x, b, r, d, y, lam):
    quiet(lambda: kg.StableOrbit(b, r, d, y).trajectory_deltas())
    quiet(lambda: kg.StableOrbit(b, r, d, y).numerical_four_velocity())
    o = kg.StableOrbit(a, p, e, x)
    quiet(lambda: at(kg.StableOrbit(b, r, d, y, (1, 2, 3, 4), 5, 6).trajectory((4, 3, 2, 1), "mks", "mks"), lam))
    f = o.trajectory()
    quiet(lambda: at(kg.StableOrbit(b, r, d, y).trajectory(), lam))
    return (at(f, lam), at(o.four_velocity(), lam), deltas(o, lam), o.initial_position, o.initial_velocity, o.constants_of_motion(),
            o.mino_frequencies(), o.initial_phases, o.M, o.mu)


def stable_single(a, p, e, x, b, r, d, y, lam):
    o = kg.StableOrbit(a, p, e, x)
    return (at(o.trajectory(), lam), at(o.four_velocity(), lam), deltas(o, lam), o.initial_position, o.initial_velocity, o.constants_of_motion(),
            o.mino_frequencies(), (0, 0, 0, 0), None, None)


def plunge_pair(a, E, L, Q, b, F, K, P, lam):
    quiet(lambda: kg.PlungingOrbit(b, F, K, P).trajectory_deltas())
    quiet(lambda: kg.PlungingOrbit(b, F, K, P).numerical_four_velocity())
    o = kg.PlungingOrbit(a, E, L, Q)
    quiet(lambda: at(kg.PlungingOrbit(b, F, K, P, (1, 2, 3, 4), 5, 6).trajectory((4, 3, 2, 1), "mks", "mks"), lam))
    f = o.trajectory()
    quiet(lambda: at(kg.PlungingOrbit(b, F, K, P).trajectory(), lam))
    return (at(f, lam), at(o.four_velocity(), lam), deltas(o, lam), o.initial_position, o.initial_velocity, o.constants_of_motion(),
            o.initial_phases, o.M, o.mu)


def plunge_single(a, E, L, Q, b, F, K, P, lam):
    o = kg.PlungingOrbit(a, E, L, Q)
    return (at(o.trajectory(), lam), at(o.four_velocity(), lam), deltas(o, lam), o.initial_position, o.initial_velocity, o.constants_of_motion(),
            (0, 0, 0, 0), None, None)


# ---------------------------------------------------------------- repeated and interleaved evaluation of one object
def stable_repeat(a, p, e, x, q0, q1, q2, q3, lam, mu):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3), 3, 2)
    f, v, d = o.trajectory(), o.four_velocity(), o.trajectory_deltas()
    at(f, mu), at(v, mu), d[0](mu), d[1](mu), d[2](mu), d[3](mu)
    o.trajectory((1, 2, 3, 4)), o.trajectory((4, 1, 2, 3), "mks", "days"), o.trajectory_deltas((4, 3, 2, 1)), o.four_velocity((1, 1, 2, 2))
    o.numerical_four_velocity(), o.constants_of_motion("mks"), o.mino_frequencies("mks"), o.fundamental_frequencies("mHz")
    return (at(f, lam), at(o.trajectory(), lam), at(v, lam), at(o.four_velocity(), lam), d[0](lam), d[1](lam), d[2](lam), d[3](lam),
            o.constants_of_motion(), o.mino_frequencies(), o.fundamental_frequencies(), o.initial_phases, o.initial_position, o.initial_velocity)


def need_stable_repeat(a, p, e, x, q0, q1, q2, q3, lam, mu):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3), 3, 2)
    f, v, d = at(o.trajectory(), lam), at(o.four_velocity(), lam), o.trajectory_deltas()
    return (f, f, v, v, d[0](lam), d[1](lam), d[2](lam), d[3](lam), o.constants_of_motion(), o.mino_frequencies(), o.fundamental_frequencies(),
            (q0, q1, q2, q3), o.initial_position, o.initial_velocity)


def plunge_repeat(a, E, L, Q, q0, q1, q2, q3, lam, mu):
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3), 3, 2)
    f, v, d = o.trajectory(), o.four_velocity(), o.trajectory_deltas()
    at(f, mu), at(v, mu), d[0](mu), d[1](mu), d[2](mu), d[3](mu)
    o.trajectory((1, 2, 3, 4)), o.trajectory((4, 1, 2, 3), "mks", "days"), o.trajectory_deltas((4, 3, 2, 1)), o.four_velocity((1, 1, 2, 2))
    o.numerical_four_velocity(), o.constants_of_motion("mks")
    return (at(f, lam), at(o.trajectory(), lam), at(v, lam), at(o.four_velocity(), lam), d[0](lam), d[1](lam), d[2](lam), d[3](lam),
            o.constants_of_motion(), o.initial_phases, o.initial_position, o.initial_velocity)


def need_plunge_repeat(a, E, L, Q, q0, q1, q2, q3, lam, mu):
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3), 3, 2)
    f, v, d = at(o.trajectory(), lam), at(o.four_velocity(), lam), o.trajectory_deltas()
    return (f, f, v, v, d[0](lam), d[1](lam), d[2](lam), d[3](lam), o.constants_of_motion(),
            (q0, q1, q2, q3), o.initial_position, o.initial_velocity)


# ---------------------------------------------------------------- arguments are left alone
def stable_arguments(a, p, e, x, q0, q1, q2, q3, lam):
    q, w = [q0, q1, q2, q3], [q3, q2, q1, q0]
    o = kg.StableOrbit(a, p, e, x, q)
    at(o.trajectory(), lam), at(o.four_velocity(), lam), o.trajectory_deltas()
    at(o.trajectory(w), lam), at(o.four_velocity(w), lam), o.trajectory_deltas(w), o.numerical_four_velocity(initial_phases=w)
    ks.stable_trajectory(a, p, e, x, w)
    return q, w


def need_stable_arguments(a, p, e, x, q0, q1, q2, q3, lam):
    kg.StableOrbit(a, p, e, x)
    return [q0, q1, q2, q3], [q3, q2, q1, q0]


def plunge_arguments(a, E, L, Q, q0, q1, q2, q3, lam):
    q, w = [q0, q1, q2, q3], [q3, q2, q1, q0]
    o = kg.PlungingOrbit(a, E, L, Q, q)
    at(o.trajectory(), lam), at(o.four_velocity(), lam), o.trajectory_deltas()
    at(o.trajectory(w), lam), at(o.four_velocity(w), lam), o.trajectory_deltas(w), o.numerical_four_velocity(initial_phases=w)
    kp.plunging_trajectory(a, E, L, Q, w)
    return q, w


def need_plunge_arguments(a, E, L, Q, q0, q1, q2, q3, lam):
    kg.PlungingOrbit(a, E, L, Q)
    return [q0, q1, q2, q3], [q3, q2, q1, q0]


def state_arguments(a, t0, r0, h0, p0, u0, u1, u2, u3):
    pos, vel = np.array([t0, r0, h0, p0]), np.array([u0, u1, u2, u3])
    c = ki.constants_from_initial_conditions(a, pos, vel)
    quiet(lambda: kg.initial_conditions.is_stable(a, pos, vel))
    quiet(lambda: ki.stable_orbit_initial_phases(a, pos, vel))
    quiet(lambda: ki.plunging_orbit_initial_phases(a, pos, vel))
    kg.KerrSpacetime(a).norm(t0, r0, h0, p0, vel)
    return pos, vel


def need_state_arguments(a, t0, r0, h0, p0, u0, u1, u2, u3):
    return np.array([t0, r0, h0, p0]), np.array([u0, u1, u2, u3])


def times_arguments(a, p, e, x, n, l0, dl):
    o = kg.StableOrbit(a, p, e, x, (0.5, 0.25, 0.125, 0.75))
    times = np.linspace(l0, dl, n)
    for f in o.trajectory() + o.four_velocity() + o.trajectory_deltas():
        f(times)
    return times


def need_times_arguments(a, p, e, x, n, l0, dl):
    kg.StableOrbit(a, p, e, x)
    return np.linspace(l0, dl, n)
