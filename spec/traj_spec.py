"""Obligations about kerrgeopy.stable, kerrgeopy.plunge and the shared Orbit interface."""
import numpy as np
from numpy import sqrt, pi, cos, sin
import kerrgeopy as kg
import kerrgeopy.constants as kc
import kerrgeopy.frequencies as kf
import kerrgeopy.stable as ks
import kerrgeopy.plunge as kp
import kerrgeopy.orbit as ko
import kg_ref as ref
from kg_ref import dontcare


def at(fs, lam):
    t, r, th, ph = fs
    return t(lam), r(lam), th(lam), ph(lam)


# ---------------------------------------------------------------- T01 stable closed form
def stable(a, p, e, x, q0, q1, q2, q3, lam):
    return at(ks.stable_trajectory(a, p, e, x, (q0, q1, q2, q3)), lam)


def stable_orbit(a, p, e, x, q0, q1, q2, q3, lam):
    return at(kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3)).trajectory(), lam)


def need_stable(a, p, e, x, q0, q1, q2, q3, lam):
    return ref.stable_trajectory(a, p, e, x, (q0, q1, q2, q3), lam)


def stable_default(a, p, e, x, lam):
    return at(ks.stable_trajectory(a, p, e, x), lam), at(kg.StableOrbit(a, p, e, x).trajectory(), lam)


def need_stable_default(a, p, e, x, lam):
    y = ref.stable_trajectory(a, p, e, x, (0, 0, 0, 0), lam)
    return y, y


# ---------------------------------------------------------------- P01 plunging closed form
def plunge(a, E, L, Q, q0, q1, q2, q3, lam):
    return at(kp.plunging_trajectory(a, E, L, Q, (q0, q1, q2, q3)), lam)


def plunge_orbit(a, E, L, Q, q0, q1, q2, q3, lam):
    return at(kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3)).trajectory(), lam)


def need_plunge(a, E, L, Q, q0, q1, q2, q3, lam):
    return ref.plunging_trajectory(a, E, L, Q, (q0, q1, q2, q3), lam)


def plunge_default(a, E, L, Q, lam):
    return at(kp.plunging_trajectory(a, E, L, Q), lam), at(kg.PlungingOrbit(a, E, L, Q).trajectory(), lam)


def need_plunge_default(a, E, L, Q, lam):
    y = ref.plunging_trajectory(a, E, L, Q, (0, 0, 0, 0), lam)
    return y, y


# ---------------------------------------------------------------- T02 start of the orbit
def stable_start(a, p, e, x, q0, q1, q2, q3):
    t, r, th, ph = ks.stable_trajectory(a, p, e, x, (q0, q1, q2, q3))
    return t(0), ph(0)


def need_stable_start(a, p, e, x, q0, q1, q2, q3):
    a, x = ref.standard(a, x)
    ref.bound_frequency(a, p, e, x)
    return q0, q3


def stable_turning(a, p, e, x, q0, q3):
    out = []
    for o in (0, pi):
        t, r, th, ph = ks.stable_trajectory(a, p, e, x, (q0, o, o, q3))
        out += [r(0), cos(th(0))]
    return out


def need_stable_turning(a, p, e, x, q0, q3):
    a, x = ref.standard(a, x)
    ref.bound_frequency(a, p, e, x)
    c = sqrt(1 - x**2)
    return p / (1 + e), c, p / (1 - e), -c


def stable_initial(a, p, e, x, q0, q1, q2, q3):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3))
    return o.initial_position, o.initial_velocity, o.initial_phases


def need_stable_initial(a, p, e, x, q0, q1, q2, q3):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3))
    u = o.four_velocity()
    return (q0, at(o.trajectory(), 0)[1], at(o.trajectory(), 0)[2], q3), at(u, 0), (q0, q1, q2, q3)


def plunge_start(a, E, L, Q, q0, q1, q2, q3):
    t, r, th, ph = kp.plunging_trajectory(a, E, L, Q, (q0, q1, q2, q3))
    return t(0), ph(0)


def need_plunge_start(a, E, L, Q, q0, q1, q2, q3):
    ref.classified_roots(a, E, L, Q)
    dontcare(a == 0)
    return q0, q3


def plunge_turning(a, E, L, Q, q0, q3):
    out = []
    for o in (0, pi):
        t, r, th, ph = kp.plunging_trajectory(a, E, L, Q, (q0, o, o, q3))
        out += [r(0), cos(th(0))]
    return out


def need_plunge_turning(a, E, L, Q, q0, q3):
    real, r1, r2, r3, r4 = ref.classified_roots(a, E, L, Q)
    dontcare(a == 0)
    if real:
        c = sqrt(ref.polar_roots(a, E, L, Q)[0])
        return r2, c, r1, -c
    c = ref.plunging_polar(a, E, L, Q)[0]
    return r1, c, r2, -c


def plunge_initial(a, E, L, Q, q0, q1, q2, q3):
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3))
    return o.initial_position, o.initial_velocity, o.initial_phases


def need_plunge_initial(a, E, L, Q, q0, q1, q2, q3):
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3))
    u = o.four_velocity()
    return (q0, at(o.trajectory(), 0)[1], at(o.trajectory(), 0)[2], q3), at(u, 0), (q0, q1, q2, q3)


# ---------------------------------------------------------------- T03 (quasi-)periodicity
def stable_period(a, p, e, x, q0, q1, q2, q3, lam):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3))
    t, r, th, ph = o.trajectory()
    return r(lam + 2 * pi / o.upsilon_r), th(lam + 2 * pi / o.upsilon_theta)


def need_stable_period(a, p, e, x, q0, q1, q2, q3, lam):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3))
    t, r, th, ph = o.trajectory()
    return r(lam), th(lam)


def stable_delta_period(a, p, e, x, q):
    tr, tth, pr, pth = kg.StableOrbit(a, p, e, x).trajectory_deltas()
    return tr(q + 2 * pi), tth(q + 2 * pi), pr(q + 2 * pi), pth(q + 2 * pi)


def need_stable_delta_period(a, p, e, x, q):
    tr, tth, pr, pth = kg.StableOrbit(a, p, e, x).trajectory_deltas()
    return tr(q), tth(q), pr(q), pth(q)


def plunge_period(a, E, L, Q, q0, q1, q2, q3, lam):
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3))
    t, r, th, ph = o.trajectory()
    return r(lam + 2 * pi / o.upsilon_r), th(lam + 2 * pi / o.upsilon_theta)


def need_plunge_period(a, E, L, Q, q0, q1, q2, q3, lam):
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3))
    t, r, th, ph = o.trajectory()
    return r(lam), th(lam)


# ---------------------------------------------------------------- T04 deltas agree with the trajectory
def stable_deltas(a, p, e, x, q0, q1, q2, q3, lam):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3))
    tr, tth, pr, pth = o.trajectory_deltas()
    u, w = o.upsilon_r * lam, o.upsilon_theta * lam
    return (q0 + o.gamma * lam + tr(u) - tr(0) + tth(w) - tth(0),
            q3 + o.upsilon_phi * lam + pr(u) - pr(0) + pth(w) - pth(0))


def need_stable_deltas(a, p, e, x, q0, q1, q2, q3, lam):
    t, r, th, ph = ref.stable_trajectory(a, p, e, x, (q0, q1, q2, q3), lam)
    return t, ph


def stable_delta_parts(a, p, e, x, q0, q1, q2, q3, q):
    tr, tth, pr, pth = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3)).trajectory_deltas()
    return tr(q), tth(q), pr(q), pth(q)


def need_stable_delta_parts(a, p, e, x, q0, q1, q2, q3, q):
    a, x = ref.standard(a, x)
    ref.bound_frequency(a, p, e, x)
    E, L, Q, r1, r2, r3, r4, zm, zp = ref.stable_geometry(a, p, e, x)
    r, tr, pr = ref.stable_radial(a, E, L, r1, r2, r3, r4, q + q1)
    th, tth, pth = ref.stable_polar(a, E, L, zm, zp, q + q2)
    return tr, tth, pr, pth


def plunge_deltas(a, E, L, Q, q0, q1, q2, q3, lam):
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3))
    tr, tth, pr, pth = o.trajectory_deltas()
    u, w = o.upsilon_r * lam, o.upsilon_theta * lam
    return tr(u) - tr(0) + tth(w) - tth(0), pr(u) - pr(0) + pth(w) - pth(0)


def need_plunge_deltas(a, E, L, Q, q0, q1, q2, q3, lam):
    real, r1, r2, r3, r4 = ref.classified_roots(a, E, L, Q)
    t, r, th, ph = ref.plunging_trajectory(a, E, L, Q, (q0, q1, q2, q3), lam)
    if real:
        zm, zp = ref.polar_roots(a, E, L, Q)
        ur, uth = ref.r_freq(E, r1, r2, r3, r4), ref.theta_freq(a, E, L, zm, zp)
        return (t - q0 - ref.gamma_freq(a, E, L, r1, r2, r3, r4, zm, zp, ur, uth) * lam,
                ph - q3 - ref.phi_freq(a, E, L, r1, r2, r3, r4, zm, zp, ur, uth) * lam)
    return t - q0, ph - q3


# ---------------------------------------------------------------- T06 arrays of times
def stable_array(a, p, e, x, n, l0, dl):
    o = kg.StableOrbit(a, p, e, x, (0.5, 0.25, 0.125, 0.75))
    times = np.linspace(l0, dl, n)
    fs = o.trajectory() + o.four_velocity()
    return [f(times) for f in fs]


def need_stable_array(a, p, e, x, n, l0, dl):
    o = kg.StableOrbit(a, p, e, x, (0.5, 0.25, 0.125, 0.75))
    times = np.linspace(l0, dl, n)
    fs = o.trajectory() + o.four_velocity()
    return [np.array([f(s) for s in times]) for f in fs]


def plunge_array(a, E, L, Q, n, l0, dl):
    o = kg.PlungingOrbit(a, E, L, Q, (0.5, 0.25, 0.125, 0.75))
    times = np.linspace(l0, dl, n)
    fs = o.trajectory() + o.four_velocity()
    return [f(times) for f in fs]


def need_plunge_array(a, E, L, Q, n, l0, dl):
    o = kg.PlungingOrbit(a, E, L, Q, (0.5, 0.25, 0.125, 0.75))
    times = np.linspace(l0, dl, n)
    fs = o.trajectory() + o.four_velocity()
    return [np.array([f(s) for s in times]) for f in fs]


# ---------------------------------------------------------------- G04 phase override
def stable_override(a, p, e, x, q0, q1, q2, q3, w0, w1, w2, w3, lam):
    o, w = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3)), (w0, w1, w2, w3)
    before = o.initial_phases
    d = o.trajectory_deltas(w)
    return (at(o.trajectory(w), lam), at(o.four_velocity(w), lam), d[0](lam), d[1](lam), d[2](lam), d[3](lam),
            at(o.numerical_four_velocity(initial_phases=w), lam), o.initial_phases, before)


def need_stable_override(a, p, e, x, q0, q1, q2, q3, w0, w1, w2, w3, lam):
    o, w = kg.StableOrbit(a, p, e, x, (w0, w1, w2, w3)), (q0, q1, q2, q3)
    d = o.trajectory_deltas()
    return (at(o.trajectory(), lam), at(o.four_velocity(), lam), d[0](lam), d[1](lam), d[2](lam), d[3](lam),
            at(o.numerical_four_velocity(), lam), w, w)


def plunge_override(a, E, L, Q, q0, q1, q2, q3, w0, w1, w2, w3, lam):
    o, w = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3)), (w0, w1, w2, w3)
    before = o.initial_phases
    d = o.trajectory_deltas(w)
    return (at(o.trajectory(w), lam), at(o.four_velocity(w), lam), d[0](lam), d[1](lam), d[2](lam), d[3](lam),
            at(o.numerical_four_velocity(initial_phases=w), lam), o.initial_phases, before)


def need_plunge_override(a, E, L, Q, q0, q1, q2, q3, w0, w1, w2, w3, lam):
    o, w = kg.PlungingOrbit(a, E, L, Q, (w0, w1, w2, w3)), (q0, q1, q2, q3)
    d = o.trajectory_deltas()
    return (at(o.trajectory(), lam), at(o.four_velocity(), lam), d[0](lam), d[1](lam), d[2](lam), d[3](lam),
            at(o.numerical_four_velocity(), lam), w, w)


# ---------------------------------------------------------------- an override is not remembered
def stable_afterwards(a, p, e, x, q0, q1, q2, q3, w0, w1, w2, w3, lam):
    o, w = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3)), (w0, w1, w2, w3)
    o.trajectory(w), o.four_velocity(w), o.trajectory_deltas(w), o.numerical_four_velocity(initial_phases=w)
    d = o.trajectory_deltas()
    return at(o.trajectory(), lam), at(o.four_velocity(), lam), d[0](lam), d[1](lam), d[2](lam), d[3](lam)


def need_stable_afterwards(a, p, e, x, q0, q1, q2, q3, w0, w1, w2, w3, lam):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3))
    d = o.trajectory_deltas()
    return at(o.trajectory(), lam), at(o.four_velocity(), lam), d[0](lam), d[1](lam), d[2](lam), d[3](lam)


def plunge_afterwards(a, E, L, Q, q0, q1, q2, q3, w0, w1, w2, w3, lam):
    o, w = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3)), (w0, w1, w2, w3)
    o.trajectory(w), o.four_velocity(w), o.trajectory_deltas(w), o.numerical_four_velocity(initial_phases=w)
    d = o.trajectory_deltas()
    return at(o.trajectory(), lam), at(o.four_velocity(), lam), d[0](lam), d[1](lam), d[2](lam), d[3](lam)


def need_plunge_afterwards(a, E, L, Q, q0, q1, q2, q3, w0, w1, w2, w3, lam):
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3))
    d = o.trajectory_deltas()
    return at(o.trajectory(), lam), at(o.four_velocity(), lam), d[0](lam), d[1](lam), d[2](lam), d[3](lam)
