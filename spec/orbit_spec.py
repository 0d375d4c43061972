"""Obligations about kerrgeopy.initial_conditions and kerrgeopy.orbit.Orbit."""
import numpy as np
from numpy import sqrt, pi, cos, sin, arcsin, arccos
from numpy.polynomial import Polynomial
from scipy.special import ellipk, ellipkinc
import kerrgeopy as kg
import kerrgeopy.constants as kc
import kerrgeopy.frequencies as kf
import kerrgeopy.initial_conditions as ki
import kerrgeopy.stable as ks
import kerrgeopy.plunge as kp
import kg_ref as ref
from kg_ref import dontcare


def at(fs, lam):
    t, r, th, ph = fs
    return t(lam), r(lam), th(lam), ph(lam)


# ---------------------------------------------------------------- I01 conserved quantities of the initial state
def constants(a, t0, r0, h0, p0, u0, u1, u2, u3):
    return ki.constants_from_initial_conditions(a, (t0, r0, h0, p0), (u0, u1, u2, u3))


def need_constants(a, t0, r0, h0, p0, u0, u1, u2, u3):
    S, s2 = ref.Sigma(a, r0, h0), sin(h0)**2
    g = ref.metric(a, r0, h0)
    E = -(g[0][0] * u0 + g[0][3] * u3)
    L = g[3][0] * u0 + g[3][3] * u3
    return E, L, (S * u2)**2 + cos(h0)**2 * (a**2 * (1 - E**2) + L**2 / s2)


def constants_list(a, t0, r0, h0, p0, u0, u1, u2, u3):
    return ki.constants_from_initial_conditions(a, [t0, r0, h0, p0], np.array([u0, u1, u2, u3]))


# ---------------------------------------------------------------- I02 stable or plunging
def stable(a, r0, h0, E, L, Q):
    return kg.initial_conditions.is_stable(a, (0, r0, h0, 0), (1, 0, 0, 0), (E, L, Q))


def need_stable(a, r0, h0, E, L, Q):
    roots = Polynomial(ref.R_coefficients(a, E, L, Q)).roots()
    real = np.sort(np.real(roots[np.isreal(roots)]))
    nc = len(roots[np.iscomplex(roots)])
    if nc == 4:
        raise ValueError()
    if nc == 2:
        return False
    dontcare(nc != 0)
    rm = 1 - sqrt(1 - a**2)
    dontcare(real[2] == rm)
    dontcare(not (real[0] <= real[1] and real[1] <= real[2] and real[2] <= real[3]))
    if real[2] <= r0 and r0 <= real[3]:
        return real[2] > rm
    dontcare(r0 < real[2] and r0 >= real[2] - 1e-3)
    dontcare(r0 > real[3] and r0 <= real[3] + 1e-3)
    dontcare(real[2] <= rm)
    if real[0] <= r0 and r0 <= real[1]:
        return False
    dontcare(r0 < real[0] and r0 >= real[0] - 1e-3)
    dontcare(r0 > real[1] and r0 <= real[1] + 1e-3)
    raise ValueError()


def stable_from_velocity(a, r0, h0, u0, u1, u2, u3):
    return kg.initial_conditions.is_stable(a, (0, r0, h0, 0), (u0, u1, u2, u3))


def need_stable_from_velocity(a, r0, h0, u0, u1, u2, u3):
    c = ki.constants_from_initial_conditions(a, (0, r0, h0, 0), (u0, u1, u2, u3))
    return kg.initial_conditions.is_stable(a, (0, r0, h0, 0), (u0, u1, u2, u3), c)


# ---------------------------------------------------------------- I03 initial phases
def stable_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    return ki.stable_orbit_initial_phases(a, (t0, r0, h0, p0), (1, u1, u2, 0), (E, L, Q))


def radial_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    q = stable_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q)
    return q[0], q[1], q[3]


def need_radial_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    dontcare(a < 0)
    r4, r3, r2, r1 = Polynomial(ref.R_coefficients(a, E, L, Q)).roots()
    return t0, radial_phase(r0, u1, r1, r2, r3, r4), p0


def polar_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    return stable_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q)[2]


def need_polar_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    dontcare(a <= 0)
    dontcare(L == 0)
    zm, zp = ref.polar_roots(a, E, L, Q)
    return polar_phase(a, E, L, h0, u2, zm, zp)


def schwarzschild_phases(p, e, x, h0, u2):
    """spherical symmetry: E, L, Q of a bound orbit in closed form"""
    dontcare(x == 0)
    dontcare(e <= 0)
    J2 = p**2 / (p - 3 - e**2)
    E, L, Q = sqrt(((p - 2)**2 - 4 * e**2) / (p * (p - 3 - e**2))), x * sqrt(J2), J2 * (1 - x**2)
    r1, r2 = p / (1 - e), p / (1 + e)
    return ki.stable_orbit_initial_phases(0, (0, r2, h0, 0), (1, 0, u2, 0), (E, L, Q), (r1, r2, 2 / (1 - E**2) - r1 - r2, 0))[2]


def need_schwarzschild_phases(p, e, x, h0, u2):
    dontcare(x == 0)
    dontcare(e <= 0)
    J2 = p**2 / (p - 3 - e**2)
    E, L, Q = sqrt(((p - 2)**2 - 4 * e**2) / (p * (p - 3 - e**2))), x * sqrt(J2), J2 * (1 - x**2)
    zm, zp = ref.polar_roots(0, E, L, Q)
    return polar_phase(0, E, L, h0, u2, zm, zp)


def radial_phase(r0, u1, r1, r2, r3, r4):
    dontcare(0 < abs(r0 - r2) and abs(r0 - r2) < 1e-3)
    dontcare(0 < abs(r0 - r1) and abs(r0 - r1) < 1e-3)
    if r0 == r2:
        return 0
    if r0 == r1:
        return pi
    m = ref.modulus_r(r1, r2, r3, r4)
    q = pi * ellipkinc(arcsin(sqrt((r1 - r3) * (r0 - r2) / ((r1 - r2) * (r0 - r3)))), m) / ellipk(m)
    return q if u1 > 0 else 2 * pi - q


def polar_phase(a, E, L, h0, u2, zm, zp):
    low = arccos(sqrt(zm))
    dontcare(0 < abs(h0 - low) and abs(h0 - low) < 1e-3)
    dontcare(0 < abs(h0 - (pi - low)) and abs(h0 - (pi - low)) < 1e-3)
    if h0 == low:
        return 0
    if h0 == pi - low:
        return pi
    m = 0 if a == 0 else zm / zp
    q = pi / 2 * ellipkinc(arcsin(cos(h0) / sqrt(zm)), m) / ellipk(m)
    if u2 < 0:
        return q + 3 * pi / 2
    if u2 == 0 and h0 == pi / 2:
        return 0
    return pi / 2 - q


def stable_phases_default(a, t0, r0, h0, p0, u0, u1, u2, u3):
    return ki.stable_orbit_initial_phases(a, (t0, r0, h0, p0), (u0, u1, u2, u3))


def need_stable_phases_default(a, t0, r0, h0, p0, u0, u1, u2, u3):
    c = ki.constants_from_initial_conditions(a, (t0, r0, h0, p0), (u0, u1, u2, u3))
    return ki.stable_orbit_initial_phases(a, (t0, r0, h0, p0), (u0, u1, u2, u3), c)


def stable_phases_given(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    c = (E, L, Q)
    r4, r3, r2, r1 = Polynomial(ref.R_coefficients(a, E, L, Q)).roots()
    return ki.stable_orbit_initial_phases(a, (t0, r0, h0, p0), (1, u1, u2, 0), c, (r1, r2, r3, r4))


def plunge_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    return ki.plunging_orbit_initial_phases(a, (t0, r0, h0, p0), (1, u1, u2, 0), (E, L, Q))


def plunge_radial_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    q = plunge_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q)
    return q[0], q[1], q[3]


def need_plunge_radial_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    real, r1, r2, r3, r4 = ref.classified_roots(a, E, L, Q)
    dontcare(a <= 0)
    if real:
        return t0, radial_phase(r0, u1, r1, r2, r3, r4), p0
    A, B, m = ref.complex_pair(r1, r2, r3, r4)
    y = (B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1))
    qr = pi / 2 * ellipkinc(pi / 2 - arcsin(y), m) / ellipk(abs(m))
    return t0, (qr if u1 > 0 else 2 * pi - qr), p0


def plunge_polar_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    return plunge_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q)[2]


def need_plunge_polar_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    real, r1, r2, r3, r4 = ref.classified_roots(a, E, L, Q)
    dontcare(a <= 0)
    dontcare(L == 0)
    if real:
        zm, zp = ref.polar_roots(a, E, L, Q)
        return polar_phase(a, E, L, h0, u2, zm, zp)
    z1, z2, mt = ref.plunging_polar(a, E, L, Q)
    qt = pi / 2 * ellipkinc(arcsin(cos(h0) / z1), mt) / ellipk(mt)
    if u2 < 0:
        return qt + 3 * pi / 2
    if u2 == 0 and h0 == pi / 2:
        return 0
    return pi / 2 - qt


def plunge_phases_default(a, t0, r0, h0, p0, u0, u1, u2, u3):
    return ki.plunging_orbit_initial_phases(a, (t0, r0, h0, p0), (u0, u1, u2, u3))


def need_plunge_phases_default(a, t0, r0, h0, p0, u0, u1, u2, u3):
    c = ki.constants_from_initial_conditions(a, (t0, r0, h0, p0), (u0, u1, u2, u3))
    return ki.plunging_orbit_initial_phases(a, (t0, r0, h0, p0), (u0, u1, u2, u3), c)


# the phases put the closed-form solution back on the initial point
def radial_return(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    q = ki.stable_orbit_initial_phases(a, (t0, r0, h0, p0), (1, u1, u2, 0), (E, L, Q))
    r4, r3, r2, r1 = Polynomial(ref.R_coefficients(a, E, L, Q)).roots()
    r, tr, pr = ref.stable_radial(a, E, L, r1, r2, r3, r4, q[1])
    return q[0], r, q[3]


def need_radial_return(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    r4, r3, r2, r1 = Polynomial(ref.R_coefficients(a, E, L, Q)).roots()
    dontcare(abs(r0 - r2) < 1e-3)
    dontcare(abs(r0 - r1) < 1e-3)
    return t0, r0, p0


def polar_return(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    q = ki.stable_orbit_initial_phases(a, (t0, r0, h0, p0), (1, u1, u2, 0), (E, L, Q))
    zm, zp = ref.polar_roots(a, E, L, Q)
    th, tt, pt = ref.stable_polar(a, E, L, zm, zp, q[2])
    return cos(th)


def need_polar_return(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    dontcare(a <= 0)
    dontcare(L == 0)
    zm, zp = ref.polar_roots(a, E, L, Q)
    low = arccos(sqrt(zm))
    dontcare(abs(h0 - low) < 1e-3)
    dontcare(abs(h0 - (pi - low)) < 1e-3)
    dontcare(h0 == pi / 2)
    return cos(h0)


# ---------------------------------------------------------------- I04 admissible initial velocities
def accept(a, t0, r0, h0, p0, u0, u1, u2, u3):
    kg.Orbit(a, (t0, r0, h0, p0), (u0, u1, u2, u3))
    return 1


def need_accept(a, t0, r0, h0, p0, u0, u1, u2, u3):
    n = ref.norm(a, r0, h0, (u0, u1, u2, u3))
    if n >= 0:
        raise ValueError()
    if abs(n + 1) > 1e-6:
        raise ValueError()
    raise ref.DontCare()


# ---------------------------------------------------------------- T05 Orbit is the orbit through its initial state
def orbit(a, t0, r0, h0, p0, u0, u1, u2, u3, M, mu):
    pos, vel = (t0, r0, h0, p0), (u0, u1, u2, u3)
    o = kg.Orbit(a, pos, vel, M, mu)
    base = (o.stable, o.E, o.L, o.Q, o.initial_position, o.initial_velocity, o.initial_phases, o.M, o.mu, o.upsilon_r, o.upsilon_theta)
    if o.stable:
        return base + (o.a, o.p, o.e, o.x, o.upsilon_phi, o.gamma, o.omega_r, o.omega_theta, o.omega_phi)
    return base + (o.a,)


def need_orbit(a, t0, r0, h0, p0, u0, u1, u2, u3, M, mu):
    pos, vel = (t0, r0, h0, p0), (u0, u1, u2, u3)
    n = ref.norm(a, r0, h0, vel)
    if n >= 0:
        raise ValueError()
    if abs(n + 1) > 1e-6:
        raise ValueError()
    E, L, Q = ki.constants_from_initial_conditions(a, pos, vel)
    if kg.initial_conditions.is_stable(a, pos, vel):
        b, p, e, x = kc.apex_from_constants(a, E, L, Q)
        m = kf.mino_frequencies(b, p, e, x)
        w = kf.fundamental_frequencies(b, p, e, x)
        return (True, E, L, Q, pos, vel, ki.stable_orbit_initial_phases(a, pos, vel), M, mu, m[0], m[1], b, p, e, x, m[2], m[3]) + w
    if a == 0:
        raise ValueError()
    m = kf.plunging_mino_frequencies(a, E, L, Q)
    return (False, E, L, Q, pos, vel, ki.plunging_orbit_initial_phases(a, pos, vel), M, mu, m[0], m[1], a)


def route(a, t0, r0, h0, p0, u0, u1, u2, u3, lam):
    o = kg.Orbit(a, (t0, r0, h0, p0), (u0, u1, u2, u3))
    o.trajectory_deltas()
    o.numerical_four_velocity()
    return at(o.trajectory(), lam), at(o.four_velocity(), lam), o.constants_of_motion()


def need_route(a, t0, r0, h0, p0, u0, u1, u2, u3, lam):
    pos, vel = (t0, r0, h0, p0), (u0, u1, u2, u3)
    kg.Orbit(a, pos, vel)
    c = ki.constants_from_initial_conditions(a, pos, vel)
    if kg.initial_conditions.is_stable(a, pos, vel):
        b, p, e, x = kc.apex_from_constants(a, *c)
        q = ki.stable_orbit_initial_phases(a, pos, vel)
        m = kf.mino_frequencies(b, p, e, x)
        f = ks.stable_trajectory(b, p, e, x, q)
    else:
        b = a
        q = ki.plunging_orbit_initial_phases(a, pos, vel)
        m = kf.plunging_mino_frequencies(a, *c)
        f = kp.plunging_trajectory(a, *c, q)
    return at(f, lam), at(kg.KerrSpacetime(b).four_velocity(*f, c, m[0], m[1], q), lam), c


class Made(kg.Orbit):
    """an Orbit whose constructor result is given: the attributes of the corresponding special orbit"""

    def __init__(self, s, M=None, mu=None):
        self.a, self.E, self.L, self.Q, self.stable = s.a, s.E, s.L, s.Q, s.stable
        self.initial_phases, self.initial_position, self.initial_velocity = s.initial_phases, s.initial_position, s.initial_velocity
        self.upsilon_r, self.upsilon_theta, self.M, self.mu = s.upsilon_r, s.upsilon_theta, M, mu
        if s.stable:
            self.p, self.e, self.x, self.upsilon_phi, self.gamma = s.p, s.e, s.x, s.upsilon_phi, s.gamma
            self.omega_r, self.omega_theta, self.omega_phi = s.omega_r, s.omega_theta, s.omega_phi


def all_of(o, lam, phases=None):
    d = o.trajectory_deltas(phases)
    return (at(o.trajectory(phases), lam), d[0](lam), d[1](lam), d[2](lam), d[3](lam), at(o.four_velocity(phases), lam))


def path_stable(a, p, e, x, q0, q1, q2, q3, lam):
    return all_of(Made(kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3))), lam)


def need_path_stable(a, p, e, x, q0, q1, q2, q3, lam):
    return all_of(kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3)), lam)


def path_plunge(a, E, L, Q, q0, q1, q2, q3, lam):
    return all_of(Made(kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3))), lam)


def need_path_plunge(a, E, L, Q, q0, q1, q2, q3, lam):
    return all_of(kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3)), lam)


# ---------------------------------------------------------------- T04 delta functions of an Orbit
def parts_stable(a, p, e, x, q0, q1, q2, q3, q):
    d = Made(kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3))).trajectory_deltas()
    return d[0](q), d[1](q), d[2](q), d[3](q)


def need_parts_stable(a, p, e, x, q0, q1, q2, q3, q):
    d = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3)).trajectory_deltas()
    return d[0](q), d[1](q), d[2](q), d[3](q)


def parts_plunge(a, E, L, Q, q0, q1, q2, q3, q):
    d = Made(kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3))).trajectory_deltas()
    return d[0](q), d[1](q), d[2](q), d[3](q)


def need_parts_plunge(a, E, L, Q, q0, q1, q2, q3, q):
    d = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3)).trajectory_deltas()
    return d[0](q), d[1](q), d[2](q), d[3](q)


# ---------------------------------------------------------------- G04 phase overrides of an Orbit
def override_stable(a, p, e, x, q0, q1, q2, q3, w0, w1, w2, w3, lam):
    o = Made(kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3)))
    y = all_of(o, lam, (w0, w1, w2, w3))
    return y, all_of(o, lam), o.initial_phases


def need_override_stable(a, p, e, x, q0, q1, q2, q3, w0, w1, w2, w3, lam):
    return (all_of(kg.StableOrbit(a, p, e, x, (w0, w1, w2, w3)), lam), all_of(kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3)), lam),
            (q0, q1, q2, q3))


def override_plunge(a, E, L, Q, q0, q1, q2, q3, w0, w1, w2, w3, lam):
    o = Made(kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3)))
    y = all_of(o, lam, (w0, w1, w2, w3))
    return y, all_of(o, lam), o.initial_phases


def need_override_plunge(a, E, L, Q, q0, q1, q2, q3, w0, w1, w2, w3, lam):
    return (all_of(kg.PlungingOrbit(a, E, L, Q, (w0, w1, w2, w3)), lam), all_of(kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3)), lam),
            (q0, q1, q2, q3))


# ---------------------------------------------------------------- U02, U03 unit options of an Orbit
LENGTHS = ("natural", "mks", "cgs", "km", "au")
TIMES = ("natural", "mks", "cgs", "days")


def in_units(o, lam):
    out = [at(o.trajectory(distance_units=d), lam) for d in LENGTHS]
    return out + [at(o.trajectory(time_units=t), lam) for t in TIMES]


def constants_in_units(o):
    return [o.constants_of_motion(u) for u in ("natural", "mks", "cgs")]


def units_stable(a, p, e, x, q0, q1, q2, q3, lam, M):
    return in_units(Made(kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3)), M), lam)


def need_units_stable(a, p, e, x, q0, q1, q2, q3, lam, M):
    return in_units(kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3), M), lam)


def units_plunge(a, E, L, Q, q0, q1, q2, q3, lam, M):
    return in_units(Made(kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3)), M), lam)


def need_units_plunge(a, E, L, Q, q0, q1, q2, q3, lam, M):
    return in_units(kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3), M), lam)


def constants_stable(a, p, e, x, M, mu):
    return constants_in_units(Made(kg.StableOrbit(a, p, e, x), M, mu))


def need_constants_stable(a, p, e, x, M, mu):
    return constants_in_units(kg.StableOrbit(a, p, e, x, M=M, mu=mu))


def constants_plunge(a, E, L, Q, M, mu):
    return constants_in_units(Made(kg.PlungingOrbit(a, E, L, Q), M, mu))


def need_constants_plunge(a, E, L, Q, M, mu):
    return constants_in_units(kg.PlungingOrbit(a, E, L, Q, M=M, mu=mu))


def refused(f):
    try:
        f()
    except ValueError:
        return True
    return False


def without_mass(a, p, e, x):
    s = kg.StableOrbit(a, p, e, x)
    o, m, n = Made(s), Made(s, 3), Made(s, None, 3)
    out = [refused(lambda: o.trajectory(distance_units=d)) for d in ("natural", "mks", "cgs", "km", "au")]
    out += [refused(lambda: o.trajectory(time_units=t)) for t in ("natural", "mks", "cgs", "days")]
    for y in (o, m, n):
        out += [refused(lambda: y.constants_of_motion(u)) for u in ("natural", "mks", "cgs")]
    return out


def need_without_mass(a, p, e, x):
    kg.StableOrbit(a, p, e, x)
    return [False, True, True, True, True, False, True, True, True] + [False, True, True] * 3


# ---------------------------------------------------------------- S02, S04 four-velocity of an Orbit
def numerical(a, p, e, x, q0, q1, q2, q3, lam, dx):
    return at(Made(kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3))).numerical_four_velocity(dx), lam)


def need_numerical(a, p, e, x, q0, q1, q2, q3, lam, dx):
    return at(kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3)).numerical_four_velocity(dx), lam)
