"""Obligations about kerrgeopy.units and the unit options of the orbit interface."""
import numpy as np
from numpy import sqrt, pi
import kerrgeopy as kg
import kerrgeopy.units as ku
import kerrgeopy.constants as kc
import kerrgeopy.stable as ks
import kerrgeopy.plunge as kp
import kg_ref as ref
from kg_ref import dontcare


def close(x, y, tol):
    return abs(x / y - 1) < tol


# ---------------------------------------------------------------- U01 conversion factors
def si_constants():
    return ku.distance_in_meters(1, 1), ku.time_in_seconds(1, 1), ku.mass_in_kg(1)


def factors(q, M):
    """measured against the library's own metre / second / kilogram of one mass unit"""
    m, s, kg_ = ku.distance_in_meters(1, 1), ku.time_in_seconds(1, 1), ku.mass_in_kg(1)
    return (close(m, 1476.63, 1e-3), close(s, 4.92549e-6, 1e-3), close(kg_, 1.98847e30, 1e-3),
            ku.mass_in_kg(M), ku.distance_in_meters(q, M), ku.distance_in_cm(q, M), ku.distance_in_km(q, M),
            ku.time_in_seconds(q, M), ku.time2_in_seconds2(q, M), ku.time_in_days(q, M),
            ku.frequency_in_Hz(q, M), ku.frequency_in_mHz(q, M))


def need_factors(q, M):
    m, s, kg_ = ku.distance_in_meters(1, 1), ku.time_in_seconds(1, 1), ku.mass_in_kg(1)
    return (True, True, True, M * kg_, q * M * m, q * M * m * 100, q * M * m / 1000,
            q * M * s, q * (M * s)**2, q * M * s / 86400,
            q / (M * s), q / (M * s) * 1000)


def long_distances(q, M):
    au, ly = ku.distance_in_au(q, M) / ku.distance_in_meters(q, M), ku.distance_in_lightyears(q, M) / ku.distance_in_meters(q, M)
    return close(1 / au, 1.495978707e11, 2e-3), close(1 / ly, 9.4607304725808e15, 2e-3), au, ly


def need_long_distances(q, M):
    """the same factor for every argument, within a part in five hundred of the defined lengths"""
    return (True, True, ku.distance_in_au(1, 1) / ku.distance_in_meters(1, 1), ku.distance_in_lightyears(1, 1) / ku.distance_in_meters(1, 1))


def mechanical(E, L, Q, M):
    return (ku.energy_in_joules(E, M), ku.energy_in_ergs(E, M), ku.angular_momentum_in_mks(L, M), ku.angular_momentum_in_cgs(L, M),
            ku.carter_constant_in_mks(Q, M), ku.carter_constant_in_cgs(Q, M))


def need_mechanical(E, L, Q, M):
    """energy M c^2, angular momentum M c^2 (GM/c^3), Carter constant its square"""
    m, s, kg_ = ku.distance_in_meters(1, 1), ku.time_in_seconds(1, 1), ku.mass_in_kg(1)
    en = M * kg_ * (m / s)**2
    am = en * M * s
    return E * en, E * en * 1e7, L * am, L * am * 1e7, Q * am**2, Q * am**2 * 1e14


def light(q, M):
    return close(ku.distance_in_meters(1, 1) / ku.time_in_seconds(1, 1), 299792458.0, 1e-9)


def need_light(q, M):
    return True


# ---------------------------------------------------------------- U02 unit options
def at(fs, lam):
    t, r, th, ph = fs
    return t(lam), r(lam), th(lam), ph(lam)


def scaled(y, M, d, t):
    return ref_time(y[0], M, t), ref_length(y[1], M, d), y[2], y[3]


def ref_length(d, M, units):
    if units == "natural":
        return d
    if units == "mks":
        return ku.distance_in_meters(d, M)
    if units == "cgs":
        return ku.distance_in_cm(d, M)
    if units == "km":
        return ku.distance_in_km(d, M)
    if units == "au":
        return ku.distance_in_au(d, M)
    raise ref.DontCare()


def ref_time(t, M, units):
    if units == "natural":
        return t
    if units == "mks" or units == "cgs":
        return ku.time_in_seconds(t, M)
    if units == "days":
        return ku.time_in_days(t, M)
    raise ref.DontCare()


LENGTHS = ("natural", "mks", "cgs", "km", "au")
TIMES = ("natural", "mks", "cgs", "days")


def stable_units(a, p, e, x, q0, q1, q2, q3, lam, M):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3), M)
    out = [at(o.trajectory(distance_units=d, time_units="natural"), lam) for d in LENGTHS]
    return out + [at(o.trajectory(distance_units="natural", time_units=t), lam) for t in TIMES]


def need_stable_units(a, p, e, x, q0, q1, q2, q3, lam, M):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3), M)
    y = at(o.trajectory(), lam)
    return [scaled(y, M, d, "natural") for d in LENGTHS] + [scaled(y, M, "natural", t) for t in TIMES]


def stable_function_units(a, p, e, x, q0, q1, q2, q3, lam, M):
    q = (q0, q1, q2, q3)
    return [at(ks.stable_trajectory(a, p, e, x, q, M, d, t), lam) for d, t in (("mks", "days"), ("au", "cgs"), ("natural", "natural"))]


def need_stable_function_units(a, p, e, x, q0, q1, q2, q3, lam, M):
    y = at(ks.stable_trajectory(a, p, e, x, (q0, q1, q2, q3)), lam)
    return [scaled(y, M, d, t) for d, t in (("mks", "days"), ("au", "cgs"), ("natural", "natural"))]


def plunge_units(a, E, L, Q, q0, q1, q2, q3, lam, M):
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3), M)
    out = [at(o.trajectory(distance_units=d, time_units="natural"), lam) for d in LENGTHS]
    return out + [at(o.trajectory(distance_units="natural", time_units=t), lam) for t in TIMES]


def need_plunge_units(a, E, L, Q, q0, q1, q2, q3, lam, M):
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3), M)
    y = at(o.trajectory(), lam)
    return [scaled(y, M, d, "natural") for d in LENGTHS] + [scaled(y, M, "natural", t) for t in TIMES]


def plunge_function_units(a, E, L, Q, q0, q1, q2, q3, lam, M):
    dontcare(a == 0)
    q = (q0, q1, q2, q3)
    return [at(kp.plunging_trajectory(a, E, L, Q, q, M, d, t), lam) for d, t in (("mks", "days"), ("au", "cgs"), ("natural", "natural"))]


def need_plunge_function_units(a, E, L, Q, q0, q1, q2, q3, lam, M):
    dontcare(a == 0)
    y = at(kp.plunging_trajectory(a, E, L, Q, (q0, q1, q2, q3)), lam)
    return [scaled(y, M, d, t) for d, t in (("mks", "days"), ("au", "cgs"), ("natural", "natural"))]


def refused(f):
    try:
        f()
    except ValueError:
        return True
    return False


def stable_without_mass(a, p, e, x):
    o = kg.StableOrbit(a, p, e, x)
    out = [refused(lambda: o.trajectory(distance_units=d)) for d in LENGTHS]
    out += [refused(lambda: o.trajectory(time_units=t)) for t in TIMES]
    out += [refused(lambda: o.mino_frequencies(u)) for u in ("natural", "mks", "cgs")]
    out += [refused(lambda: o.fundamental_frequencies(u)) for u in ("natural", "mks", "cgs", "mHz")]
    out += [refused(lambda: o.constants_of_motion(u)) for u in ("natural", "mks", "cgs")]
    m = kg.StableOrbit(a, p, e, x, M=3)
    out += [refused(lambda: m.constants_of_motion(u)) for u in ("natural", "mks", "cgs")]
    n = kg.StableOrbit(a, p, e, x, mu=3)
    out += [refused(lambda: n.constants_of_motion(u)) for u in ("natural", "mks", "cgs")]
    return out


def need_stable_without_mass(a, p, e, x):
    kg.StableOrbit(a, p, e, x)
    u = [False, True, True]
    return u + [True, True] + u + [True] + u + u + [True] + u + u + u


def plunge_without_mass(a, E, L, Q):
    o = kg.PlungingOrbit(a, E, L, Q)
    out = [refused(lambda: o.trajectory(distance_units=d)) for d in LENGTHS]
    out += [refused(lambda: o.trajectory(time_units=t)) for t in TIMES]
    return out + [refused(lambda: o.constants_of_motion(u)) for u in ("natural", "mks", "cgs")]


def need_plunge_without_mass(a, E, L, Q):
    kg.PlungingOrbit(a, E, L, Q)
    u = [False, True, True]
    return u + [True, True] + u + [True] + u


# ---------------------------------------------------------------- U03 frequencies and constants in physical units
def stable_frequency_units(a, p, e, x, M):
    o = kg.StableOrbit(a, p, e, x, M=M)
    return ([o.mino_frequencies(u) for u in ("natural", "mks", "cgs")],
            [o.fundamental_frequencies(u) for u in ("natural", "mks", "cgs", "mHz")])


def need_stable_frequency_units(a, p, e, x, M):
    o = kg.StableOrbit(a, p, e, x, M=M)
    ur, ut, up, G = o.mino_frequencies()
    w = o.fundamental_frequencies()
    s = ku.time_in_seconds(1, 1) * M
    mino = (ur * s, ut * s, up * s, G * s**2)
    hz = tuple(f / s for f in w)
    return [(ur, ut, up, G), mino, mino], [w, hz, hz, tuple(1000 * f for f in hz)]


def stable_constants_units(a, p, e, x, M, mu):
    o = kg.StableOrbit(a, p, e, x, M=M, mu=mu)
    return [o.constants_of_motion(u) for u in ("natural", "mks", "cgs")]


def physical(E, L, Q, M, mu):
    """E mu c^2, L mu M c^2 (GM/c^3), Q times its square"""
    m, s, kg_ = ku.distance_in_meters(1, 1), ku.time_in_seconds(1, 1), ku.mass_in_kg(1)
    en = mu * kg_ * (m / s)**2
    am = en * M * s
    return [(E, L, Q), (E * en, L * am, Q * am**2), (E * en * 1e7, L * am * 1e7, Q * am**2 * 1e14)]


def need_stable_constants_units(a, p, e, x, M, mu):
    o = kg.StableOrbit(a, p, e, x)
    E, L, Q = o.constants_of_motion()
    return physical(E, L, Q, M, mu)


def plunge_constants_units(a, E, L, Q, M, mu):
    o = kg.PlungingOrbit(a, E, L, Q, M=M, mu=mu)
    return [o.constants_of_motion(u) for u in ("natural", "mks", "cgs")]


def need_plunge_constants_units(a, E, L, Q, M, mu):
    kg.PlungingOrbit(a, E, L, Q)
    return physical(E, L, Q, M, mu)


def scale(E, L, Q, M, mu):
    return kc.scale_constants((E, L, Q), M, mu)


def need_scale(E, L, Q, M, mu):
    return E * mu, L * mu * M, Q * (mu * M)**2
