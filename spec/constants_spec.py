"""Obligations about kerrgeopy.constants: left-hand sides use the library, right-hand sides the reference."""
import numpy as np
from numpy import sqrt
import kerrgeopy as kg
import kerrgeopy.constants as kc
import kerrgeopy.frequencies as kf
import kerrgeopy.stable as ks
import kg_ref as ref
from kg_ref import dontcare


# ---------------------------------------------------------------- C01 domain
def ask_energy(a, p, e, x):
    kc.energy(a, p, e, x)
    return 1


def ask_angular_momentum(a, p, e, x):
    kc.angular_momentum(a, p, e, x)
    return 1


def ask_carter(a, p, e, x):
    kc.carter_constant(a, p, e, x)
    return 1


def ask_constants(a, p, e, x):
    kc.constants_of_motion(a, p, e, x)
    return 1


def ask_radial_roots(a, p, e, x):
    kc.stable_radial_roots(a, p, e, x)
    return 1


def ask_polar_roots(a, p, e, x):
    kc.stable_polar_roots(a, p, e, x)
    return 1


def need_bound(a, p, e, x):
    a, x = ref.standard(a, x)
    ref.bound(a, p, e, x)
    return 1


def need_bound_roots(a, p, e, x):
    """closed-form roots divide by 1-e (radial) and by L (polar)"""
    a, x = ref.standard(a, x)
    ref.bound(a, p, e, x)
    dontcare(e == 1 or x == 0)
    return 1


def ask_r(a, p, e, x):
    kf.r_frequency(a, p, e, x)
    return 1


def ask_theta(a, p, e, x):
    kf.theta_frequency(a, p, e, x)
    return 1


def ask_phi(a, p, e, x):
    kf.phi_frequency(a, p, e, x)
    return 1


def ask_gamma(a, p, e, x):
    kf.gamma(a, p, e, x)
    return 1


def ask_mino(a, p, e, x):
    kf.mino_frequencies(a, p, e, x)
    return 1


def ask_fundamental(a, p, e, x):
    kf.fundamental_frequencies(a, p, e, x)
    return 1


def ask_orbit(a, p, e, x):
    kg.StableOrbit(a, p, e, x)
    return 1


def ask_trajectory(a, p, e, x):
    ks.stable_trajectory(a, p, e, x)
    return 1


def need_bound_frequency(a, p, e, x):
    a, x = ref.standard(a, x)
    ref.bound_frequency(a, p, e, x)
    return 1


def ask_separatrix(a, p, e, x):
    kc.separatrix(a, e, x)
    return 1


def ask_spacetime_separatrix(a, p, e, x):
    kg.KerrSpacetime(a).separatrix(e, x)
    return 1


def need_range(a, p, e, x):
    if not ref.in_range(a, e, x):
        raise ValueError()
    return 1


def valid(a, p, e, x):
    return kc.valid_params(a, e, x)


def need_valid(a, p, e, x):
    dontcare(a == 1)
    return ref.in_range(a, e, x)


def stable(a, p, e, x):
    return kc.is_stable(a, p, e, x)


def public_stable(a, p, e, x):
    return kg.is_stable(a, p, e, x)


def spacetime_stable(a, p, e, x):
    return kg.KerrSpacetime(a).is_stable(p, e, x)


def need_stable(a, p, e, x):
    if not ref.in_range(a, e, x):
        raise ValueError()
    return p > ref.separatrix(a, e, x)


# ---------------------------------------------------------------- C04 constants of motion
def elq(a, p, e, x):
    return kc.constants_of_motion(a, p, e, x)


def elq_single(a, p, e, x):
    return kc.energy(a, p, e, x), kc.angular_momentum(a, p, e, x), kc.carter_constant(a, p, e, x)


def need_elq(a, p, e, x):
    a, x = ref.standard(a, x)
    ref.bound(a, p, e, x)
    return ref.ELQ(a, p, e, x)


def spec_e(a, p, e, x):
    return kc.energy(a, p, e, x)


# ---------------------------------------------------------------- C03 spin orientation
def elq_flip(a, p, e, x):
    dontcare(a == 0)
    return kc.constants_of_motion(-a, p, e, -x)


def elq_noflip(a, p, e, x):
    dontcare(a == 0)
    return kc.constants_of_motion(a, p, e, x)


def freq_flip(a, p, e, x):
    dontcare(a == 0)
    return (kf.r_frequency(-a, p, e, -x), kf.theta_frequency(-a, p, e, -x), kf.phi_frequency(-a, p, e, -x),
            kf.gamma(-a, p, e, -x), kf.mino_frequencies(-a, p, e, -x), kf.fundamental_frequencies(-a, p, e, -x))


def freq_noflip(a, p, e, x):
    dontcare(a == 0)
    return (kf.r_frequency(a, p, e, x), kf.theta_frequency(a, p, e, x), kf.phi_frequency(a, p, e, x),
            kf.gamma(a, p, e, x), kf.mino_frequencies(a, p, e, x), kf.fundamental_frequencies(a, p, e, x))


def orbit_data(o):
    return o.a, o.p, o.e, o.x, o.E, o.L, o.Q, o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma, o.initial_position, o.initial_velocity


def orbit_flip(a, p, e, x, q0, q1, q2, q3):
    dontcare(a == 0)
    return orbit_data(kg.StableOrbit(-a, p, e, -x, (q0, q1, q2, q3)))


def orbit_noflip(a, p, e, x, q0, q1, q2, q3):
    dontcare(a == 0)
    return orbit_data(kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3)))


def traj_flip(a, p, e, x, q0, q1, q2, q3, lam):
    dontcare(a == 0)
    return [f(lam) for f in ks.stable_trajectory(-a, p, e, -x, (q0, q1, q2, q3))]


def traj_noflip(a, p, e, x, q0, q1, q2, q3, lam):
    dontcare(a == 0)
    return [f(lam) for f in ks.stable_trajectory(a, p, e, x, (q0, q1, q2, q3))]


# ---------------------------------------------------------------- C05 roots of the potentials
def stable_roots(a, p, e, x):
    return kc.stable_radial_roots(a, p, e, x)


def need_stable_roots(a, p, e, x):
    a, x = ref.standard(a, x)
    ref.bound(a, p, e, x)
    dontcare(e == 1)
    E, L, Q = ref.ELQ(a, p, e, x)
    return ref.stable_radial_roots(a, p, e, E, Q)


def stable_roots_given(a, p, e, x, E, L, Q):
    return kc.stable_radial_roots(a, p, e, x, (E, L, Q))


def need_stable_roots_given(a, p, e, x, E, L, Q):
    return ref.stable_radial_roots(a, p, e, E, Q)


def stable_polar(a, p, e, x):
    return kc.stable_polar_roots(a, p, e, x)


def need_stable_polar(a, p, e, x):
    a, x = ref.standard(a, x)
    ref.bound(a, p, e, x)
    dontcare(x == 0 or e == 1)
    E, L, Q = ref.ELQ(a, p, e, x)
    return ref.stable_polar_roots(a, x, E, L)


def stable_polar_given(a, p, e, x, E, L, Q):
    return kc.stable_polar_roots(a, p, e, x, (E, L, Q))


def need_stable_polar_given(a, p, e, x, E, L, Q):
    dontcare(x == 0)
    return ref.stable_polar_roots(a, x, E, L)


# intrinsic: the four radial roots satisfy Vieta's relations of the radial potential
def vieta(a, p, e, x, E, L, Q):
    r1, r2, r3, r4 = kc.stable_radial_roots(a, p, e, x, (E, L, Q))
    return (r1 + r2 + r3 + r4, r1 * r2 * r3 * r4, r1 * (1 - e), r2 * (1 + e))


def need_vieta(a, p, e, x, E, L, Q):
    return (2 / (1 - E**2), a**2 * Q / (1 - E**2), p, p)


# ---------------------------------------------------------------- C06 plunging roots
def plunging_roots(a, E, L, Q):
    return kc.plunging_radial_roots(a, E, L, Q)


def need_plunging_roots(a, E, L, Q):
    roots = np.polynomial.Polynomial(ref.R_coefficients(a, E, L, Q)).roots()
    real = np.sort(np.real(roots[np.isreal(roots)]))
    cplx = roots[np.iscomplex(roots)]
    if len(real) == 4:
        if real[1] > 1 - sqrt(1 - a**2):
            return real[1], real[0], real[3], real[2]
        return real[3], real[2], real[1], real[0]
    if len(real) == 2:
        return real[0], real[1], cplx[0], cplx[1]
    raise ValueError()


# ---------------------------------------------------------------- C07 separatrix
def sep(a, p, e, x):
    return kc.separatrix(a, e, x), kg.KerrSpacetime(a).separatrix(e, x)


def need_sep(a, p, e, x):
    s = ref.separatrix(a, e, x)
    return s, s


# intrinsic: the general separatrix polynomial degenerates to the special ones
def s_general_equatorial(p, a, e):
    return kc._S(p, a, e, 1) - kc._S(p, a, e, -1), kc._S(p, a, e, 1) - p**8 * kc._S_equatorial(p, a, e)


def need_s_general_equatorial(p, a, e):
    return 0, 0


def s_general_polar(p, a, e):
    return kc._S(p, a, e, 0)


def need_s_general_polar(p, a, e):
    return ref.S_polar(p, a, e)**2


# ---------------------------------------------------------------- C08 fast separatrix
def fast(a, h, e, x):
    return kc.fast_separatrix(a, h)(e, x)


def fast_default(a, h, e, x):
    return kc.fast_separatrix(a)(e, x)


def need_fast(a, h, e, x):
    return fast_table(a, h)(e, x)


def need_fast_default(a, h, e, x):
    return fast_table(a, 0.01)(e, x)


def fast_table(a, h):
    from scipy.interpolate import RectBivariateSpline
    ne, nx = int(1 / h), int(2 / h)
    es, xs = np.linspace(0, 1, ne), np.linspace(-1, 1, nx)
    table = np.zeros((ne, nx))
    for i in range(ne):
        for j in range(nx):
            table[i, j] = ref.separatrix(a, es[i], xs[j])
    return RectBivariateSpline(es, xs, table)


# ---------------------------------------------------------------- C09 elements from constants
def apex(a, E, L, Q):
    return kc.apex_from_constants(a, E, L, Q)


def need_apex(a, E, L, Q):
    r = np.polynomial.Polynomial(ref.R_coefficients(a, E, L, Q)).roots()
    r1, r2 = r[3], r[2]
    zm, zp = ref.polar_roots(a, E, L, Q)
    return a, 2 * r1 * r2 / (r1 + r2), (r1 - r2) / (r1 + r2), np.sign(L) * sqrt(1 - zm)


def from_constants(a, E, L, Q, q0, q1, q2, q3, M, mu):
    o = kg.StableOrbit.from_constants(a, E, L, Q, (q0, q1, q2, q3), M, mu)
    return orbit_data(o), o.initial_phases, o.M, o.mu


def need_from_constants(a, E, L, Q, q0, q1, q2, q3, M, mu):
    b, p, e, x = kc.apex_from_constants(a, E, L, Q)
    o = kg.StableOrbit(b, p, e, x, (q0, q1, q2, q3), M, mu)
    return orbit_data(o), (q0, q1, q2, q3), M, mu


def need_rejected(a, p, e, x):
    """an undefined (NaN) parameter"""
    raise ValueError


def from_constants_default(a, E, L, Q):
    o = kg.StableOrbit.from_constants(a, E, L, Q)
    return o.initial_phases, o.M, o.mu


def need_from_constants_default(a, E, L, Q):
    kg.StableOrbit.from_constants(a, E, L, Q, (0, 0, 0, 0))
    return (0, 0, 0, 0), None, None
