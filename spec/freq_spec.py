"""Obligations about kerrgeopy.frequencies."""
import numpy as np
from numpy import sqrt, pi
from scipy.special import ellipk
import kerrgeopy as kg
import kerrgeopy.constants as kc
import kerrgeopy.frequencies as kf
import kg_ref as ref
from kg_ref import dontcare


# ---------------------------------------------------------------- F02 values
def single(a, p, e, x):
    return kf.r_frequency(a, p, e, x), abs(kf.theta_frequency(a, p, e, x)), kf.phi_frequency(a, p, e, x), kf.gamma(a, p, e, x)


def mino(a, p, e, x):
    return kf.mino_frequencies(a, p, e, x)


def need_mino(a, p, e, x):
    return ref.mino(a, p, e, x)


# ---------------------------------------------------------------- F03 Boyer-Lindquist frequencies
def fundamental(a, p, e, x):
    return kf.fundamental_frequencies(a, p, e, x)


def fundamental_orbit(a, p, e, x):
    o = kg.StableOrbit(a, p, e, x)
    return o.fundamental_frequencies()


def fundamental_attr(a, p, e, x):
    o = kg.StableOrbit(a, p, e, x)
    return o.omega_r, o.omega_theta, o.omega_phi


def need_fundamental(a, p, e, x):
    ur, uth, uph, G = kf.mino_frequencies(a, p, e, x)
    return ur / G, uth / G, uph / G


def need_fundamental_ref(a, p, e, x):
    ur, uth, uph, G = ref.mino(a, p, e, x)
    return ur / G, uth / G, uph / G


def mino_orbit(a, p, e, x):
    o = kg.StableOrbit(a, p, e, x)
    return o.mino_frequencies(), (o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma)


def need_mino_orbit(a, p, e, x):
    m = kf.mino_frequencies(a, p, e, x)
    return m, m


# ---------------------------------------------------------------- F01 from-constants variants
def variants(a, E, L, Q, r1, r2, r3, r4, zm, zp):
    c, rr, pr = (E, L, Q), (r1, r2, r3, r4), (zm, zp)
    return (kf._r_frequency_from_constants(c, rr), abs(kf._theta_frequency_from_constants(a, c, rr, pr)),
            kf._phi_frequency_from_constants(a, c, rr, pr), kf._gamma_from_constants(a, c, rr, pr))


def variants_all(a, E, L, Q, r1, r2, r3, r4, zm, zp):
    return kf._mino_frequencies_from_constants(a, (E, L, Q), (r1, r2, r3, r4), (zm, zp))


def variants_fundamental(a, E, L, Q, r1, r2, r3, r4, zm, zp):
    return kf._fundamental_frequencies_from_constants(a, (E, L, Q), (r1, r2, r3, r4), (zm, zp))


def need_variants(a, E, L, Q, r1, r2, r3, r4, zm, zp):
    ur = ref.r_freq(E, r1, r2, r3, r4)
    e = (r1 - r2) / (r1 + r2)
    dontcare(E == 1)
    if a == 0:
        p = 2 * r1 * r2 / (r1 + r2)
        w = p / sqrt(p - 3 - e**2)
        uth = np.sign(L) * w if e == 0 else w
        uph = np.sign(L) * w
    else:
        uth = ref.theta_freq(a, E, L, zm, zp)
        uph = ref.phi_freq(a, E, L, r1, r2, r3, r4, zm, zp, ur, uth)
    return ur, abs(uth), uph, ref.gamma_freq(a, E, L, r1, r2, r3, r4, zm, zp, ur, uth)


def need_variants_fundamental(a, E, L, Q, r1, r2, r3, r4, zm, zp):
    ur, uth, uph, G = need_variants(a, E, L, Q, r1, r2, r3, r4, zm, zp)
    return ur / G, uth / G, uph / G


# ---------------------------------------------------------------- F04 plunging frequencies
def plunging(a, E, L, Q):
    return kf.plunging_mino_frequencies(a, E, L, Q)


def need_plunging(a, E, L, Q):
    return ref.plunging_frequencies(a, E, L, Q)


# ---------------------------------------------------------------- E01 elliptic integrals
def ell(phi, n, m):
    return kf._ellippi(n, m), kf._ellippiinc(phi, n, m), kf._ellipeinc(phi, m)


def need_ell(phi, n, m):
    return ref.ellippi(n, m), ref.ellippiinc(phi, n, m), ref.ellipeinc_ext(phi, m)


# ---------------------------------------------------------------- C02 optional precomputed values
def given_constants(a, p, e, x):
    b, y = ref.standard(a, x)
    ref.bound_frequency(b, p, e, y)
    c = kc.constants_of_motion(a, p, e, x)
    return (kf.r_frequency(a, p, e, x, c), kf.theta_frequency(a, p, e, x, c), kf.phi_frequency(a, p, e, x, c),
            kf.gamma(a, p, e, x, c))


def recomputed(a, p, e, x):
    b, y = ref.standard(a, x)
    ref.bound_frequency(b, p, e, y)
    return (kf.r_frequency(a, p, e, x), kf.theta_frequency(a, p, e, x), kf.phi_frequency(a, p, e, x),
            kf.gamma(a, p, e, x))


def given_upsilon_r(a, p, e, x):
    b, y = ref.standard(a, x)
    ref.bound_frequency(b, p, e, y)
    u = kf.r_frequency(a, p, e, x)
    return kf.phi_frequency(a, p, e, x, None, u), kf.gamma(a, p, e, x, upsilon_r=u)


def given_upsilon_theta(a, p, e, x):
    b, y = ref.standard(a, x)
    ref.bound_frequency(b, p, e, y)
    u = kf.theta_frequency(a, p, e, x)
    return kf.phi_frequency(a, p, e, x, None, None, u), kf.gamma(a, p, e, x, upsilon_theta=u)


def given_all(a, p, e, x):
    b, y = ref.standard(a, x)
    ref.bound_frequency(b, p, e, y)
    c = kc.constants_of_motion(a, p, e, x)
    ur, ut = kf.r_frequency(a, p, e, x, c), kf.theta_frequency(a, p, e, x, c)
    return kf.phi_frequency(a, p, e, x, c, ur, ut), kf.gamma(a, p, e, x, c, ur, ut)


def recomputed2(a, p, e, x):
    b, y = ref.standard(a, x)
    ref.bound_frequency(b, p, e, y)
    return kf.phi_frequency(a, p, e, x), kf.gamma(a, p, e, x)


def given_el(a, p, e, x):
    E = kc.energy(a, p, e, x)
    L = kc.angular_momentum(a, p, e, x)
    return (kc.angular_momentum(a, p, e, x, E), kc.carter_constant(a, p, e, x, E), kc.carter_constant(a, p, e, x, None, L),
            kc.carter_constant(a, p, e, x, E, L))


def recomputed_el(a, p, e, x):
    L, Q = kc.angular_momentum(a, p, e, x), kc.carter_constant(a, p, e, x)
    return L, Q, Q, Q


def given_roots(a, p, e, x):
    b, y = ref.standard(a, x)
    ref.bound_frequency(b, p, e, y)
    c = kc.constants_of_motion(a, p, e, x)
    return kc.stable_radial_roots(a, p, e, x, c), kc.stable_polar_roots(a, p, e, x, c)


def recomputed_roots(a, p, e, x):
    b, y = ref.standard(a, x)
    ref.bound_frequency(b, p, e, y)
    return kc.stable_radial_roots(a, p, e, x), kc.stable_polar_roots(a, p, e, x)


def given_variant(a, E, L, Q, r1, r2, r3, r4, zm, zp):
    c, rr, pr = (E, L, Q), (r1, r2, r3, r4), (zm, zp)
    ur, ut = kf._r_frequency_from_constants(c, rr), kf._theta_frequency_from_constants(a, c, rr, pr)
    return (kf._phi_frequency_from_constants(a, c, rr, pr, ur, ut), kf._gamma_from_constants(a, c, rr, pr, ur, ut),
            kf._phi_frequency_from_constants(a, c, rr, pr, ur), kf._gamma_from_constants(a, c, rr, pr, None, ut))


def recomputed_variant(a, E, L, Q, r1, r2, r3, r4, zm, zp):
    c, rr, pr = (E, L, Q), (r1, r2, r3, r4), (zm, zp)
    f, h = kf._phi_frequency_from_constants(a, c, rr, pr), kf._gamma_from_constants(a, c, rr, pr)
    return f, h, f, h
