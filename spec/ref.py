"""Reference formulation used on the right-hand side of the obligations.

Written from the published formulas (Schmidt 2002; Fujita & Hikida 2009; Stein & Warburton 2020;
Dyson & van de Meent 2023), independently of kerrgeopy's helpers.  Never executed by a check: it is
translated to a value graph by the same front end as the analysed code.
"""
import numpy as np
from numpy import sqrt, sin, cos, arcsin, arccos, arctan, arctan2, log, pi
from scipy.special import ellipk, ellipe, ellipj, ellipeinc, ellipkinc, elliprf, elliprd, elliprj
from scipy.optimize import root_scalar


class DontCare(Exception):
    """the property says nothing about this input"""


def dontcare(cond):
    if cond:
        raise DontCare()


# ------------------------------------------------------------------ domain
def standard(a, x):
    if a < 0:
        return -a, -x
    return a, x


def in_range(a, e, x):
    return 0 <= a and a < 1 and 0 <= e and e <= 1 and -1 <= x and x <= 1


def separatrix(a, e, x):
    if not in_range(a, e, x):
        raise ValueError()
    if a == 0:
        return 6 + 2 * e
    polar_lo = 1 + sqrt(3) + sqrt(3 + 2 * sqrt(3))
    if x == 0:
        return root_scalar(S_polar, args=(a, e), bracket=[polar_lo, 8]).root
    if x == 1:
        return root_scalar(S_equatorial, args=(a, e), bracket=[1 + e, 6 + 2 * e]).root
    if x == -1:
        return root_scalar(S_equatorial, args=(a, e), bracket=[6 + 2 * e, 5 + e + 4 * sqrt(1 + e)]).root
    p_pol = root_scalar(S_polar, args=(a, e), bracket=[polar_lo, 8]).root
    if x > 0:
        p_eq = root_scalar(S_equatorial, args=(a, e), bracket=[1 + e, 6 + 2 * e]).root
        return root_scalar(S_general, args=(a, e, x), bracket=[p_eq, p_pol]).root
    return root_scalar(S_general, args=(a, e, x), bracket=[p_pol, 12]).root


def bound(a, p, e, x):
    """a, x already standardised"""
    if not in_range(a, e, x):
        raise ValueError()
    if not p > separatrix(a, e, x):
        raise ValueError()


def bound_frequency(a, p, e, x):
    if x == 0 or e == 1:
        raise ValueError()
    bound(a, p, e, x)


# separatrix polynomials, Stein & Warburton 2020 eqs. (33), (37), (38)
def S_equatorial(p, a, e):
    return (a**4 * (-3 - 2*e + e**2)**2 + p**2 * (-6 - 2*e + p)**2
            - 2 * a**2 * (1 + e) * p * (14 + 2*e**2 + 3*p - e*p))


def S_polar(p, a, e):
    return (p**5 * (-6 - 2*e + p)
            + a**2 * p**3 * (-4 * (-1 + e) * (1 + e)**2 + (3 + e * (2 + 3*e)) * p)
            - a**4 * (1 + e)**2 * p * (6 + 2*e**3 + 2*e*(-1 + p) - 3*p - 3*e**2*(2 + p))
            + a**6 * (-1 + e)**2 * (1 + e)**4)


def S_general(p, a, e, x):
    return (-4 * (3 + e) * p ** 11 + p ** 12 + a ** 12 * (-1 + e) ** 4 * (1 + e) ** 8 * (-1 + x) ** 4 * (1 + x) ** 4 - 4 *
            a ** 10 * (-3 + e) * (-1 + e) ** 3 * (1 + e) ** 7 * p * (-1 + x ** 2) ** 4 - 4 * a ** 8 * (-1 + e) * (1 + e)
            ** 5 * p ** 3 * (-1 + x) ** 3 * (1 + x) ** 3 * (7 - 7 * x ** 2 - e ** 2 * (-13 + x ** 2) + e ** 3 * (-5 + x **
            2) + 7 * e * (-1 + x ** 2)) + 8 * a ** 6 * (-1 + e) * (1 + e) ** 3 * p ** 5 * (-1 + x ** 2) ** 2 * (3 + e + 12
            * x ** 2 + 4 * e * x ** 2 + e ** 3 * (-5 + 2 * x ** 2) + e ** 2 * (1 + 2 * x ** 2)) - 8 * a ** 4 * (1 + e) **
            2 * p ** 7 * (-1 + x) * (1 + x) * (-3 + e + 15 * x ** 2 - 5 * e * x ** 2 + e ** 3 * (-5 + 3 * x ** 2) + e ** 2
            * (-1 + 3 * x ** 2)) + 4 * a ** 2 * p ** 9 * (-7 - 7 * e + e ** 3 * (-5 + 4 * x ** 2) + e ** 2 * (-13 + 12 * x
            ** 2)) + 2 * a ** 8 * (-1 + e) ** 2 * (1 + e) ** 6 * p ** 2 * (-1 + x ** 2) ** 3 * (2 * (-3 + e) ** 2 * (-1 +
            x ** 2) + a ** 2 * (e ** 2 * (-3 + x ** 2) - 3 * (1 + x ** 2) + 2 * e * (1 + x ** 2))) - 2 * p ** 10 * (-2 *
            (3 + e) ** 2 + a ** 2 * (-3 + 6 * x ** 2 + e ** 2 * (-3 + 2 * x ** 2) + e * (-2 + 4 * x ** 2))) + a ** 6 * (1
            + e) ** 4 * p ** 4 * (-1 + x ** 2) ** 2 * (-16 * (-1 + e) ** 2 * (-3 - 2 * e + e ** 2) * (-1 + x ** 2) + a **
            2 * (15 + 6 * x ** 2 + 9 * x ** 4 + e ** 2 * (26 + 20 * x ** 2 - 2 * x ** 4) + e ** 4 * (15 - 10 * x ** 2 + x
            ** 4) + 4 * e ** 3 * (-5 - 2 * x ** 2 + x ** 4) - 4 * e * (5 + 2 * x ** 2 + 3 * x ** 4))) - 4 * a ** 4 * (1 +
            e) ** 2 * p ** 6 * (-1 + x) * (1 + x) * (-2 * (11 - 14 * e ** 2 + 3 * e ** 4) * (-1 + x ** 2) + a ** 2 * (5 -
            5 * x ** 2 - 9 * x ** 4 + 4 * e ** 3 * x ** 2 * (-2 + x ** 2) + e ** 4 * (5 - 5 * x ** 2 + x ** 4) + e ** 2 *
            (6 - 6 * x ** 2 + 4 * x ** 4))) + a ** 2 * p ** 8 * (-16 * (1 + e) ** 2 * (-3 + 2 * e + e ** 2) * (-1 + x **
            2) + a ** 2 * (15 - 36 * x ** 2 + 30 * x ** 4 + e ** 4 * (15 - 20 * x ** 2 + 6 * x ** 4) + 4 * e ** 3 * (5 -
            12 * x ** 2 + 6 * x ** 4) + 4 * e * (5 - 12 * x ** 2 + 10 * x ** 4) + e ** 2 * (26 - 72 * x ** 2 + 44 * x **
            4))))


# ------------------------------------------------------------------ constants of motion (Schmidt B.17 - B.22)
def dets(r, a, x):
    z2 = 1 - x**2
    D = r**2 - 2*r + a**2
    f = r**4 + a**2 * (r * (r + 2) + z2 * D)
    g = 2 * a * r
    h = r * (r - 2) + z2 / (1 - z2) * D
    d = (r**2 + a**2 * z2) * D
    return f, g, h, d


def ddets(r, a, x):
    z2 = 1 - x**2
    f = 4 * r**3 + 2 * a**2 * ((1 + z2) * r + (1 - z2))
    g = 2 * a
    h = 2 * (r - 1) / (1 - z2)
    d = 2 * (2*r - 3) * r**2 + 2 * a**2 * ((1 + z2) * r - z2)
    return f, g, h, d


def polar_den(a, p, e):
    return (a**4 * (1 - e**2)**2 * (-1 + e**2 - p) + (3 + e**2 - p) * p**4
            - 2 * a**2 * p**2 * (-1 - e**4 + p + e**2 * (2 + p)))


def energy(a, p, e, x):
    """standardised arguments, bound orbit"""
    if e == 1:
        return 1
    if x == 0:
        num = p * (a**4 * (1 - e**2)**2 + (-4 * e**2 + (p - 2)**2) * p**2 + 2 * a**2 * p * (-2 + p + e**2 * (2 + p)))
        return sqrt(-num / polar_den(a, p, e))
    if e == 0:
        f1, g1, h1, d1 = dets(p, a, x)
        f2, g2, h2, d2 = ddets(p, a, x)
    else:
        f1, g1, h1, d1 = dets(p / (1 - e), a, x)
        f2, g2, h2, d2 = dets(p / (1 + e), a, x)
    kappa = d1 * h2 - h1 * d2
    rho = f1 * h2 - h1 * f2
    sigma = g1 * h2 - h1 * g2
    eps = d1 * g2 - g1 * d2
    eta = f1 * g2 - g1 * f2
    s = 1 if x > 0 else -1
    disc = sigma * (sigma * eps**2 + rho * eps * kappa - eta * kappa**2)
    return sqrt((kappa * rho + 2 * eps * sigma - 2 * s * sqrt(disc)) / (rho**2 + 4 * eta * sigma))


def angular_momentum(a, p, e, x, E):
    if x == 0:
        return 0
    s = 1 if x > 0 else -1
    r = p / (1 + e) if e == 1 else p / (1 - e)
    f, g, h, d = dets(r, a, x)
    return (-E * g + s * sqrt(-d * h + E**2 * (g**2 + f * h))) / h


def carter(a, p, e, x, E, L):
    if x == 0:
        num = p**2 * (a**4 * (1 - e**2)**2 + p**4 + 2 * a**2 * p * (-2 + p + e**2 * (2 + p)))
        return -num / polar_den(a, p, e)
    z2 = 1 - x**2
    return z2 * (a**2 * (1 - E**2) + L**2 / (1 - z2))


def ELQ(a, p, e, x):
    E = energy(a, p, e, x)
    L = angular_momentum(a, p, e, x, E)
    return E, L, carter(a, p, e, x, E, L)


# ------------------------------------------------------------------ potentials and their roots
def R_coefficients(a, E, L, Q):
    return [-a**2 * Q, 2 * (L - a*E)**2 + 2 * Q, a**2 * (E**2 - 1) - L**2 - Q, 2, E**2 - 1]


def Z_coefficients(a, E, L, Q):
    """in z = cos(theta)**2"""
    return [Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)]


def R(a, E, L, Q, r):
    return (E * (r**2 + a**2) - a * L)**2 - (r**2 - 2*r + a**2) * (r**2 + (L - a*E)**2 + Q)


def Z(a, E, L, Q, z):
    """z = cos(theta)"""
    return Q * (1 - z**2) - z**2 * (a**2 * (1 - E**2) * (1 - z**2) + L**2)


def polar_roots(a, E, L, Q):
    zr = np.polynomial.Polynomial(Z_coefficients(a, E, L, Q)).roots()
    if a == 0:
        return zr[0], zr[0]
    return zr[0], zr[1]


def stable_radial_roots(a, p, e, E, Q):
    r1, r2 = p / (1 - e), p / (1 + e)
    s = 2 / (1 - E**2) - r1 - r2
    t = a**2 * Q / (r1 * r2 * (1 - E**2))
    r3 = (s + sqrt(s**2 - 4 * t)) / 2
    return r1, r2, r3, t / r3


def stable_polar_roots(a, x, E, L):
    zm = 1 - x**2
    if a == 0:
        return zm, np.nan
    return zm, 1 + L**2 / (a**2 * (1 - E**2) * x**2)


def horizons(a):
    s = sqrt(1 - a**2)
    return 1 + s, 1 - s


# ------------------------------------------------------------------ elliptic integrals
def ellippi(n, m):
    return elliprf(0, 1 - m, 1) + n * elliprj(0, 1 - m, 1, 1 - n) / 3


def ellippiinc(phi, n, m):
    N = np.floor(2 * phi / pi)
    s = sin(abs(arcsin(sin(phi))))
    c2 = 1 - s**2
    part = s * elliprf(c2, 1 - m * s**2, 1) + n * s**3 * elliprj(c2, 1 - m * s**2, 1, 1 - n * s**2) / 3
    full = ellippi(n, m)
    return np.where(N % 2 == 0, N * full + part, (N + 1) * full - part)


def ellipeinc_ext(phi, m):
    N = np.floor(2 * phi / pi)
    s = sin(abs(arcsin(sin(phi))))
    c2 = 1 - s**2
    part = s * elliprf(c2, 1 - m * s**2, 1) - m * s**3 * elliprd(c2, 1 - m * s**2, 1) / 3
    full = ellipe(m)
    return np.where(N % 2 == 0, N * full + part, (N + 1) * full - part)


# ------------------------------------------------------------------ Mino frequencies (Fujita & Hikida)
def modulus_r(r1, r2, r3, r4):
    return (r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4))


def r_freq(E, r1, r2, r3, r4):
    return pi * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4)) / (2 * ellipk(modulus_r(r1, r2, r3, r4)))


def e0zp(a, E, L, zm):
    return (a**2 * (1 - E**2) * (1 - zm) + L**2) / (L**2 * (1 - zm))


def theta_freq(a, E, L, zm, zp):
    """a != 0"""
    return pi * L * sqrt(e0zp(a, E, L, zm)) / (2 * ellipk(zm / zp))


def horizon_term(r1, r2, r3, r4, rh, m):
    h = (r1 - r2) * (r3 - rh) / ((r1 - r3) * (r2 - rh))
    return (ellipk(m) - (r2 - r3) / (r2 - rh) * ellippi(h, m)) / (r3 - rh)


def phi_freq(a, E, L, r1, r2, r3, r4, zm, zp, ur, uth):
    """a != 0"""
    rp, rm = horizons(a)
    m = modulus_r(r1, r2, r3, r4)
    pol = 2 * uth / (pi * sqrt(e0zp(a, E, L, zm))) * ellippi(zm, zm / zp)
    rad = 2 * a * ur / (pi * (rp - rm) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))) * (
        (2 * E * rp - a * L) * horizon_term(r1, r2, r3, r4, rp, m)
        - (2 * E * rm - a * L) * horizon_term(r1, r2, r3, r4, rm, m))
    return pol + rad


def polar_time_factor(a, E, L, zm, zp):
    """a^2 sqrt(z_+/epsilon_0)"""
    if a == 0:
        return L**2 / ((1 - E**2) * sqrt(1 - zm))
    return a**2 * zp / sqrt(a**2 * (1 - E**2) / L**2 * zp)


def gamma_freq(a, E, L, r1, r2, r3, r4, zm, zp, ur, uth):
    rp, rm = horizons(a)
    m = modulus_r(r1, r2, r3, r4)
    mt = 0 if a == 0 else zm / zp
    hr = (r1 - r2) / (r1 - r3)
    pol = 2 * polar_time_factor(a, E, L, zm, zp) * E * uth * (ellipk(mt) - ellipe(mt)) / (pi * L)
    K, Ee, Pi = ellipk(m), ellipe(m), ellippi(hr, m)
    sq = (E / 2 * ((r3 * (r1 + r2 + r3) - r1 * r2) * K + (r2 - r3) * (r1 + r2 + r3 + r4) * Pi + (r1 - r3) * (r2 - r4) * Ee))
    lin = 2 * E * (r3 * K + (r2 - r3) * Pi)
    hor = 2 / (rp - rm) * (((4 * E - a * L) * rp - 2 * a**2 * E) * horizon_term(r1, r2, r3, r4, rp, m)
                           - ((4 * E - a * L) * rm - 2 * a**2 * E) * horizon_term(r1, r2, r3, r4, rm, m))
    return 4 * E + pol + 2 * ur / (pi * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))) * (sq + lin + hor)


def stable_geometry(a, p, e, x):
    """standardised -> constants, radial roots, polar roots"""
    E, L, Q = ELQ(a, p, e, x)
    r1, r2, r3, r4 = stable_radial_roots(a, p, e, E, Q)
    zm, zp = stable_polar_roots(a, x, E, L)
    return E, L, Q, r1, r2, r3, r4, zm, zp


def signed_frequencies(a, p, e, x):
    """standardised, bound; the polar frequency carries the orientation sign used internally"""
    E, L, Q, r1, r2, r3, r4, zm, zp = stable_geometry(a, p, e, x)
    ur = r_freq(E, r1, r2, r3, r4)
    s = 1 if x > 0 else -1
    if a == 0:
        w = p / sqrt(p - 3 - e**2)
        uth = s * w if e == 0 else w
        uph = s * w
    else:
        uth = theta_freq(a, E, L, zm, zp)
        uph = phi_freq(a, E, L, r1, r2, r3, r4, zm, zp, ur, uth)
    return ur, uth, uph, gamma_freq(a, E, L, r1, r2, r3, r4, zm, zp, ur, uth)


def mino(a, p, e, x):
    """any sign of a"""
    a, x = standard(a, x)
    bound_frequency(a, p, e, x)
    ur, uth, uph, G = signed_frequencies(a, p, e, x)
    return ur, abs(uth), uph, G


# ------------------------------------------------------------------ plunging orbits (Dyson & van de Meent)
def classified_roots(a, E, L, Q):
    """(real?, r1, r2, r3, r4)"""
    roots = np.polynomial.Polynomial(R_coefficients(a, E, L, Q)).roots()
    real = np.sort(np.real(roots[np.isreal(roots)]))
    cplx = roots[np.iscomplex(roots)]
    if len(real) == 4:
        if real[1] > 1 - sqrt(1 - a**2):
            return True, real[1], real[0], real[3], real[2]
        return True, real[3], real[2], real[1], real[0]
    if len(real) == 2:
        return False, real[0], real[1], cplx[0], cplx[1]
    raise ValueError()


def complex_pair(r1, r2, r3, r4):
    """A, B, squared modulus"""
    re, im = np.real(r3), np.imag(r4)
    A, B = sqrt((r2 - re)**2 + im**2), sqrt((r1 - re)**2 + im**2)
    return A, B, ((r2 - r1)**2 - (A - B)**2) / (4 * A * B)


def plunging_polar(a, E, L, Q):
    """z1, z2, squared modulus"""
    b = a**2 * (1 - E**2)
    s = 1 + (L**2 + Q) / b
    root = sqrt(s**2 - 4 * Q / b)
    z1, z2 = sqrt((s - root) / 2), sqrt(b * (s + root) / 2)
    return z1, z2, b * (z1 / z2)**2


def plunging_frequencies(a, E, L, Q):
    real, r1, r2, r3, r4 = classified_roots(a, E, L, Q)
    if real:
        zm, zp = polar_roots(a, E, L, Q)
        dontcare(a == 0)
        return r_freq(E, r1, r2, r3, r4), abs(theta_freq(a, E, L, zm, zp))
    dontcare(a == 0)
    A, B, m = complex_pair(r1, r2, r3, r4)
    z1, z2, mt = plunging_polar(a, E, L, Q)
    return pi * sqrt(A * B * (1 - E**2)) / (2 * ellipk(abs(m))), pi / 2 * z2 / ellipk(mt)


# ------------------------------------------------------------------ closed-form geodesics (Fujita & Hikida 2009)
def stable_radial(a, E, L, r1, r2, r3, r4, q):
    """r, t_r, phi_r at radial phase q"""
    rp, rm = horizons(a)
    m = modulus_r(r1, r2, r3, r4)
    sn, cn, dn, psi = ellipj(ellipk(m) * q / pi, m)
    w = (r1 - r2) / (r1 - r3) * sn**2
    r = (r2 - r3 * w) / (1 - w)

    def osc(n):
        return ellippiinc(psi, n, m) - q / pi * ellippi(n, m)

    def hor(rh):
        return (r2 - r3) / ((r3 - rh) * (r2 - rh)) * osc((r1 - r2) * (r3 - rh) / ((r1 - r3) * (r2 - rh)))

    hr = (r1 - r2) / (r1 - r3)
    norm = sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))
    square = ((r2 - r3) * (r1 + r2 + r3 + r4) * osc(hr)
              + (r1 - r3) * (r2 - r4) * (ellipeinc_ext(psi, m) - q / pi * ellipe(m) - hr * sn * cn * dn / (1 - hr * sn**2)))
    tail = ((4 * E - a * L) * rp - 2 * a**2 * E) * hor(rp) - ((4 * E - a * L) * rm - 2 * a**2 * E) * hor(rm)
    t = (E * square + 4 * E * (r2 - r3) * osc(hr) - 4 / (rp - rm) * tail) / norm
    phi = -2 * a / ((rp - rm) * norm) * ((2 * E * rp - a * L) * hor(rp) - (2 * E * rm - a * L) * hor(rm))
    return r, t, phi


def stable_polar(a, E, L, zm, zp, q):
    """theta, t_theta, phi_theta at polar phase q (q = 0 at theta_min)"""
    m = 0 if a == 0 else zm / zp
    u = 2 * ellipk(m) * (q / pi + 1 / 2)
    sn, cn, dn, psi = ellipj(u, m)
    theta = arccos(sqrt(zm) * sn)
    n = (2 * q + pi) / pi
    s = np.sign(L)
    t = s * E / L * polar_time_factor(a, E, L, zm, zp) * (ellipe(m) * n - ellipeinc_ext(psi, m))
    phi = s / sqrt(e0zp(a, E, L, zm)) * (ellippiinc(psi, zm, m) - ellippi(zm, m) * n)
    return theta, t, phi


def unit_check(M, distance_units, time_units):
    if (distance_units != "natural" or time_units != "natural") and M is None:
        raise ValueError()


C = 299792458.0
GN = 6.67408e-11
SUN = 1.98847e30


def metres(M):
    """length of one M in metres"""
    return GN * M * SUN / C**2


def seconds(M):
    return GN * M * SUN / C**3


def distance(d, M, units):
    if units == "natural":
        return d
    if units == "mks":
        return d * metres(M)
    if units == "cgs":
        return d * metres(M) * 100
    if units == "km":
        return d * metres(M) / 1000
    if units == "au":
        return d * metres(M) / 1.496e11
    raise DontCare()


def duration(t, M, units):
    if units == "natural":
        return t
    if units == "mks" or units == "cgs":
        return t * seconds(M)
    if units == "days":
        return t * seconds(M) / 86400
    raise DontCare()


def assemble(ur, uth, uph, G, radial, polar, phases, lam):
    qt, qr, qth, qph = phases
    r, tr, pr = radial(ur * lam + qr)
    th, tth, pth = polar(uth * lam + qth)
    r0, tr0, pr0 = radial(qr)
    th0, tth0, pth0 = polar(qth)
    return qt + G * lam + tr - tr0 + tth - tth0, r, th, qph + uph * lam + pr - pr0 + pth - pth0


def stable_trajectory(a, p, e, x, phases, lam):
    """t, r, theta, phi at Mino time lam, geometrised units; any sign of a"""
    a, x = standard(a, x)
    bound_frequency(a, p, e, x)
    ur, uth, uph, G = signed_frequencies(a, p, e, x)
    E, L, Q, r1, r2, r3, r4, zm, zp = stable_geometry(a, p, e, x)
    return assemble(ur, abs(uth), uph, G, lambda q: stable_radial(a, E, L, r1, r2, r3, r4, q),
                    lambda q: stable_polar(a, E, L, zm, zp, q), phases, lam)


# ------------------------------------------------------------------ closed-form plunges (Dyson & van de Meent 2023)
def real_plunge(a, E, L, Q, phases, lam):
    real, r1, r2, r3, r4 = classified_roots(a, E, L, Q)
    zm, zp = polar_roots(a, E, L, Q)
    ur, uth = r_freq(E, r1, r2, r3, r4), theta_freq(a, E, L, zm, zp)
    uph = phi_freq(a, E, L, r1, r2, r3, r4, zm, zp, ur, uth)
    G = gamma_freq(a, E, L, r1, r2, r3, r4, zm, zp, ur, uth)
    return assemble(ur, abs(uth), uph, G, lambda q: stable_radial(a, E, L, r1, r2, r3, r4, q),
                    lambda q: stable_polar(a, E, L, zm, zp, q), phases, lam)


def complex_radial(a, E, L, r1, r2, A, B, m, ur, q):
    rp, rm = horizons(a)
    sn, cn, dn, xi = ellipj(2 * ellipk(m) * q / pi, m)
    lam = q / ur
    f = 4 * A * B / (A - B)**2
    b = sqrt(1 - E**2)
    AB = sqrt(A * B)
    r = ((A - B) * (A * r1 - B * r2) * sn**2 + 2 * A * B * (r1 + r2 - (r2 - r1) * cn)) / (4 * A * B + (A - B)**2 * sn**2)
    # int r dlam
    I1 = ((A * r1 - B * r2) / (A - B) * lam - arctan((r2 - r1) * sn / (2 * AB * dn)) / b
          + (A + B) * (r2 - r1) / (2 * (A - B) * AB * b) * ellippiinc(xi, -1 / f, m))
    # int r^2 dlam
    c = A**2 + 2 * r1**2 - B**2 - 2 * r2**2
    I2 = ((A * r1**2 - B * r2**2) / (A - B) * lam + AB / b * ellipeinc(xi, m)
          - (A + B) * c / (4 * (A - B) * b * AB) * ellippiinc(xi, -1 / f, m)
          - AB * (A + B - (A - B) * cn) * sn * dn / ((A - B) * b * (f + sn**2))
          + c / (4 * (r2 - r1) * b) * arctan2(2 * sn * dn * sqrt(f * (1 + f * m)), f - (1 + 2 * f * m) * sn**2))

    def Ih(rh):
        # int dlam / (r - rh)
        Dn, Dd = A * (rh - r1) + B * (r2 - rh), sqrt(4 * A * B * (r2 - rh) * (rh - r1))
        D = Dd / Dn
        g = D * sqrt(1 - D**2 * m)
        k2 = m * (D**2 - sn**2)**2
        s = A * (r1 - rh) - B * (r2 - rh)
        return ((A - B) * lam / s
                + (r2 - r1) * (A * (r1 - rh) + B * (r2 - rh)) / (2 * AB * b * (rh - r1) * (r2 - rh) * s) * ellippiinc(xi, 1 / D**2, m)
                - sqrt(r2 - r1) * log(((g + dn * sn)**2 + k2) / ((g - dn * sn)**2 + k2))
                / (4 * sqrt((1 - E**2) * (r2 - rh) * (rh - r1)) * sqrt(A**2 * (rh - r1) - (r2 - rh) * (r1**2 - B**2 + r2 * rh - r1 * (r2 + rh)))))

    def P(rh):
        return E * (rh**2 + a**2) - a * L

    Ip, Im = Ih(rp), Ih(rm)
    t = (E * ((rp**2 + rm**2 + rp * rm + 2 * a**2) * lam + I2 + (rp + rm) * I1)
         + ((rp**2 + a**2) * P(rp) * Ip - (rm**2 + a**2) * P(rm) * Im) / (rp - rm))
    phi = a * (P(rp) * Ip - P(rm) * Im) / (rp - rm)
    return r, t, phi


def complex_polar(a, E, L, z1, z2, mt, uth, q):
    lam = q / uth
    sn, cn, dn, xi = ellipj(z2 * lam, mt)
    t = E / (1 - E**2) * ((z2**2 - a**2 * (1 - E**2)) * lam - z2 * ellipeinc(xi, mt))
    return arccos(z1 * sn), t, L / z2 * ellippiinc(xi, z1**2, mt)


def complex_plunge(a, E, L, Q, phases, lam):
    real, r1, r2, r3, r4 = classified_roots(a, E, L, Q)
    A, B, m = complex_pair(r1, r2, r3, r4)
    z1, z2, mt = plunging_polar(a, E, L, Q)
    ur, uth = plunging_frequencies(a, E, L, Q)
    qt, qr, qth, qph = phases
    return assemble(ur, uth, 0, 0, lambda q: complex_radial(a, E, L, r1, r2, A, B, m, ur, q),
                    lambda q: complex_polar(a, E, L, z1, z2, mt, uth, q), (qt, qr, qth + pi / 2, qph), lam)


def plunging_trajectory(a, E, L, Q, phases, lam):
    real, r1, r2, r3, r4 = classified_roots(a, E, L, Q)
    dontcare(a == 0)
    if real:
        return real_plunge(a, E, L, Q, phases, lam)
    return complex_plunge(a, E, L, Q, phases, lam)


# ------------------------------------------------------------------ spacetime
def Sigma(a, r, th):
    return r**2 + a**2 * cos(th)**2


def Delta(a, r):
    return r**2 - 2 * r + a**2


def metric(a, r, th):
    S, D, s2 = Sigma(a, r, th), Delta(a, r), sin(th)**2
    gtp = -2 * a * r * s2 / S
    return ((-(1 - 2 * r / S), 0, 0, gtp), (0, S / D, 0, 0), (0, 0, S, 0),
            (gtp, 0, 0, s2 * (r**2 + a**2 + 2 * a**2 * r * s2 / S)))


def norm(a, r, th, v):
    g = metric(a, r, th)
    return (g[0][0] * v[0]**2 + 2 * g[0][3] * v[0] * v[3] + g[1][1] * v[1]**2 + g[2][2] * v[2]**2 + g[3][3] * v[3]**2)


def orientation(q):
    return np.copysign(1, sin(q))


def four_velocity(a, E, L, Q, r, th, qr, qth):
    S, D, c = Sigma(a, r, th), Delta(a, r), cos(th)
    P = E * (r**2 + a**2) - a * L
    R = P**2 - D * (r**2 + (L - a * E)**2 + Q)
    Th = Q - (Q + a**2 * (1 - E**2) + L**2) * c**2 + a**2 * (1 - E**2) * c**4
    ut = ((r**2 + a**2) / D * P + a * L - a**2 * E * sin(th)**2) / S
    uph = (a / D * P + L / sin(th)**2 - a * E) / S
    return ut, orientation(qr) * sqrt(abs(R)) / S, orientation(qth) * sqrt(abs(Th)) / (S * sin(th)), uph
