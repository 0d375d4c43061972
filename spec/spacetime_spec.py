"""Obligations about kerrgeopy.spacetime and the four-velocity interface of orbits."""
import numpy as np
from numpy import sqrt, pi, cos, sin
import kerrgeopy as kg
import kerrgeopy.constants as kc
import kg_ref as ref
from kg_ref import dontcare


def at(fs, lam):
    t, r, th, ph = fs
    return t(lam), r(lam), th(lam), ph(lam)


# ---------------------------------------------------------------- S01 metric and horizons
def metric(a, t, r, th, ph):
    return kg.KerrSpacetime(a).metric(t, r, th, ph)


def need_metric(a, t, r, th, ph):
    return np.array(ref.metric(a, r, th))


def horizons(a, M):
    s = kg.KerrSpacetime(a, M)
    u = kg.KerrSpacetime(a)
    return s.outer_horizon, s.inner_horizon, s.a, s.M, u.outer_horizon, u.inner_horizon, u.M


def need_horizons(a, M):
    rp, rm = ref.horizons(a)
    return rp, rm, a, M, rp, rm, None


def norm(a, t, r, th, ph, v0, v1, v2, v3):
    return kg.KerrSpacetime(a).norm(t, r, th, ph, (v0, v1, v2, v3)), kg.KerrSpacetime(a).norm(t, r, th, ph, [v0, v1, v2, v3])


def need_norm(a, t, r, th, ph, v0, v1, v2, v3):
    n = ref.norm(a, r, th, (v0, v1, v2, v3))
    return n, n


# ---------------------------------------------------------------- S03 four-velocity formula
def velocity(a, E, L, Q, ur, ut, q0, q1, q2, q3, r0, r1, h0, h1, lam):
    v = kg.KerrSpacetime(a).four_velocity(lambda s: 3 * s + 1, lambda s: r0 + r1 * s, lambda s: h0 + h1 * s, lambda s: 5 * s + 2,
                                          (E, L, Q), ur, ut, (q0, q1, q2, q3))
    return at(v, lam)


def need_velocity(a, E, L, Q, ur, ut, q0, q1, q2, q3, r0, r1, h0, h1, lam):
    return ref.four_velocity(a, E, L, Q, r0 + r1 * lam, h0 + h1 * lam, ur * lam + q1, ut * lam + q2)


def stable_velocity(a, p, e, x, q0, q1, q2, q3, lam):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3))
    return at(o.four_velocity(), lam)


def need_stable_velocity(a, p, e, x, q0, q1, q2, q3, lam):
    a, x = ref.standard(a, x)
    ref.bound_frequency(a, p, e, x)
    t, r, th, ph = ref.stable_trajectory(a, p, e, x, (q0, q1, q2, q3), lam)
    E, L, Q = ref.ELQ(a, p, e, x)
    ur, uth, uph, G = ref.signed_frequencies(a, p, e, x)
    return ref.four_velocity(a, E, L, Q, r, th, ur * lam + q1, abs(uth) * lam + q2)


def plunge_velocity(a, E, L, Q, q0, q1, q2, q3, lam):
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3))
    return at(o.four_velocity(), lam)


def need_plunge_velocity(a, E, L, Q, q0, q1, q2, q3, lam):
    t, r, th, ph = ref.plunging_trajectory(a, E, L, Q, (q0, q1, q2, q3), lam)
    ur, uth = ref.plunging_frequencies(a, E, L, Q)
    return ref.four_velocity(a, E, L, Q, r, th, ur * lam + q1, uth * lam + q2)


# ---------------------------------------------------------------- S02 normalisation and conserved quantities
def unit_norm(a, E, L, Q, q1, q2, r, th):
    v = kg.KerrSpacetime(a).four_velocity(lambda s: 0, lambda s: r, lambda s: th, lambda s: 0, (E, L, Q), 1, 1, (0, q1, q2, 0))
    return kg.KerrSpacetime(a).norm(0, r, th, 0, at(v, 0))


def need_unit_norm(a, E, L, Q, q1, q2, r, th):
    dontcare(ref.R(a, E, L, Q, r) < 0)
    dontcare(ref.Z(a, E, L, Q, cos(th)) < 0)
    return -1


def conserved(a, E, L, Q, q1, q2, r, th):
    s = kg.KerrSpacetime(a)
    u = at(s.four_velocity(lambda s: 0, lambda s: r, lambda s: th, lambda s: 0, (E, L, Q), 1, 1, (0, q1, q2, 0)), 0)
    g = s.metric(0, r, th, 0)
    low = np.dot(g, u)
    return -low[0], low[3], low[2]**2 + cos(th)**2 * (a**2 * (1 - E**2) + (L / sin(th))**2)


def need_conserved(a, E, L, Q, q1, q2, r, th):
    dontcare(ref.Z(a, E, L, Q, cos(th)) < 0)
    return E, L, Q


def stable_unit_norm(a, p, e, x, q0, q1, q2, q3, lam):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3))
    t, r, th, ph = at(o.trajectory(), lam)
    return kg.KerrSpacetime(o.a).norm(t, r, th, ph, at(o.four_velocity(), lam))


def need_stable_unit_norm(a, p, e, x, q0, q1, q2, q3, lam):
    o = kg.StableOrbit(a, p, e, x, (q0, q1, q2, q3))
    t, r, th, ph = at(o.trajectory(), lam)
    dontcare(ref.R(o.a, o.E, o.L, o.Q, r) < 0)
    dontcare(ref.Z(o.a, o.E, o.L, o.Q, cos(th)) < 0)
    return -1


def plunge_unit_norm(a, E, L, Q, q0, q1, q2, q3, lam):
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3))
    t, r, th, ph = at(o.trajectory(), lam)
    return kg.KerrSpacetime(o.a).norm(t, r, th, ph, at(o.four_velocity(), lam))


def need_plunge_unit_norm(a, E, L, Q, q0, q1, q2, q3, lam):
    dontcare(L == 0)
    o = kg.PlungingOrbit(a, E, L, Q, (q0, q1, q2, q3))
    t, r, th, ph = at(o.trajectory(), lam)
    dontcare(ref.R(a, E, L, Q, r) < 0)
    dontcare(ref.Z(a, E, L, Q, cos(th)) < 0)
    return -1


# ---------------------------------------------------------------- S04 numerical four-velocity
class Track(kg.StableOrbit):
    """an orbit whose trajectory is a given quartic polynomial in Mino time"""

    def __init__(self, a, ct, cr, ch, cp):
        self.coef = ct, cr, ch, cp
        try:
            super().__init__(a, 12, 0.5, 0.25)
        except ValueError:
            raise ref.DontCare()

    def trajectory(self, initial_phases=None, distance_units="natural", time_units="natural"):
        ct, cr, ch, cp = self.coef
        return lambda s: poly(ct, s), lambda s: poly(cr, s), lambda s: poly(ch, s), lambda s: poly(cp, s)


def poly(c, s):
    return c * (s**4 - 7 * s**3 + 3 * s**2 + 11 * s + 2)


def dpoly(c, s):
    return c * (4 * s**3 - 21 * s**2 + 6 * s + 11)


def numerical(a, ct, cr, ch, cp, dx, lam):
    return at(Track(a, ct, cr, ch, cp).numerical_four_velocity(dx=dx), lam)


def numerical_default(a, ct, cr, ch, cp, dx, lam):
    return at(Track(a, ct, cr, ch, cp).numerical_four_velocity(), lam)


def need_numerical(a, ct, cr, ch, cp, dx, lam):
    S = ref.Sigma(a, poly(cr, lam), poly(ch, lam))
    return dpoly(ct, lam) / S, dpoly(cr, lam) / S, dpoly(ch, lam) / S, dpoly(cp, lam) / S


# ---------------------------------------------------------------- S02 norm diagnostics of an orbit
class Shifted(Track):
    """a given quartic polynomial, shifted by the radial phase"""

    def trajectory(self, initial_phases=None, distance_units="natural", time_units="natural"):
        t, r, th, ph = super().trajectory()
        q = (self.initial_phases if initial_phases is None else initial_phases)[1]
        return lambda s: t(s + q), lambda s: r(s + q), lambda s: th(s + q), lambda s: ph(s + q)


def norms(a, ct, cr, ch, cp, q1, q2, lam):
    o, w = Shifted(a, ct, cr, ch, cp), (0, q1, q2, 0)
    return (o._four_velocity_norm()(lam), o._four_velocity_norm(w)(lam), o._numerical_four_velocity_norm()(lam),
            o._numerical_four_velocity_norm(1e-3, w)(lam))


def need_norms(a, ct, cr, ch, cp, q1, q2, lam):
    o, w = Shifted(a, ct, cr, ch, cp), (0, q1, q2, 0)
    n = kg.KerrSpacetime(o.a).norm
    f, h = at(o.trajectory(), lam), at(o.trajectory(w), lam)
    return (n(*f, at(o.four_velocity(), lam)), n(*h, at(o.four_velocity(w), lam)), n(*f, at(o.numerical_four_velocity(), lam)),
            n(*h, at(o.numerical_four_velocity(1e-3, w), lam)))
