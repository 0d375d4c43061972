"""Documented calling conventions: names, parameter names and order, default values."""
import numpy as np
import kerrgeopy as kg
import kerrgeopy.constants as kc
import kerrgeopy.frequencies as kf
import kerrgeopy.initial_conditions as ki
import kerrgeopy.stable as ks
import kerrgeopy.plunge as kp
import kerrgeopy.orbit as ko
import kerrgeopy.spacetime as kst
import kerrgeopy.units as ku
import kg_ref as ref
from kg_engine import drawn


def at(fs, s):
    t, r, th, ph = fs
    return t(s), r(s), th(s), ph(s)


# ---------------------------------------------------------------- names at the package's top level
def top_constants(a, p, e, x):
    return (kg.energy(a, p, e, x), kg.angular_momentum(a, p, e, x), kg.carter_constant(a, p, e, x), kg.constants_of_motion(a, p, e, x),
            kg.separatrix(a, e, x), kg.is_stable(a, p, e, x))


def need_top_constants(a, p, e, x):
    return (kc.energy(a, p, e, x), kc.angular_momentum(a, p, e, x), kc.carter_constant(a, p, e, x), kc.constants_of_motion(a, p, e, x),
            kc.separatrix(a, e, x), kc.is_stable(a, p, e, x))


def top_stable(a, p, e, x):
    return kg.is_stable(a, p, e, x)


def need_top_stable(a, p, e, x):
    return kc.is_stable(a, p, e, x)


def top_separatrix(a, e, x):
    return kg.separatrix(a, e, x)


def need_top_separatrix(a, e, x):
    return kc.separatrix(a, e, x)


def top_fast(a):
    return kg.fast_separatrix(a)


def need_top_fast(a):
    return kc.fast_separatrix(a)


def top_frequencies(a, p, e, x):
    return (kg.r_frequency(a, p, e, x), kg.theta_frequency(a, p, e, x), kg.phi_frequency(a, p, e, x), kg.gamma(a, p, e, x),
            kg.mino_frequencies(a, p, e, x), kg.fundamental_frequencies(a, p, e, x))


def need_top_frequencies(a, p, e, x):
    return (kf.r_frequency(a, p, e, x), kf.theta_frequency(a, p, e, x), kf.phi_frequency(a, p, e, x), kf.gamma(a, p, e, x),
            kf.mino_frequencies(a, p, e, x), kf.fundamental_frequencies(a, p, e, x))


def top_stable_orbit(a, p, e, x):
    o = kg.StableOrbit(a, p, e, x)
    return o.E, o.initial_position, o.upsilon_phi


def need_top_stable_orbit(a, p, e, x):
    o = ks.StableOrbit(a, p, e, x)
    return o.E, o.initial_position, o.upsilon_phi


def top_plunge_orbit(a, E, L, Q):
    o = kg.PlungingOrbit(a, E, L, Q)
    return o.initial_position, o.upsilon_theta


def need_top_plunge_orbit(a, E, L, Q):
    o = kp.PlungingOrbit(a, E, L, Q)
    return o.initial_position, o.upsilon_theta


def top_state(a, t0, r0, h0, p0, u0, u1, u2, u3):
    return kg.Orbit(a, (t0, r0, h0, p0), (u0, u1, u2, u3)).constants_of_motion()


def need_top_state(a, t0, r0, h0, p0, u0, u1, u2, u3):
    return ko.Orbit(a, (t0, r0, h0, p0), (u0, u1, u2, u3)).constants_of_motion()


def top_spacetime(a, r, h):
    return kg.KerrSpacetime(a).metric(0, r, h, 0), kg.units.time_in_days(r, h), kg.constants.is_stable(a, r, 0.5, 0.5)


def need_top_spacetime(a, r, h):
    return kst.KerrSpacetime(a).metric(0, r, h, 0), ku.time_in_days(r, h), kc.is_stable(a, r, 0.5, 0.5)


# ---------------------------------------------------------------- parameters by name and by position
def words_constants(a, p, e, x):
    c = kc.constants_of_motion(a=a, p=p, e=e, x=x)
    E, L, Q = c
    return (kc.energy(a=a, p=p, e=e, x=x), kc.angular_momentum(a=a, p=p, e=e, x=x, E=E), kc.carter_constant(a=a, p=p, e=e, x=x, E=E, L=L), c,
            kc.separatrix(a=a, e=e, x=x), kc.is_stable(a=a, p=p, e=e, x=x), kc.valid_params(a=a, e=e, x=x))


def need_words_constants(a, p, e, x):
    c = kc.constants_of_motion(a, p, e, x)
    E, L, Q = c
    return (kc.energy(a, p, e, x), kc.angular_momentum(a, p, e, x, E), kc.carter_constant(a, p, e, x, E, L), c,
            kc.separatrix(a, e, x), kc.is_stable(a, p, e, x), kc.valid_params(a, e, x))


def words_roots(a, p, e, x, E, L, Q):
    return (kc.stable_radial_roots(a=a, p=p, e=e, x=x, constants=(E, L, Q)), kc.stable_polar_roots(a=a, p=p, e=e, x=x, constants=(E, L, Q)),
            kc.scale_constants(constants=(E, L, Q), M=p, mu=x))


def need_words_roots(a, p, e, x, E, L, Q):
    return (kc.stable_radial_roots(a, p, e, x, (E, L, Q)), kc.stable_polar_roots(a, p, e, x, (E, L, Q)), kc.scale_constants((E, L, Q), p, x))


def words_plunge(a, E, L, Q):
    return (kc.plunging_radial_roots(a=a, E=E, L=L, Q=Q), kf.plunging_mino_frequencies(a=a, E=E, L=L, Q=Q))


def need_words_plunge(a, E, L, Q):
    return kc.plunging_radial_roots(a, E, L, Q), kf.plunging_mino_frequencies(a, E, L, Q)


def words_apex(a, E, L, Q):
    return kc.apex_from_constants(a=a, E=E, L=L, Q=Q)


def need_words_apex(a, E, L, Q):
    return kc.apex_from_constants(a, E, L, Q)


def words_frequencies(a, p, e, x):
    c = kc.constants_of_motion(a, p, e, x)
    r, h = kf.r_frequency(a=a, p=p, e=e, x=x, constants=c), kf.theta_frequency(a=a, p=p, e=e, x=x, constants=c)
    return (r, h, kf.phi_frequency(a=a, p=p, e=e, x=x, constants=c, upsilon_r=r, upsilon_theta=h),
            kf.gamma(a=a, p=p, e=e, x=x, constants=c, upsilon_r=r, upsilon_theta=h), kf.mino_frequencies(a=a, p=p, e=e, x=x),
            kf.fundamental_frequencies(a=a, p=p, e=e, x=x))


def need_words_frequencies(a, p, e, x):
    c = kc.constants_of_motion(a, p, e, x)
    r, h = kf.r_frequency(a, p, e, x, c), kf.theta_frequency(a, p, e, x, c)
    return (r, h, kf.phi_frequency(a, p, e, x, c, r, h), kf.gamma(a, p, e, x, c, r, h), kf.mino_frequencies(a, p, e, x),
            kf.fundamental_frequencies(a, p, e, x))


def words_state(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    k, u = (t0, r0, h0, p0), (1, u1, u2, 1)
    return ki.is_stable(a=a, initial_position=k, initial_velocity=u, constants=(E, L, Q), tol=0.01)


def need_words_state(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    k, u = (t0, r0, h0, p0), (1, u1, u2, 1)
    return ki.is_stable(a, k, u, (E, L, Q), 0.01)


def words_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q, r1, r2, r3, r4, v, w):
    k, u = (t0, r0, h0, p0), (1, u1, u2, 1)
    return ki.stable_orbit_initial_phases(a=a, initial_position=k, initial_velocity=u, constants=(E, L, Q), radial_roots=(r1, r2, r3, r4),
                                          upsilon_r=v, upsilon_theta=w, tol=0.01)


def need_words_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q, r1, r2, r3, r4, v, w):
    k, u = (t0, r0, h0, p0), (1, u1, u2, 1)
    return ki.stable_orbit_initial_phases(a, k, u, (E, L, Q), (r1, r2, r3, r4), v, w, 0.01)


def words_plunge_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q, r1, r2, r3, r4):
    k, u = (t0, r0, h0, p0), (1, u1, u2, 1)
    return ki.plunging_orbit_initial_phases(a=a, initial_position=k, initial_velocity=u, constants=(E, L, Q), radial_roots=(r1, r2, r3, r4),
                                            tol=0.01)


def need_words_plunge_phases(a, t0, r0, h0, p0, u1, u2, E, L, Q, r1, r2, r3, r4):
    k, u = (t0, r0, h0, p0), (1, u1, u2, 1)
    return ki.plunging_orbit_initial_phases(a, k, u, (E, L, Q), (r1, r2, r3, r4), 0.01)


def words_stable(a, p, e, x, q0, q1, q2, q3, M, mu, s):
    q = (q0, q1, q2, q3)
    o = ks.StableOrbit(a=a, p=p, e=e, x=x, initial_phases=q, M=M, mu=mu)
    return (o.initial_phases, o.M, o.mu, at(o.trajectory(initial_phases=(1, 2, 3, 4), distance_units="km", time_units="days"), s),
            at(o.four_velocity(initial_phases=(1, 2, 3, 4)), s), o.trajectory_deltas(initial_phases=(1, 2, 3, 4))[0](s),
            o.mino_frequencies(units="mks"), o.fundamental_frequencies(units="mHz"), o.constants_of_motion(units="cgs"),
            at(ks.stable_trajectory(a=a, p=p, e=e, x=x, initial_phases=q, M=M, distance_units="km", time_units="days"), s))


def need_words_stable(a, p, e, x, q0, q1, q2, q3, M, mu, s):
    q = (q0, q1, q2, q3)
    o = ks.StableOrbit(a, p, e, x, q, M, mu)
    return (q, M, mu, at(o.trajectory((1, 2, 3, 4), "km", "days"), s),
            at(o.four_velocity((1, 2, 3, 4)), s), o.trajectory_deltas((1, 2, 3, 4))[0](s),
            o.mino_frequencies("mks"), o.fundamental_frequencies("mHz"), o.constants_of_motion("cgs"),
            at(ks.stable_trajectory(a, p, e, x, q, M, "km", "days"), s))


def words_plunging(a, E, L, Q, q0, q1, q2, q3, M, mu, s):
    q = (q0, q1, q2, q3)
    o = kp.PlungingOrbit(a=a, E=E, L=L, Q=Q, initial_phases=q, M=M, mu=mu)
    return (o.initial_phases, o.M, o.mu, at(o.trajectory(initial_phases=(1, 2, 3, 4), distance_units="km", time_units="days"), s),
            at(o.four_velocity(initial_phases=(1, 2, 3, 4)), s), o.trajectory_deltas(initial_phases=(1, 2, 3, 4))[0](s),
            at(kp.plunging_trajectory(a=a, E=E, L=L, Q=Q, initial_phases=q, M=M, distance_units="km", time_units="days"), s))


def need_words_plunging(a, E, L, Q, q0, q1, q2, q3, M, mu, s):
    q = (q0, q1, q2, q3)
    o = kp.PlungingOrbit(a, E, L, Q, q, M, mu)
    return (q, M, mu, at(o.trajectory((1, 2, 3, 4), "km", "days"), s),
            at(o.four_velocity((1, 2, 3, 4)), s), o.trajectory_deltas((1, 2, 3, 4))[0](s),
            at(kp.plunging_trajectory(a, E, L, Q, q, M, "km", "days"), s))


def words_from_constants(a, p, e, x, q0, q1, q2, q3, M, mu):
    E, L, Q = kc.constants_of_motion(a, p, e, x)
    o = ks.StableOrbit.from_constants(a=a, E=E, L=L, Q=Q, initial_phases=(q0, q1, q2, q3), M=M, mu=mu)
    return o.initial_phases, o.M, o.mu, o.E


def need_words_from_constants(a, p, e, x, q0, q1, q2, q3, M, mu):
    E, L, Q = kc.constants_of_motion(a, p, e, x)
    o = ks.StableOrbit.from_constants(a, E, L, Q, (q0, q1, q2, q3), M, mu)
    return (q0, q1, q2, q3), M, mu, o.E


def words_spacetime(a, M, p, e, x, r, h, v0, v3):
    s = kst.KerrSpacetime(a=a, M=M)
    return (s.a, s.M, s.metric(t=0, r=r, theta=h, phi=1), s.norm(t=0, r=r, theta=h, phi=1, v=(v0, 1, 2, v3)), s.separatrix(e=e, x=x),
            s.is_stable(p=p, e=e, x=x))


def need_words_spacetime(a, M, p, e, x, r, h, v0, v3):
    s = kst.KerrSpacetime(a, M)
    return a, M, s.metric(0, r, h, 1), s.norm(0, r, h, 1, (v0, 1, 2, v3)), s.separatrix(e, x), s.is_stable(p, e, x)


def words_units(d, M):
    return (ku.mass_in_kg(M=M), ku.distance_in_meters(d=d, M=M), ku.distance_in_cm(d=d, M=M), ku.distance_in_km(d=d, M=M),
            ku.distance_in_lightyears(d=d, M=M), ku.distance_in_au(d=d, M=M), ku.time_in_seconds(t=d, M=M), ku.time2_in_seconds2(t=d, M=M),
            ku.time_in_days(t=d, M=M), ku.energy_in_joules(E=d, M=M), ku.energy_in_ergs(E=d, M=M), ku.angular_momentum_in_mks(L=d, M=M),
            ku.angular_momentum_in_cgs(L=d, M=M), ku.carter_constant_in_mks(Q=d, M=M), ku.carter_constant_in_cgs(Q=d, M=M),
            ku.frequency_in_Hz(f=d, M=M), ku.frequency_in_mHz(f=d, M=M))


def need_words_units(d, M):
    return (ku.mass_in_kg(M), ku.distance_in_meters(d, M), ku.distance_in_cm(d, M), ku.distance_in_km(d, M),
            ku.distance_in_lightyears(d, M), ku.distance_in_au(d, M), ku.time_in_seconds(d, M), ku.time2_in_seconds2(d, M),
            ku.time_in_days(d, M), ku.energy_in_joules(d, M), ku.energy_in_ergs(d, M), ku.angular_momentum_in_mks(d, M),
            ku.angular_momentum_in_cgs(d, M), ku.carter_constant_in_mks(d, M), ku.carter_constant_in_cgs(d, M),
            ku.frequency_in_Hz(d, M), ku.frequency_in_mHz(d, M))


# ---------------------------------------------------------------- what is left out has its documented default
def default_orbit(a, p, e, x, s):
    o = ks.StableOrbit(a, p, e, x)
    return (at(o.trajectory(), s), at(ks.stable_trajectory(a, p, e, x), s), o.mino_frequencies(), o.fundamental_frequencies(),
            o.constants_of_motion(), o.initial_phases, o.M, o.mu, at(o.numerical_four_velocity(), s))


def need_default_orbit(a, p, e, x, s):
    z = (0, 0, 0, 0)
    o = ks.StableOrbit(a, p, e, x, z, None, None)
    return (at(o.trajectory(z, "natural", "natural"), s), at(ks.stable_trajectory(a, p, e, x, z, None, "natural", "natural"), s),
            o.mino_frequencies("natural"), o.fundamental_frequencies("natural"), o.constants_of_motion("natural"), z, None, None,
            at(o.numerical_four_velocity(1e-6, z), s))


def default_plunge(a, E, L, Q, s):
    o = kp.PlungingOrbit(a, E, L, Q)
    return at(o.trajectory(), s), at(kp.plunging_trajectory(a, E, L, Q), s), o.constants_of_motion(), o.initial_phases, o.M, o.mu


def need_default_plunge(a, E, L, Q, s):
    z = (0, 0, 0, 0)
    o = kp.PlungingOrbit(a, E, L, Q, z, None, None)
    return (at(o.trajectory(z, "natural", "natural"), s), at(kp.plunging_trajectory(a, E, L, Q, z, None, "natural", "natural"), s),
            o.constants_of_motion("natural"), z, None, None)


def default_fast(a):
    return kc.fast_separatrix(a)


def need_default_fast(a):
    return kc.fast_separatrix(a, grid_spacing=0.01)


def default_tolerance(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    return ki.is_stable(a, (t0, r0, h0, p0), (1, u1, u2, 1), (E, L, Q))


def need_default_tolerance(a, t0, r0, h0, p0, u1, u2, E, L, Q):
    return ki.is_stable(a, (t0, r0, h0, p0), (1, u1, u2, 1), (E, L, Q), tol=1e-4)


def default_phase_tolerance(a, t0, r0, h0, p0, u1, u2, E, L, Q, r1, r2, r3, r4, v, w):
    return ki.stable_orbit_initial_phases(a, (t0, r0, h0, p0), (1, u1, u2, 1), (E, L, Q), (r1, r2, r3, r4), v, w)


def need_default_phase_tolerance(a, t0, r0, h0, p0, u1, u2, E, L, Q, r1, r2, r3, r4, v, w):
    return ki.stable_orbit_initial_phases(a, (t0, r0, h0, p0), (1, u1, u2, 1), (E, L, Q), (r1, r2, r3, r4), v, w, tol=1e-4)


# ---------------------------------------------------------------- plots
class Seen(kg.StableOrbit):
    """an orbit whose trajectory is given by arbitrary functions of Mino time"""

    def __init__(self, a, f):
        self.f = f
        try:
            super().__init__(a, 12, 0.5, 0.25)
        except ValueError:
            raise ref.DontCare()

    def trajectory(self, initial_phases=None, distance_units="natural", time_units="natural"):
        q = (0, 0, 0, 0) if initial_phases is None else initial_phases
        t, r, th, ph = self.f
        return lambda s: t(s) + q[0], lambda s: r(s) + q[1], lambda s: th(s) + q[2], lambda s: ph(s) + q[3]


PLOT = ("Line3DCollection", "scatter", "view_init", "set_proj_type", "grid", "axis")
FILM = ("FuncAnimation", "FFMpegWriter", "save", "Line3DCollection", "grid", "axis", "set_facecolor", "figure")


def arguments(scene, names):
    out = []
    for n in names:
        for present, args, kw in drawn(scene, n):
            out.append((present, [z for z in args if not callable(z)], [kw[k] for k in sorted(kw) if k != "fargs" and not callable(kw[k])]))
    return out


def words_plot(a, ft, fr, fth, fph, l0, l1, el, az, q1, lw, tau, density):
    o = Seen(a, (ft, fr, fth, fph))
    return arguments(lambda: o.plot(lambda0=l0, lambda1=l1, elevation=el, azimuth=az, initial_phases=(0, q1, 2, 3), grid=False, axes=False, lw=lw,
                                    color="green", tau=tau, point_density=density), PLOT)


def need_words_plot(a, ft, fr, fth, fph, l0, l1, el, az, q1, lw, tau, density):
    o = Seen(a, (ft, fr, fth, fph))
    return arguments(lambda: o.plot(l0, l1, el, az, (0, q1, 2, 3), False, False, lw, "green", tau, density), PLOT)


def default_plot(a, ft, fr, fth, fph):
    o = Seen(a, (ft, fr, fth, fph))
    return arguments(lambda: o.plot(), PLOT)


def need_default_plot(a, ft, fr, fth, fph):
    o = Seen(a, (ft, fr, fth, fph))
    return arguments(lambda: o.plot(0, 10, 30, -60, (0, 0, 0, 0), True, True, 1, "red", np.inf, 200), PLOT)


def words_film(a, ft, fr, fth, fph, l0, l1, el, az, q1, lw, tau, speed, tail):
    o = Seen(a, (ft, fr, fth, fph))
    return arguments(lambda: o.animate(filename="f.mp4", lambda0=l0, lambda1=l1, elevation=el, azimuth=az, initial_phases=(0, q1, 2, 3), grid=False,
                                       axes=False, color="green", tau=tau, tail_length=tail, lw=lw, azimuthal_pan=None, elevation_pan=None,
                                       roll=None, speed=speed, background_color="blue", axis_limit=7, plot_components=False), FILM)


def need_words_film(a, ft, fr, fth, fph, l0, l1, el, az, q1, lw, tau, speed, tail):
    o = Seen(a, (ft, fr, fth, fph))
    return arguments(lambda: o.animate("f.mp4", l0, l1, el, az, (0, q1, 2, 3), False, False, "green", tau, tail, lw, None, None, None, speed, "blue",
                                       7, False), FILM)


def default_film(a, ft, fr, fth, fph):
    o = Seen(a, (ft, fr, fth, fph))
    return arguments(lambda: o.animate("f.mp4"), FILM)


def need_default_film(a, ft, fr, fth, fph):
    o = Seen(a, (ft, fr, fth, fph))
    return arguments(lambda: o.animate("f.mp4", 0, 10, 30, -60, (0, 0, 0, 0), True, True, "red", 2, 5, 2, None, None, None, 1, None, None, False), FILM)


def words_orbit(a, t0, r0, h0, p0, u0, u1, u2, u3, M, mu):
    o = ko.Orbit(a=a, initial_position=(t0, r0, h0, p0), initial_velocity=(u0, u1, u2, u3), M=M, mu=mu)
    return o.a, o.initial_position, o.initial_velocity, o.M, o.mu, o.constants_of_motion(units="mks")


def need_words_orbit(a, t0, r0, h0, p0, u0, u1, u2, u3, M, mu):
    o = ko.Orbit(a, (t0, r0, h0, p0), (u0, u1, u2, u3), M, mu)
    return a, (t0, r0, h0, p0), (u0, u1, u2, u3), M, mu, o.constants_of_motion("mks")


def default_state(a, t0, r0, h0, p0, u0, u1, u2, u3):
    o = ko.Orbit(a, (t0, r0, h0, p0), (u0, u1, u2, u3))
    return o.M, o.mu, o.constants_of_motion()


def need_default_state(a, t0, r0, h0, p0, u0, u1, u2, u3):
    o = ko.Orbit(a, (t0, r0, h0, p0), (u0, u1, u2, u3), None, None)
    return None, None, o.constants_of_motion("natural")


def words_velocity(a, E, L, Q, v, w, ct, cr, ch, cp, s):
    k = kst.KerrSpacetime(a=a)
    return at(k.four_velocity(t=lambda z: ct * z, r=lambda z: cr * z, theta=lambda z: ch * z, phi=lambda z: cp * z, constants=(E, L, Q), upsilon_r=v,
                              upsilon_theta=w, initial_phases=(1, 2, 3, 4)), s)


def need_words_velocity(a, E, L, Q, v, w, ct, cr, ch, cp, s):
    k = kst.KerrSpacetime(a, None)
    return at(k.four_velocity(lambda z: ct * z, lambda z: cr * z, lambda z: ch * z, lambda z: cp * z, (E, L, Q), v, w, (1, 2, 3, 4)), s)
