"""Obligations about the plotting interface of orbits."""
import numpy as np
from numpy import sqrt, pi, cos, sin
import kerrgeopy as kg
import kg_ref as ref
from kg_engine import drawn
from kg_ref import dontcare


class Seen(kg.StableOrbit):
    """an orbit whose elements do not depend on the black hole it is drawn around"""

    def __init__(self, a):
        try:
            super().__init__(a, 12, 0.5, 0.25)
        except ValueError:
            raise ref.DontCare()


# ---------------------------------------------------------------- V01 visibility
def points_on(n, x0, dx, y0, dy, z0, dz):
    return np.column_stack((np.linspace(x0, dx, n), np.linspace(y0, dy, n), np.linspace(z0, dz, n)))


def visible(a, n, x0, dx, y0, dy, z0, dz, el, az):
    return Seen(a).is_visible(points_on(n, x0, dx, y0, dy, z0, dz), el, az)


def need_visible(a, n, x0, dx, y0, dy, z0, dz, el, az):
    xs, ys, zs = np.linspace(x0, dx, n), np.linspace(y0, dy, n), np.linspace(z0, dz, n)
    return np.array([seen(a, x, y, z, el, az) for x, y, z in zip(xs, ys, zs)])


def seen(a, x, y, z, el, az):
    """not inside the horizon, and in front of it or outside its silhouette"""
    rp = 1 + sqrt(1 - a**2)
    e, z_ = el * pi / 180, az * pi / 180
    depth = x * cos(e) * cos(z_) + y * cos(e) * sin(z_) + z * sin(e)
    r2 = x**2 + y**2 + z**2
    return r2 > rp**2 and (depth >= 0 or r2 - depth**2 > rp**2)


# ---------------------------------------------------------------- V02 plot
class Shown(kg.StableOrbit):
    """an orbit whose trajectory is given by arbitrary functions of Mino time and of the phases"""

    def __init__(self, a, f, phases):
        self.f = f
        try:
            super().__init__(a, 12, 0.5, 0.25, phases)
        except ValueError:
            raise ref.DontCare()

    def trajectory(self, initial_phases=None, distance_units="natural", time_units="natural"):
        if initial_phases is None:
            initial_phases = self.initial_phases
        t, r, th, ph = self.f
        q0, q1, q2, q3 = initial_phases
        return lambda s: t(s) + q0, lambda s: r(s) * q1, lambda s: th(s) + q2, lambda s: ph(s) + q3


def given(call, i, name):
    present, args, kw = call
    return kw[name] if name in kw else args[i]


def cartesian(a, f, phases, s):
    t, r, th, ph = f
    q0, q1, q2, q3 = phases
    R, T, F = r(s) * q1, th(s) + q2, ph(s) + q3
    return R * sin(T) * cos(F), R * sin(T) * sin(F), R * cos(T)


def plot_scene(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density):
    o = Shown(a, (ft, fr, fth, fph), (0, q1, q2, q3))
    return lambda: o.plot(l0, l1, elevation=el, azimuth=az, lw=lw, tau=tau, point_density=density)


def plot_segments(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density):
    call = drawn(plot_scene(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density), "Line3DCollection")[0]
    return given(call, 0, "segments")


def need_plot_segments(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density):
    n = int((l1 - l0) * density)
    dontcare(n < 2)
    out = []
    for s in np.linspace(l0, l1, n):
        x, y, z = cartesian(a, (ft, fr, fth, fph), (0, q1, q2, q3), s)
        out.append([x, y, z if seen(a, x, y, z, el, az) else np.nan])
    p = np.array(out)
    return np.stack((p[:-1], p[1:]), axis=1)


def plot_scene_calls(name, *v):
    return drawn(plot_scene(*v), name)


def plot_widths(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density):
    call = drawn(plot_scene(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density), "Line3DCollection")[0]
    kw = call[2]
    return kw["linewidths"] if "linewidths" in kw else kw["linewidth"]


def need_plot_widths(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density):
    n = int((l1 - l0) * density)
    dontcare(n < 2)
    return np.array([0.1 + lw * np.exp(-(l1 - s) / tau) for s in np.linspace(l0, l1, n)])


def plot_body(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density):
    call = drawn(plot_scene(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density), "scatter")[-1]
    return given(call, 0, "xs"), given(call, 1, "ys"), given(call, 2, "zs")


def need_plot_body(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density):
    n = int((l1 - l0) * density)
    dontcare(n < 2)
    return cartesian(a, (ft, fr, fth, fph), (0, q1, q2, q3), l1)


def plot_sphere(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density):
    call = drawn(plot_scene(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density), "plot_surface")[0]
    x, y, z = given(call, 0, "X"), given(call, 1, "Y"), given(call, 2, "Z")
    return x**2 + y**2 + z**2


def plot_horizon(a, *v):
    return plot_sphere(a, *v)


def need_plot_horizon(a, *v):
    """every drawn point of the black hole lies on the outer horizon, whatever the mesh"""
    return plot_sphere(a, *v) * 0 + (1 + sqrt(1 - a**2))**2


def plot_view(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density):
    scene = plot_scene(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density)
    call = drawn(scene, "view_init")[-1]
    proj = drawn(scene, "set_proj_type")[-1]
    return call[0], given(call, 0, "elev"), given(call, 1, "azim"), proj[0], given(proj, 0, "proj_type")


def need_plot_view(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, lw, tau, density):
    dontcare(int((l1 - l0) * density) < 2)
    return True, el, az, True, "ortho"


def plot_phases(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az):
    o = Shown(a, (ft, fr, fth, fph), (1, 2, 3, 4))
    call = drawn(lambda: o.plot(l0, l1, el, az, (0, q1, q2, q3)), "Line3DCollection")[0]
    return given(call, 0, "segments")


def need_plot_phases(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az):
    o = Shown(a, (ft, fr, fth, fph), (0, q1, q2, q3))
    call = drawn(lambda: o.plot(l0, l1, el, az), "Line3DCollection")[0]
    return given(call, 0, "segments")


# ---------------------------------------------------------------- V03 animate
def film(a, f, q, l0, l1, el, az, tail, tau, speed, extra):
    o = Shown(a, f, (9, 8, 7, 6))
    return lambda: o.animate("film.mp4", l0, l1, el, az, (0,) + q, speed=speed, tau=tau, tail_length=tail, **extra)


def frame_drawer(scene):
    call = drawn(scene, "FuncAnimation")[0]
    f, fargs = given(call, 1, "func"), call[2].get("fargs", ())
    return lambda i: f(i, *fargs)


def film_frames(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    scene = film(a, (ft, fr, fth, fph), (q1, q2, q3), l0, l1, el, az, tail, tau, speed, {})
    call, save = drawn(scene, "FuncAnimation")[0], drawn(scene, "save")
    return call[0], given(call, 2, "frames"), len(save), save[0][0], given(save[0], 0, "filename")


def need_film_frames(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    dontcare(int((l1 - l0) * 240) < 2)
    return True, int(int((l1 - l0) * 240) / int(speed * 8)), 1, True, "film.mp4"


def film_segments(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    draw = frame_drawer(film(a, (ft, fr, fth, fph), (q1, q2, q3), l0, l1, el, az, tail, tau, speed, {}))
    return given(drawn(lambda: draw(i), "set_segments")[0], 0, "segments")


def need_film_segments(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    n, j = int((l1 - l0) * 240), int(speed * 8) * i
    j0 = max(0, int(j - tail * 240))
    s = np.linspace(l0, l1, n)
    out = []
    for k in range(j0, j):
        x, y, z = cartesian(a, (ft, fr, fth, fph), (0, q1, q2, q3), s[k])
        out.append([x, y, z if seen(a, x, y, z, el, az) else np.nan])
    p = np.array(out)
    dontcare(j - j0 < 2)
    return np.stack((p[:-1], p[1:]), axis=1)


def film_body(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    draw = frame_drawer(film(a, (ft, fr, fth, fph), (q1, q2, q3), l0, l1, el, az, tail, tau, speed, {}))
    x, y, z = drawn(lambda: draw(i), "setattr:_offsets3d")[-1][1][0]
    return x[0], y[0], z[0], len(x)


def need_film_body(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    s = np.linspace(l0, l1, int((l1 - l0) * 240))[int(speed * 8) * i]
    x, y, z = cartesian(a, (ft, fr, fth, fph), (0, q1, q2, q3), s)
    return x, y, z, 1


def film_fade(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    draw = frame_drawer(film(a, (ft, fr, fth, fph), (q1, q2, q3), l0, l1, el, az, tail, tau, speed, {}))
    return given(drawn(lambda: draw(i), "set_alpha")[-1], 0, "alpha")


def need_film_fade(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    s = np.linspace(l0, l1, int((l1 - l0) * 240))
    j = int(speed * 8) * i
    n = j - max(0, int(j - tail * 240))
    dontcare(n < 1)
    return np.array([0.1 + 0.9 * np.exp(-(l1 - x) / tau) for x in s])[-n:]


def film_view(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    draw = frame_drawer(film(a, (ft, fr, fth, fph), (q1, q2, q3), l0, l1, el, az, tail, tau, speed, {}))
    call = drawn(lambda: draw(i), "view_init")[-1]
    return given(call, 0, "elev"), given(call, 1, "azim"), given(call, 2, "roll")


def need_film_view(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    dontcare(int((l1 - l0) * 240) < 2)
    return el, az, 0


PANS = dict(azimuthal_pan=lambda s: 3 * s + 1, elevation_pan=lambda s: 7 * s, roll=lambda s: s**2, axis_limit=lambda s: 5 + s)


def film_pans(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    draw = frame_drawer(film(a, (ft, fr, fth, fph), (q1, q2, q3), l0, l1, el, az, tail, tau, speed, PANS))
    call = drawn(lambda: draw(i), "view_init")[-1]
    lim = [drawn(lambda: draw(i), n)[-1][1] for n in ("set_xlim", "set_ylim", "set_zlim")]
    return given(call, 0, "elev"), given(call, 1, "azim"), given(call, 2, "roll"), lim


def need_film_pans(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    s = np.linspace(l0, l1, int((l1 - l0) * 240))[int(speed * 8) * i]
    return 7 * s, 3 * s + 1, s**2, [(-5 - s, 5 + s)] * 3


def film_pan_segments(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    draw = frame_drawer(film(a, (ft, fr, fth, fph), (q1, q2, q3), l0, l1, el, az, tail, tau, speed, PANS))
    return given(drawn(lambda: draw(i), "set_segments")[0], 0, "segments")


def need_film_pan_segments(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    s = np.linspace(l0, l1, int((l1 - l0) * 240))[int(speed * 8) * i]
    draw = frame_drawer(film(a, (ft, fr, fth, fph), (q1, q2, q3), l0, l1, 7 * s, 3 * s + 1, tail, tau, speed, {}))
    return given(drawn(lambda: draw(i), "set_segments")[0], 0, "segments")


def film_components(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    draw = frame_drawer(film(a, (ft, fr, fth, fph), (q1, q2, q3), l0, l1, el, az, tail, tau, speed, dict(plot_components=True)))
    return [c[1] for c in drawn(lambda: draw(i), "set_data")]


def need_film_components(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i):
    s = np.linspace(l0, l1, int((l1 - l0) * 240))[:int(speed * 8) * i]
    return [(s, ft(s)), (s, fr(s) * q1), (s, fth(s) + q2), (s, fph(s) + q3)]


def film_horizon(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed):
    call = drawn(film(a, (ft, fr, fth, fph), (q1, q2, q3), l0, l1, el, az, tail, tau, speed, {}), "plot_surface")[0]
    x, y, z = given(call, 0, "X"), given(call, 1, "Y"), given(call, 2, "Z")
    return x**2 + y**2 + z**2


def need_film_horizon(a, *v):
    return film_horizon(a, *v) * 0 + (1 + sqrt(1 - a**2))**2


def film_order(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i, j):
    """frame i after frame j was drawn"""
    draw = frame_drawer(film(a, (ft, fr, fth, fph), (q1, q2, q3), l0, l1, el, az, tail, tau, speed, PANS))

    def both():
        draw(j)
        draw(i)
    return given(drawn(both, "set_segments")[-1], 0, "segments"), drawn(both, "setattr:_offsets3d")[-1][1]


def need_film_order(a, ft, fr, fth, fph, q1, q2, q3, l0, l1, el, az, tail, tau, speed, i, j):
    draw = frame_drawer(film(a, (ft, fr, fth, fph), (q1, q2, q3), l0, l1, el, az, tail, tau, speed, PANS))
    return given(drawn(lambda: draw(i), "set_segments")[0], 0, "segments"), drawn(lambda: draw(i), "setattr:_offsets3d")[-1][1]
