"""Obligation table: for each property, the pairs (analysed side, required side) whose value graphs must be congruent.

A rule is private when its anchor is a module-private function: if a refactoring removes or changes the calling
convention of that function the rule is dropped (and counted), because users cannot observe it; a property always
keeps at least one rule on public API.
"""
from .decide import iv, FREE, Region

NAN = Region("nan")


def mk(s):
    return {k: FREE for k in s.split()}


A3, A1 = dict(a=iv(-3, 3)), dict(a=iv(-1, 1))
B = dict(a=iv(-3, 3), p=FREE, e=iv(-2, 3), x=iv(-3, 3))          # every bound-orbit parameter set, valid or not
B2 = {**B, **dict(b=iv(-3, 3), r=FREE, d=iv(-2, 3), y=iv(-3, 3))}
C = {**A1, **mk("E L Q")}                                       # constants of motion
P = {**A1, **dict(E=iv(None, 1)), **mk("L Q")}                  # plunges start at rest at infinity or closer
P2 = {**P, **dict(b=iv(-1, 1), F=iv(None, 1)), **mk("K P")}
Q4, W4, QL, LAM = mk("q0 q1 q2 q3"), mk("w0 w1 w2 w3"), mk("q0 q1 q2 q3 lam"), mk("lam")
N, LL = dict(n=iv(2, None)), mk("l0 dl")
POS, VEL = mk("t0 r0 h0 p0"), mk("u0 u1 u2 u3")
IC = {**A1, **POS, **VEL}
IP = {**A1, **POS, **mk("u1 u2"), **mk("E L Q")}
M, MU = dict(M=iv(0, None)), dict(mu=iv(0, None))
QM = {**mk("q"), **M}
VAR = {**A1, **mk("E L Q r1 r2 r3 r4 zm zp")}



def MADE(**k):
    """rules on an Orbit whose state the harness supplies: dropped when the class keeps other state than its documented attributes"""
    return dict(made=True, **k)


TABLE = {}
PY = {}


def rules(prop, module, items):
    out = TABLE.setdefault(prop, [])
    for it in items:
        lhs, rhs, regions = it[:3]
        opt = dict(it[3]) if len(it) > 3 else {}
        name = opt.pop("name", lhs) if opt else lhs
        out.append(dict(name=f"{prop}.{name}", lhs=f"kg_{module}.{lhs}", rhs=f"kg_{module}.{rhs}", vars=regions, **opt))


def py(prop, name, func):
    """a rule decided by a dedicated analysis instead of a graph comparison"""
    PY.setdefault(prop, []).append((f"{prop}.{name}", func))


ASK = ("energy angular_momentum carter constants radial_roots polar_roots r theta phi gamma mino fundamental orbit trajectory").split()
rules("C01", "constants_spec",
      [("ask_" + f, "need_bound", B) for f in ASK[:4]] + [("ask_" + f, "need_bound_roots", B) for f in ASK[4:6]] +
      [("ask_" + f, "need_bound_frequency", B) for f in ASK[6:]] +
      [("ask_separatrix", "need_range", B), ("ask_spacetime_separatrix", "need_range", B), ("valid", "need_valid", B)] +
      [("ask_" + f, "need_rejected", {**B, v: NAN}, {"name": f"nan_{v}_{f}"}) for f in ASK for v in "apex"] +
      [("ask_" + f, "need_rejected", {**B, v: NAN}, {"name": f"nan_{v}_{f}"}) for f in ("separatrix", "spacetime_separatrix") for v in "aex"])
rules("C02", "freq_spec", [("given_constants", "recomputed", B), ("given_upsilon_r", "recomputed2", B), ("given_upsilon_theta", "recomputed2", B),
                           ("given_all", "recomputed2", B), ("given_el", "recomputed_el", B), ("given_roots", "recomputed_roots", B),
                           ("given_variant", "recomputed_variant", VAR, {"private": True})])
rules("C03", "constants_spec", [("elq_flip", "elq_noflip", B), ("freq_flip", "freq_noflip", B), ("orbit_flip", "orbit_noflip", {**B, **Q4}),
                                ("traj_flip", "traj_noflip", {**B, **QL})])
rules("C04", "constants_spec", [("elq", "need_elq", B), ("elq_single", "need_elq", B)])
rules("C05", "constants_spec", [("stable_roots", "need_stable_roots", B), ("stable_roots_given", "need_stable_roots_given", {**B, **mk("E L Q")}),
                                ("stable_polar", "need_stable_polar", B), ("stable_polar_given", "need_stable_polar_given", {**B, **mk("E L Q")}),
                                ("vieta", "need_vieta", {**B, **mk("E L Q")})])
rules("C06", "constants_spec", [("plunging_roots", "need_plunging_roots", C)])
rules("C07", "constants_spec", [("sep", "need_sep", B), ("s_general_equatorial", "need_s_general_equatorial", mk("p a e"), {"private": True}),
                                ("s_general_polar", "need_s_general_polar", mk("p a e"), {"private": True})] +
      [(f, "need_stable", B) for f in ("stable", "public_stable", "spacetime_stable")])
rules("C08", "constants_spec", [("fast", "need_fast", {**A3, **mk("h e x")}), ("fast_default", "need_fast_default", {**A3, **mk("h e x")})])
rules("C09", "constants_spec", [("apex", "need_apex", C), ("from_constants", "need_from_constants", {**C, **Q4, **mk("M mu")}),
                                ("from_constants_default", "need_from_constants_default", C)])

rules("F02", "freq_spec", [("variants", "need_variants", VAR, {"private": True}), ("variants_all", "need_variants", VAR, {"private": True}),
                           ("variants_fundamental", "need_variants_fundamental", VAR, {"private": True})])
rules("F02", "freq_spec", [("single", "need_mino", B), ("mino", "need_mino", B)])
rules("F03", "freq_spec", [("fundamental", "need_fundamental", B), ("fundamental_orbit", "need_fundamental", B), ("fundamental_attr", "need_fundamental", B),
                           ("fundamental", "need_fundamental_ref", B, {"name": "fundamental_formula"}), ("mino_orbit", "need_mino_orbit", B)])
rules("F04", "freq_spec", [("plunging", "need_plunging", C)])
rules("F02", "freq_spec", [("ell", "need_ell", mk("phi n m"), {"private": True})])

rules("T01", "traj_spec", [("stable", "need_stable", {**B, **QL}), ("stable_orbit", "need_stable", {**B, **QL}),
                           ("stable_default", "need_stable_default", {**B, **LAM})])
rules("P01", "traj_spec", [("plunge", "need_plunge", {**P, **QL}), ("plunge_orbit", "need_plunge", {**P, **QL}),
                           ("plunge_default", "need_plunge_default", {**P, **LAM})])
rules("T02", "traj_spec", [("stable_start", "need_stable_start", {**B, **Q4}), ("stable_turning", "need_stable_turning", {**B, **mk("q0 q3")}),
                           ("stable_initial", "need_stable_initial", {**B, **Q4}), ("plunge_start", "need_plunge_start", {**P, **Q4}),
                           ("plunge_turning", "need_plunge_turning", {**P, **mk("q0 q3")}), ("plunge_initial", "need_plunge_initial", {**P, **Q4})])
rules("T03", "traj_spec", [("stable_period", "need_stable_period", {**B, **QL}), ("stable_delta_period", "need_stable_delta_period", {**B, **mk("q")}),
                           ("plunge_period", "need_plunge_period", {**P, **QL})])
rules("T04", "traj_spec", [("stable_deltas", "need_stable_deltas", {**B, **QL}), ("stable_delta_parts", "need_stable_delta_parts", {**B, **Q4, **mk("q")}),
                           ("plunge_deltas", "need_plunge_deltas", {**P, **QL})])
rules("T06", "traj_spec", [("stable_array", "need_stable_array", {**B, **N, **LL}), ("plunge_array", "need_plunge_array", {**P, **N, **LL})])
rules("G04", "traj_spec", [("stable_override", "need_stable_override", {**B, **Q4, **W4, **LAM}),
                           ("plunge_override", "need_plunge_override", {**P, **Q4, **W4, **LAM}),
                           ("stable_afterwards", "need_stable_afterwards", {**B, **Q4, **W4, **LAM}),
                           ("plunge_afterwards", "need_plunge_afterwards", {**P, **Q4, **W4, **LAM})])

rules("S01", "spacetime_spec", [("metric", "need_metric", mk("a t r th ph")), ("horizons", "need_horizons", {**A1, **mk("M")}),
                                ("norm", "need_norm", mk("a t r th ph v0 v1 v2 v3"))])
rules("S03", "spacetime_spec", [("velocity", "need_velocity", mk("a E L Q ur ut q0 q1 q2 q3 r0 r1 h0 h1 lam")),
                                ("stable_velocity", "need_stable_velocity", {**B, **QL}), ("plunge_velocity", "need_plunge_velocity", {**P, **QL})])
rules("S02", "spacetime_spec", [("unit_norm", "need_unit_norm", mk("a E L Q q1 q2 r th")), ("conserved", "need_conserved", mk("a E L Q q1 q2 r th")),
                                ("stable_unit_norm", "need_stable_unit_norm", {**B, **QL}), ("plunge_unit_norm", "need_plunge_unit_norm", {**P, **QL}),
                                ("norms", "need_norms", mk("a ct cr ch cp q1 q2 lam"), {"private": True})])
rules("S04", "spacetime_spec", [("numerical", "need_numerical", mk("a ct cr ch cp dx lam")),
                                ("numerical_default", "need_numerical", mk("a ct cr ch cp dx lam"))])

rules("I01", "orbit_spec", [("constants", "need_constants", IC), ("constants_list", "need_constants", IC)])
rules("I02", "orbit_spec", [("stable", "need_stable", {**A1, **mk("r0 h0 E L Q")}), ("stable_from_velocity", "need_stable_from_velocity", {**A1, **mk("r0 h0"), **VEL})])
rules("I03", "orbit_spec", [(f, "need_" + f, IP) for f in ("radial_phases", "polar_phases", "plunge_radial_phases", "plunge_polar_phases",
                                                           "radial_return", "polar_return")] +
      [("schwarzschild_phases", "need_schwarzschild_phases", mk("p e x h0 u2")), ("stable_phases_default", "need_stable_phases_default", IC),
       ("stable_phases_given", "stable_phases", IP), ("plunge_phases_default", "need_plunge_phases_default", IC)])
rules("I04", "orbit_spec", [("accept", "need_accept", IC)])
rules("T05", "orbit_spec", [("orbit", "need_orbit", {**IC, **mk("M mu")}), ("route", "need_route", {**IC, **LAM}), ("path_stable", "need_path_stable", {**B, **QL}, MADE()),
                            ("path_plunge", "need_path_plunge", {**P, **QL}, MADE())])
rules("T04", "orbit_spec", [("parts_stable", "need_parts_stable", {**B, **Q4, **mk("q")}, MADE()),
                            ("parts_plunge", "need_parts_plunge", {**P, **Q4, **mk("q")}, MADE())])
rules("G04", "orbit_spec", [("override_stable", "need_override_stable", {**B, **Q4, **W4, **LAM}, MADE()),
                            ("override_plunge", "need_override_plunge", {**P, **Q4, **W4, **LAM}, MADE())])
rules("U02", "orbit_spec", [("units_stable", "need_units_stable", {**B, **QL, **M}, MADE()),
                            ("units_plunge", "need_units_plunge", {**P, **QL, **M}, MADE()), ("without_mass", "need_without_mass", B, MADE())])
rules("U03", "orbit_spec", [("constants_stable", "need_constants_stable", {**B, **M, **MU}, MADE()),
                            ("constants_plunge", "need_constants_plunge", {**P, **M, **MU}, MADE())])
rules("S04", "orbit_spec", [("numerical", "need_numerical", {**B, **QL, **mk("dx")}, MADE(name="orbit"))])

rules("U01", "units_spec", [(f, "need_" + f, v) for f, v in [("factors", QM), ("long_distances", QM), ("mechanical", {**mk("E L Q"), **M}), ("light", QM)]])
rules("U02", "units_spec", [(f, "need_" + f, v) for f, v in [
    ("stable_units", {**B, **QL, **M}), ("stable_function_units", {**B, **QL, **M}), ("plunge_units", {**P, **QL, **M}),
    ("plunge_function_units", {**P, **QL, **M}), ("stable_without_mass", B), ("plunge_without_mass", P)]])
rules("U03", "units_spec", [(f, "need_" + f, v) for f, v in [
    ("stable_frequency_units", {**B, **M}), ("stable_constants_units", {**B, **M, **MU}), ("plunge_constants_units", {**P, **M, **MU}),
    ("scale", {**mk("E L Q"), **M, **MU})]])

rules("G01", "history_spec", [
    ("bound_after", "bound_alone", B2), ("frequency_after", "frequency_alone", B2), ("separatrix_after", "separatrix_alone", B2),
    ("plunge_after", "plunge_alone", P2), ("apex_after", "apex_alone", P2), ("stable_pair", "stable_single", {**B2, **LAM}),
    ("plunge_pair", "plunge_single", {**P2, **LAM}), ("stable_repeat", "need_stable_repeat", {**B, **QL, **mk("mu")}),
    ("plunge_repeat", "need_plunge_repeat", {**P, **QL, **mk("mu")}), ("stable_arguments", "need_stable_arguments", {**B, **QL}),
    ("plunge_arguments", "need_plunge_arguments", {**P, **QL}), ("state_arguments", "need_state_arguments", {**A1, **POS, **VEL}),
    ("times_arguments", "need_times_arguments", {**B, **N, **LL})])

FNS = {"fn:t": FREE, "fn:r": FREE, "fn:th": FREE, "fn:ph": FREE}
PH = {**A1, **FNS, **mk("q1 q2 q3 l0 l1 el az")}
PL = {**PH, **mk("lw tau density")}
FL0 = {**PH, **mk("tail tau speed")}
FL = {**FL0, "i": iv(0, None)}
rules("V01", "visual_spec", [("visible", "need_visible", {**A1, **N, **mk("x0 dx y0 dy z0 dz el az")})])
rules("V02", "visual_spec", [(f, "need_" + f, PL) for f in ("plot_segments", "plot_widths", "plot_body", "plot_horizon", "plot_view")] +
      [("plot_phases", "need_plot_phases", PH)])
rules("V03", "visual_spec", [(f, "need_" + f, FL) for f in ("film_frames", "film_segments", "film_body", "film_fade", "film_view", "film_pans",
                                                           "film_pan_segments", "film_components")] +
      [("film_horizon", "need_film_horizon", FL0), ("film_order", "need_film_order", {**FL, "j": iv(0, None)})])

NM = dict(names=True)
rules("G03", "names_spec", [(f, "need_" + f, v, NM) for f, v in [
    ("top_constants", B), ("top_stable", B), ("top_separatrix", B), ("top_fast", A3), ("top_frequencies", B), ("top_stable_orbit", B),
    ("top_plunge_orbit", P), ("top_state", IC), ("top_spacetime", mk("a r h")), ("words_constants", B), ("words_roots", {**B, **mk("E L Q")}),
    ("words_plunge", C), ("words_apex", C), ("words_frequencies", B), ("words_state", IP),
    ("words_phases", {**IP, **mk("r1 r2 r3 r4 v w")}), ("words_plunge_phases", {**IP, **mk("r1 r2 r3 r4")}),
    ("words_stable", {**B, **Q4, **M, **MU, **mk("s")}), ("words_plunging", {**P, **Q4, **M, **MU, **mk("s")}),
    ("words_from_constants", {**B, **Q4, **M, **MU}), ("words_spacetime", {**A1, **M, **mk("p e x r h v0 v3")}),
    ("words_units", {**mk("d"), **M}), ("words_orbit", {**IC, **M, **MU}), ("words_velocity", {**A1, **mk("E L Q v w ct cr ch cp s")}),
    ("default_orbit", {**B, **mk("s")}), ("default_plunge", {**P, **mk("s")}), ("default_fast", A3), ("default_tolerance", IP),
    ("default_phase_tolerance", {**IP, **mk("r1 r2 r3 r4 v w")}), ("default_state", IC),
    ("words_plot", {**A1, **FNS, **mk("l0 l1 el az q1 lw tau density")}), ("default_plot", {**A1, **FNS}),
    ("words_film", {**A1, **FNS, **mk("l0 l1 el az q1 lw tau speed tail")}), ("default_film", {**A1, **FNS})]])
