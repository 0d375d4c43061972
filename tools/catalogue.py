"""Writes properties.jsonl and MANIFEST.json from one catalogue (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEST_NOTE = "the tests compare finitely many tabulated or random parameter sets with Mathematica output"
K = "kerrgeopy/"
PROPS = []


def P(id, title, statement, quant, why, files, mech, observe, over=("inputs",), note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
                      anchors=dict(files=[K + f for f in files], state=[], mechanism=[dict(name=n, where=K + w) for n, w in mech],
                                   observe_at=observe, hook_needed=None), _note=note))


ORBIT = "every spin, semi-latus rectum, eccentricity and inclination, including a<0, e=0, e=1, x=0, |x|=1, a=0, |a|=1 and values outside the valid range"
PLUNGE = "every spin 0<|a|<1 and all constants E<1, L, Q whose radial polynomial has two or four real roots"

P("C01", "Bound-orbit parameters outside the domain are rejected, all others accepted",
  "Every public function taking bound-orbit parameters (a, p, e, x) raises ValueError when the parameters do not describe a stable bound orbit "
  "(spin magnitude at least 1, eccentricity outside [0,1], inclination cosine outside [-1,1], p not above the separatrix, or any NaN), and never "
  "rejects parameters that do. Frequency functions, orbits and trajectories additionally reject marginally bound (e=1) and polar (x=0) orbits; the "
  "separatrix functions apply the range test only.",
  ORBIT + ", and NaN in each position", "tests try about ten invalid tuples per function; the accept/reject boundary is a surface in a 4-dimensional space, and a branch that "
  "skips a test (for one sign of spin, for e=0, for NaN) is reached by no sample",
  ["constants.py", "frequencies.py", "stable.py", "spacetime.py"],
  [("range test", "constants.py:valid_params"), ("stability test", "constants.py:is_stable"), ("validation in each function", "constants.py:energy")],
  ["kerrgeopy.constants.energy", "kerrgeopy.frequencies.mino_frequencies", "kerrgeopy.StableOrbit", "kerrgeopy.stable.stable_trajectory"])
P("C02", "Passing precomputed values never changes a result",
  "Functions that accept already computed quantities (energy, angular momentum, constants of motion, roots, radial or polar frequency) as optional arguments "
  "return the same result and raise the same errors whether the caller supplies those quantities or leaves them out.",
  ORBIT + "; every combination of supplied and omitted optional quantities", "the tests call the functions in one of the two ways only, so a recomputation that differs from the "
  "supplied quantity on a special case is invisible",
  ["constants.py", "frequencies.py"], [("optional arguments", "frequencies.py:phi_frequency"), ("optional constants", "constants.py:stable_radial_roots")],
  ["kerrgeopy.frequencies.phi_frequency", "kerrgeopy.frequencies.gamma", "kerrgeopy.constants.carter_constant"])
P("C03", "A negative spin means the opposite orbital orientation",
  "Every public function of bound-orbit parameters gives the same results for (a, p, e, x) and (-a, p, e, -x), a nonzero. This holds for constants of motion, "
  "all frequencies, orbit objects with their initial state, and trajectories.",
  "every nonzero spin of either sign and every p, e, x, valid or not", "negative spins appear in a handful of test rows; the convention must be applied exactly once in every entry point",
  ["constants.py", "frequencies.py", "stable.py"], [("sign convention", "constants.py:_standardize_params")],
  ["kerrgeopy.constants.constants_of_motion", "kerrgeopy.StableOrbit", "kerrgeopy.stable.stable_trajectory"])
P("C04", "Constants of motion solve the bound-orbit conditions",
  "Energy, angular momentum and Carter constant of a bound orbit equal the closed-form solution for the turning points p/(1-e), p/(1+e) and inclination x, "
  "in every special case (circular, marginally bound, polar, equatorial, Schwarzschild, retrograde), and the joint and the individual functions agree.",
  ORBIT, TEST_NOTE + "; special-case branches (e=0, e=1, x=0, a=0) are hit by few rows or none",
  ["constants.py"], [("closed forms", "constants.py:energy"), ("angular momentum", "constants.py:angular_momentum"), ("Carter constant", "constants.py:carter_constant")],
  ["kerrgeopy.constants.constants_of_motion"])
P("C05", "Stable radial and polar roots belong to the motion's potentials",
  "For a bound orbit the four radial roots are p/(1-e), p/(1+e) and the two that complete Vieta's relations of the radial potential (largest first), and the polar roots are "
  "1-x^2 and its partner in the polar potential. Marginally bound orbits (infinite radial root) and, for the polar roots, polar orbits are not covered.",
  "every bound orbit, with constants supplied by the caller or computed", TEST_NOTE + " and only through derived quantities",
  ["constants.py"], [("radial roots", "constants.py:stable_radial_roots"), ("polar roots", "constants.py:stable_polar_roots")],
  ["kerrgeopy.constants.stable_radial_roots", "kerrgeopy.constants.stable_polar_roots"])
P("C06", "Plunging radial roots are classified consistently",
  "For constants of a plunge the returned roots are those of the radial polynomial, ordered so that the first two bound the motion (the real pair, or the pair of four real roots "
  "that contains or lies above the inner horizon), with a complex pair last; any other number of real roots raises ValueError.",
  "all a in [-1,1], E, L, Q", "tests look at a few tabulated plunges; neither the no-real-root case nor the ordering in every branch is sampled",
  ["constants.py"], [("root classification", "constants.py:plunging_radial_roots")], ["kerrgeopy.constants.plunging_radial_roots"])
P("C07", "Separatrix and stability verdict",
  "The separatrix is the root of the Stein-Warburton polynomial for the given spin, eccentricity and inclination within its bracketing interval (closed form for zero and "
  "extreme spin, the right special polynomial for equatorial prograde, equatorial retrograde and polar orbits), and an orbit is called stable exactly if p exceeds it. "
  "Free functions and spacetime methods agree and reject out-of-range parameters.",
  "every a, e, x (valid or not) and every p", TEST_NOTE, ["constants.py", "spacetime.py"],
  [("separatrix", "constants.py:separatrix"), ("stability", "constants.py:is_stable")],
  ["kerrgeopy.separatrix", "kerrgeopy.is_stable", "kerrgeopy.KerrSpacetime.separatrix"])
P("C08", "The fast separatrix interpolates the separatrix",
  "The fast separatrix for a spin is the bivariate spline through the exact separatrix on a regular grid over eccentricity [0,1] and inclination [-1,1] with the requested spacing, "
  "evaluated at (e, x); it rejects the spins the separatrix rejects.",
  "every spin, grid spacing and (e, x)", "no test calls it", ["constants.py"], [("grid and spline", "constants.py:fast_separatrix")],
  ["kerrgeopy.constants.fast_separatrix"])
P("C09", "Orbital elements from constants of motion",
  "The orbital elements computed from (a, E, L, Q) are those of the two largest radial roots and the smaller polar root, with the inclination carrying the sign of L; an orbit built "
  "from constants equals the orbit built from those elements, with the same phases and masses.",
  "all a, E, L, Q; all phases and masses", "tests use a few tabulated orbits and never an orbit built from constants with phases and masses",
  ["constants.py", "stable.py"], [("inversion", "constants.py:apex_from_constants"), ("constructor", "stable.py:StableOrbit.from_constants")],
  ["kerrgeopy.constants.apex_from_constants", "kerrgeopy.StableOrbit.from_constants"])
P("F02", "Mino frequencies are those of Fujita and Hikida",
  "Radial, polar and azimuthal Mino-time frequencies and the time-dilation factor of every bound orbit equal the closed-form expressions in elliptic integrals, in all special cases, "
  "whether requested one by one or together and whether evaluated from orbital elements or internally from constants of motion and roots (polar frequency up to its sign).",
  ORBIT, TEST_NOTE + "; the from-constants variants are exercised for plunges only", ["frequencies.py"],
  [("frequencies", "frequencies.py:mino_frequencies"), ("from constants", "frequencies.py:_gamma_from_constants")],
  ["kerrgeopy.frequencies.mino_frequencies", "kerrgeopy.frequencies.gamma"])
P("F03", "Boyer-Lindquist frequencies are Mino frequencies per unit time",
  "Fundamental (Boyer-Lindquist) frequencies equal the Mino frequencies divided by the time-dilation factor, and an orbit's frequency methods and attributes equal the free functions.",
  ORBIT, TEST_NOTE + "; the orbit object's methods and attributes are not compared with the functions", ["frequencies.py", "stable.py"],
  [("quotient", "frequencies.py:fundamental_frequencies"), ("orbit attributes", "stable.py:StableOrbit.__init__")],
  ["kerrgeopy.frequencies.fundamental_frequencies", "kerrgeopy.StableOrbit.fundamental_frequencies"])
P("F04", "Plunging orbits' radial and polar frequencies",
  "The radial and polar Mino frequencies of a plunging orbit equal the closed forms for its root type (two or four real radial roots), for every spin and sign of L.",
  "all a in [-1,1], E, L, Q", "tests use a few tabulated plunges", ["frequencies.py"], [("frequencies", "frequencies.py:plunging_mino_frequencies")],
  ["kerrgeopy.frequencies.plunging_mino_frequencies"])
P("T01", "Stable trajectories are the closed-form solutions",
  "For every bound orbit, initial phases and Mino time, the trajectory's t, r, theta and phi equal the closed-form Jacobi-elliptic solution with the given phases (zero by default), "
  "from the free function and from the orbit object alike.",
  ORBIT + "; all initial phases and Mino times", TEST_NOTE + " at sampled times, mostly with zero phases", ["stable.py"],
  [("assembly", "stable.py:stable_trajectory"), ("radial solution", "stable.py:radial_solutions"), ("polar solution", "stable.py:polar_solutions")],
  ["kerrgeopy.stable.stable_trajectory", "kerrgeopy.StableOrbit.trajectory"], over=("inputs", "configurations"))
P("P01", "Plunging trajectories are the closed-form solutions",
  "For every plunge, initial phases and Mino time, t, r, theta and phi equal the closed-form solution for its root type, with the given phases (zero by default), from the free "
  "function and from the orbit object alike. Spin zero is rejected with ValueError; four-real-root plunges with L=0 are not covered.",
  PLUNGE + "; all initial phases and Mino times", TEST_NOTE + " at sampled times, mostly with zero phases", ["plunge.py", "stable.py"],
  [("assembly", "plunge.py:plunging_trajectory"), ("radial integrals", "plunge.py:plunging_radial_integrals")],
  ["kerrgeopy.plunge.plunging_trajectory", "kerrgeopy.PlungingOrbit.trajectory"], over=("inputs", "configurations"))
P("T02", "Orbits start at their initial phases and turn at their roots",
  "At Mino time zero t and phi equal their initial phases, radial and polar phase 0 put the body at the inner radial and upper polar turning point and phase pi at the opposite ones; "
  "the orbit's recorded initial position and velocity equal its trajectory and four-velocity at time zero.",
  ORBIT + "; all initial phases; and the same for plunges (" + PLUNGE + ")", "tests with nonzero phases are few and compare whole trajectories of tabulated orbits",
  ["stable.py", "plunge.py"], [("initial state", "stable.py:StableOrbit.__init__"), ("phase offsets", "stable.py:stable_trajectory")],
  ["kerrgeopy.StableOrbit.initial_position", "kerrgeopy.PlungingOrbit.initial_velocity"])
P("T03", "r and theta repeat with their Mino periods",
  "Advancing Mino time by 2 pi over the radial (polar) frequency leaves r (theta) unchanged, for stable orbits and plunges alike, and the oscillating parts of t and phi of a stable orbit "
  "are 2 pi-periodic in their phases.",
  ORBIT + "; all phases and times; and plunges", "no test checks periodicity; branch and unwrapping errors appear only after the first period",
  ["stable.py", "plunge.py"], [("phase wrapping", "stable.py:radial_solutions"), ("plunge branch switching", "plunge.py:plunging_radial_solutions_complex")],
  ["kerrgeopy.StableOrbit.trajectory", "kerrgeopy.PlungingOrbit.trajectory", "kerrgeopy.StableOrbit.trajectory_deltas"])
P("T04", "Trajectory deltas are the oscillating parts of t and phi",
  "The four delta functions of an orbit are the radial and polar parts of t and phi as functions of phase, shifted by the initial phases, so that initial value plus secular growth plus delta "
  "differences reproduces the orbit's own t and phi at every Mino time.",
  ORBIT + "; all phases and times; and plunges", "tests never compare deltas with trajectories", ["orbit.py", "stable.py", "plunge.py"],
  [("deltas", "orbit.py:Orbit.trajectory_deltas"), ("stable deltas", "stable.py:StableOrbit.trajectory_deltas"), ("plunging deltas", "plunge.py:PlungingOrbit.trajectory_deltas")],
  ["kerrgeopy.StableOrbit.trajectory_deltas", "kerrgeopy.PlungingOrbit.trajectory_deltas"])
P("T05", "An orbit built from an initial state is the orbit through that state",
  "An orbit constructed from spin, position and four-velocity carries exactly the constants of motion, stability verdict, orbital elements, frequencies, phases, masses and initial state "
  "that the free functions give for that state, and its trajectories and deltas equal those of the stable or plunging orbit with the same constants and phases.",
  "every spin, position and velocity, accepted or rejected; every phase and Mino time", "tests build a few orbits from tabulated initial data", ["orbit.py"],
  [("constructor", "orbit.py:Orbit.__init__"), ("dispatch", "orbit.py:Orbit.trajectory")], ["kerrgeopy.Orbit"])
P("T06", "Arrays of Mino times are evaluated element by element",
  "Evaluating a trajectory or four-velocity component on an array of Mino times gives at every index the value for that single time, for stable and plunging orbits.",
  "every orbit, every array length of at least two and every entry", "tests evaluate either arrays or scalars, on sampled orbits", ["stable.py", "plunge.py", "spacetime.py"],
  [("vectorised branches", "plunge.py:plunging_radial_integrals")], ["kerrgeopy.StableOrbit.trajectory", "kerrgeopy.PlungingOrbit.four_velocity"])
P("G03", "Public names, parameters and defaults are the documented ones",
  "Every documented public name exists where it is documented (in particular the top-level is_stable is the one taking a, p, e, x), takes the documented parameters by keyword or by position in the "
  "documented order, and an omitted optional argument has its documented default: zero phases, no masses, natural units, grid spacing 0.01, tolerance 1e-4, and the plotting and animation defaults.",
  "every argument value, for all documented callables", "tests call few functions by keyword and never compare omitted arguments with explicit defaults",
  ["__init__.py", "constants.py", "frequencies.py", "initial_conditions.py", "stable.py", "plunge.py", "orbit.py", "spacetime.py", "units.py"],
  [("exports", "__init__.py"), ("plot defaults", "orbit.py:Orbit.plot")], ["kerrgeopy.is_stable", "kerrgeopy.StableOrbit", "kerrgeopy.Orbit.plot"])
P("G04", "Explicit initial phases replace the stored ones for that call only",
  "Any trajectory, delta or four-velocity method called with explicit initial phases behaves like the same orbit constructed with those phases, and the orbit's own phases are unchanged.",
  "every stable and plunging orbit, stored phases, overriding phases and Mino time", "tests hardly pass explicit phases to methods", ["orbit.py", "stable.py", "plunge.py"],
  [("phase defaulting", "orbit.py:Orbit.four_velocity")], ["kerrgeopy.StableOrbit.four_velocity", "kerrgeopy.PlungingOrbit.trajectory"], over=("inputs", "histories"))
P("S01", "Kerr metric, norm and horizons",
  "The metric is the Kerr metric in Boyer-Lindquist coordinates, the norm of a four-vector is its contraction with that metric, and the horizons are 1 +- sqrt(1-a^2).",
  "every spin, point and vector", "the metric is checked only through norms of sampled orbits, where errors orthogonal to the velocity cancel", ["spacetime.py"],
  [("metric", "spacetime.py:KerrSpacetime.metric"), ("norm", "spacetime.py:KerrSpacetime.norm")], ["kerrgeopy.KerrSpacetime.metric", "kerrgeopy.KerrSpacetime.norm"])
P("S02", "Four-velocities are normalised and conserve E, L and Q",
  "Wherever the radial and polar potentials are non-negative, the four-velocity has norm -1 and its conserved quantities are the given E, L, Q, for the spacetime function and for "
  "stable and plunging orbits at every Mino time (plunges with L=0 excepted).",
  "every spin, constants, point and phase; every orbit and Mino time", "the tests sample norms at finitely many points of finitely many orbits", ["spacetime.py", "orbit.py"],
  [("four-velocity", "spacetime.py:KerrSpacetime.four_velocity")], ["kerrgeopy.KerrSpacetime.four_velocity", "kerrgeopy.StableOrbit.four_velocity"])
P("S03", "Four-velocity components and their signs",
  "The four-velocity components equal the first-order geodesic equations divided by Sigma; the radial component is non-negative on the first half and non-positive on the second half of each "
  "radial cycle, and the polar component likewise for the polar cycle, for any initial phases and any number of cycles.",
  "every spin, constants, point, phases and Mino time", "tests compare with numerical derivatives on a few orbits over a limited time span", ["spacetime.py", "orbit.py"],
  [("signs", "spacetime.py:KerrSpacetime.four_velocity")], ["kerrgeopy.KerrSpacetime.four_velocity", "kerrgeopy.PlungingOrbit.four_velocity"])
P("S04", "The numerical four-velocity is the fourth-order derivative of the trajectory",
  "The numerically computed four-velocity is exact, for every step size, on trajectories that are polynomials of degree four in Mino time: each component is the Mino-time derivative divided by Sigma.",
  "every spin, quartic trajectory, step and Mino time", "tests compare numbers to a tolerance that a lower-order stencil also meets", ["orbit.py"],
  [("stencil", "orbit.py:Orbit.numerical_four_velocity")], ["kerrgeopy.Orbit.numerical_four_velocity"])
P("I01", "Constants of motion of an initial state",
  "The constants of motion computed from spin, position and four-velocity are E=-u_t, L=u_phi and the Carter constant of that state, for tuples, lists and arrays.",
  "every spin, position and four-velocity", "tests use tabulated states", ["initial_conditions.py"], [("contraction", "initial_conditions.py:constants_from_initial_conditions")],
  ["kerrgeopy.initial_conditions.constants_from_initial_conditions"])
P("I02", "Stability verdict of an initial state",
  "An initial state is called stable exactly when it lies between the two largest of four real radial roots and these are outside the inner horizon; it is a plunge when there are only two real roots "
  "or it lies between the two smallest, or when the containing pair reaches below the inner horizon; otherwise ValueError is raised (positions within 1e-3 of a root are not covered).",
  "every spin, position and constants, given or computed from the velocity", "tests use tabulated states only", ["initial_conditions.py"],
  [("classification", "initial_conditions.py:is_stable")], ["kerrgeopy.initial_conditions.is_stable"])
P("I03", "Initial phases invert the closed-form solution",
  "The initial phases found for a state with spin a>=0 are the phases at which the closed-form solution passes through that position with the signs of the given radial and polar velocities, exactly 0 or pi at turning "
  "points, with t and phi phases equal to t and phi; supplying constants or roots makes no difference (positions within 1e-3 of a turning point are not covered).",
  "every spin a>=0, position, velocity signs and constants, stable and plunging", "tests use tabulated states; each of the sign and turning-point branches is rarely sampled", ["initial_conditions.py"],
  [("stable phases", "initial_conditions.py:stable_orbit_initial_phases"), ("plunging phases", "initial_conditions.py:plunging_orbit_initial_phases")],
  ["kerrgeopy.initial_conditions.stable_orbit_initial_phases", "kerrgeopy.initial_conditions.plunging_orbit_initial_phases"])
P("I04", "Only normalised timelike initial velocities are accepted",
  "Constructing an orbit from an initial state raises ValueError if the velocity is not timelike or its norm differs from -1 by more than 1e-6, before anything else can fail.",
  "every spin, position and velocity", "tests build orbits from valid states only", ["orbit.py", "spacetime.py"], [("norm test", "orbit.py:Orbit.__init__")], ["kerrgeopy.Orbit"])
P("U01", "Unit conversions are linear with mutually consistent factors",
  "Every unit conversion is the dimensionless quantity times the right power of the black-hole mass times a constant, and the constants are consistent: cm, km, au and light years with metres, days with "
  "seconds, ergs with joules, cgs with mks, mHz with Hz, and distance over time equal to the speed of light.",
  "every quantity and every positive mass", "no test covers unit conversion", ["units.py"], [("conversions", "units.py:distance_in_meters")], ["kerrgeopy.units"])
P("U02", "Trajectories in physical units are scaled natural trajectories",
  "A trajectory requested in physical units equals the natural-unit trajectory with t converted to the requested time unit and r to the requested distance unit (angles unchanged), from orbits and free functions; "
  "requesting physical units without a mass raises ValueError.",
  "every orbit, phases, Mino time, positive mass and all unit combinations", "no test covers units", ["stable.py", "plunge.py", "units.py"],
  [("conversion tables", "stable.py:stable_trajectory"), ("conversion tables", "plunge.py:plunging_trajectory")], ["kerrgeopy.StableOrbit.trajectory", "kerrgeopy.plunge.plunging_trajectory"],
  over=("inputs", "configurations"))
P("U03", "Frequencies and constants in physical units",
  "Frequencies in physical units are the natural ones converted to Hz or mHz (per 2 pi as documented), and constants of motion in mks or cgs are the natural ones scaled by the orbiting mass and "
  "converted with the black-hole mass; missing masses or unknown units raise ValueError.",
  "every orbit and all positive masses", "no test covers units", ["stable.py", "orbit.py", "constants.py"],
  [("orbit methods", "orbit.py:Orbit.constants_of_motion"), ("scaling", "constants.py:scale_constants")], ["kerrgeopy.StableOrbit.constants_of_motion", "kerrgeopy.StableOrbit.mino_frequencies"],
  over=("inputs", "configurations"))
P("G01", "Results depend on the arguments only",
  "No call changes the outcome of another: functions give the same results after any earlier calls, orbits share no state, repeated and interleaved evaluation of one orbit repeats its values, and "
  "no function modifies its arguments (phases, positions, velocities, time arrays).",
  "every pair of parameter sets and every interleaving of the method calls listed in the obligations", "tests create fresh objects for each case and never look at arguments or earlier objects again",
  ["constants.py", "frequencies.py", "stable.py", "plunge.py", "orbit.py", "initial_conditions.py"], [("pure functions", "constants.py:energy"), ("per-object state", "orbit.py:Orbit")],
  ["kerrgeopy"], over=("inputs", "histories"))
P("V01", "A point is drawn exactly when the black hole does not hide it",
  "is_visible calls a point visible exactly when it lies outside the outer horizon and, seen from the given elevation and azimuth, is either in front of the black hole's centre plane or outside the "
  "horizon's silhouette, for each point of an array separately.",
  "every spin, array of points and viewing direction", "no test calls the plotting code", ["orbit.py"], [("visibility", "orbit.py:Orbit.is_visible")], ["kerrgeopy.Orbit.is_visible"])
P("V02", "A plotted orbit is the requested stretch of the trajectory",
  "plot draws line segments joining the Cartesian images of the trajectory at equally spaced Mino times from the first to the last requested time with the requested density, interrupts the line where the black "
  "hole hides it, thins it exponentially towards the past with the requested width and time constant, marks the last point, draws the black hole as the sphere of the outer horizon and looks orthographically "
  "from the requested elevation and azimuth; explicit initial phases override the orbit's own.",
  "every spin, trajectory, phases, time range, view and style parameters (at least two points)", "no test calls the plotting code", ["orbit.py"], [("plot", "orbit.py:Orbit.plot")], ["kerrgeopy.Orbit.plot"],
  over=("inputs", "configurations"))
P("V03", "Every frame of an animation shows the orbit at that frame's time",
  "animate saves one film with the number of frames given by range, density and speed; frame i shows the body at the time of that frame, the visible part of the trailing tail up to the tail length ending there, fading "
  "exponentially, the component plots up to that time, seen from the view, roll and axis limits of that time (constant or by the given functions); frames do not depend on the order in which they are drawn.",
  "every spin, trajectory, phases, time range, speed, tail, view, pan functions and frame number", "no test calls the animation code", ["orbit.py"],
  [("animate", "orbit.py:Orbit.animate")], ["kerrgeopy.Orbit.animate"], over=("inputs", "configurations"))

NA = [
    ("N01", "Numerical accuracy of the special functions and root finders", "Computed values agree with the exact closed forms to near machine precision over the whole parameter range, including close to the separatrix, to "
     "extremal spin and to turning points.", "every admissible parameter set", ["constants.py", "frequencies.py", "stable.py", "plunge.py"],
     "rounding, cancellation and convergence of scipy's routines are runtime quantities of floating-point execution; no sound static error bound is in reach for elliptic functions and polynomial root finding"),
    ("N02", "Running time and memory stay proportional to the number of requested points", "Evaluating trajectories, plots and animations takes time and memory proportional to the number of requested points.",
     "every orbit and time range", ["orbit.py", "stable.py", "plunge.py"], "resource use of numpy/scipy/matplotlib internals is not visible in this repository's source"),
    ("N03", "Rendered images show the requested scene", "The pixels of plots and video frames show the orbit, horizon and view requested.", "every orbit and view", ["orbit.py"],
     "rendering is done by matplotlib and ffmpeg at run time; the source only determines the data handed over"),
]
LEVEL = ("Static: the repository's source is abstractly evaluated on symbolic inputs into gated value graphs and each obligation is decided by value numbering in every decision context; covers all inputs of the stated domain under real-number "
         "semantics. Trusts the transfer functions for Python/numpy/scipy constructs, the reference formulas in spec/ref.py and fingerprint congruence (error below 2^-100 per comparison); says nothing about rounding.")
TECH = "static analysis: abstract interpretation to gated value graphs + global value numbering (congruence) against a reference, per decision context"
TECHS, LEVELS = {}, {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
        for i, t, s, q, files, why in NA:
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=["inputs"], text=q), why_tests_cant="tests sample; tolerances hide degradation",
                                    anchors=dict(files=[K + x for x in files], state=[], mechanism=[], observe_at=["kerrgeopy"], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="python3-vt -m compileall -q kgv spec check.py",
             checks=[dict(property=p["id"], quick_cmd=f"python3-vt check.py {p['id']} --tier quick", thorough_cmd=f"python3-vt check.py {p['id']} --tier thorough",
                          technique=TECHS.get(p["id"], TECH), level="other", level_note=LEVELS.get(p["id"], LEVEL)) for p in PROPS],
             not_applicable=[dict(property=i, reason=why) for i, t, s, q, files, why in NA],
             notes="Every check reads /repo's current sources (override with KGV_REPO); no library code is executed. See DESIGN.md.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(PROPS), "properties")


main()
