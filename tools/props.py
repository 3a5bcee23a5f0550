#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "kerrgeopy/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note, technique, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, note=note, technique=technique, state=state or []))


MATH = "the tests compare with Mathematica tables of a few hundred random generic prograde/retrograde orbits (no special cases, no negative spin) "

prop("C01", "Constants of motion put the turning points where the parameters say",
     "For every stable orbit (a, p, e, x), including polar, equatorial, circular, marginally bound, zero and negative spin, the returned energy, angular "
     "momentum and Carter constant are the ones for which the radial motion turns exactly at p/(1-e) and p/(1+e) and the polar motion at the inclination whose "
     "cosine is x, and L has the sign of the direction of motion. The single-constant functions agree with the triple, and the returned radial and polar roots "
     "are the roots of those equations in the documented order.",
     ["inputs"], "all stable (a,p,e,x) with |a|<1, 0<=e<=1, |x|<=1, however close to the separatrix, to e=1, to |x|=1 or to x=0, and p up to 1e5",
     MATH + "with p well inside the domain; cancellation and special branches at the edges are never reached",
     [K + "constants.py"], [("energy, angular_momentum, carter_constant", K + "constants.py"), ("stable_radial_roots, stable_polar_roots", K + "constants.py")],
     ["constants_of_motion", "energy", "angular_momentum", "carter_constant", "stable_radial_roots", "stable_polar_roots"],
     "oracle: 50-digit solution of the turning-point equations, independent of the package's formulas; radial and polar roots for 1-e >= 1e-4",
     "online reference-model monitor (50-digit turning-point solver) over stratified inputs")
prop("C02", "Orbital parameters and constants of motion are inverse to each other",
     "Converting the parameters of a stable orbit to constants of motion and back recovers p, e and x, for every class of orbit including circular, spherical, "
     "equatorial and Schwarzschild. Building an orbit from its constants gives the same orbit, and constants that belong to no bound orbit are rejected with an error.",
     ["inputs"], "constants of every stable orbit (0<=a<1), as computed by the package and as rounded from the exact ones; constants of plunges with no bound region",
     "no test calls the inverse conversion on special orbits, where the quartic has double roots and the half-precision loss makes classification delicate",
     [K + "constants.py", K + "stable.py"], [("apex_from_constants", K + "constants.py"), ("StableOrbit.from_constants", K + "stable.py")],
     ["apex_from_constants", "StableOrbit.from_constants"],
     "round trip with constants from an independent high-precision model; p,e,x recovered to the conditioning of the quartic",
     "round-trip monitor against a high-precision reference model")
prop("C03", "The separatrix is the boundary of stable motion",
     "For every spin, eccentricity (0 to 1) and inclination the returned separatrix is the value of p at which stable bound motion ends: just above it the orbit is "
     "stable, just below it is not, and the stability test says so. The interpolated separatrix agrees with it to the accuracy of its grid.",
     ["inputs"], "all 0<=a<1, 0<=e<=1, -1<=x<=1 including the edges; p on both sides at relative distance 1e-6; interpolation at grid nodes and between",
     "the test compares a table of interior values; edges (e=0,1; x=0,+-1; a=0), the stability test and the interpolation are not tested",
     [K + "constants.py"], [("separatrix polynomial and root bracket", K + "constants.py:separatrix"), ("is_stable", K + "constants.py"), ("fast_separatrix", K + "constants.py")],
     ["separatrix", "is_stable", "fast_separatrix"],
     "oracle: sign of the exact potential derivative at the inner turning point in 50-digit arithmetic, not the separatrix polynomial",
     "online reference-model monitor (exact stability indicator on both sides of the claimed boundary)")
prop("C04", "Inputs are rejected with an error or answered with finite real numbers",
     "Parameters outside the domain (|a| >= 1, e or x outside their ranges, p at or below the separatrix, NaN), initial velocities that are not unit timelike, unbound "
     "orbits, Schwarzschild or extreme or impossible plunges, and unit conversions without the masses raise an error. Every valid input gives finite real "
     "numbers from every function at every time.",
     ["inputs"], "parameter tuples on and around every border of the domain, in every position, through every constructor and function",
     "the tests try a handful of invalid tuples on two functions and never check that valid inputs stay finite",
     [K + "constants.py", K + "frequencies.py", K + "stable.py", K + "plunge.py", K + "orbit.py"],
     [("parameter validation in each public function", K + "constants.py, frequencies.py, stable.py"), ("velocity and energy checks", K + "orbit.py:Orbit.__init__")],
     ["every public constructor and function"], "validity is decided independently of the package; finiteness judged for 1e-3<=|x|, 1-e>=1e-4, p<=1e5",
     "accept/reject monitor with an independent domain oracle over boundary-value workloads")
prop("C05", "Frequencies are the long-time averages of the geodesic motion",
     "For every stable orbit the Mino frequencies are the mean rates of radial phase, polar phase, azimuth and time of the geodesic motion, and the fundamental "
     "frequencies are their ratios to the mean rate of time. The azimuthal frequency has the sign of the direction of motion; the radial, polar and time "
     "rates reported together are positive.",
     ["inputs"], "all stable orbits: prograde, retrograde, spin 0 / near 1 / negative, circular, equatorial, within 1e-5 of the separatrix, p up to 1e5",
     MATH + "and compare absolute values only, so signs, special cases and near-boundary behaviour are open",
     [K + "frequencies.py"], [("r_frequency, theta_frequency, phi_frequency, gamma", K + "frequencies.py"), ("elliptic integrals", K + "frequencies.py")],
     ["mino_frequencies", "fundamental_frequencies", "r_frequency", "theta_frequency", "phi_frequency", "gamma"],
     "oracle: spectral quadrature of the geodesic equations over the torus, and periods measured on the reported trajectory; |x| >= 1e-3 (known finding below 1e-9)",
     "online reference-model monitor (torus averages) plus period measurement on executions")
prop("C06", "Every public route to the same quantity gives the same answer",
     "A constant, frequency, root, trajectory or trajectory delta is the same whether obtained from a free function, an object's attribute or method, "
     "an object built from constants of motion, or a function given precomputed optional arguments, by position or by keyword.",
     ["inputs", "configurations"], "all stable orbits and plunges, all combinations of optional precomputed arguments and entry points",
     "the tests use one route per quantity; optional-argument paths are never exercised",
     [K + "constants.py", K + "frequencies.py", K + "stable.py", K + "plunge.py"],
     [("optional constants / upsilon arguments", K + "frequencies.py"), ("from_constants", K + "stable.py"), ("methods delegating to functions", K + "stable.py, plunge.py")],
     ["all public functions and methods returning constants, frequencies, roots, trajectories"], "routes compared with each other; whether the value is right is C01-C12's business",
     "differential monitor between public routes")
prop("C07", "Stable trajectories solve the geodesic equations at every time and phase",
     "For every stable orbit, choice of initial phases and Mino time, positive or negative, the returned t, r, theta and phi are those of the geodesic with that "
     "orbit's constants starting from the point defined by the phases. The radius stays between its turning points and theta inside its polar range.",
     ["inputs"], "all stable orbits, phases beyond one period and negative and at turning points, |Mino time| up to 1000",
     "the tests sample a few orbits with default phases over short positive times",
     [K + "stable.py"], [("radial_solutions, polar_solutions, stable_trajectory", K + "stable.py")], ["StableOrbit.trajectory", "stable_trajectory"],
     "oracle: spectral quadrature plus Newton inversion of the geodesic equations; |x| >= 1e-3, 1-e >= 1e-4",
     "online reference-model monitor (independent geodesic solution)")
prop("C08", "Phases, periodicity and initial data of stable orbits follow the conventions",
     "Phase zero is the inner radial and northernmost polar turning point, advancing a phase is the same as advancing Mino time at that frequency, each phase "
     "is 2 pi periodic, the time and azimuth phases are additive offsets, and the trajectory starts at them. The position and velocity reported by "
     "the object are those of the trajectory at Mino time zero.",
     ["inputs", "histories"], "all stable orbits, all phases and shifts", "no test passes non-zero initial phases to stable orbits",
     [K + "stable.py"], [("anchoring by subtracting the value at the initial phase", K + "stable.py:stable_trajectory")],
     ["StableOrbit.trajectory", "initial_position", "initial_velocity", "initial_phases"], "relations between executions, plus turning points known in closed form",
     "metamorphic relation monitor over phase and time shifts")
prop("C09", "Trajectory deltas are the oscillating parts of t and phi",
     "The four delta functions are the oscillating r- and theta-dependent parts of coordinate time and azimuth: periodic in their phase, and recombined with the "
     "linear growth they rebuild the trajectory, for stable orbits, plunges and orbits built from initial data. A phase argument offsets them consistently.",
     ["inputs"], "all stable orbits and plunges (two or four real radial roots), any phases, per call or at construction",
     "two of the tests compare deltas of stable orbits and of plunges with complex roots; real-root plunges, phases and the general class are not covered",
     [K + "stable.py", K + "plunge.py", K + "orbit.py"], [("trajectory_deltas", K + "stable.py, plunge.py, orbit.py")], ["trajectory_deltas"],
     "for plunges the linear part of a delta is a convention, so only the recombined trajectory and the non-linear part are judged",
     "online reference-model monitor plus recombination invariant")
prop("C10", "Plunging trajectories solve the geodesic equations",
     "For plunging constants of motion with two or four real radial roots, any phases and any Mino time, the returned t, r, theta and phi are those of the "
     "geodesic between its turning points, through both horizons, with t and phi continuous as principal values.",
     ["inputs"], "all bound plunges with a != 0: equatorial, tiny or large Carter constant, prograde, retrograde, negative spin, nearly marginal, nearly extreme",
     "the tests compare a table of plunges at default phases; negative spin, equatorial, and multi-period times are open",
     [K + "plunge.py"], [("plunging_radial_integrals, plunging_radial_solutions_complex, plunging_polar_solutions", K + "plunge.py"), ("_real_plunge_trajectory", K + "plunge.py")],
     ["PlungingOrbit.trajectory", "plunging_trajectory"], "oracle: spectral quadrature with analytically integrated horizon poles; 1-E >= 1e-3, roots separated by 1e-3",
     "online reference-model monitor (independent geodesic solution)")
prop("C11", "Radial roots and Mino frequencies of plunges are those of the motion",
     "The radial roots returned for plunging constants are the roots of the radial equation in the documented order, complex ones last, and the two Mino "
     "frequencies are the inverse periods of the radial and polar motion.",
     ["inputs"], "all bound plunges with a != 0", "roots and frequencies of plunges are never tested directly",
     [K + "constants.py", K + "frequencies.py"], [("plunging_radial_roots", K + "constants.py"), ("plunging_mino_frequencies", K + "frequencies.py")],
     ["plunging_radial_roots", "plunging_mino_frequencies", "PlungingOrbit attributes"], "50-digit roots, averages of the motion, periods measured on the reported trajectory",
     "online reference-model monitor plus period measurement on executions")
prop("C12", "Phases, periodicity and initial data of plunges follow the conventions",
     "For plunging orbits phase zero is the innermost radial and northernmost polar turning point, shifting phases is shifting Mino time, radial and polar "
     "phases are 2 pi periodic, and time and azimuth phases are additive offsets at Mino time zero. The position and velocity reported by the object are those at Mino time zero.",
     ["inputs", "histories"], "all bound plunges, all phases", "tests use default phases", [K + "plunge.py"],
     [("anchoring in plunging trajectories", K + "plunge.py")], ["PlungingOrbit.trajectory", "initial_position", "initial_velocity"],
     "points within 1e-3 of a horizon judged in r and theta only", "metamorphic relation monitor over phase and time shifts")
prop("C13", "The four-velocity is the unit tangent carrying the constants of motion",
     "At every Mino time the four-velocity of an orbit is the tangent of its trajectory with respect to proper time, has norm -1 in the Kerr metric, and its "
     "contractions give the orbit's energy, angular momentum and Carter constant. The finite-difference version agrees to its truncation error, for any phases.",
     ["inputs"], "stable orbits, plunges, orbits from initial data, any time on either branch of the radial and polar motion",
     "the tests check the norm and a few components for default phases; signs of branches after turning points, phases and conserved contractions are open",
     [K + "spacetime.py", K + "orbit.py"], [("KerrSpacetime.four_velocity", K + "spacetime.py"), ("Orbit.four_velocity, numerical_four_velocity", K + "orbit.py")],
     ["four_velocity", "numerical_four_velocity"], "not judged within 1e-3 of a horizon, 1e-6 of the axis or where Sigma < 0.02",
     "invariant monitor (norm, Killing contractions, tangency) along executions")
prop("C14", "An orbit built from a position and velocity is the geodesic through them",
     "An orbit built from an initial position and unit velocity starts at that position with that velocity and follows the geodesic they define, stable or "
     "plunging, on every branch of the motion. Its constants, parameters, frequencies and phases are those of that geodesic.",
     ["inputs"], "initial data on any bound geodesic, all sign combinations of radial and polar velocity, at turning points, on the equator, inside and outside the horizon",
     "no test constructs the general orbit class", [K + "orbit.py", K + "initial_conditions.py"],
     [("initial phases", K + "initial_conditions.py"), ("Orbit.__init__", K + "orbit.py")], ["Orbit", "stable_orbit_initial_phases", "plunging_orbit_initial_phases"],
     "data within the documented 1e-4 of a turning point may be moved onto it; bound orbits with a<0 are a known finding", "online reference-model monitor (data sampled from reference geodesics)")
prop("C15", "Bound and plunging motion are told apart correctly from initial data",
     "Initial data are classified as a stable orbit exactly when the motion through them is confined between two turning points outside the horizon, and as a plunge "
     "otherwise. The motion then reported respects that verdict: stable orbits never cross the horizon and plunges do.",
     ["inputs"], "random positions and velocities, data perturbed across the separatrix, points of the inner plunge below a bound region",
     "no test exercises the classification", [K + "initial_conditions.py", K + "orbit.py"], [("is_stable from initial conditions", K + "initial_conditions.py")],
     ["Orbit.stable", "is_stable"], "oracle: exact radial roots; data whose roots nearly merge (<1e-3) are not judged", "verdict monitor against an exact root classifier")
prop("C16", "Constants of motion from initial data are the conserved contractions",
     "The constants computed from a position and four-velocity equal the contractions of the velocity with the metric's two symmetries and with its quadratic "
     "(Carter) invariant, for any unit velocity. They are the same at every point of one geodesic.",
     ["inputs"], "any position off the axis and horizons, bound or unbound velocity, either sign of a", "no test calls it", [K + "initial_conditions.py"],
     [("constants_from_initial_conditions", K + "initial_conditions.py")], ["constants_from_initial_conditions"], "metric and Killing tensor written independently in the Carter frame",
     "online reference-model monitor plus conservation along executions")
prop("C17", "Physical units follow dimensional analysis everywhere they are offered",
     "Every conversion of masses, lengths, times, energies, angular momenta, Carter constants and frequencies equals the one dictated by G, c and the solar mass, and "
     "the related units (cm, km, au, light years, days, mHz, erg, cgs) stand in their exact ratios. Every method offering units returns its natural-unit value times that factor.",
     ["inputs", "configurations"], "all units and unit pairs, all values and masses, all methods of all orbit classes", "no test uses units",
     [K + "units.py", K + "stable.py", K + "plunge.py", K + "orbit.py", K + "constants.py"], [("unit functions", K + "units.py"), ("conversion tables in trajectories and methods", K + "stable.py, plunge.py, orbit.py"), ("scale_constants", K + "constants.py")],
     ["units functions", "trajectory(distance_units, time_units)", "constants_of_motion(units)", "mino_frequencies(units)", "fundamental_frequencies(units)"],
     "SI constants accepted to 5e-4 (the package rounds them), ratios exact to 1e-11", "differential monitor against a dimensional-analysis model")
prop("C18", "The spacetime object carries the Kerr metric",
     "The metric is the Kerr metric in Boyer-Lindquist coordinates at every point, the norm is its quadratic form, the horizons are where Delta vanishes, "
     "and its separatrix and stability test are those of its spin. The four-velocity built from supplied motion is the unit tangent with the supplied constants.",
     ["inputs"], "all a in (-1,1), all points off the horizons including inside, all vectors", "only the norm along a few orbits is tested", [K + "spacetime.py"],
     [("metric, norm", K + "spacetime.py"), ("four_velocity", K + "spacetime.py")], ["KerrSpacetime"], "Carter-frame form of the metric as oracle", "online reference-model monitor")
prop("C19", "Array evaluation is pointwise evaluation",
     "The functions returned for trajectories, deltas and four-velocities accept scalars and arrays of any shape, layout and numeric type, and return for each entry "
     "what the scalar call returns, in the input's shape. Parameters may be ints, floats or numpy scalars, and phases any sequence.",
     ["inputs", "configurations"], "all container shapes (scalar, 0-d, empty, 1-3 d, strided, reversed, integer, read-only), any order of times", "tests use one 1-d increasing array",
     [K + "stable.py", K + "plunge.py", K + "spacetime.py", K + "orbit.py", K + "frequencies.py"], [("cycle counting with where/floor", K + "frequencies.py"), ("sign by branch in u_r, u_theta", K + "spacetime.py")],
     ["every returned function"], "times within 1e-3 of a turning point are left to other checks", "differential monitor (container versus scalar executions)")
prop("C20", "Results depend only on the arguments: no history, schedule or mutation",
     "What a call returns depends only on its arguments and on how its object was built, never on earlier calls, on other objects, or on concurrent calls from "
     "other threads, and functions obtained earlier keep their meaning. Calls leave their arguments, the object's public state and global state (numpy error mode, "
     "random state, plotting defaults, environment) as they were.",
     ["histories", "schedules"], "all sequences and interleavings of calls on any set of live objects", "each test uses a fresh object and one call",
     [K + "orbit.py", K + "stable.py", K + "plunge.py", K + "constants.py"], [("per-call phases override stored ones without replacing them", K + "stable.py, plunge.py, orbit.py"), ("closures capture their parameters", K + "stable.py, plunge.py")],
     ["all public methods and functions"], "programs of 24-40 calls, replayed in order, reordered, in isolation (separate processes) and under seeded preemptive thread schedules",
     "history/schedule checker: isolated execution as sequential specification, seeded line-level preemption", [dict(name="orbit attributes", meaning="parameters, phases, initial data fixed at construction", where=K + "orbit.py")])
prop("C21", "Symmetries, limits and textbook closed forms hold",
     "Results respect the symmetries of the spacetime (spin and direction flip, equatorial reflection, time and axial shifts), special cases (zero spin, circular, equatorial, "
     "polar, marginally bound) are the limits of their neighbours, and circular-orbit, epicyclic, ISCO, marginally-bound, Schwarzschild, Newtonian, precession and "
     "frame-dragging formulas are reproduced. The separatrix falls with increasing prograde inclination cosine and rises with eccentricity.",
     ["inputs"], "all orbits and their mirror images; neighbourhoods of every special case; all spins for the closed forms", "tests never relate two executions",
     [K + "constants.py", K + "frequencies.py", K + "stable.py", K + "plunge.py"], [("special-case branches", K + "constants.py, frequencies.py, stable.py")],
     ["StableOrbit", "PlungingOrbit", "separatrix", "constants_of_motion"], "closed forms of Bardeen, Press and Teukolsky and leading post-Newtonian coefficients", "metamorphic relation monitor and closed-form oracles")
prop("C22", "Plots and animations show the trajectory truthfully",
     "Plots and animations draw the orbit at the Cartesian image of its trajectory for the requested range, phases and frame times, hide what lies "
     "inside the hole or behind it as seen from the camera, fade the tail as documented, and place body, hole, axes and camera as requested. The visibility test answers per point.",
     ["inputs", "configurations"], "any orbit, camera, range, tail and style options; every frame", "graphics are never tested", [K + "orbit.py"],
     [("plot, animate, is_visible", K + "orbit.py")], ["plot", "animate", "is_visible"], "artists read back from the figures; ffmpeg replaced by a recording stand-in in a scratch directory",
     "event-log monitor over the artists of every figure and animation frame")
prop("C23", "Trajectories agree with step-by-step integration from their initial data",
     "Propagating the reported position and velocity by direct integration of the geodesic equations of the Kerr metric reproduces the reported trajectory, for stable orbits "
     "over several periods and for plunges on either side of the horizons. The turning points passed match the reported frequencies.",
     ["inputs"], "all stable orbits, plunges and orbits from initial data, forwards and backwards in time", "tests compare with tables from the same formulas in another language",
     [K + "stable.py", K + "plunge.py", K + "orbit.py", K + "spacetime.py"], [("closed-form solutions in elliptic functions", K + "stable.py, plunge.py")],
     ["trajectory", "four_velocity", "frequencies"], "Hamiltonian Runge-Kutta integration; no separation of variables, no elliptic functions", "runtime differential monitor against a first-principles integrator")
prop("C24", "The public building blocks integrate the separated equations of motion",
     "The functions returning the radial and polar solutions for given constants and roots, and the radial integrals of plunges, are the solutions and integrals "
     "they document: r and theta at every phase from the documented turning point, and the t and phi parts as the integrals of the separated equations, "
     "principal values at the horizons. They hold for any valid constants and roots, whoever computed them, and over any number of periods.",
     ["inputs"], "all stable and plunging constants, spins of both signs, all phases, roots from the package or from elsewhere",
     "tests call only the assembled trajectories", [K + "stable.py", K + "plunge.py", K + "frequencies.py"],
     [("radial_solutions, polar_solutions", K + "stable.py"), ("plunging_radial_integrals, plunging_radial_solutions_complex, plunging_polar_solutions", K + "plunge.py")],
     ["radial_solutions", "polar_solutions", "plunging_radial_integrals", "plunging_radial_solutions_complex", "plunging_polar_solutions"],
     "spectral quadrature of the separated equations as oracle", "online reference-model monitor")
prop("C25", "Answers do not depend on the numeric type of the arguments",
     "A parameter, phase, constant, mass, coordinate or unit-conversion factor may be given as a Python int or float or as a numpy scalar, 0-d array or array entry of "
     "any integer or floating point type; every public function and method answers as it does for the Python floats of the same value, to double precision. "
     "Values that are refused are refused in any type.",
     ["inputs", "configurations"], "all public functions and methods, every real numeric type that can hold the value", "tests pass Python floats and double arrays only",
     [K + "_precision.py", K + "constants.py", K + "frequencies.py", K + "stable.py", K + "plunge.py", K + "orbit.py", K + "spacetime.py", K + "units.py"],
     [("arithmetic on the arguments as given", K + "constants.py, frequencies.py, plunge.py"), ("conversion to double precision", K + "_precision.py")],
     ["all public functions and methods"], "values exactly representable in the narrower type, so the answers must agree", "differential monitor (same values in different numeric types)")

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]], observe_at=p["observe"], hook_needed=None))) + "\n")
    py = "/opt/venv/bin/python -W ignore -B run.py "
    man = dict(version=1, setup_cmd=py + "setup",
               checks=[dict(property=p["id"], quick_cmd=py + p["id"], thorough_cmd=py + p["id"] + " --tier thorough", technique=p["technique"],
                            level="exploration", level_note=p["note"]) for p in P],
               not_applicable=[], notes="Pure Python numerics without native code or locks: compiler sanitizers, race detectors and memory checkers have nothing to "
               "instrument, so every property is decided by online reference-model, invariant, differential and history/schedule monitors on the public API. No hooks in /repo.")
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
