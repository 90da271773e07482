"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewed in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
         "anchors": {"files": ["kerrgeopy/" + f for f in files],
                     "mechanism": [{"name": n, "where": "kerrgeopy/" + w} for n, w in mech],
                     "hook_needed": None}}
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

prop("P01", "Constants of motion reproduce the requested turning points and inclination",
 "For every valid (a, p, e, x) the energy, angular momentum and Carter constant returned by the package are those of the geodesic with these orbital parameters: the radial potential vanishes at p/(1-e) and p/(1+e) (with a double root for e = 0, and E = 1 for e = 1) and is non-negative between them, the polar potential vanishes at cos^2(theta) = 1 - x^2, and the motion is future directed. The angular momentum has the sign of the inclination and the three single-value functions, with or without optional precomputed constants, agree with the combined one.",
 ["inputs"], "every spin |a| < 1, eccentricity in [0, 1] (circular and marginally bound included), inclination in [-1, 1] (polar and equatorial included) and every p above the separatrix",
 "test_constants compares 3 numbers per row of one precomputed Mathematica table of random prograde/retrograde orbits; polar, marginally bound, nearly polar, nearly circular, near-extremal and near-separatrix corners (each with its own branch in the code) are not in it.",
 ["constants.py"], [("energy: polar / spherical / generic branches", "constants.py:energy"), ("root of the quadratic for L", "constants.py:angular_momentum"), ("Carter constant from z_-", "constants.py:carter_constant"), ("composition", "constants.py:constants_of_motion")],
 ["energy", "angular_momentum", "carter_constant", "constants_of_motion"])

prop("P02", "The separatrix is exactly the boundary of stable bound orbits",
 "For every spin 0 <= a < 1, eccentricity and inclination the separatrix value p_s is the semi-latus rectum at which the inner turning point becomes a double root of the radial potential, and an orbit is reported stable if and only if p > p_s. p_s equals 6 + 2e without spin, does not increase when the orbit becomes more prograde, and the value is the same through every public entry point.",
 ["inputs"], "every (a, e, x) in the domain including both sides of and both ends of every bracket (polar, equatorial prograde/retrograde, nearly polar, tiny spin, extremal limit) and every p on either side",
 "the separatrix test compares a table of random generic values at 1e-6 or so; bracket ends, x next to 0 and +-1, tiny spin, and which side of the boundary is accepted are never exercised.",
 ["constants.py", "spacetime.py"], [("bracketed root search of separatrix polynomials", "constants.py:separatrix"), ("strict comparison", "constants.py:is_stable"), ("delegation", "spacetime.py:KerrSpacetime.separatrix")])

prop("P03", "Every entry point accepts exactly its documented parameter domain",
 "Every function and constructor taking orbital parameters returns finite values inside its documented domain and raises ValueError outside it: extreme or over-extreme spin, eccentricity outside [0, 1], |x| > 1, p at or below the separatrix, and, for frequencies and orbits, marginally bound and polar orbits. The same input is accepted or rejected alike by the constants, the frequencies, the trajectories and the orbit objects, and no invalid input yields a number or a different exception.",
 ["inputs", "configurations"], "every combination of classes of a, p, e, x (valid, boundary, each kind of invalid, not-a-number) with every public entry point",
 "tests call some functions with some invalid arguments, one at a time; the cross product of functions, arguments and kinds of invalidity is not covered and boundary values (a = -1, e = 1 with x = 0, p exactly at the separatrix) mostly absent.",
 ["constants.py", "frequencies.py", "stable.py", "plunge.py", "orbit.py"], [("valid_params", "constants.py:valid_params"), ("guards at the head of each function", "frequencies.py:r_frequency"), ("Schwarzschild plunge guard", "plunge.py:PlungingOrbit.__init__")])

prop("P04", "Reversing the spin and the inclination together changes nothing but the frame",
 "Constants of motion, stability, Mino and coordinate-time frequencies and stable orbit objects for (-a, p, e, x) coincide with those for (a, p, e, -x). Trajectories and initial-condition orbits computed with a negative spin are the mirror image (azimuth and angular momentum reversed, everything else equal) of those with the spin reversed.",
 ["inputs"], "every valid parameter set of either sign of the spin and every entry point",
 "no test uses a negative spin except two that expect a ValueError.",
 ["constants.py", "frequencies.py", "stable.py", "orbit.py", "plunge.py"], [("normalisation of (a, x)", "constants.py:_standardize_params"), ("frame of stable_trajectory", "stable.py:stable_trajectory")])

prop("P05", "Orbital frequencies are the true Mino-time periods and averages",
 "The radial and polar Mino frequencies are 2 pi over the Mino time the geodesic takes for a full radial or polar oscillation, and the azimuthal frequency and time dilation factor are the long-time averages of the rates of phi and t; coordinate-time frequencies are their ratios. Every way to obtain a frequency (single functions with or without optional precomputed arguments, combined functions, orbit attributes, orbit methods) gives the same number, up to the sign convention of the single polar frequency (precomputed arguments are the values of the single functions).",
 ["inputs", "configurations"], "every stable orbit with e < 1 and x != 0, including spinless, circular, equatorial, nearly polar, retrograde and near-separatrix ones",
 "the test compares with one precomputed table of random generic orbits; spinless, circular, equatorial and retrograde branches and the optional arguments are not in it, and individual functions are not called with precomputed constants.",
 ["frequencies.py", "stable.py", "orbit.py"], [("closed forms with complete elliptic integrals", "frequencies.py:r_frequency, theta_frequency, phi_frequency, gamma"), ("combination", "frequencies.py:mino_frequencies, fundamental_frequencies"), ("attributes", "stable.py:StableOrbit.__init__")])

prop("P06", "Stable trajectories solve the geodesic equations at every Mino time",
 "For every stable orbit and initial phases the four returned coordinate functions satisfy the first-order Kerr geodesic equations with the constants of that orbit at every Mino time, positive or negative, including through turning points and over many periods. r stays between the turning points, theta within the allowed cone, and t and phi are continuous.",
 ["inputs", "histories"], "every stable parameter set, every tuple of initial phases and every Mino time (several periods around zero and far away from it)",
 "the tests compare against tables for two sets of orbits at sampled times up to a tolerance; the branches of the incomplete elliptic integrals (quarter-period multiples, negative arguments) and special orbits are only sampled by chance.",
 ["stable.py", "frequencies.py"], [("radial and polar solutions", "stable.py:radial_solutions, polar_solutions"), ("quasi-periodic extension of elliptic integrals", "frequencies.py:_ellippiinc, _ellipeinc"), ("assembly", "stable.py:stable_trajectory")])

prop("P07", "Initial phases fix the start of a trajectory and commute with time translation",
 "A trajectory with initial phases (q_t, q_r, q_theta, q_phi) starts at t = q_t and phi = q_phi, at the inner radial turning point when q_r = 0 and the outer one when q_r = pi, and at minimal theta when q_theta = 0 and maximal theta when q_theta = pi. Advancing the phases by the Mino frequencies times lambda_0 gives the same trajectory as starting lambda_0 later (up to constant shifts in t and phi), and adding full turns to the radial or polar phase changes nothing.",
 ["inputs", "histories"], "every orbit (stable and plunging, from every constructor), every phase tuple and every composition of shifts",
 "tests use zero phases or table rows; they never compose shifts, never wind a phase, and never call a trajectory with phases other than those of the object on plunging orbits.",
 ["stable.py", "plunge.py", "orbit.py"], [("phase offsets and normalisation constants C_t, C_phi", "stable.py:stable_trajectory"), ("pi/2 offset of the polar phase", "plunge.py:_complex_plunge_trajectory"), ("initial_phases default", "orbit.py:Orbit.trajectory")])

prop("P08", "Plunging trajectories solve the geodesic equations away from the horizons",
 "For every plunging orbit, with two complex or four real radial roots and with either sign of the spin, the four coordinate functions satisfy the first-order Kerr geodesic equations with the given constants at every Mino time at which the particle is not on a horizon, and r oscillates between the two turning points that enclose the horizons. The trajectory of the orbit object, of the trajectory function and of an orbit from initial conditions are the same.",
 ["inputs", "histories"], "every (a != 0, E < 1, L, Q) of a plunge with nonzero L, initial phases and Mino times inside and outside the horizons",
 "tests compare with a few precomputed plunges at positive spin; continuity across quarter periods, negative spin, negative Mino time and random constants are not covered.",
 ["plunge.py", "stable.py"], [("radial integrals", "plunge.py:plunging_radial_integrals"), ("radial/polar solutions", "plunge.py:plunging_radial_solutions_complex, plunging_polar_solutions"), ("case split on the radial roots", "plunge.py:plunging_trajectory")])

prop("P09", "Plunging radial roots and frequencies describe the motion through the horizons",
 "For every set of constants of a plunge the four returned radial roots are the roots of the radial polynomial, ordered so that the first two are the real turning points of the motion that crosses the horizons, with the remaining pair complex conjugate or real in decreasing order. The radial and polar Mino frequencies are 2 pi over the Mino time of a full oscillation between these turning points and in theta.",
 ["inputs"], "every root configuration: two complex roots, four real roots with two or three outside the inner horizon, double-root limits, either sign of spin and angular momentum",
 "only indirectly tested through precomputed trajectories; the reordering when three roots lie outside the horizon and frequencies have no test over the space of root arrangements.",
 ["constants.py", "frequencies.py"], [("root classification", "constants.py:plunging_radial_roots"), ("frequencies", "frequencies.py:plunging_mino_frequencies")])

prop("P10", "Four-velocities are unit timelike and tangent to the trajectory",
 "At every Mino time the four-velocity of an orbit satisfies g(u, u) = -1, conserves energy, axial angular momentum and the Carter constant, and equals the Mino-time derivative of the position divided by Sigma, with the correct sign of the radial and polar components on every leg. The numerically differentiated four-velocity agrees with it, and the stored initial velocity is its value at Mino time zero.",
 ["inputs", "histories"], "every stable or plunging orbit, every initial phases (explicit or default), every Mino time on ingoing, outgoing, northbound and southbound legs",
 "tests check the norm (blind to the signs) and compare with finite differences for a few orbits with default phases; explicit phases, wound phases and plunges are not covered.",
 ["spacetime.py", "orbit.py"], [("components and leg signs", "spacetime.py:KerrSpacetime.four_velocity"), ("phases handed down", "orbit.py:Orbit.four_velocity"), ("finite differences", "orbit.py:Orbit.numerical_four_velocity")])

prop("P11", "An orbit built from initial conditions starts there and follows that geodesic",
 "For every timelike unit four-velocity of a bound orbit at any point, the orbit object built from it reports the constants of motion of that state, classifies it as stable or plunging correctly, and its trajectory and four-velocity at Mino time zero are the given position and velocity. Its whole trajectory coincides with that of the orbit the initial data were taken from.",
 ["inputs", "histories"], "initial data on every leg (ingoing/outgoing, north/southbound), at turning points, circular, equatorial, spinless, prograde, retrograde, negative spin, both plunge types",
 "tests use a table of random states (phases only) of generic orbits; turning points, circular, equatorial, spinless and retrograde orbits are missing (several were wrong).",
 ["initial_conditions.py", "orbit.py"], [("constants from initial data", "initial_conditions.py:constants_from_initial_conditions"), ("classification", "initial_conditions.py:is_stable"), ("phase inversion", "initial_conditions.py:stable_orbit_initial_phases, plunging_orbit_initial_phases"), ("assembly", "orbit.py:Orbit.__init__")])

prop("P12", "Unphysical initial data are rejected and physical data never are",
 "An orbit object is created from initial data only if the four-velocity is timelike and normalised, the state lies in a region the radial motion can reach as a bound or plunging orbit, and the case is supported; otherwise ValueError is raised. A valid unit-timelike bound state of a supported kind is never rejected.",
 ["inputs", "configurations"], "null, spacelike, timelike but unnormalised, unit-timelike unbound or deeply inside, spinless plunging, and valid states of each kind",
 "there is no test of rejected initial data; acceptance is tested on a table of valid stable and plunging states.",
 ["orbit.py", "initial_conditions.py"], [("norm checks", "orbit.py:Orbit.__init__"), ("root arrangement test", "initial_conditions.py:is_stable")])

prop("P13", "Orbital parameters and constants of motion are inverse to each other",
 "For every stable orbit, recovering (p, e, x) from its constants of motion gives back the original parameters, and an orbit object built from the constants has the same constants, frequencies and trajectory. Constants that admit no stable bound motion are rejected with ValueError.",
 ["inputs"], "every stable (a, p, e, x) with e < 1 incl. circular, equatorial, spinless, retrograde and negative spin; constants with a complex root pair for rejection",
 "no test calls the inverse directly.",
 ["constants.py", "stable.py"], [("roots of the radial and polar polynomials", "constants.py:apex_from_constants"), ("alternative constructor", "stable.py:StableOrbit.from_constants")])

prop("P14", "Physical units are consistent dimensional rescalings of natural units",
 "Every quantity reported in physical units equals its natural-unit value times the power of the black hole mass and of G and c its dimension requires, so ratios between unit systems are fixed numbers independent of the orbit, frequencies scale as 1/M, lengths and times as M, and E, L, Q as mu, mu M and mu^2 M^2. Angles and the shape of the orbit do not depend on units, and asking for physical units without the needed masses, or for an unknown unit of a frequency or constant, raises ValueError.",
 ["inputs", "configurations"], "every unit option of every method and conversion function, all masses, stable and plunging orbits, with M and mu given or missing",
 "there is no test of units (scaling of the constants was wrong).",
 ["units.py", "constants.py", "orbit.py", "stable.py", "plunge.py"], [("conversion functions", "units.py"), ("scaling of constants", "constants.py:scale_constants"), ("unit tables", "stable.py:stable_trajectory"), ("methods", "orbit.py:Orbit.constants_of_motion")])

prop("P15", "The metric object is the Kerr metric",
 "At every point off the horizons and the axis the metric returned is the symmetric Kerr metric in Boyer-Lindquist coordinates (right determinant and signature, stationary and axisymmetric, Schwarzschild for a = 0), and the norm is its quadratic form. The horizon radii are the two roots of r^2 - 2r + a^2, in order, with product a^2 and sum 2.",
 ["inputs"], "every spin of either sign, every point outside, between and inside the horizons, every vector",
 "only used through norms of four-velocities that also use the same code's constants.",
 ["spacetime.py"], [("matrix", "spacetime.py:KerrSpacetime.metric"), ("norm", "spacetime.py:KerrSpacetime.norm"), ("horizons", "spacetime.py:KerrSpacetime.__init__")])

prop("P16", "Results depend only on the arguments: no history, aliasing or array effects",
 "Every call returns the same result whatever was called before, on this or another object, in any order; no call changes an orbit object, an argument, or the trajectories and functions already handed out. Evaluating a returned function on an array of times gives the same values as evaluating it at each time.",
 ["histories", "inputs"], "all histories of constructor, trajectory, delta, velocity, frequency, unit, plot and failing calls over several live objects; scalar, array, integer and shuffled evaluation times",
 "each test builds one object and calls one method once.",
 ["orbit.py", "stable.py", "plunge.py", "frequencies.py", "spacetime.py"], [("default arguments resolved per call", "orbit.py:Orbit.trajectory"), ("closures over local data", "stable.py:stable_trajectory"), ("scalar/array handling", "frequencies.py:_ellippiinc, _ellipeinc")])

prop("P17", "Trajectory deltas reassemble the trajectory and are periodic",
 "For every orbit object the deltas add up with the secular part to the trajectory: t(lambda) - t(0) and phi(lambda) - phi(0) are the average rate times lambda plus the differences of the radial and polar deltas at the advanced phases. For stable orbits (and plunges with real roots) each delta is 2 pi periodic and, with zero initial phases, odd; with other initial phases the deltas are those of zero phases at the phases advanced by them.",
 ["inputs", "histories"], "stable and plunging orbits of every constructor, default and explicit phases, any Mino time",
 "no test calls the deltas on orbit objects (they raised TypeError for stable ones).",
 ["orbit.py", "stable.py", "plunge.py"], [("deltas", "stable.py:StableOrbit.trajectory_deltas, orbit.py:Orbit.trajectory_deltas, plunge.py:PlungingOrbit.trajectory_deltas")])

prop("P18", "Plots show exactly the visible part of the orbit",
 "A point is visible from a viewing direction exactly if it lies outside the event horizon sphere and is not behind the black hole's disc seen from that direction, independently of which other points are asked about. A plot draws the orbit's points for exactly the requested Mino-time interval in order, hides exactly the invisible ones, marks the final position, honours explicit phases and view angles, lets the line fade exponentially with age, keeps the whole orbit within equally scaled limits, and draws the horizon at its true radius.",
 ["inputs", "configurations"], "every set of points (grid around the hole), every view angle, every spin, every interval, point density and orbit type",
 "nothing in the tests touches plotting (visibility was computed against the summed norm of all points).",
 ["orbit.py"], [("visibility", "orbit.py:Orbit.is_visible"), ("plot", "orbit.py:Orbit.plot")])

prop("P19", "The fast separatrix agrees with the exact one",
 "For every spin the fast separatrix function interpolates the exact separatrix: it reproduces it at the grid points, stays within the interpolation error in between and improves as the grid is refined.",
 ["inputs"], "every spin in [0, 1), any grid spacing, all (e, x) in the domain",
 "not tested at all.",
 ["constants.py"], [("grid and spline", "constants.py:fast_separatrix")])

prop("P20", "Animation frames show the orbit at the right moment",
 "An animation of a Mino-time interval consists of the number of frames its length and speed imply; in frame k the body is at the orbit's position at that frame's time, and the tail consists exactly of the visible preceding points no older than the tail length, fading with age. Camera angles, axis limits and component plots in each frame are those of that frame's time.",
 ["inputs", "configurations", "histories"], "every interval, speed (multiples of 1/8), tail length, camera function, axis limit function, orbit type and phases",
 "not tested at all.",
 ["orbit.py"], [("frame function", "orbit.py:Orbit.animate")])

prop("P21", "The radial and polar root functions return the roots of the potentials",
 "For every stable orbit the four radial roots are those of the radial polynomial in decreasing order, the first two being p/(1-e) and p/(1+e), and the polar roots are those of the polar potential in cos^2(theta), the smaller one being 1 - x^2; precomputed constants do not change them. For every set of constants of bound motion (0 < E < 1, Q >= 0, stable or plunging, any sign of spin and angular momentum) the polar roots computed from the constants are the two roots of the polar potential with 0 <= z_- <= 1 <= z_+ (z_+ only for non-zero spin).",
 ["inputs"], "every stable parameter set with e < 1 (x != 0 for the polar roots) and every (a, E, L, Q) with 0 < E < 1, Q >= 0, including L = 0, Q = 0, no or tiny spin and E close to 1",
 "the functions are compared with no table; they are only used inside others, for generic orbits.",
 ["constants.py"], [("radial roots", "constants.py:stable_radial_roots"), ("polar roots", "constants.py:stable_polar_roots, polar_roots_from_constants")])

prop("P22", "Functions of an initial state agree with the orbit it lies on, however called",
 "For every state on a bound orbit, constants_from_initial_conditions returns the constants of motion of that orbit, is_stable (of a state) tells stable from plunging motion, and the initial-phase functions return the phases at which the orbit passes through the state, with q_t = t and q_phi = phi; passing any subset of the optional precomputed arguments (constants, radial roots, frequencies) gives the same answer.",
 ["inputs", "configurations"], "states at and between all turning points of stable and plunging orbits, either sign of the spin, and every subset of the optional arguments",
 "the functions are tested through Orbit only, at generic states and without optional arguments.",
 ["initial_conditions.py"], [("constants and kind", "initial_conditions.py:constants_from_initial_conditions, is_stable"), ("phases", "initial_conditions.py:stable_orbit_initial_phases, plunging_orbit_initial_phases")])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
