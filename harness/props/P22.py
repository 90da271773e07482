"""P22: functions that read off an orbit from a state, with and without precomputed arguments."""
import math
import random
import motion
import params
import plunges
import states
from bf import bf, unbf
from core import Unexpected
import kerrgeopy as kg
from kerrgeopy import constants as kc, initial_conditions as ki

MODELS = ["Optional", ("ParamSpace", "ParamSpace_orbit"), "Plunge"]
TRACE = "TraceHelpers"
ASSUMPTIONS = ["e <= 1 - 1e-4 (0.99 next to the separatrix), |a| <= 1 - 1e-5, stable orbits not next to the separatrix, plunges with L != 0",
               "|Delta| > 0.05, Sigma > 0.01, sin theta > 0.02", "precomputed arguments belong to the state", "phases are compared to 2^-25 over their distance from a turning point"]
PI = math.pi


def scenarios(ctx):
    out = []
    calls = ctx.models["Optional"]
    pools = {"stable": [q for q in ctx.models["ParamSpace_orbit"] if q["dist"] != "sep"], "plunge": ctx.models["Plunge"]}
    for kind, fs, n in (("stable", ("constants", "is_stable", "stable_phases"), 16000 if ctx.thorough else 3000),
                        ("plunge", ("constants", "is_stable", "plunging_phases"), 12000 if ctx.thorough else 2000)):
        rng = ctx.rng("join", kind)
        cs = [c for c in calls if c["f"] in fs]
        merged = []
        for i in range(max(3 * n, len(pools[kind]))):
            q = dict(pools[kind][i % len(pools[kind])])
            q.update({k: "+".join(sorted(v)) if k == "given" else v for k, v in rng.choice(cs).items()})
            merged.append(q)
        for i, q in enumerate(params.cover(merged, n, ctx.rng(kind))):
            out.append({"sid": "%s-%d" % (kind, i), "kind": kind, "q": q, "seed": ctx.rng(kind, i).randrange(10 ** 9), "cls": [kind] + params.labels(q, sorted(q))})
    return out


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    q = scn["q"]
    stable = scn["kind"] == "stable"
    ph = motion.near(motion.phases(dict(q, turns="none"), rng), rng, 0.5)
    if stable:
        a, p, e, x = params.concretise(q, rng)
        if q["dist"] == "close" and abs(a) > 0.99:
            return []
        o = kg.StableOrbit(abs(a), p, e, x if a >= 0 else -x, ph)
        sharp = e
        equatorial, circular = abs(x) == 1, e == 0
        digits = 25 if e > 0.02 else 20, 25 if 1 - abs(x) > 1e-4 else 16
    else:
        w = plunges.concretise(q, rng)
        if w is None:
            return []
        a, E, L, Q, arr, roots = w
        o = kg.PlungingOrbit(a, E, L, Q, ph)
        equatorial, circular = Q == 0, False
        gap = min(v - u for u, v in zip(roots, roots[1:])) if len(roots) == 4 else 1
        digits = 25 if gap > 0.1 else 22 if gap > 1e-3 else 14, 22
    lam = 0.0 if q["when"] == "start" else rng.uniform(-3, 3) * 2 * PI / o.upsilon_r
    X = [motion.num(f(lam)) for f in o.trajectory()]
    U = [motion.num(f(lam)) for f in o.four_velocity()]
    if stable and a < 0:
        X[3], U[3] = -X[3], -U[3]
    z = math.cos(X[2])
    D, S = X[1] ** 2 - 2 * X[1] + a * a, X[1] ** 2 + (a * z) ** 2
    if not (abs(D) > 0.05 and S > 0.01 and math.sin(X[2]) > 0.02):
        return []
    c = states.constants(a, X, U)
    qr, qt = ph[1] + o.upsilon_r * lam, ph[2] + abs(o.upsilon_theta) * lam

    def nq(n, d):
        """Position tells the phase less well next to a turning point."""
        return 8 if d < 5e-5 else max(8, min(22, math.floor(n + math.log2(d))))
    scn["args"] = [a, X, U]
    st = {"kind": "State", "a": bf(a), "x": [bf(v) for v in (X[0], X[1], X[2], z, math.sin(X[2]), X[3])], "u": [bf(v) for v in U], "c": [bf(v) for v in c],
          "q": [bf(v) for v in (math.cos(qr), math.sin(qr), math.cos(qt), math.sin(qt))], "stable": stable, "circular": bool(circular), "equatorial": bool(equatorial),
          "n": 24,
          "nr": nq(digits[0], abs(math.sin(qr))), "nt": nq(digits[1], abs(math.sin(qt)))}
    kw = {}
    given = q["given"].split("+") if q["given"] else []
    if "constants" in given:
        kw["constants"] = tuple(c)
    if "radial" in given:
        if stable:
            roots = kc.stable_radial_roots(abs(a), p, e, x if a >= 0 else -x)
        else:
            roots = kc.plunging_radial_roots(a, *c)
        kw["radial_roots"] = tuple(roots)
    if "upsilon_r" in given:
        kw["upsilon_r"] = o.upsilon_r
    if "upsilon_theta" in given:
        kw["upsilon_theta"] = abs(o.upsilon_theta)
    x, u = tuple(X), tuple(U)
    if q["f"] == "constants":
        got = [motion.num(v) for v in ki.constants_from_initial_conditions(a, x, u)]
        return [st, {"kind": "Constants", "got": [bf(v) for v in got]}]
    if q["f"] == "is_stable":
        # at a double root rounding may have it either way; that is the business of P11 and P12
        if stable and e < 2e-3:
            return []
        v = ki.is_stable(a, x, u, **kw)
        if not (v is True or v is False or type(v).__name__ in ("bool", "bool_")):
            raise Unexpected("is_stable: %r" % (v,))
        return [st, {"kind": "Kind", "stable": bool(v)}]
    if stable and 0 < e < 2e-3:
        return []
    f = ki.stable_orbit_initial_phases if q["f"] == "stable_phases" else ki.plunging_orbit_initial_phases
    g = [motion.num(v) for v in f(a, x, u, **kw)]
    return [st, {"kind": "Phases", "got": [bf(v) for v in (g[0], math.cos(g[1]), math.sin(g[1]), math.cos(g[2]), math.sin(g[2]), g[3])] if all(map(math.isfinite, g)) else [bf(math.nan)] * 6}]


def canaries(groups, ctx):
    rng = ctx.rng("canary")

    def pick(kind, n, ok=lambda s: True):
        s = sorted(sid for sid, ev in groups.items() if len(ev) == 2 and ev[1]["kind"] == kind and ok(ev[0]))
        return [groups[sid] for sid in rng.sample(s, min(n, len(s)))]

    def bump(t, d):
        return bf(unbf(t) * (1 + d) + d)
    for s, e in pick("Constants", 8):
        for j, cl in enumerate(("Energy", "Momentum", "Carter")):
            yield cl, [s, dict(e, got=[bump(w, 1e-4) if i == j else w for i, w in enumerate(e["got"])])], cl
        yield "state", [dict(s, c=[bump(w, 1e-6) for w in s["c"]]), e], "Constants"
    for s, e in pick("Kind", 4):
        yield "kind", [s, dict(e, stable=not e["stable"])], "Kind"
    for s, e in pick("Phases", 8, lambda s: not s["circular"] and not s["equatorial"]):
        for j, cl in enumerate(("Time", "Radial", "Radial", "Polar", "Polar", "Azimuth")):
            yield "phase%d" % j, [s, dict(e, got=[bump(w, 1e-2) if i == j else w for i, w in enumerate(e["got"])])], cl
