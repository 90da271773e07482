"""P06: stable trajectories solve the geodesic equations."""
import math
import motion
import params
from bf import bf, unbf
import kerrgeopy as kg
from kerrgeopy.stable import stable_trajectory

MODELS = [("ParamSpace", "ParamSpace_motion"), "Motion"]
TRACE = "TraceMotion"
ASSUMPTIONS = ["e <= 1 - 1e-4 (0.99 next to the separatrix), |a| <= 1 - 1e-5, |x| >= 1e-4 for inclined orbits, p between 1.00001 and 300 times the separatrix value",
               "Mino times within 200000 periods of zero; derivatives by eighth-order differences with at least 128 samples per period"]


def cost(ev):
    return 1 + sum(len(e.get("s", ())) for e in ev)


def scenarios(ctx):
    pts = ctx.models["ParamSpace_motion"]
    st = ctx.models["Motion"]
    n_full, n_far = (400, 8000) if ctx.thorough else (60, 900)
    rng = ctx.rng("join")
    merged = []
    need = max(n_far * 3, len(pts))
    for i in range(need):
        q = dict(pts[i % len(pts)])
        q.update(rng.choice(st))
        q["src"] = rng.choice(["object", "function", "constants"])
        merged.append(q)
    far = params.cover(merged, n_far, ctx.rng("far"))
    full = params.cover(merged, n_full, ctx.rng("full"))
    out = []
    for kind, qs in (("far", far), ("full", full)):
        for i, q in enumerate(qs):
            r = ctx.rng(kind, i)
            a, p, e, x = params.concretise(q, r)
            out.append({"sid": "%s-%d" % (kind, i), "q": q, "args": [a, p, e, x], "ph": motion.phases(q, r),
                        "full": kind == "full", "seed": r.randrange(10 ** 9), "src": q["src"],
                        "cls": params.labels(q, ("spin", "sign", "ecc", "incl", "dist", "rleg", "pleg", "when", "src"))})
    return out


def make(scn):
    """(trajectory, orbit event, radial and polar Mino frequencies)"""
    a, p, e, x = scn["args"]
    ph = tuple(scn["ph"])
    src = scn["src"]
    if src == "constants" and (e < 1e-2 or abs(abs(x) - 1) < 1e-2 or abs(x) < 1e-2):
        src = "object"           # recovering degenerate parameters from constants is P13's business
    if src == "function":
        f = stable_trajectory(a, p, e, x, ph)
        E, L, Q = kg.constants_of_motion(a, p, e, x)
        if a < 0:                # with respect to the direction of the spin
            L = -L
        ev = motion.stable_orbit_event(a, p, e, x, E, L, Q)
        up = kg.mino_frequencies(a, p, e, x)
    else:
        o = kg.StableOrbit(a, p, e, x, ph)
        if src == "constants":
            o = kg.StableOrbit.from_constants(o.a, o.E, o.L, o.Q, ph)
        f = o.trajectory()
        ev = motion.stable_orbit_event(o.a, o.p, o.e, o.x, o.E, o.L, o.Q)
        up = o.upsilon_r, o.upsilon_theta
    return f, ev, up


def run(scn, ctx):
    import random
    rng = random.Random(scn["seed"])
    f, ev, up = make(scn)
    a, p, e, x = scn["args"]
    w = max(up[0], abs(up[1]))
    out = [ev]
    per = 2 * math.pi / up[0]
    pert = 2 * math.pi / abs(up[1])
    w = max(w * motion.sharpness(e), motion.spin_rate(ev) / 3)
    if scn["full"]:
        h = motion.pow2_below(2 * math.pi / w / 128)
        n = min(int(1.05 * max(per, pert) / h) + 9, 700 if ctx.thorough else 420)
        out += motion.window(f, -rng.random() * n * h, h, n, 15)
    else:
        h = motion.pow2_below(2 * math.pi / w / 160)
        when = scn["q"]["when"]
        for _ in range(3):
            lam = {"start": 0.0, "future": rng.uniform(0, 3) * per, "past": -rng.uniform(0, 3) * per,
                   "farfuture": 10 ** rng.uniform(0.5, 5.3) * per, "farpast": -(10 ** rng.uniform(0.5, 5.3)) * per,
                   "turning": (rng.randrange(-6, 7) * math.pi - rng.choice([scn["ph"][1] / up[0], scn["ph"][2] / abs(up[1])]) * 1.0) / up[0]}[when]
            # phases lose the digits that separate two samples
            if abs(lam) > 1000 * per:
                lam = math.copysign(max(1000 * per, min(abs(lam), h * 2 ** 24)), lam)
            if when == "turning":
                k = rng.randrange(-6, 7)
                lam = (k * math.pi - scn["ph"][1]) / up[0] if rng.random() < 0.5 else (k * math.pi - scn["ph"][2]) / abs(up[1])
            out += motion.window(f, lam - 6 * h, h, 13, 15, scalar=rng.random() < 0.3)
            if when == "start":
                break
        for _ in range(3):
            out.append(motion.lattice(f, rng.uniform(-1, 1) * per, per, pert, 32, 26, 3, rng))
    return out


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    good = sorted(s for s, ev in groups.items() if s.startswith("far") and len(ev) > 1)

    def alter(name, clause, idx, change, clause2=None):
        for sid in rng.sample(good, min(20, len(good))):
            ev = [dict(e) for e in groups[sid][:2]]
            s = [list(x) for x in ev[1]["s"]]
            change(s)
            ev[1]["s"] = s
            yield name, ev, clause

    def add(idx, d, k=6):
        def g(s):
            s[k][idx] = bf(unbf(s[k][idx]) + d)
        return g

    def ramp(idx, d):
        def g(s):
            for k in range(len(s)):
                s[k][idx] = bf(unbf(s[k][idx]) + d * (k - 6))
        return g
    yield from alter("time", "TimeEquation", 0, ramp(0, 1e-3))
    yield from alter("radius", "RadialEquation", 1, ramp(1, 1e-3))
    yield from alter("theta", "Angles", 2, add(2, 4))
    yield from alter("z", "PolarEquation", 3, ramp(3, 1e-5))
    yield from alter("azimuth", "AzimuthEquation", 7, ramp(7, 1e-3))
    yield from alter("jump", "Continuous", 5, add(5, 2 * math.pi))
    yield from alter("range", "RadialRange", 1, add(1, 1e4, 0))
    for sid in rng.sample(good, min(20, len(good))):
        ev = [dict(e) for e in groups[sid][:2]]
        ev[0]["E"] = bf(unbf(ev[0]["E"]) * (1 + 1e-3))
        yield "energy", ev, "InnerTurningPoint"
    lat = [s for s in good if any(e["kind"] == "Lattice" for e in groups[s])]
    for name, clause, corner, idx, d in (("later jump", "Azimuth", "D", 5, 1e-2), ("later time", "Time", "B", 0, 1e3),
                                         ("later radius", "Radius", "B", 1, 1.0), ("later theta", "Theta", "C", 3, 1e-4)):
        for sid in rng.sample(lat, min(20, len(lat))):
            ev = [dict(groups[sid][0]), dict(next(e for e in groups[sid] if e["kind"] == "Lattice"))]
            ev[1][corner] = list(ev[1][corner])
            ev[1][corner][idx] = bf(unbf(ev[1][corner][idx]) + d)
            yield name, ev, clause
