"""P12: admission of initial data."""
import math
import random
import motion
import params
import plunges
import states
from bf import bf, unbf
import kerrgeopy as kg

MODELS = ["Initial", "State", "MCSturm", ("ParamSpace", "ParamSpace_orbit")]
TRACE = "TraceInitial"
ASSUMPTIONS = ["|Delta| > 0.03, Sigma > 0.01, |a| <= 1 - 1e-5",
               "future directed states (E > 0); states within 2^-15 of a turning point or 2^-20 of a double root are decided either way",
               "norms between 2^-21 and 2^-19 away from -1 are decided either way"]
PI = math.pi


def scenarios(ctx):
    out = []
    n = 40000 if ctx.thorough else 6000
    for i, q in enumerate(params.cover(ctx.models["Initial"], n, ctx.rng("i"))):
        out.append({"sid": "state-%d" % i, "kind": "state", "q": q, "seed": ctx.rng("i", i).randrange(10 ** 9), "cls": params.labels(q, sorted(q))})
    n = 10000 if ctx.thorough else 1800
    pts = [q for q in ctx.models["ParamSpace_orbit"] if q["ecc"] != "nearcirc" and q["dist"] != "sep"]
    for i, q in enumerate(params.cover(pts, n, ctx.rng("o"))):
        out.append({"sid": "orbit-%d" % i, "kind": "orbit", "q": q, "seed": ctx.rng("o", i).randrange(10 ** 9), "cls": params.labels(q)})
    inner = [q for q in ctx.models["Initial"] if q["place"] == "inside" and q["flaw"] == "none" and q["spin"] in ("mid", "high", "extreme")]
    for i, q in enumerate(params.cover(inner, n // 8, ctx.rng("n"))):
        out.append({"sid": "inner-%d" % i, "kind": "inner", "q": q, "seed": ctx.rng("n", i).randrange(10 ** 9), "cls": params.labels(q, sorted(q))})
    return out


def inner(q, rng):
    """A body shut in below the inner horizon, with two more roots below it."""
    w = plunges.concretise({"spin": rng.choice(["mid", "high"]), "sense": "pro", "energy": rng.choice(["low", "mid"]), "carter": "tiny",
                            "arr": "inner", "sign": q["sign"]}, rng)
    if w is None:
        return None
    a, E, L, Q, _, roots = w
    r = roots[0] + rng.uniform(0.05, 0.95) * (roots[1] - roots[0])
    th = math.acos(rng.uniform(-0.9, 0.9) * math.sqrt(plunges.polar_turning(a, E, L, Q)))
    u = states.from_constants(a, E, L, Q, r, th, {"in": -1, "out": 1, "turning": 1}[q["radial"]], {"up": -1, "down": 1}.get(q["polar"], 1))
    return None if u is None else (a, [rng.uniform(-5, 5), r, th, rng.uniform(-4, 4)], u)


def state(q, rng):
    """(a, x, u) of the class q, or None."""
    a = params.SPIN[q["spin"]](rng) * (1 if q["sign"] == "+" else -1)
    s = math.sqrt(1 - a * a)
    rp, rm = 1 + s, 1 - s
    r = {"far": lambda: rng.choice([rng.uniform(5, 12), 10 ** rng.uniform(0.7, 2.3)]), "near": lambda: rp + 10 ** rng.uniform(-1, 0.6),
         "between": lambda: rng.uniform(rm, rp), "inside": lambda: rng.uniform(0.02, 1) * rm}[q["place"]]()
    th = PI / 2 if q["polar"] == "equator" and rng.random() < 0.8 else math.acos(rng.uniform(-0.97, 0.97))
    z = math.cos(th)
    if abs(r * r - 2 * r + a * a) < 0.03 or r * r + (a * z) ** 2 < 0.01:
        return None
    x = [rng.choice([0.0, rng.uniform(-50, 50)]), r, th, rng.choice([0.0, rng.uniform(-7, 7)])]
    if q["flaw"] == "random":
        v = [rng.gauss(0, 1) for _ in range(3)]
        sp = rng.choice([rng.uniform(0, 1), rng.uniform(0, 0.5)]) / math.sqrt(sum(c * c for c in v))
        v = [c * sp for c in v]
        if q["radial"] == "turning":
            v[0] = 0.0
        if q["polar"] in ("equator", "turning"):
            v[1] = 0.0
        return a, x, states.zamo(a, x, v)
    sg = (1 if a >= 0 else -1) * {"pro": 1, "retro": -1, "none": rng.choice([1, -1]) * 1e-3}[q["sense"]]
    for _ in range(200):
        E = {"low": lambda: rng.uniform(0.1, 0.9), "mid": lambda: rng.uniform(0.85, 0.99), "near1": lambda: 1 - 10 ** rng.uniform(-4, -1.5)}[q["energy"]]()
        if q["flaw"] == "unbound":
            E = 1 + 10 ** rng.uniform(-4, 0)
        if q["flaw"] == "marginal":
            E = 1 + rng.choice([0, 1e-9, 1e-6])
        L = sg * rng.choice([rng.uniform(0.05, 4.5), rng.uniform(0.05, 1)])
        Q = z * z * (a * a * (1 - E * E) + L * L / (1 - z * z))
        if q["polar"] in ("up", "down"):
            Q += rng.choice([rng.uniform(0, 3), rng.uniform(0, 15)])
        sr = {"in": -1, "out": 1, "turning": 1}[q["radial"]]
        if q["radial"] == "turning":
            # the energy with which the body is at rest radially: P^2 = Delta K, by bisection on R
            lo, hi = 0.01, 1.0
            f = lambda E, L=L, Q=Q: (E * (r * r + a * a) - a * L) ** 2 - (r * r - 2 * r + a * a) * (r * r + (a * E - L) ** 2 + Q)
            if q["polar"] in ("equator", "turning"):
                f = lambda E, L=L: (E * (r * r + a * a) - a * L) ** 2 - (r * r - 2 * r + a * a) * (
                    r * r + (a * E - L) ** 2 + z * z * (a * a * (1 - E * E) + L * L / (1 - z * z)))
            if not (f(lo) < 0 < f(hi)):
                continue
            for _ in range(80):
                m = 0.5 * (lo + hi)
                lo, hi = (lo, m) if f(m) > 0 else (m, hi)
            E = hi
            if E * (r * r + a * a) - a * L < 0 and r > 1:
                continue
            if q["polar"] in ("equator", "turning"):
                Q = z * z * (a * a * (1 - E * E) + L * L / (1 - z * z))
        u = states.from_constants(a, E, L, Q, r, th, sr, {"up": -1, "down": 1}.get(q["polar"], 1))
        if u is None:
            continue
        if q["radial"] == "turning":
            u[1] = 0.0
        if q["polar"] in ("equator", "turning"):
            u[2] = 0.0
        if r > 1 and E * (r * r + a * a) - a * L < 0 and r > rp:
            continue
        return a, x, u
    return None


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    q = scn["q"]
    if scn["kind"] == "orbit":
        a, p, e, x = params.concretise(q, rng)
        if q["dist"] == "close" and abs(a) > 0.99 or e == 0 and abs(x) < 0.02:
            return []
        ph = motion.phases({"rleg": rng.choice(["low", "up", "down", "high"]), "pleg": rng.choice(["low", "up", "down", "high"])}, rng)
        o = kg.StableOrbit(abs(a), p, e, x if a >= 0 else -x, ph)
        pos, vel = [float(v) for v in o.initial_position], [float(v) for v in o.initial_velocity]
        if a < 0:
            pos[3], vel[3] = -pos[3], -vel[3]
        return [build(a, pos, vel, circular=e == 0)]
    flaw = q["flaw"]
    w = inner(q, rng) if scn["kind"] == "inner" else state(q, rng)
    if w is None:
        return []
    a, x, u = w
    if flaw == "scaled":
        f = 1 + rng.choice([1, -1]) * 10 ** rng.uniform(-5, 0)
        u = [f * v for v in u]
    elif flaw == "slightly":
        f = 1 + rng.choice([1, -1]) * 10 ** rng.uniform(-12, -6)
        u = [f * v for v in u]
    elif flaw in ("null", "spacelike"):
        z = math.cos(x[2])
        # shrink or stretch the radial and angular parts until the norm vanishes or is positive
        k = 1.0
        for _ in range(60):
            k *= 1.3
            v = [u[0], u[1] * k, u[2] * k, u[3]]
            if flaw == "spacelike" and rng.random() < 0.5:
                v = [u[0] / k, u[1] * k, u[2] * k, u[3] * k]
            if kg.spacetime.KerrSpacetime(a).norm(*x, v) > (0 if flaw == "spacelike" else -0.3):
                u = v
                break
        else:
            return []
    elif flaw == "undefined":
        u = list(u)
        k = rng.randrange(6)
        bad = rng.choice([math.nan, math.inf, -math.inf])
        if k < 4:
            u[k] = bad
        else:
            x[1 + (k == 5)] = bad
    elif flaw == "extreme":
        a = rng.choice([1, 1.0, -1.0, 1.0001, 2.0, -1.5, 10.0])
    return [build(a, x, u)]


def build(a, x, u, circular=False):
    z, s = math.nan, math.nan
    if math.isfinite(x[2]):
        z, s = math.cos(x[2]), math.sin(x[2])
    ok, stable = True, False
    try:
        o = kg.Orbit(a, tuple(x), tuple(u))
        stable = bool(o.stable)
    except ValueError:
        ok = False
    sane = all(map(math.isfinite, x + u)) and abs(a) < 1
    c = states.constants(a, x, u) if sane else []
    return {"kind": "Build", "a": bf(a), "x": [bf(v) for v in (x[0], x[1], x[2], z, s, x[3])], "u": [bf(v) for v in u],
            "c": [bf(v) for v in c], "accepted": ok, "stable": stable, "circular": circular}


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    sids = [s for s in sorted(groups) if groups[s] and groups[s][0]["kind"] == "Build"]
    acc = [s for s in sids if groups[s][0]["accepted"] and groups[s][0]["c"]]
    ref = [s for s in sids if not groups[s][0]["accepted"]]
    for s in rng.sample(ref, min(150, len(ref))):
        yield "accept-refused", [dict(groups[s][0], accepted=True)], None
    for s in rng.sample(acc, min(60, len(acc))):
        e = groups[s][0]
        yield "refuse-accepted", [dict(e, accepted=False)], "AcceptsPhysical"
        yield "kind", [dict(e, stable=not e["stable"])], "Kind"
        yield "constants", [dict(e, c=[bf(unbf(e["c"][0]) * (1 + 1e-9))] + e["c"][1:])], "ConstantsKnown"
        yield "norm", [dict(e, u=[bf(unbf(v) * 1.00001) for v in e["u"]])], "RefusesBadNorm"
    for s in rng.sample(ref, min(200, len(ref))):
        yield "refused-unbound", [dict(groups[s][0], accepted=True)], "RefusesUnbound"
        yield "refused-inside", [dict(groups[s][0], accepted=True)], "RefusesInside"
        yield "refused-schwarzschild", [dict(groups[s][0], accepted=True)], "RefusesUnsupported"
    circ = [s for s in acc if groups[s][0]["circular"]]
    for s in rng.sample(circ, min(5, len(circ))):
        yield "circular", [dict(groups[s][0], stable=False)], "Circular"
