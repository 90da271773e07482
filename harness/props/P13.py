"""P13: constants of motion <-> orbital parameters."""
import math
import random
import core
import motion
import params
import plunges
from bf import bf, unbf
import kerrgeopy as kg
from kerrgeopy.constants import apex_from_constants

MODELS = [("ParamSpace", "ParamSpace_orbit"), "State", "MCSturm"]
TRACE = "TraceInverse"
ASSUMPTIONS = ["e <= 1 - 1e-4 (0.99 next to the separatrix), |a| <= 1 - 1e-5; recovered parameters are compared to the accuracy the distance of the radial roots allows",
               "constants within 2^-8 (1 - E) of a circular orbit or the separatrix are decided either way",
               "from_constants is not asked about polar orbits (L = 0)"]
PI = math.pi


def scenarios(ctx):
    out = []
    pts = [q for q in ctx.models["ParamSpace_orbit"] if q["spin"] != "zero" or q["sign"] == "+"]
    for i, q in enumerate(params.cover(pts, 20000 if ctx.thorough else 2200, ctx.rng("s"))):
        out.append({"sid": "rec-%d" % i, "kind": "rec", "q": q, "seed": ctx.rng("s", i).randrange(10 ** 9), "cls": params.labels(q)})
    neg = ctx.models["State"]
    n = 40000 if ctx.thorough else 6000
    many = [dict(q) for _ in range(-(-n // len(neg))) for q in neg]
    for i, q in enumerate(params.cover(many, n, ctx.rng("d"))):
        out.append({"sid": "dec-%d" % i, "kind": "dec", "q": q, "seed": ctx.rng("d", i).randrange(10 ** 9), "cls": params.labels(q, sorted(q))})
    return out


def gap(a, p, e, E, Q):
    """Relative distance of the inner turning point to the next root below it."""
    r1, r2 = p / (1 - e), p / (1 + e)
    s = 2 / (1 - E * E) - r1 - r2
    pr = a * a * Q / (r1 * r2 * (1 - E * E))
    r3 = (s + math.sqrt(max(s * s - 4 * pr, 0))) / 2
    return (r2 - r3) / r1


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    q = scn["q"]
    if scn["kind"] == "dec":
        return decide(q, rng, scn)
    a, p, e, x = params.concretise(q, rng)
    E, L, Q = kg.constants_of_motion(a, p, e, x)
    scn["args"] = [a, p, e, x]
    g = gap(a, p, e, E, Q)
    ev = []
    n, n2 = (17, 30) if g < 1e-4 else (21, 33) if g < 1e-3 else (27, 36) if g < 1e-2 else (33, 38)
    # functions of (a, p, e, x) refer to the direction of the spin, those of the constants to the coordinates
    s = -1 if a < 0 else 1
    b, y = abs(a), s * x
    cs = [(E, L, Q)]
    w = params.witness(b, p, e, y)
    if w is not None:
        cs.append(w)
    if p > 200:
        n, n2 = min(n, 29), min(n2, 33)
    lim = n, n2            # the constants of the code lose some more digits
    for c in cs:
        n, n2 = lim if c is not cs[0] else (min(lim[0] - 7, 22), lim[1] - 6) if e < 0.01 or g < 1e-2 else (lim[0] - 2, lim[1] - 3)
        got = apex_from_constants(b, *c)
        ev.append({"kind": "Recover", "a": bf(b), "E": bf(c[0]), "L": bf(c[1]), "Q": bf(c[2]), "p": bf(p), "e": bf(e), "x": bf(y),
                   "got": [bf(motion.num(v)) for v in got], "n": n, "n2": n2})
        if e < 0.01 and c is not cs[0]:
            o = kg.StableOrbit.from_constants(b, *c)
            ev.append(dict(ev[-1], got=[bf(motion.num(v)) for v in (o.a, o.p, o.e, o.x)]))
        # the mirror image
        got = apex_from_constants(-b, c[0], -c[1], c[2])
        ev.append({"kind": "Recover", "a": bf(-b), "E": bf(c[0]), "L": bf(-c[1]), "Q": bf(c[2]), "p": bf(p), "e": bf(e), "x": bf(-y),
                   "got": [bf(motion.num(v)) for v in got], "n": n, "n2": n2})
    if g < 1e-2 or (b > 0.999 and g < 0.1):
        return ev
    ph = motion.phases({"rleg": rng.choice(["low", "up", "down", "high"]), "pleg": rng.choice(["low", "up", "down", "high"])}, rng)
    M, mu = rng.choice([None, 10 ** rng.uniform(0, 9)]), rng.choice([None, 10 ** rng.uniform(-6, 2)])
    o = kg.StableOrbit(b, p, e, y, ph, M, mu)
    r = kg.StableOrbit.from_constants(b, o.E, o.L, o.Q, ph, M, mu)
    m = 13 if e < 0.01 else 22
    if (r.M, r.mu) != (M, mu) or tuple(r.initial_phases) != tuple(ph):
        raise core.Unexpected("masses or phases not passed on")
    pair(ev, r, o, 19 if e < 0.01 else 28, lambda z: (z.E, z.L, z.Q) + tuple(z.constants_of_motion()))
    pair(ev, r, o, m, lambda z: (z.upsilon_r, z.upsilon_theta, z.upsilon_phi, z.gamma, z.omega_r, z.omega_theta, z.omega_phi))
    lams = [rng.uniform(-8, 8) / o.upsilon_r for _ in range(4)]
    pair(ev, r, o, m - 3, lambda z: [motion.num(f(v)) for f in z.trajectory() for v in lams])
    return ev


def pair(ev, u, v, n, f):
    ev.append({"kind": "Pair", "A": [bf(motion.num(w)) for w in f(u)], "B": [bf(motion.num(w)) for w in f(v)], "n": n})


def decide(q, rng, scn):
    s = 1 if q["sense"] == "pro" else -1
    sg = 1 if q["sign"] == "+" else -1
    if q["origin"] in ("stable", "shiftedE", "shiftedL", "shiftedQ"):
        a = params.SPIN[q["spin"]](rng)
        e = rng.choice([rng.uniform(0.01, 0.9), rng.uniform(0.01, 0.2), 0.0])
        x = s * (1.0 if q["carter"] == "tiny" and rng.random() < 0.3 else 1 - 10 ** rng.uniform(-6, -1) if q["carter"] == "tiny" else rng.uniform(0.05, 0.95))
        p = params.ref_separatrix(a, e, x) * (1 + 10 ** {"low": rng.uniform(-4 if e else -2, -1), "mid": rng.uniform(-1, 0), "near1": rng.uniform(0, 2)}[q["energy"]])
        w = params.witness(a, p, e, x)
        if w is None:
            return []
        E, L, Q = w
        if q["origin"] == "shiftedE":
            E += (1 - E) * rng.choice([1, -1]) * 10 ** rng.uniform(-4, -0.5)
        elif q["origin"] == "shiftedL":
            L *= 1 + rng.choice([1, -1]) * 10 ** rng.uniform(-4, -0.3)
        elif q["origin"] == "shiftedQ":
            Q *= 1 + rng.choice([1, -1]) * 10 ** rng.uniform(-4, 0)
        a, L = sg * a, sg * L
    elif q["origin"] == "random":
        a = params.SPIN[q["spin"]](rng) * sg
        E = {"negative": -rng.uniform(0.8, 1), "zero": 0.0, "low": rng.uniform(0.1, 0.8), "mid": rng.uniform(0.85, 0.97), "near1": 1 - 10 ** rng.uniform(-4, -1.5),
             "one": 1.0, "unbound": 1 + 10 ** rng.uniform(-3, 0.3)}[q["energy"]]
        L = s * sg * rng.uniform(0.3, 6)
        Q = {"negative": -10 ** rng.uniform(-4, 1), "zero": 0.0, "tiny": 10 ** rng.uniform(-7, -2), "generic": rng.uniform(0, 25)}[q["carter"]]
    else:
        w = plunges.concretise({"spin": q["spin"], "sense": q["sense"], "energy": q["energy"], "carter": q["carter"], "arr": q["origin"], "sign": q["sign"]}, rng)
        if w is None:
            return []
        a, E, L, Q = w[:4]
    scn["args"] = [a, E, L, Q]
    out = []
    for who in ("apex", "object"):
        got = []
        try:
            if who == "apex":
                got = [motion.num(v) for v in apex_from_constants(a, E, L, Q)]
            else:
                o = kg.StableOrbit.from_constants(a, E, L, Q)
                got = [motion.num(v) for v in (o.p, o.e, o.x, o.E, o.L, o.Q)]
            ok = True
        except ValueError:
            ok = False
        out.append({"kind": "Decide", "a": bf(a), "E": bf(E), "L": bf(L), "Q": bf(Q), "accepted": ok, "got": [bf(v) for v in got]})
    return out


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    rec = [s for s in sorted(groups) if groups[s] and groups[s][0]["kind"] == "Recover" and groups[s][0]["n"] > 27]
    for sid in rng.sample(rec, min(8, len(rec))):
        e = groups[sid][0]
        for i, (name, clause) in enumerate([("spin", "Spin"), ("p", "SemiLatusRectum"), ("e", "Eccentricity"), ("x", "Inclination")]):
            g = list(e["got"])
            g[i] = bf(unbf(g[i]) * (1 + 1e-7) + 1e-8)
            yield "recover-" + name, [dict(e, got=g)], clause
        g = list(e["got"])
        g[3] = bf(-unbf(g[3]))
        yield "recover-sense", [dict(e, got=g)], "Inclination"
        for e in groups[sid]:
            if e["kind"] == "Pair":
                k = rng.randrange(len(e["A"]))
                yield "pair", [dict(e, A=e["A"][:k] + [bf(unbf(e["A"][k]) * 1.01 + 0.01)] + e["A"][k + 1:])], "Same"
    dec = [s for s in sorted(groups) if groups[s] and groups[s][0]["kind"] == "Decide"]
    for sid in rng.sample(dec, min(60, len(dec))):
        e = groups[sid][0]
        yield ("refuse" if e["accepted"] else "accept"), [dict(e, accepted=not e["accepted"])], None
