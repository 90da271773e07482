"""P07: initial phases and time translation."""
import math
import random
import motion
import params
import plunges
from bf import bf, unbf
import kerrgeopy as kg
from kerrgeopy.stable import stable_trajectory
from kerrgeopy.plunge import plunging_trajectory

MODELS = [("ParamSpace", "ParamSpace_motion"), "Plunge", "Motion"]
TRACE = "TraceMotion"
ASSUMPTIONS = ["e <= 1 - 1e-4 (0.99 next to the separatrix), |a| <= 1 - 1e-5, |x| >= 1e-4 for inclined orbits",
               "plunges: domain of P08, t and phi compared where |Delta| exceeds 2^-5",
               "translations by up to 30 radial periods, up to 5 full turns of a phase"]
PI = math.pi


def scenarios(ctx):
    pts = ctx.models["ParamSpace_motion"]
    st = ctx.models["Motion"]
    n = 12000 if ctx.thorough else 2000
    rng = ctx.rng("join")
    merged = []
    for i in range(max(3 * n, len(pts))):
        q = dict(pts[i % len(pts)])
        q.update(rng.choice(st))
        q["src"] = rng.choice(["object", "function"])
        merged.append(q)
    out = []
    for i, q in enumerate(params.cover(merged, n, ctx.rng("cover"))):
        r = ctx.rng(i)
        out.append({"sid": "p-%d" % i, "q": q, "args": list(params.concretise(q, r)), "ph": motion.phases(q, r),
                    "seed": r.randrange(10 ** 9), "src": q["src"],
                    "cls": params.labels(q, ("spin", "sign", "ecc", "incl", "dist", "rleg", "pleg", "turns", "src"))})
    n = 6000 if ctx.thorough else 1000
    pts = ctx.models["Plunge"]
    merged = []
    for i in range(max(3 * n, len(pts))):
        q = dict(pts[i % len(pts)])
        q.update(rng.choice(st))
        q["src"] = rng.choice(["object", "function"])
        merged.append(q)
    for i, q in enumerate(params.cover(merged, n, ctx.rng("plunge"))):
        r = ctx.rng("plunge", i)
        out.append({"sid": "d-%d" % i, "q": q, "ph": motion.phases(q, r), "seed": r.randrange(10 ** 9), "src": q["src"], "plunge": True,
                    "cls": params.labels(q, ("arr", "spin", "sign", "sense", "carter", "energy", "rleg", "pleg", "turns", "src"))})
    return out


def digits(a):
    a = abs(a)
    return 8 if a > 1 - 2 ** -13 else 12 if a > 1 - 2 ** -10 else 20 if a > 1 - 2 ** -6 else 26


def stable(scn, rng):
    a, p, e, x = scn["args"]
    ph = tuple(scn["ph"])
    if scn["src"] == "function":
        def make(q):
            return stable_trajectory(a, p, e, x, q)
        up = kg.mino_frequencies(a, p, e, x)
        E, L, Q = kg.constants_of_motion(a, p, e, x)
        ev = motion.stable_orbit_event(a, p, e, x, E, -L if a < 0 else L, Q)
        alt = stable_trajectory(a, p, e, x, initial_phases=list(ph))
    else:
        o = kg.StableOrbit(a, p, e, x, ph)
        base = kg.StableOrbit(a, p, e, x)

        def make(q):
            return base.trajectory(q)
        up = o.mino_frequencies()
        ev = motion.stable_orbit_event(o.a, o.p, o.e, o.x, o.E, o.L, o.Q)
        alt = o.trajectory()
    wr, wt = up[0], abs(up[1])
    return ev, make, alt, wr, wt, max(wr, wt), 2 * PI * up[3] / wr, digits(a), 24


def plunge(scn, rng):
    w = plunges.concretise(scn["q"], rng)
    if w is None:
        return None
    a, E, L, Q, arr, roots = w
    scn["args"] = [a, E, L, Q]
    ph = tuple(scn["ph"])
    o = kg.PlungingOrbit(a, E, L, Q, ph)
    if scn["src"] == "function":
        def make(q):
            return plunging_trajectory(a, E, L, Q, q)
        alt = plunging_trajectory(a, E, L, Q, initial_phases=list(ph))
    else:
        base = kg.PlungingOrbit(a, E, L, Q)

        def make(q):
            return base.trajectory(q)
        alt = o.trajectory()
    wr, wt = o.upsilon_r, o.upsilon_theta
    ev = plunges.orbit_event(a, E, L, Q, arr, roots)
    return ev, make, alt, wr, wt, max(wr, wt, plunges.rate(a, E, L, Q, arr, roots)), 1.0, PN, PNR


PN, PNR = 20, 20


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    ph = tuple(scn["ph"])
    w = (plunge if scn.get("plunge") else stable)(scn, rng)
    if w is None:
        return []
    ev, make, alt, wr, wt, w, tscale, n, nr0 = w
    f = make(ph)
    q = scn["q"]
    s0 = motion.samples(f, [0.0], scalar=True)[0]
    eps = 0.02 / w
    s1 = motion.samples(f, [eps], scalar=True)[0]
    refl = make((ph[0], -ph[1], -ph[2], ph[3]))
    rs = motion.samples(refl, [0.0], scalar=True)[0]
    out = [ev, {"kind": "Start", "s": s0, "after": s1, "rleg": q["rleg"], "pleg": q["pleg"], "qt": bf(ph[0]), "qphi": bf(ph[3]),
                "tscale": bf(tscale), "r2": rs[1], "z2": rs[3]}]
    lams = [rng.uniform(-2, 2) * 2 * PI / w for _ in range(3)] + [rng.uniform(-12, 12) * 2 * PI / wr, 0.0]

    def same(A, B, shift, nr=nr0):
        out.append({"kind": "Same", "A": A, "B": B, "shift": shift, "n": n, "nr": nr})
    A0 = motion.samples(f, lams)
    if scn.get("plunge"):
        # the constant shifts are taken from the first sample: away from the horizons
        rr = motion.coords(f, lams)[1]
        lams = [v for _, v in sorted(zip([-abs(r * r - 2 * r + unbf(ev["a"]) ** 2) for r in rr], lams))]
        A0 = motion.samples(f, lams)
    # translation
    lam0 = rng.choice([rng.uniform(-2, 2), rng.uniform(-30, 30)]) * 2 * PI / wr
    moved = make((ph[0], ph[1] + wr * lam0, ph[2] + wt * lam0, ph[3]))
    same(motion.samples(moved, lams), motion.samples(f, [v + lam0 for v in lams]), True)
    # full turns
    turned = make((ph[0], ph[1] + 2 * PI * rng.choice([-5, -1, 0, 1, 3]), ph[2] + 2 * PI * rng.choice([-4, -1, 1, 2]), ph[3]))
    same(A0, motion.samples(turned, lams), False)
    # the phases of the object, of the method and of the function are the same thing
    same(A0, motion.samples(alt, lams), False, 38)
    return out


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    good = sorted(s for s, ev in groups.items() if len(ev) > 3)

    def alter(name, clause, change):
        for sid in rng.sample(good, min(40, len(good))):
            ev = [dict(e) for e in groups[sid]]
            change(ev)
            yield name, ev, clause

    def setq(k, v):
        def g(ev):
            ev[1][k] = v
        return g

    def bump(i, key, j, d):
        def g(ev):
            s = [list(v) for v in ev[i][key]]
            s[1][j] = bf(unbf(s[1][j]) + d)
            ev[i][key] = s
        return g
    for leg, clause in (("low", "InnerTurningPoint"), ("high", "OuterTurningPoint"), ("up", "Outward"), ("down", "Inward")):
        yield from alter("r" + leg, clause, setq("rleg", leg))
    for leg, clause in (("low", "MinimalTheta"), ("high", "MaximalTheta"), ("up", "ThetaIncreases"), ("down", "ThetaDecreases")):
        yield from alter("t" + leg, clause, setq("pleg", leg))
    yield from alter("start", "InitialTime", setq("qt", bf(5e4)))
    yield from alter("start", "InitialAzimuth", setq("qphi", bf(9.9)))
    yield from alter("shift-t", "Time", bump(2, "A", 0, 0.01))
    yield from alter("shift-r", "Radius", bump(2, "A", 1, 0.01))
    yield from alter("turn-phi", "Azimuth", bump(3, "A", 5, 0.01))
    yield from alter("turn-th", "Theta", bump(3, "A", 3, 1e-3))
