"""P11: orbits built from initial data."""
import math
import random
import motion
import params
import plunges
import states
from props import P12
from bf import bf, unbf
import kerrgeopy as kg

MODELS = ["Initial", "State", "MCSturm", ("ParamSpace", "ParamSpace_orbit"), "Plunge"]
TRACE = "TraceInitial"
ASSUMPTIONS = ["|Delta| > 0.05, Sigma > 0.01, |a| <= 1 - 1e-5",
               "sin theta > 2e-3", "stable orbits away from the separatrix; the motion of states within 1e-3 of a double root is not followed"]
PI = math.pi


def scenarios(ctx):
    out = []
    n = 16000 if ctx.thorough else 2000
    pts = [q for q in ctx.models["Initial"] if q["flaw"] in ("none", "random")]
    for i, q in enumerate(params.cover(pts, n, ctx.rng("i"))):
        out.append({"sid": "state-%d" % i, "kind": "state", "q": q, "seed": ctx.rng("i", i).randrange(10 ** 9), "cls": params.labels(q, sorted(q))})
    n = 12000 if ctx.thorough else 1600
    pts = [q for q in ctx.models["ParamSpace_orbit"] if q["dist"] != "sep"]
    for i, q in enumerate(params.cover(pts, n, ctx.rng("o"))):
        out.append({"sid": "orbit-%d" % i, "kind": "orbit", "q": q, "seed": ctx.rng("o", i).randrange(10 ** 9), "cls": params.labels(q)})
    n = 6000 if ctx.thorough else 800
    for i, q in enumerate(params.cover(ctx.models["Plunge"], n, ctx.rng("p"))):
        out.append({"sid": "plunge-%d" % i, "kind": "plunge", "q": q, "seed": ctx.rng("p", i).randrange(10 ** 9), "cls": params.labels(q, sorted(q))})
    return out


LEGS = ["low", "up", "down", "high"]


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    q = scn["q"]
    ref = None
    circular = False
    lam0 = 0.0
    if scn["kind"] == "state":
        w = P12.state(q, rng)
        if w is None:
            return []
        a, x, u = w
    elif scn["kind"] == "orbit":
        a, p, e, xx = params.concretise(q, rng)
        if (q["dist"] == "close" and abs(a) > 0.99) or (e < 2e-3 and abs(xx) < 0.02):
            return []
        circular = e == 0
        ph = motion.near(motion.phases({"rleg": rng.choice(LEGS), "pleg": rng.choice(LEGS)}, rng), rng)
        o = kg.StableOrbit(abs(a), p, e, xx if a >= 0 else -xx, ph)
        ref = (o.trajectory(), -1 if a < 0 else 1)
        lam0 = rng.choice([0.0, 0.0, rng.uniform(-6, 6) / o.upsilon_r])
        x, u = start(o, lam0)
        if a < 0:
            x[3], u[3] = -x[3], -u[3]
    else:
        w = plunges.concretise(q, rng)
        if w is None:
            return []
        a, E, L, Q = w[:4]
        ph = motion.near(motion.phases({"rleg": rng.choice(LEGS), "pleg": rng.choice(LEGS)}, rng), rng)
        o = kg.PlungingOrbit(a, E, L, Q, ph)
        ref = (o.trajectory(), 1)
        lam0 = rng.choice([0.0, 0.0, rng.uniform(-6, 6) / o.upsilon_r])
        x, u = start(o, lam0)
    scn["args"] = [a, x, u]
    z = math.cos(x[2])
    D, S = x[1] ** 2 - 2 * x[1] + a * a, x[1] ** 2 + (a * z) ** 2
    if not (abs(D) > 0.05 and S > 0.01 and math.sin(x[2]) > 2e-3):
        return []
    ev = [P12.build(a, x, u, circular)]
    if not ev[0]["accepted"]:
        # whether it had to be accepted is the business of the Build event
        return ev
    r = kg.Orbit(a, tuple(x), tuple(u))
    if r.stable:
        kind = "stable"
    else:
        kind = "plunge"
    traj, vel = r.trajectory(), r.four_velocity()
    y, v = [motion.num(f(0)) for f in traj], [motion.num(f(0)) for f in vel]
    degenerate = scn["kind"] == "orbit" and e < 2e-3
    ev.append({"kind": "Begin", "a": ev[0]["a"], "x": ev[0]["x"], "u": ev[0]["u"], "y": [bf(w) for w in y], "v": [bf(w) for w in v],
               "got": [bf(motion.num(w)) for w in (r.E, r.L, r.Q)], "n": 17 if degenerate else 25 if 1 - unbf(ev[0]["c"][0]) > 2e-3 else 20})
    ev.append({"kind": "Stored", "x0": [bf(motion.num(w)) for w in r.initial_position], "x": [bf(w) for w in x],
               "u0": [bf(motion.num(w)) for w in r.initial_velocity], "u": [bf(w) for w in u]})
    c = [unbf(w) for w in ev[0]["c"]]
    st = arrangement(a, c, x[1])
    # (next to the axis the constants of a state are known less well)
    if st and st[0] == kind:
        ev += follow(a, c, kind, st[1:], r, traj, rng)[:None if math.sin(x[2]) > 0.02 else 1]
    elif ref is None or not degenerate:
        return ev
    if ref is not None:
        # the same motion as that of the orbit the data were taken from
        if st is None:
            o = {"kind": "Orbit", "a": bf(a), **{k: bf(w) for k, w in zip("ELQ", c)}, "hin": bf(p), "hid": bf(1 - e), "lon": bf(p), "lod": bf(1 + e),
                 "zz": bf(1 - xx * xx), "mid": bf(p), "plunge": False}
            ev.append(o)
        f, sg = ref
        lams = [rng.uniform(-1.5, 1.5) * 2 * PI / r.upsilon_r for _ in range(5)]
        A = motion.samples(traj, lams)
        c = motion.coords(f, [w + lam0 for w in lams])
        B = [motion.sample4(t, rr, th, sg * ph) if all(map(math.isfinite, (rr, th))) else [bf(math.nan)] * 8 for t, rr, th, ph in zip(*c)]
        turning = (S * u[1]) ** 2 < 2 ** -20 * terms(a, *unb(ev[0]["c"]), x[1]) or (S * u[2]) ** 2 < 2 ** -20
        n, nr = same_tolerance(scn["kind"], degenerate or turning, st, a)
        ev.append({"kind": "Same", "A": A, "B": B, "shift": False, "n": n, "nr": nr})
    return ev


def unb(v):
    return [unbf(w) for w in v]


def terms(a, E, L, Q, r):
    """The size of the terms of R(r)."""
    return (E * (r * r + a * a)) ** 2 + (a * L) ** 2 + (r * r + 2 * r + a * a) * (r * r + (a * E - L) ** 2 + Q)


def same_tolerance(kind, degenerate, st, a):
    if kind == "orbit":
        return (12, 11) if degenerate else (20, 20)
    roots = st[2]
    gap = min(abs(u - v) for u in roots for v in roots if u != v)
    return (14, 13) if len(roots) == 2 else (15, 15) if gap > 0.3 else (11, 11)


def arrangement(a, c, r):
    """(kind, arrangement, roots) of the motion at r, None next to a double root."""
    st = plunges.structure(a, *c, every=True)
    if st is None:
        return None
    arr, roots = st
    if len(roots) == 4 and min((u - v) / (1 + abs(u)) for u, v in zip(roots[1:], roots)) < 4e-3:
        return None
    if arr == "deep" and r > 0.5 * (roots[1] + roots[2]):
        return "stable", arr, roots
    return ("plunge", arr, roots) if arr else None


def follow(a, c, kind, st, r, traj, rng):
    """A window of the motion of the orbit r."""
    arr, roots = st
    ev = plunges.orbit_event(a, *c, arr, roots)
    w = max(r.upsilon_r, abs(r.upsilon_theta))
    per = 2 * PI / r.upsilon_r
    if kind == "stable":
        lo, hi = roots[2:]
        ev.update(hin=bf(hi), lon=bf(lo), mid=bf(0.5 * (lo + hi)), plunge=False)
        e = (hi - lo) / (hi + lo)
        h = motion.pow2_below(2 * PI / max(w * motion.sharpness(e), motion.spin_rate(ev) / 3) / 160)
        tt = 15
    else:
        tt = 5 if abs(a) > 0.999 else 7 if abs(a) > 0.99 else 13
        h = motion.pow2_below(min(per / 200, 2 * PI / r.upsilon_theta / 100, 2 * PI / plunges.rate(a, *c, arr, roots) / 160))
    lam = rng.choice([0.0, rng.uniform(-2, 2) * per])
    return [ev] + motion.window(traj, lam - 6 * h, h, 13, tt, scalar=rng.random() < 0.2)


def start(o, lam):
    return [motion.num(f(lam)) for f in o.trajectory()], [motion.num(f(lam)) for f in o.four_velocity()]


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    sids = [s for s in sorted(groups) if len(groups[s]) > 1 and groups[s][1]["kind"] == "Begin" and groups[s][1]["n"] == 25]
    clauses = ["Time", "Radius", "Theta", "Azimuth"], ["VelocityT", "VelocityR", "VelocityTheta", "VelocityPhi"], ["Energy", "Momentum", "Carter"]
    for s in rng.sample(sids, min(40, len(sids))):
        e = groups[s][1]
        for key, names in zip(("y", "v", "got"), clauses):
            for i, name in enumerate(names):
                w = list(e[key])
                w[i] = bf(unbf(w[i]) + 1e-4 if key == "y" else unbf(w[i]) * (1 + 1e-3))
                yield name, [dict(e, **{key: w})], None
        # a body that moves the other way
        for i, name in ((1, "inward"), (2, "southward")):
            w = list(e["v"])
            w[i] = bf(-unbf(w[i]))
            yield name, [dict(e, v=w)], None
    for s in rng.sample(sids, min(40, len(sids))):
        same = [e for e in groups[s] if e["kind"] == "Same"]
        orb = [e for e in groups[s] if e["kind"] == "Orbit"]
        if same and orb:
            A = [list(w) for w in same[0]["A"]]
            A[2][1] = bf(unbf(A[2][1]) * 1.01)
            yield "same-r", [orb[0], dict(same[0], A=A)], "Radius"
            A = [list(w) for w in same[0]["A"]]
            A[2][0] = bf(unbf(A[2][0]) * 1.1 + 10)
            yield "same-t", [orb[0], dict(same[0], A=A)], None
        ticks = [e for e in groups[s] if e["kind"] == "Ticks"]
        if ticks and orb:
            S = [list(w) for w in ticks[0]["s"]]
            for k in range(len(S)):
                S[k][0] = bf(unbf(S[k][0]) * 1.01 + 0.02 * k)
            yield "ticks-t", [orb[0], dict(ticks[0], s=S)], None
