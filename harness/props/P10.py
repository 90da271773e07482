"""P10: four-velocities."""
import math
import random
import motion
import params
import plunges
from bf import bf, unbf
import kerrgeopy as kg

MODELS = [("ParamSpace", "ParamSpace_motion"), "Plunge", "Motion"]
TRACE = "TraceMotion"
ASSUMPTIONS = ["e <= 1 - 1e-4 (0.99 next to the separatrix), |a| <= 1 - 1e-5, |x| >= 1e-4 for inclined orbits; plunges with roots at least 1e-5 apart and L != 0",
               "plunges: |Delta| > 2^-6 and Sigma > 2^-6",
               "the numerical four-velocity with its default step of 1e-6 and with at least 1280 steps per period"]
PI = math.pi


def cost(ev):
    return 1 + 12 * len(ev)


def scenarios(ctx):
    st = ctx.models["Motion"]
    out = []
    for kind, pts, n in (("stable", ctx.models["ParamSpace_motion"], 6000 if ctx.thorough else 950),
                         ("plunge", ctx.models["Plunge"], 4000 if ctx.thorough else 650)):
        rng = ctx.rng("join", kind)
        merged = []
        for i in range(max(3 * n, len(pts))):
            q = dict(pts[i % len(pts)])
            q.update(rng.choice(st))
            q["src"] = rng.choice(["object", "method"])
            merged.append(q)
        for i, q in enumerate(params.cover(merged, n, ctx.rng(kind))):
            r = ctx.rng(kind, i)
            out.append({"sid": "%s-%d" % (kind, i), "kind": kind, "q": q, "seed": r.randrange(10 ** 9), "ph": motion.phases(q, r),
                        "cls": [kind] + params.labels(q, sorted(q))})
    return out


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    ph = tuple(scn["ph"])
    q = scn["q"]
    src = q["src"]
    if scn["kind"] == "stable":
        a, p, e, x = scn["args"] = list(params.concretise(q, rng))
        o = kg.StableOrbit(a, p, e, x, ph)
        ev = motion.stable_orbit_event(o.a, o.p, o.e, o.x, o.E, o.L, o.Q)
        w = max(o.upsilon_r * motion.sharpness(e), abs(o.upsilon_theta) * motion.sharpness(e), motion.spin_rate(ev) / 3)
        h = motion.pow2_below(2 * PI / w / 160)
        per, ups = 2 * PI / o.upsilon_r, (o.upsilon_r, abs(o.upsilon_theta))
        tt = 15
    else:
        w = plunges.concretise(q, rng)
        if w is None:
            return []
        a, E, L, Q, arr, roots = w
        scn["args"] = [a, E, L, Q]
        o = kg.PlungingOrbit(a, E, L, Q, ph)
        ev = plunges.orbit_event(a, E, L, Q, arr, roots)
        per, ups = 2 * PI / o.upsilon_r, (o.upsilon_r, o.upsilon_theta)
        h = motion.pow2_below(min(per / 200, 2 * PI / ups[1] / 100, 2 * PI / plunges.rate(a, E, L, Q, arr, roots) / 160))
        tt = 5 if abs(a) > 0.999 else 7 if abs(a) > 0.99 else 13
    out = [ev]
    base = o
    # the numerical one with its default step, and with one that resolves much more (theta turns sharply next to the axis)
    sin = math.sqrt(max(0.0, 1 - unbf(ev["zz"])))
    dx = 1e-6 if rng.random() < 0.4 else h * min(0.125, sin)
    kw = {} if dx == 1e-6 else {"dx": dx}
    if src == "method":
        b = kg.StableOrbit(a, p, e, x) if scn["kind"] == "stable" else kg.PlungingOrbit(a, E, L, Q)
        f, vel, nvel = b.trajectory(ph), b.four_velocity(ph), b.numerical_four_velocity(initial_phases=ph, **kw)
    else:
        f, vel, nvel = o.trajectory(), o.four_velocity(), o.numerical_four_velocity(**kw)
    lams = []
    for _ in range(4):
        k = rng.randrange(-6, 7)
        i = rng.randrange(2)
        turn = (k * PI - ph[1 + i]) / ups[i]
        lams.append({"start": rng.uniform(-0.5, 0.5) * per, "future": rng.uniform(0, 3) * per, "past": -rng.uniform(0, 3) * per,
                     "farfuture": 10 ** rng.uniform(0.5, 2) * per, "farpast": -(10 ** rng.uniform(0.5, 2)) * per,
                     "turning": turn + rng.choice([0, 0, 1e-4, -1e-4]) * per}[q["when"]])
    ev0 = []

    def single(vs, lam):
        return [motion.num(g(lam)) for g in vs]
    for lam in lams:
        k0 = round(lam / h)
        grid = [(k0 + k) * h for k in range(-4, 5)]
        if rng.random() < 0.5:
            u, un = single(vel, grid[4]), single(nvel, grid[4])
        else:
            u, un = ([motion.arr(g, grid)[4] for g in v] for v in (vel, nvel))
        s = motion.samples(f, grid, rng.random() < 0.3)
        if scn["kind"] == "plunge":
            r, z = unbf(s[4][1]), unbf(s[4][3])
            if abs(r * r - 2 * r + a * a) < 2 ** -6 or r * r + (a * z) ** 2 < 2 ** -6:
                continue
        ev0.append({"kind": "FourVelocity", "s": s, "u": [bf(v) for v in u], "un": [bf(v) for v in un], "h": bf(h), "dx": bf(dx), "tt": tt})
    out += ev0

    # what the object stores
    def stored(ob):
        out.append({"kind": "Stored", "x0": [bf(motion.num(v)) for v in ob.initial_position], "x": [bf(v) for v in single(ob.trajectory(), 0)],
                    "u0": [bf(motion.num(v)) for v in ob.initial_velocity], "u": [bf(v) for v in single(ob.four_velocity(), 0)]})
    stored(base)
    return out


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    good = sorted(s for s, ev in groups.items() if len(ev) > 3 and ev[1]["kind"] == "FourVelocity" and s.startswith("stable"))

    def alter(name, clause, key, f, i=1):
        for sid in rng.sample(good, min(20, len(good))):
            ev = [dict(e) for e in groups[sid]]
            v = [bf(f(j, unbf(c))) for j, c in enumerate(ev[i][key])]
            ev[i][key] = v
            yield name, ev, clause
    yield from alter("sign-r", "TangentR", "u", lambda j, c: -c if j == 1 else c)
    yield from alter("sign-th", "TangentTheta", "u", lambda j, c: -c if j == 2 else c)
    for j, n in enumerate(["TimeComponent", "RadialComponent", "Carter", "AzimuthComponent"]):
        yield from alter("value-" + n, n, "u", lambda k, c, j=j: c * (1 + 1e-5) if k == j else c)
    yield from alter("norm", "UnitTimelike", "u", lambda k, c: c * (1 + 1e-6))
    yield from alter("energy", "Energy", "u", lambda k, c: c * (1 + 1e-6) if k == 0 else c)
    yield from alter("momentum", "AngularMomentum", "u", lambda k, c: c * (1 + 1e-6) if k == 3 else c)
    for j, n in enumerate(["T", "R", "Theta", "Phi"]):
        yield from alter("numeric-" + n, "Numeric" + n, "un", lambda k, c, j=j: c * 1.01 + 1e-3 if k == j else c)
    for sid in rng.sample(good, min(5, len(good))):
        ev = [dict(e) for e in groups[sid]]
        k = len(ev) - 1
        for key, cl in (("x0", "Position"), ("u0", "Velocity")):
            e2 = [dict(e) for e in ev]
            v = list(e2[k][key])
            v[1] = bf(unbf(v[1]) + 1e-3)
            e2[k][key] = v
            yield "stored-" + key, e2, cl
