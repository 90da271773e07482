"""P08: plunging trajectories solve the geodesic equations."""
import math
import random
import motion
import params
import plunges
from bf import bf, unbf
import kerrgeopy as kg
from kerrgeopy.plunge import plunging_trajectory

MODELS = ["Plunge", "Motion"]
TRACE = "TraceMotion"
ASSUMPTIONS = ["roots at least 1e-5 apart, |a| between 1e-16 and 1 - 1e-5, 0.3 < E < 1, L != 0",
               "t and phi are compared where |Delta| exceeds 2^-10 and the difference formula resolves the horizon",
               "Mino times within 100 periods of zero"]
PI = math.pi


def cost(ev):
    return 1 + sum(len(e.get("s", ())) for e in ev)


def scenarios(ctx):
    pts = [q for q in ctx.models["Plunge"]]
    st = ctx.models["Motion"]
    rng = ctx.rng("join")
    n_far, n_full, n_back = (6000, 600, 3000) if ctx.thorough else (900, 60, 360)
    merged = []
    for i in range(max(3 * n_far, len(pts))):
        q = dict(pts[i % len(pts)])
        q.update(rng.choice(st))
        q["src"] = rng.choice(["object", "method", "function"])
        merged.append(q)
    out = []
    for kind, n in (("far", n_far), ("full", n_full), ("back", n_back)):
        for i, q in enumerate(params.cover(merged, n, ctx.rng(kind))):
            r = ctx.rng(kind, i)
            out.append({"sid": "%s-%d" % (kind, i), "q": q, "kind": kind, "seed": r.randrange(10 ** 9), "ph": motion.phases(q, r),
                        "cls": params.labels(q, sorted(q))})
    # the one known limitation: no angular momentum
    out.append({"sid": "no-angular-momentum", "q": {}, "kind": "axis", "seed": 0, "ph": [0.0] * 4, "cls": []})
    return out


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    ph = tuple(scn["ph"])
    kind = scn["kind"]
    if kind == "axis":
        a, E, L, Q = 0.9, 0.9, 0.0, 4.0
        arr, roots = plunges.structure(a, E, L, Q)
    else:
        w = plunges.concretise(scn["q"], rng)
        if w is None:
            return []
        a, E, L, Q, arr, roots = w
    scn["args"] = [a, E, L, Q]
    o = kg.PlungingOrbit(a, E, L, Q, ph)
    src = scn["q"].get("src", "object")
    if src == "function":
        f = plunging_trajectory(a, E, L, Q, ph)
    elif src == "method":
        f = kg.PlungingOrbit(a, E, L, Q).trajectory(ph)
    else:
        f = o.trajectory()
    ev = plunges.orbit_event(a, E, L, Q, arr, roots)
    out = [ev]
    per, pert = 2 * PI / o.upsilon_r, 2 * PI / o.upsilon_theta
    tt = 5 if abs(a) > 0.999 else 7 if abs(a) > 0.99 else 13
    fine = min(per / 200, pert / 100, 2 * PI / plunges.rate(a, E, L, Q, arr, roots) / 160)
    if kind in ("far", "axis"):
        h = motion.pow2_below(fine / rng.choice([1, 1, 4]))
        when = scn["q"].get("when", "start")
        for _ in range(3):
            k = rng.randrange(-6, 7)
            lam = {"start": 0.0, "future": rng.uniform(0, 3) * per, "past": -rng.uniform(0, 3) * per,
                   "farfuture": 10 ** rng.uniform(0.5, 2) * per, "farpast": -(10 ** rng.uniform(0.5, 2)) * per,
                   "turning": ((k * PI - ph[1]) / o.upsilon_r if rng.random() < 0.5 else (k * PI - ph[2]) / o.upsilon_theta)}[when]
            out += motion.window(f, lam - 6 * h, h, 13, tt, scalar=rng.random() < 0.3)
            if when == "start":
                break
        if kind == "far":
            for _ in range(2):
                out.append(motion.lattice(f, rng.uniform(-1, 1) * per, per, pert, 32, 30, 2, rng))
    elif kind == "full":
        h = motion.pow2_below(fine)
        n = min(int(1.05 * max(per, pert) / h) + 9, 700)
        out += motion.window(f, -rng.random() * n * h, h, n, tt)
    else:
        # the same orbit from the initial data at a later time
        vel = o.four_velocity(ph)
        lo, hi = plunges.turning(arr, roots)
        zz = plunges.polar_turning(a, E, L, Q)
        lam0 = 0.0 if rng.random() < 0.4 else rng.uniform(-3, 3) * per
        for _ in range(60):
            c = motion.coords(f, [lam0], scalar=True)
            r, th = c[1][0], c[2][0]
            d = r * r - 2 * r + a * a
            z = math.cos(th)
            if r * r + (a * z) ** 2 < 0.01:      # next to the singularity the norm of a state is rounding
                lam0 = rng.uniform(-3, 3) * per
                continue
            atr = min(abs(r - lo), abs(r - hi))
            att = abs(math.sqrt(zz) - abs(z))
            if lam0 == 0.0 and abs(d) > 0.05 and (atr > 0.05 or atr < 1e-9) and (att > 0.05 or att < 1e-9 or zz == 0) and abs(r) > 1e-3:
                break
            if lam0 != 0.0 and abs(d) > 0.05 and atr > 0.05 and (att > 0.05 or zz == 0) and abs(r) > 1e-3:
                break
            lam0 = rng.uniform(-3, 3) * per
        else:
            return out
        pos = tuple(v[0] for v in c)
        u = tuple(motion.num(g(lam0)) for g in vel)
        b = kg.Orbit(a, pos, u)
        g = b.trajectory()
        lams = [rng.uniform(-1.5, 1.5) * per for _ in range(6)]
        gap = min(abs(u - v) for u in roots for v in roots if u != v)
        n, nr = (14, 13) if arr == "complex" else (15, 15) if gap > 0.3 else (11, 11)
        out.append({"kind": "Same", "A": motion.samples(g, lams), "B": motion.samples(f, [v + lam0 for v in lams]), "shift": False, "n": n, "nr": nr})
        # and the trajectory function and the object again, exactly
        out.append({"kind": "Same", "A": motion.samples(plunging_trajectory(a, E, L, Q, ph), lams), "B": motion.samples(o.trajectory(), lams),
                    "shift": False, "n": 38, "nr": 38})
    return out


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    good = sorted(s for s, ev in groups.items() if s.startswith("far") and len(ev) > 1)
    back = sorted(s for s, ev in groups.items() if s.startswith("back") and len(ev) > 1)

    def alter(name, clause, change):
        for sid in rng.sample(good, min(20, len(good))):
            ev = [dict(e) for e in groups[sid][:2]]
            s = [list(x) for x in ev[1]["s"]]
            change(s)
            ev[1]["s"] = s
            yield name, ev, clause

    def ramp(idx, d):
        def g(s):
            for k in range(len(s)):
                s[k][idx] = bf(unbf(s[k][idx]) + d * (k - 6))
        return g
    yield from alter("time", "TimeEquation", ramp(0, 1e-2))
    yield from alter("radius", "RadialEquation", ramp(1, 1e-3))
    yield from alter("z", "PolarEquation", ramp(3, 1e-4))
    yield from alter("azimuth", "AzimuthEquation", ramp(7, 1e-2))
    yield from alter("range", "RadialRange", lambda s: s[0].__setitem__(1, bf(1e4)))
    for sid in rng.sample(back, min(20, len(back))):
        ev = [dict(e) for e in groups[sid][:2]]
        s = [list(x) for x in ev[1]["A"]]
        s[2][1] = bf(unbf(s[2][1]) + 0.01)
        ev[1]["A"] = s
        yield "back", ev, "Radius"
    lat = [s for s in good if any(e["kind"] == "Lattice" for e in groups[s])]
    for name, clause, corner, idx, d in (("later jump", "Azimuth", "D", 5, 1e-2), ("later time", "Time", "B", 0, 1e3),
                                         ("later radius", "Radius", "B", 1, 1.0), ("later theta", "Theta", "C", 3, 1e-4)):
        for sid in rng.sample(lat, min(20, len(lat))):
            ev = [dict(groups[sid][0]), dict(next(e for e in groups[sid] if e["kind"] == "Lattice"))]
            ev[1][corner] = list(ev[1][corner])
            ev[1][corner][idx] = bf(unbf(ev[1][corner][idx]) + d)
            yield name, ev, clause
