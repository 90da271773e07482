"""P17: trajectory deltas."""
import math
import random
import motion
import params
import plunges
from bf import bf, unbf
import kerrgeopy as kg

MODELS = [("ParamSpace", "ParamSpace_motion"), "Plunge", "Motion"]
TRACE = "TraceMotion"
ASSUMPTIONS = ["e <= 1 - 1e-4 (0.99 next to the separatrix), |a| <= 1 - 1e-5, |x| >= 1e-4 for inclined orbits; plunges with roots at least 1e-5 apart and L != 0",
               "Mino times within 10 radial periods of zero, shifts of a phase by up to 100000 full turns"]
PI = math.pi


def cost(ev):
    return 1 + 4 * len(ev)


def scenarios(ctx):
    st = ctx.models["Motion"]
    out = []
    for kind, pts, n in (("stable", ctx.models["ParamSpace_motion"], 8000 if ctx.thorough else 1400),
                         ("plunge", ctx.models["Plunge"], 5000 if ctx.thorough else 1000)):
        rng = ctx.rng("join", kind)
        merged = []
        for i in range(max(3 * n, len(pts))):
            q = dict(pts[i % len(pts)])
            q.update(rng.choice(st))
            q["src"] = rng.choice(["object", "method", "initial"])
            merged.append(q)
        for i, q in enumerate(params.cover(merged, n, ctx.rng(kind))):
            r = ctx.rng(kind, i)
            out.append({"sid": "%s-%d" % (kind, i), "kind": kind, "q": q, "seed": r.randrange(10 ** 9), "ph": motion.phases(q, r),
                        "cls": [kind] + params.labels(q, sorted(q))})
    return out


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    ph = tuple(scn["ph"])
    q = scn["q"]
    src = q["src"]
    stable = scn["kind"] == "stable"
    if stable:
        a, p, e, x = params.concretise(q, rng)
        scn["args"] = [a, p, e, x]

        def make(f):
            return kg.StableOrbit(a, p, e, x, f)
        o = make(ph)
        ev = motion.stable_orbit_event(o.a, o.p, o.e, o.x, o.E, o.L, o.Q)
        cx = False
    else:
        w = plunges.concretise(q, rng)
        if w is None:
            return []
        a, E, L, Q, arr, roots = w
        scn["args"] = [a, E, L, Q]
        cx = arr == "complex"

        def make(f):
            return kg.PlungingOrbit(a, E, L, Q, f)
        o = make(ph)
        ev = plunges.orbit_event(a, E, L, Q, arr, roots)
    if src == "initial":
        # the same machinery behind an orbit built from initial data (not where the norm of a state is mere rounding)
        if not stable:
            z = math.cos(o.initial_position[2])
            r = o.initial_position[1]
            if abs(r * r - 2 * r + a * a) < 0.05 or r * r + (a * z) ** 2 < 0.01:
                return []
        o = kg.Orbit(o.a, o.initial_position, o.initial_velocity) if not (stable and (e < 2e-3 or (q["dist"] == "sep" or (q["dist"] == "close" and abs(a) > 0.99)))) else o
    out = [ev]

    def deltas(ob, f):
        return ob.trajectory_deltas(f) if f is not None else ob.trajectory_deltas()
    per = 2 * PI / o.upsilon_r
    lams = [rng.uniform(-1, 1) * per, rng.uniform(-3, 3) * per, rng.uniform(-10, 10) * per]
    Z = deltas(o, (0, 0, 0, 0))
    own = [float(w) for w in o.initial_phases]
    for phase in ("own", "zero", "other"):
        if phase == "own":
            f = None
        elif phase == "zero":
            f = (0, 0, 0, 0)
        else:
            f = tuple(motion.phases(q, rng))
        if src == "method" or phase != "own":
            D, T = deltas(o, f), o.trajectory(f)
        else:
            D, T = deltas(o, None), o.trajectory()

        def at(qr, qt):
            if rng.random() < 0.3:
                return [bf(motion.arr(d, [w])[0]) for d, w in zip(D, (qr, qt, qr, qt))]
            return [bf(motion.num(D[0](qr))), bf(motion.num(D[1](qt))), bf(motion.num(D[2](qr))), bf(motion.num(D[3](qt)))]
        smp = []
        for lam in lams:
            qr, qt = o.upsilon_r * lam, abs(o.upsilon_theta) * lam
            k, m = rng.choice([-4, -1, 1, 3]), rng.choice([-3, -1, 1, 2])
            far = not cx and rng.random() < 0.15
            if far:
                k, m = [rng.choice([-1, 1]) * int(10 ** rng.uniform(2, 5)) for _ in "rt"]
            off = own if f is None else f
            z = [Z[0](qr + off[1]), Z[1](qt + off[2]), Z[2](qr + off[1]), Z[3](qt + off[2])]
            smp.append({"far": far, "dz": [bf(motion.num(w)) for w in z], "lam": bf(lam), "d": at(qr, qt), "dp": at(qr + 2 * PI * k, qt + 2 * PI * m), "dn": at(-qr, -qt),
                        "t": bf(motion.num(T[0](lam))), "ph": bf(motion.num(T[3](lam)))})
        if stable:
            sec, known = [bf(o.gamma), bf(o.upsilon_phi)], [True, True]
            if src == "initial" and a < 0 and o.a < 0:
                sec[1] = bf(-o.upsilon_phi)     # reported with respect to the direction of the spin
        else:
            sec, known = [bf(0), bf(0)], [False, False]
        out.append({"kind": "Deltas", "d0": at(0.0, 0.0), "t0": bf(motion.num(T[0](0.0))), "ph0": bf(motion.num(T[3](0.0))), "smp": smp,
                    "sec": sec, "known": known, "inside": cx, "periodic": not cx, "odd": phase == "zero" and not cx})
    return out


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    st = sorted(s for s, ev in groups.items() if s.startswith("stable") and len(ev) == 4 and ev[1]["kind"] == "Deltas")
    pl = sorted(s for s, ev in groups.items() if s.startswith("plunge") and len(ev) == 4 and ev[1]["kind"] == "Deltas")

    def alter(name, clause, pool, f, n=8):
        for sid in rng.sample(pool, min(n, len(pool))):
            ev = [json_copy(e) for e in groups[sid]]
            f(ev)
            yield name, ev, clause

    def bump(t, d):
        return bf(unbf(t) * (1 + d) + d)

    def smp(key, j, i=1, d=1e-5):
        def g(ev):
            v = ev[i]["smp"][1]
            if j is None:
                v[key] = bump(v[key], d)
            else:
                v[key][j] = bump(v[key][j], d)
        return g
    yield from alter("t", "Time", st, smp("t", None))
    yield from alter("phi", "Azimuth", st, smp("ph", None))
    for j in range(4):
        yield from alter("d%d" % j, "Periodic", st, smp("dp", j))
        yield from alter("o%d" % j, "Odd", st, smp("dn", j, 2))
        yield from alter("z%d" % j, "Advanced", st + pl, smp("dz", j, 3))
    real = [s for s in pl if not groups[s][1]["inside"]]
    yield from alter("lin-t", "TimeLinear", real, smp("t", None))
    yield from alter("lin-phi", "AzimuthLinear", real, smp("ph", None))
    yield from alter("inside", "NothingSecular", [s for s in pl if groups[s][1]["inside"]], smp("t", None))
    yield from alter("gamma", "Time", st, lambda ev: ev[1]["sec"].__setitem__(0, bump(ev[1]["sec"][0], 1e-6)))


def json_copy(e):
    import json
    return json.loads(json.dumps(e))
