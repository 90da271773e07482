"""P05: frequencies are the periods and averages."""
import math
import params
import averages
from bf import bf, unbf
import kerrgeopy as kg
from kerrgeopy.frequencies import gamma

MODELS = [("ParamSpace", "ParamSpace_motion")]
TRACE = "TraceFrequencies"
ASSUMPTIONS = ["e <= 1 - 1e-4, |a| <= 1 - 1e-5, |x| >= 1e-4 for inclined orbits, p between 1.0005 and 300 times the separatrix value",
               "trapezoidal sums with up to 2048 steps, converged to 1e-12 (orbits that need more are skipped)"]


def cost(ev):
    return 1 + sum(len(e.get("cr", ())) + len(e.get("cz", ())) for e in ev)


def scenarios(ctx):
    pts = ctx.models["ParamSpace_motion"]
    out = []
    reps = 8 if ctx.thorough else 1
    for k in range(reps):
        qs = pts if ctx.thorough else params.cover(pts, 2000, ctx.rng("cover", k))
        for i, q in enumerate(qs):
            rng = ctx.rng(k, i)
            a, p, e, x = params.concretise(q, rng, rng.uniform(5e-4, 5e-3) if q["dist"] == "sep" else None, deep=-4)
            out.append({"sid": "f%d-%d" % (k, i), "q": q, "args": [a, p, e, x], "cls": params.labels(q)})
    return out


def digits(a, p, e, x):
    n = 14 if a > 1 - 1e-3 else 20 if a > 0.99 else 26 if a > 0.9 else 38
    # 1 - z_- = x^2 and 1 - E^2 are computed as differences from 1
    noise = (1 / (x * x) if x else 1) + p / (1 - e * e)
    return min(n, math.floor(46 - math.log2(noise)))


def run(scn, ctx):
    a, p, e, x = scn["args"]
    s = -1 if a < 0 else 1
    c = kg.constants_of_motion(a, p, e, x)
    grid = averages.stable(abs(a), p, e, s * x, *c)
    if grid is None:
        return []
    ur, ut, up, ga = kg.mino_frequencies(a, p, e, x)
    om = kg.fundamental_frequencies(a, p, e, x)
    o = kg.StableOrbit(a, p, e, x)
    r1, t1 = kg.r_frequency(a, p, e, x), kg.theta_frequency(a, p, e, x)
    r2, t2 = kg.r_frequency(a, p, e, x, c), kg.theta_frequency(a, p, e, x, c)
    ps = [kg.phi_frequency(a, p, e, x), kg.phi_frequency(a, p, e, x, c), kg.phi_frequency(a, p, e, x, c, r1),
          kg.phi_frequency(a, p, e, x, c, r1, t1), kg.phi_frequency(a, p, e, x, upsilon_theta=t1)]
    gs = [gamma(a, p, e, x), gamma(a, p, e, x, c), gamma(a, p, e, x, c, r1), gamma(a, p, e, x, c, r1, t1),
          gamma(a, p, e, x, upsilon_r=r1)]
    m, f = o.mino_frequencies(), o.fundamental_frequencies()
    ev = {"kind": "Stable", "n": digits(abs(a), p, e, x), "a": bf(abs(a)), "p": bf(p), "e": bf(e), "x": bf(s * x)}
    for k, v in zip(("E", "L", "Q", "ur", "ut", "up", "ga", "or", "ot", "op"), tuple(c) + (ur, ut, up, ga) + tuple(om)):
        ev[k] = bf(v)
    for k, v in (("urs", [r1, r2, o.upsilon_r, m[0]]), ("uts", [t1, t2, o.upsilon_theta, m[1]]),
                 ("ups", ps + [o.upsilon_phi, m[2]]), ("gas", gs + [o.gamma, m[3]]),
                 ("ors", [o.omega_r, f[0]]), ("ots", [o.omega_theta, f[1]]), ("ops", [o.omega_phi, f[2]]),
                 ("signed", [t1, t2])):
        ev[k] = [bf(y) for y in v]
    ev.update(grid)
    return [ev]


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    good = sorted(s for s, ev in groups.items() if ev and ev[0]["kind"] == "Stable" and ev[0]["n"] == 26)

    def alter(name, clause, key, f):
        for sid in rng.sample(good, min(4, len(good))):
            e = dict(groups[sid][0])
            v = e[key]
            e[key] = f(v)
            yield name, [e], clause

    def rel(d):
        return lambda v: bf(unbf(v) * (1 + d))
    yield from alter("ur", "RadialPeriod", "ur", rel(1e-6))
    yield from alter("ut", "PolarPeriod", "ut", rel(1e-6))
    yield from alter("up", "AzimuthAverage", "up", rel(1e-5))
    yield from alter("ga", "TimeAverage", "ga", rel(1e-6))
    yield from alter("op", "CoordinateTime", "op", rel(1e-9))
    yield from alter("gas", "SameTime", "gas", lambda v: v[:2] + [rel(1e-9)(v[2])] + v[3:])
    yield from alter("urs", "SameRadial", "urs", lambda v: v[:1] + [rel(1e-9)(v[1])] + v[2:])
    yield from alter("wr", "WRadial", "wr", lambda v: v[:1] + [rel(1e-9)(v[1])] + v[2:])
    yield from alter("cr", "WGrid", "cr", lambda v: v[:1] + [rel(1e-9)(v[1])] + v[2:])
