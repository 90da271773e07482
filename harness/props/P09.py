"""P09: radial roots and frequencies of plunges."""
import averages
import params
import plunges
from bf import bf, unbf
from core import Unexpected
import kerrgeopy as kg
from kerrgeopy.constants import plunging_radial_roots
from kerrgeopy.frequencies import plunging_mino_frequencies

MODELS = ["Plunge"]
TRACE = "TraceFrequencies"
ASSUMPTIONS = ["roots at least 1e-5 apart, |a| between 1e-16 and 1 - 1e-5, 0.3 < E < 1",
               "trapezoidal sums with up to 2048 steps, converged to 1e-12 (orbits that need more are skipped)"]
cost = __import__("props.P05", fromlist=["cost"]).cost


def scenarios(ctx):
    pts = ctx.models["Plunge"]
    out = []
    for k in range(60 if ctx.thorough else 12):
        for i, q in enumerate(pts):
            rng = ctx.rng(k, i)
            if q["arr"] == "inner" and k % 4:
                continue
            out.append({"sid": "r%d-%d" % (k, i), "q": q, "seed": rng.randrange(10 ** 9), "k": [k, i],
                        "cls": params.labels(q, sorted(q))})
    return out


def run(scn, ctx):
    import random
    w = plunges.concretise(scn["q"], random.Random(scn["seed"]))
    if w is None:
        return []
    a, E, L, Q, arr, roots = w
    lo, hi = plunges.turning(arr, roots)
    scn["args"] = [a, E, L, Q]
    rr = plunging_radial_roots(a, E, L, Q)
    if len(rr) != 4:
        raise Unexpected("%d radial roots" % len(rr))
    base = {"a": bf(a), "E": bf(E), "L": bf(L), "Q": bf(Q), "lo": bf(lo), "hi": bf(hi), "arr": arr}
    flat = []
    for v in rr:
        v = complex(v)
        flat += [bf(v.real), bf(v.imag)]
    out = [dict(base, kind="Roots", roots=flat)]
    zz = plunges.polar_turning(a, E, L, Q)
    grid = averages.plunge(a, E, L, Q, lo, hi, zz)
    gap = min(abs(u - v) for u in roots for v in roots if u != v) if arr != "complex" else 1
    ur, ut = plunging_mino_frequencies(a, E, L, Q)
    o = kg.PlungingOrbit(a, E, L, Q)
    if grid is not None:
        ev = dict(base, kind="Plunge", n=26 if gap > 0.02 else 14, zz=bf(zz), ur=bf(ur), ut=bf(ut), urs=[bf(o.upsilon_r)], uts=[bf(o.upsilon_theta)])
        ev.update(grid)
        out.append(ev)
    return out


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    good = sorted(s for s, ev in groups.items() if len(ev) == 2)
    real = [s for s in good if groups[s][0]["arr"] != "complex"]
    cx = [s for s in good if groups[s][0]["arr"] == "complex"]

    def alter(name, clause, i, key, f, pool):
        for sid in rng.sample(pool, min(6, len(pool))):
            e = dict(groups[sid][i])
            e[key] = f(e[key])
            yield name, [e], clause

    def rel(d):
        return lambda v: bf(unbf(v) * (1 + d))

    def perm(*p):
        return lambda v: [v[2 * j + k] for j in p for k in (0, 1)]
    yield from alter("ur", "RadialPeriod", 1, "ur", rel(1e-6), good)
    yield from alter("ut", "PolarPeriod", 1, "ut", rel(1e-6), good)
    yield from alter("swap", "Decreasing", 0, "roots", perm(0, 1, 3, 2), real)
    yield from alter("pair", "TurningPoints", 0, "roots", perm(2, 3, 0, 1), real)
    yield from alter("swap12", "RealOrder", 0, "roots", perm(1, 0, 2, 3), real)
    yield from alter("root", "SumOfRoots", 0, "roots", lambda v: v[:2] + [rel(1e-5)(v[2])] + v[3:], good)
    yield from alter("conj", "Conjugate", 0, "roots", lambda v: v[:5] + [v[7]] + v[6:], cx)
    yield from alter("imag", "Real", 0, "roots", lambda v: v[:1] + [bf(1e-9)] + v[2:], good)
