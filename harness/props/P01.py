"""P01: constants of motion."""
import params
from bf import bf
import kerrgeopy as kg

MODELS = [("ParamSpace", "ParamSpace_all")]
TRACE = "TraceConstants"
ASSUMPTIONS = ["|a| <= 1 - 1e-5, inclinations 0 or |x| >= 1e-7, eccentricities 0, between 1e-14 and 1 - 1e-11, and 1, p at least 1e-5 (relative) above the separatrix and below 400"]


def scenarios(ctx):
    pts = ctx.models["ParamSpace_all"]
    n = 60000 if ctx.thorough else 3 * len(pts)
    out = []
    reps = max(1, n // len(pts))
    for k in range(reps):
        for i, q in enumerate(pts):
            rng = ctx.rng(k, i)
            if k % 3 == 2 and q["incl"].startswith("nearpol"):
                with_x = rng.choice([1, -1]) * 10 ** rng.uniform(-7, -4)
            else:
                with_x = None
            a, p, e, x = params.concretise(q, rng, x=with_x)
            out.append({"sid": "c%d-%d" % (k, i), "q": q, "args": [a, p, e, x], "cls": params.labels(q)})
    for i in range(6000 if ctx.thorough else 900):
        rng = ctx.rng("special", i)
        v = special(rng, SPECIAL[i % len(SPECIAL)])
        if v is not None:
            out.append({"sid": "%s-%d" % (SPECIAL[i % len(SPECIAL)], i), "args": v, "cls": ["special=" + SPECIAL[i % len(SPECIAL)]]})
    return out


SPECIAL = ["unbound", "circular", "photon", "ergosphere"]


def special(rng, kind):
    """Orbits where a way to compute the constants breaks down although there is nothing special about the constants."""
    prograde = kind in ("photon", "ergosphere")
    a = params.SPIN[rng.choice(["mid", "high", "extreme"] if prograde else sorted(params.SPIN))](rng)
    x = params.INCL[rng.choice(["pro", "gen+", "neareq+"] if prograde else sorted(params.INCL))](rng)
    e = params.ECC[rng.choice(["circ", "low", "mid", "high", "near1"])](rng)
    if kind == "unbound":
        e = 1 - 10 ** rng.uniform(-11, -2)
    elif kind == "circular":
        e = 10 ** rng.uniform(-14, -3)
    if kind == "photon":
        p = params.photon(a, e, x, rng)
    elif kind == "ergosphere":
        p = params.ergo(a, e, x)
    else:
        # (the separatrix is at most 2 e away from that of circular orbits)
        p = params.ref_separatrix(a, e if e > 1e-4 else 0.0, x) * (1 + 2 * e + params.DIST[rng.choice(sorted(params.DIST))](rng))
    if p is None:
        return None
    if prograde:
        p *= 1 + rng.choice([0, 1, -1]) * 10 ** rng.uniform(-16, -4)
        if not p > params.ref_separatrix(a, e, x) * (1 + 1e-6):
            return None
    s = rng.choice([1, -1]) if a else 1
    return [s * a, p, e, s * x]


def run(scn, ctx):
    a, p, e, x = scn["args"]
    E, L, Q = kg.constants_of_motion(a, p, e, x)
    s = -1 if a < 0 else 1
    E1 = kg.energy(a, p, e, x)
    L1 = kg.angular_momentum(a, p, e, x)
    Q1 = kg.carter_constant(a, p, e, x)
    L2 = kg.angular_momentum(a, p, e, x, E)
    Q2 = kg.carter_constant(a, p, e, x, E)
    Q3 = kg.carter_constant(a, p, e, x, E, L)
    ev = {"kind": "Constants", "a": bf(abs(a)), "p": bf(p), "e": bf(e), "x": bf(s * x)}
    for k, v in (("E", E), ("L", L), ("Q", Q), ("E1", E1), ("L1", L1), ("Q1", Q1), ("L2", L2), ("Q2", Q2), ("Q3", Q3)):
        ev[k] = bf(v)
    return [ev]


def canaries(groups, ctx):
    from bf import unbf
    rng = ctx.rng("canary")
    good = sorted(s for s, ev in groups.items() if ev[0]["kind"] == "Constants")
    for f, clause, d in (("E", "InnerTurningPoint", 1e-7), ("L", "OuterTurningPoint", 1e-7), ("Q", "Inclination", 1e-7),
                         ("L", "Sense", -2), ("E1", "SingleEnergy", 1e-9), ("L2", "PrecomputedMomentum", 1e-8),
                         ("Q3", "PrecomputedCarter", 1e-8)):
        for sid in rng.sample(good, min(12, len(good))):
            e = dict(groups[sid][0])
            v = unbf(e[f])
            e[f] = bf(v * (1 + d) + 0)
            yield f + clause, [e], clause
