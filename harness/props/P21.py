"""P21: roots of the potentials."""
import math
import random
import params
import plunges
from bf import bf, unbf
from core import Unexpected
import kerrgeopy as kg
from kerrgeopy import constants as kc

MODELS = ["Polar", ("ParamSpace", "ParamSpace_orbit"), "Plunge"]
TRACE = "TraceRoots"
ASSUMPTIONS = ["e <= 1 - 1e-8, |a| <= 1 - 1e-5, stable_polar_roots for x != 0", "the larger polar root is not asked for without spin", "0.3 < E < 1"]


def scenarios(ctx):
    out = []
    n = 20000 if ctx.thorough else 2500
    for i, q in enumerate(params.cover(ctx.models["ParamSpace_orbit"], n, ctx.rng("s"))):
        out.append({"sid": "stable-%d" % i, "kind": "stable", "q": q, "seed": ctx.rng("s", i).randrange(10 ** 9), "cls": params.labels(q)})
    for rep in range(60 if ctx.thorough else 8):
        for i, q in enumerate(ctx.models["Polar"]):
            out.append({"sid": "polar-%d-%d" % (rep, i), "kind": "polar", "q": q, "seed": ctx.rng("p", rep, i).randrange(10 ** 9), "cls": params.labels(q, sorted(q))})
    n = 6000 if ctx.thorough else 700
    for i, q in enumerate(params.cover(ctx.models["Plunge"], n, ctx.rng("d"))):
        out.append({"sid": "plunge-%d" % i, "kind": "plunge", "q": q, "seed": ctx.rng("d", i).randrange(10 ** 9), "cls": params.labels(q, sorted(q))})
    return out


def numbers(v, n):
    v = list(v)
    if len(v) != n:
        raise Unexpected("%d roots instead of %d" % (len(v), n))
    out = []
    for w in v:
        w = complex(w)
        out.append(bf(w.real if w.imag == 0 else math.nan))
    return out


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    q = scn["q"]
    if scn["kind"] == "stable":
        a, p, e, x = params.concretise(q, rng, deep=-8)
        scn["args"] = [a, p, e, x]
        c = kg.constants_of_motion(a, p, e, x)
        s = -1 if a < 0 else 1
        ev = {k: bf(float(w)) for k, w in (("a", abs(a)), ("p", p), ("e", e), ("x", s * x), ("E", c[0]), ("L", c[1]), ("Q", c[2]))}
        out = [dict(ev, kind="Stable", r=numbers(kc.stable_radial_roots(a, p, e, x), 4), again=numbers(kc.stable_radial_roots(a, p, e, x, constants=c), 4))]
        if x != 0:
            out.append(dict(ev, kind="PolarStable", z=numbers(kc.stable_polar_roots(a, p, e, x), 2), again=numbers(kc.stable_polar_roots(a, p, e, x, constants=tuple(c)), 2)))
        a, (E, L, Q) = abs(a), c
        Q = max(Q, 0.0)
    elif scn["kind"] == "plunge":
        w = plunges.concretise(q, rng)
        if w is None:
            return []
        a, E, L, Q = w[:4]
        out = []
    else:
        out = []
        a = {"zero": 0.0, "tiny": 10 ** rng.uniform(-9, -3), "mid": rng.uniform(0.05, 0.9), "high": 1 - 10 ** rng.uniform(-5, -1), "negative": -rng.uniform(1e-3, 1 - 1e-5)}[q["spin"]]
        E = {"low": rng.uniform(0.3, 0.7), "mid": rng.uniform(0.7, 0.99), "near1": 1 - 10 ** rng.uniform(-7, -2)}[q["energy"]]
        L = {"zero": 0.0, "small": rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -1), "generic": rng.uniform(0.1, 6), "retro": -rng.uniform(0.1, 6)}[q["mom"]]
        Q = {"zero": 0.0, "tiny": 10 ** rng.uniform(-10, -2), "generic": rng.uniform(0.01, 5), "large": 10 ** rng.uniform(0.7, 3)}[q["carter"]]
    scn.setdefault("args", [a, E, L, Q])
    out.append({"kind": "Polar", "a": bf(a), "E": bf(float(E)), "L": bf(float(L)), "Q": bf(float(Q)), "z": numbers(kc.polar_roots_from_constants(a, E, L, Q), 2)})
    return out


def canaries(groups, ctx):
    rng = ctx.rng("canary")

    def bump(t, d):
        return bf(unbf(t) * (1 + d) + d)

    def pick(kind, n=8):
        s = sorted((sid, i) for sid, ev in groups.items() for i, e in enumerate(ev) if e["kind"] == kind)
        return [groups[sid][i] for sid, i in rng.sample(s, min(n, len(s)))]
    for e in pick("Stable", 12):
        for j, cl in ((0, "Outer"), (1, "Inner"), (2, "Sum"), (3, "Product")):
            yield "r%d" % j, [dict(e, r=[bump(w, 1e-5) if i == j else w for i, w in enumerate(e["r"])])], cl
        yield "order", [dict(e, r=[e["r"][k] for k in (0, 1, 3, 2)])], "Order"
        yield "again", [dict(e, again=[bump(w, 1e-5) for w in e["again"]])], "Again"
        yield "pairs", [dict(e, L=bump(e["L"], 1e-2))], "Pairs"
        yield "triples", [dict(e, L=bump(e["L"], 1e-2))], "Triples"
    for e in pick("PolarStable"):
        yield "inclination", [dict(e, z=[bump(e["z"][0], 1e-5), e["z"][1]])], "Inclination"
        yield "lower", [dict(e, again=[bump(e["z"][0], 1e-5), e["z"][1]])], "Lower"
        yield "upper", [dict(e, again=[e["z"][0], bump(e["z"][1], 1e-5)])], "Upper"
    for e in pick("Polar", 30):
        yield "z0", [dict(e, z=[bump(e["z"][0], 1e-5), e["z"][1]])], "Lower"
        yield "z1", [dict(e, z=[e["z"][0], bump(e["z"][1], 1e-5)])], "Upper"
        yield "vieta", [dict(e, z=[e["z"][0], bump(e["z"][1], 1e-5)])], "Product"
        if not e["Q"][0]:
            yield "equator", [dict(e, z=[bf(1e-9), e["z"][1]])], "Equator"
