"""P03: domains of the entry points."""
import math
import random
import numpy as np
import motion
import params
import plunges
import states
from bf import bf, unbf
import kerrgeopy as kg
from kerrgeopy.constants import fast_separatrix, stable_radial_roots
from kerrgeopy.frequencies import gamma
from kerrgeopy.spacetime import KerrSpacetime
from kerrgeopy.stable import stable_trajectory

MODELS = ["Domain", ("ParamSpace", "ParamSpace_orbit"), "Plunge"]
TRACE = "TraceDomain"
ASSUMPTIONS = ["valid spins up to 1 - 1e-5 and eccentricities up to 1 - 1e-9 and 1, p finite",
               "within 2^-22 of the separatrix only agreement of the entry points is required"]
NAN, INF = math.nan, math.inf


def ulp(v, to):
    return math.nextafter(v, to)


SPIN = {"under": lambda r: r.choice([-INF, -2.0, -1.5, -1 - 1e-9, ulp(-1.0, -2)]), "-one": lambda r: r.choice([-1.0, -1]),
        "neg": lambda r: -r.choice([r.uniform(0.01, 0.99), 10 ** r.uniform(-8, -2), 1 - 10 ** r.uniform(-5, -2)]),
        "zero": lambda r: r.choice([0.0, 0, -0.0]),
        "pos": lambda r: r.choice([r.uniform(0.01, 0.99), 10 ** r.uniform(-8, -2), 1 - 10 ** r.uniform(-5, -2)]),
        "one": lambda r: r.choice([1.0, 1]), "over": lambda r: r.choice([INF, 2.0, 3, 1 + 1e-9, ulp(1.0, 2)]), "nan": lambda r: NAN}
ECC = {"neg": lambda r: -r.choice([5e-324, 1e-12, 0.3, 1, 1.0, INF]), "zero": lambda r: r.choice([0.0, 0, -0.0]),
       "mid": lambda r: r.choice([r.uniform(0.01, 0.95), 0.5, 10 ** r.uniform(-5, -2), 0.99, 1 - 10 ** r.uniform(-9, -2)]), "one": lambda r: r.choice([1.0, 1]),
       "over": lambda r: r.choice([ulp(1.0, 2), 1 + 1e-9, 1.5, 2, INF]), "nan": lambda r: NAN}
INCL = {"under": lambda r: -r.choice([ulp(1.0, 2), 1 + 1e-9, 1.5, 2, INF]), "-one": lambda r: r.choice([-1.0, -1]),
        "neg": lambda r: -r.choice([r.uniform(0.01, 0.99), 10 ** r.uniform(-3, -2), 10 ** r.uniform(-7, -3), 1 - 10 ** r.uniform(-9, -2)]), "zero": lambda r: r.choice([0.0, 0, -0.0]),
        "pos": lambda r: r.choice([r.uniform(0.01, 0.99), 10 ** r.uniform(-3, -2), 10 ** r.uniform(-7, -3), 1 - 10 ** r.uniform(-9, -2)]), "one": lambda r: r.choice([1.0, 1]),
        "over": lambda r: r.choice([ulp(1.0, 2), 1 + 1e-9, 1.5, 2, INF]), "nan": lambda r: NAN}
ENERGY = {"under": lambda r: -r.choice([1.2, INF, ulp(1.0, 2)]), "-one": lambda r: r.choice([-1.0, -1]), "bound": lambda r: None,
          "one": lambda r: r.choice([1.0, 1]), "over": lambda r: r.choice([1.2, INF, ulp(1.0, 2), 1 + 1e-9]), "nan": lambda r: NAN}
INVALID = {"a": ("under", "-one", "one", "over", "nan"), "e": ("neg", "over", "nan"), "x": ("under", "over", "nan")}


def scenarios(ctx):
    out = []
    # combinations with several invalid arguments are many; each pair of positions occurs
    pts = ctx.models["Domain"]
    par = [q for q in pts if q["what"] == "params"]
    few = [q for q in par if sum(q[k] in INVALID[k] for k in "aex") <= 1]
    many = params.cover([q for q in par if sum(q[k] in INVALID[k] for k in "aex") > 1], 400, ctx.rng("many"), 3)
    for rep in range(25 if ctx.thorough else 3):
        for i, q in enumerate((par if rep else few + many) if ctx.thorough else few + many):
            rng = ctx.rng("d", rep, i)
            out.append({"sid": "d-%d-%d" % (rep, i), "q": q, "seed": rng.randrange(10 ** 9), "cls": params.labels(q, ["a", "e", "x", "p"])})
    for rep in range(200 if ctx.thorough else 14):
        for i, q in enumerate(q for q in pts if q["what"] != "params"):
            rng = ctx.rng("c", rep, i)
            out.append({"sid": "c-%d-%d" % (rep, i), "q": q, "pl": rng.choice(ctx.models["Plunge"]),
                        "or": rng.choice([w for w in ctx.models["ParamSpace_orbit"] if w["dist"] not in ("sep", "close") and w["ecc"] in ("low", "mid")
                                          and w["incl"] not in ("nearpol+", "nearpol-")]),
                        "seed": rng.randrange(10 ** 9), "cls": params.labels(q, ["what", "a", "e"])})
    return out


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    return {"params": ask, "plunge": plunge, "state": orbit, "recover": orbit}[scn["q"]["what"]](scn, rng)


def outcome(f, n=None):
    """How a call ended."""
    try:
        v = f()
    except ValueError:
        return "ValueError"
    except Exception as err:      # what else it raises is for the specification to refuse
        return "raised %s" % type(err).__name__
    if n is None:
        return "true" if v is True or v is np.True_ else "false" if v is False or v is np.False_ else "returned %s" % type(v).__name__
    try:
        w = [v] if n == 0 else list(v)
        if len(w) == max(n, 1) and all(math.isfinite(motion.num(u)) for u in w):
            return "value"
        return "nonfinite" if len(w) == max(n, 1) else "returned %d" % len(w)
    except Exception:
        return "returned %s" % type(v).__name__


def along(f):
    """Values of a trajectory."""
    t = f()
    return [g(0.3) for g in t] + [g(np.array([0.0, -1.0]))[1] for g in t]


def built(f):
    o = f()
    vals = [o.E, o.L, o.Q, *o.initial_position, *o.initial_velocity]
    return vals


def ask(scn, rng):
    q = scn["q"]
    a, e, x = SPIN[q["a"]](rng), ECC[q["e"]](rng), INCL[q["x"]](rng)
    ps = ks = NAN
    if not any(q[k] in INVALID[k] for k in "aex"):
        ps = params.ref_separatrix(abs(float(a)), float(e), float(x * math.copysign(1, a)))
    at = ps if ps == ps else rng.uniform(4, 10)
    if q["p"] == "edge" and ps == ps:
        sa = abs(float(a))
        try:
            p = float(kg.separatrix(sa, e, x * math.copysign(1, a)))
        except Exception:
            p = at
        ks = p
        p = rng.choice([p, p, ulp(p, 0), ulp(p, 99), p * (1 + 1e-9), p * (1 - 1e-9), p * (1 - 1e-7), p * (1 + 1e-7)])
    else:
        p = {"neg": -rng.choice([1e-9, 1.0, at, 20, INF]), "zero": rng.choice([0.0, 0, -0.0]), "low": rng.uniform(0.01, 0.9) * at, "edge": at,
             "below": at * (1 - 10 ** rng.uniform(-6, -1)), "above": at * (1 + 10 ** rng.uniform(-4, -0.5)), "far": at * rng.uniform(1.5, 9), "nan": NAN}[q["p"]]
    kind = rng.choice(["float", "given", "numpy"])
    if kind == "float":
        a, p, e, x = map(float, (a, p, e, x))
    elif kind == "numpy":
        a, p, e, x = map(np.float64, (a, p, e, x))
    sp = lambda: KerrSpacetime(a)
    c = (0.95, 2.5, 1.5)          # passed in, looked at only if the parameters are valid
    valid = not any(q[k] in INVALID[k] for k in "aex") and q["p"] in ("above", "far")
    asks = [("boundary", "separatrix", lambda: kg.separatrix(a, e, x), 0), ("boundary", "KerrSpacetime.separatrix", lambda: sp().separatrix(e, x), 0),
            ("test", "is_stable", lambda: kg.is_stable(a, p, e, x), None), ("test", "KerrSpacetime.is_stable", lambda: sp().is_stable(p, e, x), None),
            ("constants", "energy", lambda: kg.energy(a, p, e, x), 0), ("constants", "angular_momentum", lambda: kg.angular_momentum(a, p, e, x), 0),
            ("constants", "carter_constant", lambda: kg.carter_constant(a, p, e, x), 0),
            ("constants", "constants_of_motion", lambda: kg.constants_of_motion(a, p, e, x), 3),
            ("roots", "stable_radial_roots", lambda: stable_radial_roots(a, p, e, x), 4),
            ("motion", "r_frequency", lambda: kg.r_frequency(a, p, e, x), 0), ("motion", "theta_frequency", lambda: kg.theta_frequency(a, p, e, x), 0),
            ("motion", "phi_frequency", lambda: kg.phi_frequency(a, p, e, x), 0), ("motion", "gamma", lambda: gamma(a, p, e, x), 0),
            ("motion", "mino_frequencies", lambda: kg.mino_frequencies(a, p, e, x), 4),
            ("motion", "fundamental_frequencies", lambda: kg.fundamental_frequencies(a, p, e, x), 3),
            ("motion", "stable_trajectory", lambda: along(lambda: stable_trajectory(a, p, e, x)), 8),
            ("motion", "StableOrbit", lambda: built(lambda: kg.StableOrbit(a, p, e, x)), 11)]
    if not valid:
        # with what else can be passed in, the same
        asks += [("constants", "angular_momentum E", lambda: kg.angular_momentum(a, p, e, x, c[0]), 0),
                 ("constants", "carter_constant E", lambda: kg.carter_constant(a, p, e, x, c[0]), 0),
                 ("constants", "carter_constant E L", lambda: kg.carter_constant(a, p, e, x, c[0], c[1]), 0),
                 ("motion", "r_frequency c", lambda: kg.r_frequency(a, p, e, x, c), 0), ("motion", "theta_frequency c", lambda: kg.theta_frequency(a, p, e, x, c), 0),
                 ("motion", "phi_frequency c", lambda: kg.phi_frequency(a, p, e, x, c), 0), ("motion", "gamma c", lambda: gamma(a, p, e, x, c), 0),
                 ("motion", "phi_frequency c u", lambda: kg.phi_frequency(a, p, e, x, c, 2.0, 2.5), 0), ("motion", "gamma c u", lambda: gamma(a, p, e, x, c, 2.0, 2.5), 0),
                 ("motion", "StableOrbit M", lambda: built(lambda: kg.StableOrbit(a, p, e, x, (0.1, 0.2, 0.3, 0.4), 1e6, 10)), 11)]
        if q["p"] == "edge":
            asks = asks[:-10]
    if q["x"] == "pos" and q["p"] == "far" and q["e"] == "zero":
        asks.append(("boundary", "fast_separatrix", lambda: fast_separatrix(a, 0.2)(0.5, 0.5)[0, 0], 0))
    got = []
    for f, name, call, n in asks:
        got.append({"f": f, "n": name, "o": outcome(call, n)})
    scn["args"] = [kind, a, p, e, x, float(ps)]
    return [{"kind": "Ask", "a": bf(float(a)), "p": bf(float(p)), "e": bf(float(e)), "x": bf(float(x)), "ps": bf(float(ps)), "ks": bf(float(ks)), "asks": got}]


def plunge(scn, rng):
    w = plunges.concretise(scn["pl"], rng)
    if w is None:
        return []
    q = scn["q"]
    a0, E0, L, Q = w[:4]
    a, E = SPIN[q["a"]](rng), ENERGY[q["e"]](rng)
    if E is None:
        E = E0
    valid = q["a"] in ("neg", "pos") and q["e"] == "bound"
    if valid:
        a = a0
        if rng.random() < 0.3:
            L, Q, valid = rng.choice([(L, NAN), (NAN, Q), (NAN, NAN)]) + (False,)
    scn["args"] = [a, E, L, Q]
    o = outcome(lambda: built(lambda: kg.PlungingOrbit(a, E, L, Q, rng.choice([(0, 0, 0, 0), (0.1, 1.2, 0.7, 2.0)]))), 11)
    return [{"kind": "Plunge", "a": bf(float(a)), "E": bf(float(E)), "L": bf(float(L)), "Q": bf(float(Q)), "o": o}]


def orbit(scn, rng):
    q = scn["q"]
    a0, p, e, x = params.concretise(scn["or"], rng)
    a = SPIN[q["a"]](rng)
    ok = q["a"] in ("neg", "zero", "pos")
    b = abs(a0)
    if ok:
        # a valid spin of the right class, small enough for p to be on the stable side
        a = {"neg": -1.0, "zero": 0.0, "pos": 1.0}[q["a"]] * b
        b = abs(a)
        if q["a"] == "zero":
            p = max(p, 8.5)
    x = abs(x)
    E, L, Q = params.witness(b, p, e, x)
    if q["what"] == "recover":
        s = math.copysign(1, a)
        outs = [outcome(lambda: built(lambda: kg.StableOrbit.from_constants(a, E, s * L, Q)), 11)]
    else:
        s = math.copysign(1, a)
        th, r = math.acos(math.sqrt(1 - x * x) * rng.uniform(0.2, 0.8)), p / (1 + e * rng.uniform(-0.5, 0.5))
        if ok:
            u = states.from_constants(b, E, L, Q, r, th, rng.choice([1, -1]), rng.choice([1, -1]))
            if u is None:
                return []
            u = [u[0], u[1], u[2], s * u[3]]
        else:
            # a unit state of the metric with that spin where that means something
            am, r = abs(float(a)), max(r, 2.5)
            u = states.zamo(am if am < 4 else 0.5, (0, r, th, 0), (0.05, 0.04, 0.4))
        outs = [outcome(lambda: built(lambda: kg.Orbit(a, (0.0, r, th, 0.3), tuple(u))), 11)]
    scn["args"] = [a, p, e, x]
    return [{"kind": "Orbit", "a": bf(float(a)), "o": o} for o in outs]


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    names = {"boundary": "Boundary", "test": "Test", "constants": "Constants", "roots": "Roots", "motion": "Motion"}
    swap = {"value": "ValueError", "ValueError": "value", "true": "false", "false": "true"}
    asks = [s for s in sorted(groups) if groups[s] and groups[s][0]["kind"] == "Ask" and groups[s][0]["a"][0] != 2]
    for s in rng.sample(asks, min(150, len(asks))):
        e = groups[s][0]
        p, ps = unbf(e["p"]), unbf(e["ps"])
        i = rng.randrange(len(e["asks"]))
        k = e["asks"][i]
        if k["o"] not in swap or p != p or abs(p - ps) < 1e-6 * ps or (unbf(e["a"]) < 0 and k["f"] in ("boundary", "test")):
            continue
        yield "swap-%s-%s" % (k["n"], k["o"]), [dict(e, asks=e["asks"][:i] + [dict(k, o=swap[k["o"]])] + e["asks"][i + 1:])], names[k["f"]]
        yield "odd-" + k["f"], [dict(e, asks=e["asks"][:i] + [dict(k, o="raised TypeError")] + e["asks"][i + 1:])], "NothingElse"
    edge = [s for s in asks if abs(unbf(groups[s][0]["p"]) - unbf(groups[s][0]["ps"])) < 1e-7 and unbf(groups[s][0]["a"]) > 0 and 0 < unbf(groups[s][0]["e"]) < 1
            and unbf(groups[s][0]["x"]) != 0]
    for s in edge[:3]:
        e = groups[s][0]
        for n in ("is_stable", "constants_of_motion", "StableOrbit"):
            yield "edge-" + n, [dict(e, asks=[dict(k, o=swap.get(k["o"], k["o"])) if k["n"] == n else k for k in e["asks"]])], "Alike"
    at = [s for s in edge if unbf(groups[s][0]["p"]) == unbf(groups[s][0]["ks"])]
    for s in at[:3]:
        e = groups[s][0]
        yield "at", [dict(e, asks=[dict(k, o="true" if k["f"] == "test" else k["o"] if k["f"] == "boundary" else "value") for k in e["asks"]])], "Strict"
    for kind, cl in (("Plunge", "Plunging"), ("Orbit", "Orbits")):
        for s in [s for s in sorted(groups) if groups[s] and groups[s][0]["kind"] == kind][:60]:
            e = groups[s][0]
            if e["o"] in swap:
                yield kind + "-" + e["o"], [dict(e, o=swap[e["o"]])], cl
