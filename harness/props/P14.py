"""P14: physical units."""
import math
import random
import numpy as np
import motion
import params
import plunges
from bf import bf, unbf
from core import Unexpected
import kerrgeopy as kg
from kerrgeopy import units
from kerrgeopy.constants import scale_constants
from kerrgeopy.plunge import plunging_trajectory
from kerrgeopy.stable import stable_trajectory

MODELS = ["Units", ("ParamSpace", "ParamSpace_orbit"), "Plunge"]
TRACE = "TraceUnits"
ASSUMPTIONS = ["values of G, the solar mass, the astronomical unit and the light-year are pinned to 2^-11, c and all powers exactly",
               "the unit of a trajectory coordinate is a known one"]

# conversion functions: quantity and unit
FUNCTIONS = {"mass_in_kg": ("mass", "mks"), "distance_in_meters": ("distance", "mks"), "distance_in_cm": ("distance", "cgs"),
             "distance_in_km": ("distance", "km"), "distance_in_lightyears": ("distance", "lightyear"), "distance_in_au": ("distance", "au"),
             "time_in_seconds": ("time", "mks"), "time2_in_seconds2": ("time2", "mks"), "time_in_days": ("time", "day"),
             "energy_in_joules": ("energy", "mks"), "energy_in_ergs": ("energy", "cgs"),
             "angular_momentum_in_mks": ("momentum", "mks"), "angular_momentum_in_cgs": ("momentum", "cgs"),
             "carter_constant_in_mks": ("carter", "mks"), "carter_constant_in_cgs": ("carter", "cgs"),
             "frequency_in_Hz": ("frequency", "mks"), "frequency_in_mHz": ("frequency", "mHz")}


def scenarios(ctx):
    out = []
    for rep in range(40 if ctx.thorough else 8):
        for f in FUNCTIONS:
            for form in ("float", "int", "array", "negative"):
                out.append({"sid": "f-%s-%s-%d" % (f, form, rep), "kind": "f", "f": f, "form": form, "q": {}, "seed": ctx.rng(f, form, rep).randrange(10 ** 9),
                            "cls": ["function=" + f, "form=" + form]})
        out.append({"sid": "s-%d" % rep, "kind": "s", "q": {}, "seed": ctx.rng("s", rep).randrange(10 ** 9), "cls": ["function=scale_constants"]})
    pts = ctx.models["ParamSpace_orbit"]
    pls = ctx.models["Plunge"]
    for rep in range(20 if ctx.thorough else 10):
        for i, q in enumerate(ctx.models["Units"]):
            rng = ctx.rng("r", rep, i)
            out.append({"sid": "r-%d-%d" % (rep, i), "kind": "r", "q": q, "par": rng.choice(pls if q["who"].endswith("plunge") else pts),
                        "seed": rng.randrange(10 ** 9), "cls": params.labels(q, ["who", "method", "unit", "tunit", "M", "mu"])})
    return out


def base():
    m = units.distance_in_meters(1.0, 1.0)
    s = units.time_in_seconds(1.0, 1.0)
    return {"kind": "Base", "kg": bf(float(units.mass_in_kg(1.0))), "m": bf(float(m)), "s": bf(float(s)),
            "au": bf(float(m / units.distance_in_au(1.0, 1.0))), "ly": bf(float(m / units.distance_in_lightyears(1.0, 1.0))),
            "day": bf(float(s / units.time_in_days(1.0, 1.0)))}


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    return [base()] + {"f": convert, "s": scale, "r": request}[scn["kind"]](scn, rng)


def mass(rng):
    return 10 ** rng.uniform(-1, 9)


def convert(scn, rng):
    f, form = getattr(units, scn["f"]), scn["form"]
    q, u = FUNCTIONS[scn["f"]]
    M = mass(rng)
    if form == "array":
        v = [rng.choice([1, -1]) * 10 ** rng.uniform(-3, 3) for _ in range(rng.randrange(1, 5))]
    elif form == "int":
        v, M = [rng.randrange(1, 2000)], rng.choice([1, 2, 10, 4300000])
    else:
        v = [10 ** rng.uniform(-6, 6) * (-1 if form == "negative" else 1)]
    if q == "mass":
        g = f(np.array(v)) if form == "array" else f(v[0])
        M = 1.0
    else:
        g = f(np.array(v), M) if form == "array" else f(v[0], M)
    if np.shape(g) != ((len(v),) if form == "array" else ()):
        raise Unexpected("shape %s" % (np.shape(g),))
    return [{"kind": "Convert", "q": q, "u": u, "v": [bf(float(w)) for w in v], "M": bf(float(M)), "got": [bf(float(w)) for w in np.ravel(g)]}]


def scale(scn, rng):
    c = (rng.uniform(0.1, 1), rng.uniform(-6, 6), rng.uniform(0, 30))
    M, mu = mass(rng), 10 ** rng.uniform(-8, 1)
    return [{"kind": "Scale", "c": [bf(v) for v in c], "M": bf(M), "mu": bf(mu), "got": [bf(motion.num(v)) for v in scale_constants(c, M, mu)]}]


def make(scn, rng):
    """(makes the orbit with masses, makes the trajectory function with M)"""
    who, q = scn["q"]["who"], scn["par"]
    ph = motion.phases({"rleg": rng.choice(["low", "up", "down", "high"]), "pleg": rng.choice(["low", "up", "down", "high"])}, rng)
    if who.endswith("plunge"):
        w = plunges.concretise(q, rng)
        if w is None:
            return None
        a, E, L, Q = w[:4]
        if who == "plunge":
            return lambda M, mu: kg.PlungingOrbit(a, E, L, Q, ph, M, mu)
        o = kg.PlungingOrbit(a, E, L, Q, ph)
        r, th = o.initial_position[1:3]
        if abs(r * r - 2 * r + a * a) < 0.05 or r * r + (a * math.cos(th)) ** 2 < 0.01:
            return None
        x, u = tuple(o.initial_position), tuple(o.initial_velocity)
        return lambda M, mu: kg.Orbit(a, x, u, M, mu)
    a, p, e, x = params.concretise(q, rng)
    if who == "stable":
        return lambda M, mu: kg.StableOrbit(a, p, e, x, ph, M, mu)
    if e < 2e-3 or q["dist"] in ("sep", "close") or abs(x) < 0.02:
        return None
    o = kg.StableOrbit(abs(a), p, e, x if a >= 0 else -x, ph)
    if who == "constants":
        return lambda M, mu: kg.StableOrbit.from_constants(o.a, o.E, o.L, o.Q, ph, M, mu)
    pos, u = tuple(o.initial_position), tuple(o.initial_velocity)
    return lambda M, mu: kg.Orbit(abs(a), pos, u, M, mu)


NAMES = {"constants": ["energy", "momentum", "carter"], "mino": ["time"] * 3 + ["time2"], "fundamental": ["frequency"] * 3,
         "trajectory": ["time", "distance", "angle", "angle"]}


def request(scn, rng):
    q = scn["q"]
    mk = make(scn, rng)
    if mk is None:
        return []
    M = mass(rng) if q["M"] else None
    mu = 10 ** rng.uniform(-6, 2) if q["mu"] else None
    m = q["method"]
    names = NAMES[m]
    o, plain = mk(M, mu), mk(None, None)
    if (o.M, o.mu) != (M, mu):
        raise Unexpected("masses are not kept")
    ev = []

    def record(got, nat, answer):
        ev.append({"kind": "Request", "method": m, "unit": q["unit"], "tunit": q["tunit"], "hasM": q["M"], "hasMu": q["mu"],
                   "M": bf(M or 1.0), "mu": bf(mu or 1.0), "q": names, "nat": [bf(motion.num(v)) for v in nat],
                   "got": [bf(motion.num(v)) for v in got], "answer": answer})
    if m == "trajectory":
        lams = [0.0, rng.uniform(-20, 20) / o.upsilon_r]
        form = rng.choice(["scalar", "array"])
        asks = [(lambda: o.trajectory(distance_units=q["unit"], time_units=q["tunit"]), plain.trajectory())]
        # the functions behind the methods
        if plain.__class__ is kg.PlungingOrbit:
            c = plain.a, plain.E, plain.L, plain.Q, plain.initial_phases
            asks.append((lambda: plunging_trajectory(*c, M, q["unit"], q["tunit"]), plunging_trajectory(*c)))
        elif plain.__class__ is kg.StableOrbit:
            c = plain.a, plain.p, plain.e, plain.x, plain.initial_phases
            asks.append((lambda: stable_trajectory(*c, M, q["unit"], q["tunit"]), stable_trajectory(*c)))
        for ask, nat in asks:
            try:
                f = ask()
            except ValueError:
                record([], [], "ValueError")
                continue
            for lam in lams:
                if form == "array":
                    got = [np.asarray(g(np.array([lam, 0.5 * lam])))[0] for g in f]
                    ref = [np.asarray(g(np.array([lam, 0.5 * lam])))[0] for g in nat]
                else:
                    got, ref = [g(lam) for g in f], [g(lam) for g in nat]
                record(got, ref, "value")
        return ev
    call = {"constants": "constants_of_motion", "mino": "mino_frequencies", "fundamental": "fundamental_frequencies"}[m]
    nat = getattr(plain, call)()
    try:
        got = getattr(o, call)(q["unit"]) if rng.random() < 0.5 else getattr(o, call)(units=q["unit"])
    except ValueError:
        record([], [], "ValueError")
        return ev
    if len(got) != len(names):
        raise Unexpected("%d values" % len(got))
    record(got, nat, "value")
    return ev


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    conv = [s for s in sorted(groups) if len(groups[s]) > 1 and groups[s][1]["kind"] == "Convert"]
    by = {}
    for s in conv:
        by.setdefault(s.split("-")[1], s)
    for f, s in by.items():
        b, e = groups[s][:2]
        yield "convert-" + f, [b, dict(e, got=[bf(unbf(v) * 1.0001) for v in e["got"]])], "Conversion"
        if f != "mass_in_kg":
            yield "mass-" + f, [b, dict(e, M=bf(unbf(e["M"]) * 1.001))], "Conversion"
    req = [s for s in sorted(groups) if len(groups[s]) > 1 and groups[s][1]["kind"] == "Request"]
    for s in rng.sample(req, min(120, len(req))):
        b, e = groups[s][:2]
        yield "answer-" + e["answer"], [b, dict(e, answer="ValueError" if e["answer"] == "value" else "value")], "Answered"
        if e["answer"] == "value":
            for k, w in enumerate(e["got"]):
                if w[0]:
                    yield "value-%s-%s" % (e["method"], e["q"][k]), [b, dict(e, got=e["got"][:k] + [bf(unbf(w) * 1.001)] + e["got"][k + 1:])], "Value"
    b, e = groups["s-0"][:2]
    for k, c in enumerate(["Energy", "Momentum", "Carter"]):
        yield "scale-" + c, [b, dict(e, got=e["got"][:k] + [bf(unbf(e["got"][k]) * 2)] + e["got"][k + 1:])], c
    for k, c in (("m", "GravitationalRadius"), ("s", "SpeedOfLight"), ("kg", "SolarMass"), ("au", "AstronomicalUnit"), ("ly", "LightYears"), ("day", "Day")):
        yield "base-" + k, [dict(b, **{k: bf(unbf(b[k]) * 1.002)})], c
