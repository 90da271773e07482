"""P02: the separatrix."""
import params
from bf import bf, unbf
import kerrgeopy as kg
from kerrgeopy.spacetime import KerrSpacetime

MODELS = ["Separatrix"]
TRACE = "TraceSeparatrix"
ASSUMPTIONS = ["0 <= a <= 1 - 1e-5, e <= 1 - 1e-9 or 1, verdicts probed at relative distances down to 1e-6 from the boundary"]


def scenarios(ctx):
    reps = 150 if ctx.thorough else 14
    out = []
    for k in range(reps):
        for i, q in enumerate(ctx.models["Separatrix"]):
            rng = ctx.rng(k, i)
            a = params.SPIN[q["spin"]](rng)
            e = params.ECC[q["ecc"]](rng)
            if q["ecc"] == "near1" and rng.random() < 0.5:
                e = 1 - 10 ** rng.uniform(-9, -2)
            walk = []
            for c in q["walk"]:
                x = params.INCL[c](rng)
                ref = params.ref_separatrix(a, e, x)
                ps = []
                for o in q["offsets"]:
                    if o == "in":
                        p = ref * rng.uniform(0.2, 0.97)
                    elif o == "out":
                        p = ref * 10 ** rng.uniform(0, 2)
                    elif o == "at":
                        p = None
                    else:
                        p = ref * (1 + (1 if o[0] == "+" else -1) * 10.0 ** -(int(o[1]) + rng.uniform(-0.3, 0.3)))
                    ps.append([o, p])
                walk.append([x, ps])
            out.append({"sid": "s%d-%d" % (k, i), "a": a, "e": e, "walk": walk,
                        "cls": ["spin=" + q["spin"], "ecc=" + q["ecc"]]})
    return out


def run(scn, ctx):
    a, e = scn["a"], scn["e"]
    ev = [{"kind": "Begin", "a": bf(a), "e": bf(e)}]
    sp = KerrSpacetime(a)
    for x, ps in scn["walk"]:
        s = kg.separatrix(a, e, x)
        s2 = sp.separatrix(e, x)
        ev.append({"kind": "Sep", "x": bf(x), "ps": bf(s), "ps2": bf(s2), "stab": bool(kg.is_stable(a, s, e, x)),
                   "stab2": bool(sp.is_stable(s, e, x))})
        for o, p in ps:
            p = float(s) if p is None else p
            w = params.witness(a, p, e, x)
            c = w or (0, 0, 0)
            ev.append({"kind": "Probe", "off": o, "x": bf(x), "p": bf(p), "has": w is not None,
                       "E": bf(c[0]), "L": bf(c[1]), "Q": bf(c[2]),
                       "stable": bool(kg.is_stable(a, p, e, x)), "stable2": bool(sp.is_stable(p, e, x))})
    return ev


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    good = sorted(groups)

    def alter(name, clause, pick, change):
        for sid in rng.sample(good, min(8, len(good))):
            ev = [dict(e) for e in groups[sid]]
            c = [e for e in ev if pick(e)]
            if c:
                change(rng.choice(c))
                yield name, ev, clause

    def scale(f, d):
        def g(e):
            e[f] = bf(unbf(e[f]) * (1 + d))
        return g

    def flip(*fs):
        def g(e):
            for f in fs:
                e[f] = not e[f]
        return g
    P = lambda o: lambda e: e["kind"] == "Probe" and e["off"] in o
    S = lambda e: e["kind"] == "Sep"
    yield from alter("sep-off", "SameThroughSpacetime", S, scale("ps2", 1e-9))
    yield from alter("sep-high", "Boundary", S, scale("ps", 1e-3))
    yield from alter("wrong-stable", "Physical", P(("-4", "-2", "in")), flip("stable", "stable2"))
    yield from alter("wrong-unstable", "Physical", P(("+6", "+4")), flip("stable", "stable2"))
    yield from alter("not-double", "DoubleRoot", P(("at",)), scale("p", 1e-5))
    yield from alter("order", "Monotone", S, scale("ps", 0.2))
