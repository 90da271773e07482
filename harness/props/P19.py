"""P19: the tabulated separatrix."""
import random
import numpy as np
import params
from bf import bf, unbf
from core import Unexpected
import kerrgeopy as kg
from kerrgeopy.constants import fast_separatrix

MODELS = ["Grid"]
TRACE = "TraceGrid"
ASSUMPTIONS = ["0 <= a <= 1 - 1e-5; error bounds are calibrated: they tell a cubic interpolation of the separatrix from a coarser or wrong one"]


def scenarios(ctx):
    out = []
    for rep in range(25 if ctx.thorough else 3):
        for i, q in enumerate(ctx.models["Grid"]):
            out.append({"sid": "t-%d-%d" % (rep, i), "q": q, "seed": ctx.rng(rep, i).randrange(10 ** 9), "cls": ["spin=" + q["spin"], "chain=" + "-".join(q["chain"]), "call=" + q["call"]],
                        "timeout": 200})
    for i in range(16 if ctx.thorough else 8):
        rng = ctx.rng("default", i)
        out.append({"sid": "default-%d" % i, "q": {"spin": rng.choice(["small", "mid", "high", "extreme"]), "chain": ["default"], "call": rng.choice(["scalar", "points"])},
                    "seed": rng.randrange(10 ** 9), "cls": ["chain=default"], "timeout": 300})
    return out


def value(v, shape=(1, 1)):
    if np.shape(v) != shape:
        raise Unexpected("shape %s" % (np.shape(v),))
    return [float(w) for w in np.ravel(v)]


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    q = scn["q"]
    a = params.SPIN[q["spin"]](rng)
    if q["spin"] == "zero":
        a = rng.choice([0, 0.0])
    pts = [(rng.random(), rng.uniform(-1, 1)) for _ in range(60)]
    pts += [(rng.choice([0, 1, rng.random()]), rng.choice([-1, 1, rng.uniform(-1, 1)])) for _ in range(8)]
    # where the separatrix bends most
    pts += [(rng.random(), 1 - 10 ** rng.uniform(-4, -0.5)) for _ in range(12)]
    exact = [float(kg.separatrix(a, e, x)) for e, x in pts]
    ev = []
    for n, c in enumerate(q["chain"]):
        if c == "default":
            h, f = 0.01, fast_separatrix(a)
        else:
            h = 1 / int(c) if c != "odd" else rng.uniform(0.06, 0.24)
            f = fast_separatrix(a, h) if rng.random() < 0.5 else fast_separatrix(a, grid_spacing=h)
        ne, nx = int(1 / h), int(2 / h)
        ev.append({"kind": "Table", "a": bf(float(a)), "h": bf(h), "fresh": n == 0})
        es, xs = np.linspace(0, 1, ne), np.linspace(-1, 1, nx)
        ids = [(0, 0), (0, nx - 1), (ne - 1, 0), (ne - 1, nx - 1)] + [(rng.randrange(ne), rng.randrange(nx)) for _ in range(20)]
        ev.append({"kind": "Nodes", "ne": ne, "nx": nx, "i": [i for i, j in ids], "j": [j for i, j in ids], "e": [bf(float(es[i])) for i, j in ids],
                   "x": [bf(float(xs[j])) for i, j in ids], "f": [bf(value(f(es[i], xs[j]))[0]) for i, j in ids],
                   "s": [bf(float(kg.separatrix(a, es[i], xs[j]))) for i, j in ids]})
        got = [value(f(e, x))[0] for e, x in pts]
        if q["call"] == "scalar":
            alt = got
        elif q["call"] == "points":
            e, x = np.array(pts).T
            alt = value(f(e, x, grid=False), (len(pts),)) if rng.random() < 0.5 else value(f.ev(e, x), (len(pts),))
        else:
            # rows and columns of a grid, in increasing order
            e, x = sorted(set(p[0] for p in pts)), sorted(set(p[1] for p in pts))
            t = f(e, x)
            if t.shape != (len(e), len(x)):
                raise Unexpected("shape %s" % (t.shape,))
            alt = [float(t[e.index(u), x.index(w)]) for u, w in pts]
        ev.append({"kind": "Between", "e": [bf(float(p[0])) for p in pts], "x": [bf(float(p[1])) for p in pts], "f": [bf(w) for w in got], "g": [bf(w) for w in alt],
                   "s": [bf(w) for w in exact]})
        ev.append({"kind": "Close"})
    return ev


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    sids = [s for s in sorted(groups) if len(groups[s]) > 4]
    for s in rng.sample(sids, min(12, len(sids))):
        g = groups[s]
        n, b = g[1], g[2]
        k = rng.randrange(len(n["f"]))
        yield "node", [g[0], dict(n, f=n["f"][:k] + [bf(unbf(n["f"][k]) * (1 + 1e-9))] + n["f"][k + 1:])] + g[2:], "AtNodes"
        yield "grid", [g[0], dict(n, ne=n["ne"] + 1)] + g[2:], "Spaced"
        yield "shape", [g[0], n, dict(b, g=b["g"][:5] + [bf(unbf(b["g"][5]) + 1e-9)] + b["g"][6:])] + g[3:], "Alike"
        for i, e in enumerate(g):
            if e["kind"] == "Between" and i > 4 and unbf(g[0]["a"]) < 0.95:
                # as bad as a linear interpolation
                h = unbf(g[i - 2]["h"])
                yield "linear", g[:i] + [dict(e, f=[bf(unbf(w) + 0.3 * h * h) for w in e["f"]], g=[bf(unbf(w) + 0.3 * h * h) for w in e["f"]])] + g[i + 1:], "Close"
            if e["kind"] == "Close" and i > 4:
                yield "noimprovement", g[:i - 1] + [dict(b, f=[bf(unbf(w) * 1.01) for w in b["f"]])] + g[i:], None
