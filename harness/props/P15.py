"""P15: metric, norm, horizons."""
import math
import numpy as np
import params
from bf import bf, unbf
from core import Unexpected
from kerrgeopy.spacetime import KerrSpacetime

MODELS = ["Spacetime"]
TRACE = "TraceSpacetime"
ASSUMPTIONS = ["points off the horizons (1e-6, relative), the static limit (1e-3) and the axis (1e-6), radii up to 1e9, negative ones down to -1e4"]


def place(q, rng):
    a = params.SPIN[q["spin"]](rng)
    th = {"axis+": lambda: 10 ** rng.uniform(-6, -1.3), "north": lambda: rng.uniform(0.1, 1.5),
          "equator": lambda: math.pi / 2, "south": lambda: rng.uniform(1.6, 3.0),
          "axis-": lambda: math.pi - 10 ** rng.uniform(-6, -1.3)}[q["angle"]]()
    c = math.cos(th)
    rp = 1 + math.sqrt(1 - a * a)
    rm = a * a / rp
    sl = 1 + math.sqrt(1 - a * a * c * c)
    sm = (a * c) ** 2 / sl
    u = rng.uniform(1e-3, 1 - 1e-3)
    k = q["radius"]
    if k == "beyond":
        r = -(10 ** rng.uniform(-3, 4))
    elif k == "core":
        r = sm * u if sm > 0 else None
    elif k == "inner":
        r = sm + (rm - sm) * u
    elif k == "between":
        r = rm + (rp - rm) * u
    elif k == "horizon+":
        r = rp * (1 + 10 ** rng.uniform(-6, -1))
    elif k == "ergo":
        r = rp + (sl - rp) * u
    elif k == "near":
        r = sl * (1 + rng.uniform(0.01, 3))
    else:
        r = 10 ** rng.uniform(1, 9)
    s = -1 if q["sign"] == "-" else 1
    return s * a, r, th


def scenarios(ctx):
    out = []
    for k in range(40 if ctx.thorough else 10):
        for i, q in enumerate(ctx.models["Spacetime"]):
            rng = ctx.rng(k, i)
            a, r, th = place(q, rng)
            if r is None or abs(r) < 1e-9:
                continue
            v = {"generic": [rng.uniform(-3, 3) for _ in range(4)], "timelike": [1, 0.1, 0.01, 0.02],
                 "basis": [float(j == rng.randrange(4)) for j in range(4)], "zero": [0, 0, 0, 0]}[q["vec"]]
            out.append({"sid": "m%d-%d" % (k, i), "a": a, "r": r, "th": th, "v": v,
                        "ph": rng.uniform(-9, 9), "t": rng.uniform(-99, 99),
                        "M": rng.choice([None, None, 1, 10.0, 10 ** rng.uniform(-3, 9)]),
                        "cls": ["spin=" + q["spin"], "radius=" + q["radius"], "angle=" + q["angle"]]})
    return out


def mat(m):
    m = np.asarray(m)
    if m.shape != (4, 4):
        raise Unexpected("metric of shape %s" % (m.shape,))
    return [[bf(m[i, j]) for j in range(4)] for i in range(4)]


def run(scn, ctx):
    a, r, th, v, ph, t = (scn[k] for k in ("a", "r", "th", "v", "ph", "t"))
    sp = KerrSpacetime(a) if scn["M"] is None else KerrSpacetime(a, scn["M"])   # geometry is in units of M
    z, s = math.cos(th), math.sin(th)
    D = r * r - 2 * r + a * a
    g = 2 * r - r * r - a * a * z * z
    v2 = [2 * x for x in v]
    return [{"kind": "Metric", "a": bf(a), "r": bf(r), "z": bf(z), "s": bf(s), "g": mat(sp.metric(t, r, th, ph)),
             "g2": mat(sp.metric(0, r, th, 1.0)), "gr": mat(KerrSpacetime(-a).metric(t, r, th, ph)),
             "v": [bf(x) for x in v], "n": bf(sp.norm(t, r, th, ph, v)),
             "n2": bf(sp.norm(t, r, th, ph, np.array(v2))),
             "dsign": int(math.copysign(1, D)), "gttsign": int(math.copysign(1, g))},
            {"kind": "Horizon", "a": bf(a), "rp": bf(sp.outer_horizon), "rm": bf(sp.inner_horizon)}]


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    good = sorted(s for s, ev in groups.items() if ev[0]["kind"] == "Metric")
    for f, clause in (((0, 0), "TT"), ((0, 3), "TPhi"), ((3, 3), "PhiPhi"), ((1, 1), "RR"), ((2, 2), "ThetaTheta"),
                      ((3, 3), "Determinant"), ("n", "NormKerr"), ("rp", "RootPlus"), ("rm", "RootMinus")):
        for sid in rng.sample(good, 10):
            ev = [dict(e) for e in groups[sid]]
            if isinstance(f, tuple):
                g = [list(row) for row in ev[0]["g"]]
                g[f[0]][f[1]] = bf(unbf(g[f[0]][f[1]]) * (1 + 1e-9))
                ev[0]["g"] = g
            else:
                e = ev[0] if f == "n" else ev[1]
                e[f] = bf(unbf(e[f]) * (1 + 1e-8) + 1e-9)
            yield "%s-%s" % (clause, f if isinstance(f, str) else "%d%d" % f), ev, clause
