"""P18: plots and visibility."""
import math
import random
from degrees import cos_sin_deg
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
from mpl_toolkits.mplot3d.art3d import Line3DCollection, Path3DCollection, Poly3DCollection
import motion
import params
import plunges
from bf import bf, unbf
from core import Unexpected
import kerrgeopy as kg

MODELS = ["View", ("ParamSpace", "ParamSpace_orbit"), "Plunge"]
TRACE = "TraceView"
ASSUMPTIONS = ["at least two points are drawn", "points within 2^-40 of the horizon, its disc or its plane may be either"]
PI = math.pi


def scenarios(ctx):
    out = []
    pts = [q for q in ctx.models["View"] if q["what"] == "points"]
    plots = [q for q in ctx.models["View"] if q["what"] == "plot"]
    for rep in range(60 if ctx.thorough else 5):
        for i, q in enumerate(pts):
            out.append({"sid": "points-%d-%d" % (rep, i), "q": q, "seed": ctx.rng("v", rep, i).randrange(10 ** 9), "cls": params.labels(q, ["what", "spin", "place", "view", "form"])})
    for i, q in enumerate(params.cover(plots, 8000 if ctx.thorough else 400, ctx.rng("p"))):
        rng = ctx.rng("p", i)
        pools = {"plunge": ctx.models["Plunge"], "near": [w for w in ctx.models["ParamSpace_orbit"] if w["dist"] == "close" and w["spin"] in ("high", "extreme")]}
        base = [w for w in ctx.models["ParamSpace_orbit"] if w["dist"] in ("close", "mid", "far") and w["ecc"] in ("circ", "low", "mid", "high")]
        pools["circular"] = [w for w in base if w["ecc"] == "circ"]
        pools["equatorial"] = [w for w in base if w["incl"] in ("pro", "retro")]
        pools["retrograde"] = [w for w in base if w["incl"] in ("gen-", "retro")]
        par = rng.choice(pools.get(q["kind"], base))
        out.append({"sid": "plot-%d" % i, "q": q, "par": par, "seed": rng.randrange(10 ** 9), "cls": params.labels(q, ["what", "kind", "view", "phases", "span", "look"])})
    return out


def view(q, rng):
    """Elevation and azimuth in degrees."""
    return {"default": (30, -60), "pole": (rng.choice([90, 90.0, -90, 89.99]), rng.choice([0, 37.0, -90])), "below": (rng.uniform(-89, -5), rng.uniform(-180, 180)),
            "side": (rng.choice([0, 0.0, 1e-3]), rng.choice([0, 90, 180, -90, 45.0])), "wrapped": (rng.uniform(91, 350), rng.choice([-1, 1]) * rng.uniform(181, 800)),
            "any": (rng.uniform(-90, 90), rng.uniform(-180, 180))}[q["view"]]


def scene(a, el, az):
    return {"kind": "Scene", "a": bf(float(a)), "h": bf(1 + math.sqrt(1 - a * a)), "el": [bf(v) for v in cos_sin_deg(el)], "az": [bf(v) for v in cos_sin_deg(az)]}


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    return (plot if scn["q"]["what"] == "plot" else points)(scn, rng)


def direction(el, az):
    (ce, se), (ca, sa) = cos_sin_deg(el), cos_sin_deg(az)
    return np.array([ce * ca, ce * sa, se])


def flags(v, n):
    v = np.asarray(v)
    if v.shape != (n,) or v.dtype.kind != "b":
        raise Unexpected("visibility of %d points: %s of %s" % (n, v.shape, v.dtype))
    return [bool(w) for w in v]


def points(scn, rng):
    q = scn["q"]
    a = {"zero": 0.0, "tiny": 10 ** rng.uniform(-6, -3), "mid": rng.uniform(0.1, 0.9), "high": 1 - 10 ** rng.uniform(-4, -1.5),
         "negative": -rng.uniform(0.1, 0.99)}[q["spin"]]
    o = kg.StableOrbit(a, 12.0, 0.1, 0.5)
    el, az = view(q, rng)
    n = direction(el, az)
    h = 1 + math.sqrt(1 - a * a)
    ps = []
    for _ in range(rng.choice([1, 2, 12, 12])):
        v = np.array([rng.gauss(0, 1) for _ in range(3)])
        side = v - n * v.dot(n)
        side /= np.linalg.norm(side)
        place = q["place"] if q["place"] != "mixed" else rng.choice(["shell", "behind", "edge", "front", "far"])
        near = 1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -0.5)
        if place == "shell":
            p = v / np.linalg.norm(v) * h * near
        elif place == "behind":
            p = side * h * rng.uniform(0, 1.6) - n * h * (rng.uniform(0.01, 4) if rng.random() < 0.7 else 10 ** rng.uniform(0, 6))
        elif place == "edge":
            p = side * h * near + n * h * rng.choice([-1, -1, 1]) * 10 ** rng.uniform(-4, 1)
        elif place == "front":
            p = side * h * rng.uniform(0, 1.6) + n * h * rng.uniform(0.01, 4)
        else:
            p = v * 10 ** rng.uniform(0, 8 if rng.random() < 0.3 else 3)
        ps.append([float(w) for w in p])
    order = list(range(len(ps)))
    rng.shuffle(order)
    put = (lambda v: [list(w) for w in v]) if q["form"] == "list" else np.array
    got = flags(o.is_visible(put(ps), el, az), len(ps))
    sh = flags(o.is_visible(put([ps[k] for k in order]), el, az), len(ps))
    back = [None] * len(ps)
    for i, k in enumerate(order):
        back[k] = sh[i]
    alone = [flags(o.is_visible(put([p]), el, az), 1)[0] for p in ps]
    return [scene(a, el, az), {"kind": "Points", "p": [[bf(w) for w in p] for p in ps], "set": got, "alone": alone, "shuffled": back}]


def make(scn, rng):
    """An orbit of the asked kind, or None."""
    q, kind = scn["par"], scn["q"]["kind"]
    own = [rng.uniform(-5, 5), rng.uniform(0, 2 * PI), rng.uniform(0, 2 * PI), rng.uniform(-4, 4)]
    if kind == "plunge":
        w = plunges.concretise(q, rng)
        if w is None or abs(w[0]) < 1e-3:
            return None
        return kg.PlungingOrbit(*w[:4], tuple(own))
    a, p, e, x = params.concretise(q, rng)
    if p > 200:
        return None
    o = kg.StableOrbit(a, p, e, x, tuple(own))
    if kind == "orbit":
        if e < 2e-3 or abs(x) < 0.1 or q["dist"] == "close":
            return None
        o = kg.Orbit(o.a, o.initial_position, o.initial_velocity)
    return o


def span(q, o, rng, n):
    """Interval and density of about n points."""
    per = 2 * PI / o.upsilon_r
    width = per * rng.choice([0.3, 1, 2.5])
    l0 = {"origin": 0, "negative": -width * rng.uniform(0.2, 3), "late": per * rng.uniform(3, 30)}[q["span"]]
    if rng.random() < 0.3:
        # whole numbers
        l0, width = int(l0), max(1, int(width))
    return l0, l0 + width, n / width


def against(o, l0, l1, n, rng):
    """The direction from which an extreme point of the orbit is right behind the hole."""
    t, r, th, ph = (np.atleast_1d(f(np.linspace(l0, l1, max(2, n)))) for f in o.trajectory())
    x = [r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)][rng.choice([0, 1, 2, 2])] * rng.choice([-1, 1])
    k = int(np.argmax(x))
    return float(np.degrees(th[k])) - 90 + rng.uniform(-1, 1), float(np.degrees(ph[k])) + 180 + rng.uniform(-1, 1)


def plot(scn, rng):
    q = scn["q"]
    o = make(scn, rng)
    if o is None:
        return []
    l0, l1, density = span(q, o, rng, rng.choice([2.5, 30, 60, 120]))
    el, az = view(q, rng) if q["view"] != "against" else against(o, l0, l1, int((l1 - l0) * density), rng)
    if rng.random() < 0.3:
        density = max(1, int(density))
        while int((l1 - l0) * density) < 2:
            density += 1
    kw = {"elevation": el, "azimuth": az}
    if q["view"] == "default" and rng.random() < 0.7:
        kw = {}
    kw["point_density"] = density
    ph = tuple(o.initial_phases)
    if q["phases"] == "given":
        ph = (rng.uniform(-5, 5), rng.uniform(0, 2 * PI), rng.uniform(0, 2 * PI), rng.uniform(-4, 4))
        kw["initial_phases"] = ph
    tau, color, lw, bare = None, "red", 1, False
    if q["look"] == "fading":
        tau, lw = rng.uniform(0.1, 3) * (l1 - l0), rng.choice([1, 2, 0.7])
        kw.update(tau=tau, lw=lw)
    elif q["look"] == "bare":
        bare, color = True, rng.choice(["blue", "#337733"])
        kw.update(grid=False, axes=False, color=color)
    try:
        fig, ax = o.plot(l0, l1, **kw) if rng.random() < 0.5 else o.plot(lambda0=l0, lambda1=l1, **kw)
        lines = [c for c in ax.get_children() if isinstance(c, Line3DCollection)]
        body = [c for c in ax.get_children() if isinstance(c, Path3DCollection)]
        ball = [c for c in ax.get_children() if isinstance(c, Poly3DCollection)]
        if not (len(lines) == 1 and len(ball) == 1 and len(body) == 1):
            raise Unexpected("artists: %d %d %d" % (len(lines), len(body), len(ball)))
        seg = np.asarray(lines[0]._segments3d, dtype=float)
        if seg.ndim != 3 or seg.shape[1:] != (2, 3):
            raise Unexpected("segments %s" % (seg.shape,))
        if not np.array_equal(seg[1:, 0], seg[:-1, 1], equal_nan=True):
            raise Unexpected("segments are not connected")
        v = np.concatenate([seg[:1, 0], seg[:, 1]])
        b = [[float(w) for w in p] for p in zip(*body[0]._offsets3d)]
        surf = np.asarray(ball[0]._faces, dtype=float).reshape(-1, 3)
        keep = list(range(0, len(surf), max(1, len(surf) // 150)))
        lim = [ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()]
        widths = [float(w) for w in lines[0].get_linewidths()]
        look = (all(abs(x - y) < 1e-9 for x, y in zip(lines[0].get_colors()[0][:3], to_rgba(color)[:3])) and bool(ax._axis3don) is (not bare)
                and bool(ax._draw_grid) is (not bare) and fig is ax.figure)
        rest = {"elev": bf(float(ax.elev)), "azim": bf(float(ax.azim)), "ortho": bool(ax._focal_length == np.inf), "aspect": equal_scale(ax)}
        if rng.random() < 0.1:
            fig.canvas.draw()
    finally:
        plt.close("all")
    N = len(v)
    lam = [float(w) for w in np.linspace(l0, l1, N)]
    c = motion.coords(o.trajectory(ph), lam)
    ev = [scene(o.a, el, az)]
    shown, cs, vis = [], [], list(b)
    for k in range(N):
        r, th, phi = (f[k] for f in c[1:])
        cs.append([bf(w) for w in (r, math.sin(th), math.cos(th), math.sin(phi), math.cos(phi))])
        vis.append((r * math.sin(th) * math.cos(phi), r * math.sin(th) * math.sin(phi), r * math.cos(th)))
        shown.append([] if any(math.isnan(w) for w in v[k]) else [float(w) for w in v[k]])
    for i in range(0, N, 40):
        ev.append({"kind": "Place", "first": i, "total": N, "l0": bf(float(l0)), "l1": bf(float(l1)), "lam": [bf(w) for w in lam[i:i + 40]],
                   "v": [[bf(w) for w in p] for p in shown[i:i + 40]], "c": cs[i:i + 40]})
    ev.append({"kind": "Draw", "total": N, "l0": bf(float(l0)), "l1": bf(float(l1)), "density": bf(float(density)), "body": [[bf(w) for w in p] for p in b],
               "ball": [[bf(float(w)) for w in surf[k]] for k in keep], **rest, "elevation": bf(float(el)), "azimuth": bf(float(az)),
               "lim": [[bf(float(w)) for w in p] for p in lim], "low": [bf(min(p[i] for p in vis)) for i in range(3)], "high": [bf(max(p[i] for p in vis)) for i in range(3)],
               "width": [bf(w) for w in widths], "tau": bf(tau or 0.0), "lw": bf(float(lw)), "g": bf(math.exp(-(l1 - l0) / (N - 1) / tau) if tau else 1.0), "look": bool(look)})
    return ev


def equal_scale(ax):
    """Is a unit of length as long along each axis?"""
    box = np.asarray(ax._box_aspect, dtype=float)
    lim = np.array([np.ptp(f()) for f in (ax.get_xlim3d, ax.get_ylim3d, ax.get_zlim3d)])
    s = box / lim
    return bool(np.ptp(s) < 1e-6 * s.max())


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    pts = [s for s in sorted(groups) if s.startswith("points") and len(groups[s]) > 1]
    for s in rng.sample(pts, min(60, len(pts))):
        sc, e = groups[s]
        k = rng.randrange(len(e["p"]))
        w = list(e["set"])
        w[k] = not w[k]
        yield "visible", [sc, dict(e, set=w, alone=w, shuffled=w)], "Visible"
        yield "alone", [sc, dict(e, alone=w)], "Alone"
        yield "horizon", [dict(sc, h=bf(unbf(sc["h"]) + 0.01)), e], "Horizon"
    plots = [s for s in sorted(groups) if s.startswith("plot") and len(groups[s]) > 2]
    for s in rng.sample(plots, min(12, len(plots))):
        g = groups[s]
        i = rng.randrange(1, len(g) - 1)
        e, d = g[i], g[-1]
        yield "missing", g[:i] + g[i + 1:], None
        yield "moments", g[:i] + [dict(e, lam=[bf(unbf(w) + 1e-3) for w in e["lam"]])] + g[i + 1:], "Moments"
        k = rng.randrange(len(e["v"]))
        w = list(e["v"])
        w[k] = [bf(1.0)] * 3 if not w[k] else []
        yield "hidden", g[:i] + [dict(e, v=w)] + g[i + 1:], "Hidden"
        if e["v"][k]:
            w[k] = [bf(unbf(u) * 1.001) for u in e["v"][k]]
            yield "position", g[:i] + [dict(e, v=w)] + g[i + 1:], "Position"
        yield "density", g[:-1] + [dict(d, density=bf(unbf(d["density"]) * 2))], "Density"
        yield "final", g[:-1] + [dict(d, body=[[bf(unbf(u) * 1.01) for u in d["body"][0]]])], "Final"
        yield "ball", g[:-1] + [dict(d, ball=[[bf(unbf(u) * 1.01) for u in p] for p in d["ball"]])], "Ball"
        yield "camera", g[:-1] + [dict(d, azim=bf(unbf(d["azim"]) + 1))], "Camera"
        yield "limits", g[:-1] + [dict(d, lim=[[bf(unbf(u) * 0.5) for u in p] for p in d["lim"]])], "Limits"
        yield "fading", g[:-1] + [dict(d, width=d["width"][::-1] + [bf(0.0)])], "Fading"
        if not d["tau"][0]:
            yield "decay", g[:-1] + [dict(d, width=d["width"] + [bf(1.9)])], "Decay"
        yield "width", g[:-1] + [dict(d, width=[bf(unbf(w) * 0.5) for w in d["width"]])], "Width"
        if d["tau"][0]:
            yield "law", g[:-1] + [dict(d, g=bf(unbf(d["g"]) * 0.9))], "Law"
        yield "look", g[:-1] + [dict(d, look=False)], "Look"
