"""P20: animations.  The writer is replaced by one that looks at the figure instead of encoding it."""
import contextlib
import io
import math
import os
import random
import re
os.environ["TQDM_DISABLE"] = "1"
import numpy as np
import matplotlib.animation
import matplotlib.backend_bases
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
from mpl_toolkits.mplot3d.art3d import Line3DCollection, Path3DCollection, Poly3DCollection
import motion
import params
from degrees import cos_sin_deg
from props import P18
from bf import bf, unbf
from core import Unexpected

MODELS = ["Movie", ("ParamSpace", "ParamSpace_orbit"), "Plunge"]
TRACE = "TraceMovie"
ASSUMPTIONS = ["240 points per unit of Mino time", "speeds are multiples of 1/8", "ffmpeg is replaced by a recorder of what it would be given"]
PI = math.pi
RATE = 240
SPEED = {"eighth": [0.125], "quarter": [0.25, 0.375], "half": [0.5, 0.625], "one": [1, 1.0], "two": [2, 1.5, 3]}
KEYS = ["kind", "speed", "tail", "camera", "limit", "option", "span", "phases"]


def scenarios(ctx):
    out = []
    base = [w for w in ctx.models["ParamSpace_orbit"] if w["dist"] in ("close", "mid", "far") and w["ecc"] in ("circ", "low", "mid", "high")]
    pools = {"plunge": ctx.models["Plunge"], "circular": [w for w in base if w["ecc"] == "circ"],
             "near": [w for w in ctx.models["ParamSpace_orbit"] if w["dist"] == "close" and w["spin"] in ("high", "extreme")]}
    for i, q in enumerate(params.cover(ctx.models["Movie"], 4000 if ctx.thorough else 240, ctx.rng("m"))):
        rng = ctx.rng("m", i)
        out.append({"sid": "film-%d" % i, "q": q, "par": rng.choice(pools.get(q["kind"], base)), "seed": rng.randrange(10 ** 9), "cls": params.labels(q, KEYS),
                    "timeout": 120})
    return out


@contextlib.contextmanager
def recording(frames, info, render):
    """FFMpegWriter that calls `frames` with the figure of every frame."""
    W = matplotlib.animation.FFMpegWriter
    names = ["setup", "grab_frame", "finish", "isAvailable", "_run", "cleanup"]
    old = {n: W.__dict__.get(n) for n in names}
    draw = matplotlib.backend_bases.FigureCanvasBase.draw_idle

    def setup(self, fig, outfile, dpi=None):
        self.fig, self.outfile, self.dpi = fig, outfile, dpi or fig.dpi
        info.update(file=outfile, fps=self.fps, n=0)

    def grab_frame(self, **kw):
        info["kw"] = kw
        if info["n"] in render:
            self.fig.savefig(io.BytesIO(), format="rgba", dpi=12, **kw)
        frames(info["n"], self.fig)
        info["n"] += 1
    try:
        W.setup, W.grab_frame, W.finish, W.isAvailable = setup, grab_frame, lambda self: info.update(done=True), classmethod(lambda cls: True)
        matplotlib.backend_bases.FigureCanvasBase.draw_idle = lambda self, *a, **k: None
        with contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        for n, v in old.items():
            if v is None:
                if n in W.__dict__:
                    delattr(W, n)
            else:
                setattr(W, n, v)
        matplotlib.backend_bases.FigureCanvasBase.draw_idle = draw
        plt.close("all")


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    q = scn["q"]
    o = P18.make(scn, rng)
    if o is None:
        return []
    speed = rng.choice(SPEED[q["speed"]])
    mult = int(speed * 8)
    nframes = rng.choice([1, 2, 7, 20])
    pts = mult * nframes + rng.randrange(mult)
    width = (pts + 0.5) / RATE
    if rng.random() < 0.1:
        width = 1
    l0 = {"origin": 0, "negative": -width * rng.uniform(0.2, 3), "late": rng.uniform(1, 20)}[q["span"]]
    l1 = l0 + width
    total = int((l1 - l0) * RATE)
    frames = int(total / mult)
    if frames < 1 or total < 2:
        return []
    tail = {"zero": 0, "short": rng.choice([3, 10]) / RATE, "fraction": width * rng.uniform(0.1, 0.9), "whole": rng.choice([1, 1.0]), "long": 5}[q["tail"]]
    kw = {"speed": speed, "tail_length": tail}
    if q["speed"] == "one" and rng.random() < 0.5:
        del kw["speed"]
    if tail == 5 and rng.random() < 0.5:
        del kw["tail_length"]
    el, az = (30, -60) if q["camera"] == "default" else (rng.uniform(-90, 90), rng.uniform(-180, 180))
    if q["camera"] != "default":
        kw.update(elevation=el, azimuth=az)
    pan, tilt, roll = (lambda lam: az), (lambda lam: el), (lambda lam: 0)
    roll_too = rng.random()
    if q["camera"] == "pan" or (q["camera"] == "roll" and roll_too < 0.3):
        b = rng.uniform(-300, 300)
        pan = kw["azimuthal_pan"] = lambda lam: az + b * lam
    if (q["camera"] in ("tilt", "pan") and rng.random() < 0.8) or (q["camera"] == "roll" and 0.2 < roll_too < 0.6):
        b2 = rng.uniform(-90, 90)
        tilt = kw["elevation_pan"] = lambda lam: el + b2 * (lam - l0)
    if q["camera"] == "roll" or (q["camera"] in ("pan", "tilt") and roll_too < 0.3):
        b3 = rng.uniform(-40, 40)
        roll = kw["roll"] = lambda lam: b3 + 20 * lam
    limit = None
    if q["limit"] == "given":
        limit = kw["axis_limit"] = lambda lam: 8 + 0.5 * abs(lam)
    ph = tuple(o.initial_phases)
    if q["phases"] == "given":
        ph = (rng.uniform(-5, 5), rng.uniform(0, 2 * PI), rng.uniform(0, 2 * PI), rng.uniform(-4, 4))
        kw["initial_phases"] = ph
    color = "red"
    if q["option"] == "components":
        kw["plot_components"] = True
    elif q["option"] == "background":
        kw["background_color"] = rng.choice(["black", "white", "#112233"])
    elif q["option"] == "bare":
        color = "blue"
        kw.update(grid=False, axes=False, color=color)
    if rng.random() < 0.5:
        kw["tau"] = rng.uniform(0.05, 3)
    name = os.path.join("/nonexistent", "film.mp4")
    traj = o.trajectory(ph)
    time = np.linspace(l0, l1, total)
    lams = [float(w) for w in time]
    co = [motion.arr(f, lams) for f in traj]
    check = set(rng.sample(range(frames), min(frames, 3))) | {frames - 1}
    info, ev = {}, []
    a = float(o.a)
    far = max(abs(w) for r, th, ph4 in zip(*co[1:]) for w in (r * math.sin(th) * math.cos(ph4), r * math.sin(th) * math.sin(ph4), r * math.cos(th)))

    def trig(j):
        return [bf(co[1][j]), bf(math.sin(co[2][j])), bf(math.cos(co[2][j])), bf(math.sin(co[3][j])), bf(math.cos(co[3][j]))]

    def frame(k, fig):
        j = mult * k
        if j >= total:
            raise Unexpected("frame %d of %d" % (k, frames))
        ax = [x for x in fig.axes if x.name == "3d"]
        if len(ax) != 1:
            raise Unexpected("%d 3d axes" % len(ax))
        ax = ax[0]
        lines = [c for c in ax.get_children() if isinstance(c, Line3DCollection)]
        body = [c for c in ax.get_children() if isinstance(c, Path3DCollection)]
        ball = [c for c in ax.get_children() if isinstance(c, Poly3DCollection)]
        if not (len(lines) == 1 and len(ball) == 1 and len(body) == 1):
            raise Unexpected("artists: %d %d %d" % (len(lines), len(body), len(ball)))
        if k == 0:
            surf = np.asarray(ball[0]._faces, dtype=float).reshape(-1, 3)
            info["ball"] = [[bf(float(w)) for w in p] for p in surf[:: max(1, len(surf) // 150)]]
        seg = np.asarray(lines[0]._segments3d, dtype=float)
        if seg.size == 0:
            # a single point makes no segment
            nv = 1 if j == 1 and tail * RATE >= 1 or 1 <= tail * RATE < 2 <= j else 0
            checked = False
        else:
            if seg.ndim != 3 or seg.shape[1:] != (2, 3) or not np.array_equal(seg[1:, 0], seg[:-1, 1], equal_nan=True):
                raise Unexpected("segments %s" % (seg.shape,))
            v = np.concatenate([seg[:1, 0], seg[:, 1]])
            nv, checked = len(v), k in check
        b = [float(np.asarray(w)[0]) for w in body[0]._offsets3d]
        if any(len(w) != 1 for w in body[0]._offsets3d):
            raise Unexpected("several bodies")
        lam = lams[j]
        alpha = lines[0].get_alpha()
        alpha = [] if alpha is None or nv < 2 else [float(w) for w in np.ravel(alpha)]
        lim = [float(w) for f in (ax.get_xlim3d, ax.get_ylim3d, ax.get_zlim3d) for w in f()]
        elev, azim = tilt(lam), pan(lam)
        c = lines[0].get_edgecolor()
        bg = kw.get("background_color")
        look = (bool(ax._axis3don) is ("axes" not in kw) and bool(ax._draw_grid) is ("grid" not in kw) and bool(np.isinf(ax._focal_length))
                and (len(c) == 0 or all(abs(x - y) < 1e-9 for x, y in zip(c[0][:3], to_rgba(color)[:3])))
                and (bg is None or to_rgba(fig.get_facecolor()) == to_rgba(bg) == to_rgba(ax.get_facecolor())))
        w = [limit(lam) * s for s in (-1, 1)] * 3 if limit else [far]
        ev.append({"kind": "Frame", "k": k, "lam": bf(lam), "body": [bf(u) for u in b], "c": trig(j), "camera": [bf(float(u)) for u in (ax.elev, ax.azim, ax.roll)],
                   "asked": [bf(float(u)) for u in (elev, azim, roll(lam))], "el": [bf(u) for u in cos_sin_deg(elev)], "az": [bf(u) for u in cos_sin_deg(azim)],
                   "given": limit is not None, "lim": [bf(u) for u in lim], "askedlim": [bf(float(u)) for u in w], "vertices": nv, "checked": checked,
                   "alpha": [bf(u) for u in alpha], "look": bool(look)})
        if checked:
            first = j - nv
            for i in range(0, nv, 40):
                ids = range(first + i, min(first + i + 40, j))
                if first < 0:
                    raise Unexpected("%d vertices in frame %d" % (nv, k))
                ev.append({"kind": "Tail", "first": first + i, "lam": [bf(lams[u]) for u in ids],
                           "v": [[] if np.isnan(v[u - first]).any() else [bf(float(y)) for y in v[u - first]] for u in ids], "c": [trig(u) for u in ids]})
        if k in check and q["option"] == "components":
            others = [x for x in fig.axes if x.name != "3d"]
            curves = [x.get_lines()[0].get_data() for x in others]
            ids = sorted(rng.sample(range(j), min(j, 5))) if j else []
            if not all(len(u) == len(w) and len(u) >= j for u, w in curves):
                raise Unexpected("curves of %s points in frame %d" % ([len(u) for u, w in curves], k))
            cap = [re.search(r"lambda\s*=\s*(-?[0-9.]+)", t.get_text()) for t in ax.texts]
            cap = [float(m.group(1)) for m in cap if m]
            if len(cap) != 1:
                raise Unexpected("no caption")
            ev.append({"kind": "Curves", "len": [len(u) for u, w in curves], "lam": [bf(lams[u]) for u in ids],
                       "x": [[bf(float(u[i])) for i in ids] for u, w in curves], "y": [[bf(float(w[i])) for i in ids] for u, w in curves],
                       "want": [[bf(co[c][i]) for i in ids] for c in range(4)], "caption": bf(cap[0]), "now": bf(lam)})

    render = {rng.randrange(frames)} if rng.random() < 0.3 else set()
    with recording(frame, info, render):
        if rng.random() < 0.5:
            r = o.animate(name, l0, l1, **kw)
        else:
            r = o.animate(filename=name, lambda0=l0, lambda1=l1, **kw)
    if r is not None or not info.get("done"):
        raise Unexpected("nothing was saved")
    return [{"kind": "Film", "a": bf(a), "h": bf(1 + math.sqrt(1 - a * a)), "l0": bf(float(l0)), "l1": bf(float(l1)), "total": total, "mult": mult, "rate": RATE,
             "frames": info["n"], "speed": bf(float(speed)), "fps": bf(float(info["fps"])), "tail": bf(float(tail)), "file": str(info["file"]) == name,
             "ball": info["ball"]}] + ev + [{"kind": "End"}]


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    sids = [s for s in sorted(groups) if len(groups[s]) > 6]
    for s in rng.sample(sids, min(16, len(sids))):
        g = groups[s]
        f = g[0]
        fr = [i for i, e in enumerate(g) if e["kind"] == "Frame"]
        i = rng.choice(fr)
        e = g[i]

        def put(i, **kw):
            return g[:i] + [dict(g[i], **kw)] + g[i + 1:]
        yield "speed", put(0, speed=bf(unbf(f["speed"]) * 2)), "Speed"
        yield "fps", put(0, fps=bf(25.0)), "Speed"
        yield "length", put(0, frames=f["frames"] + 1), "AllFrames"
        yield "horizon", put(0, h=bf(unbf(f["h"]) + 0.01)), "Horizon"
        yield "file", put(0, file=False), "File"
        yield "lost", g[:i] + g[i + 1:], None
        yield "late", put(i, lam=bf(unbf(e["lam"]) + 1 / 240)), "Moment"
        yield "body", put(i, body=[bf(unbf(w) * 1.001 + 1e-3) for w in e["body"]]), "Body"
        for j, nm in enumerate(("elevation", "azimuth", "roll")):
            yield nm, put(i, camera=[bf(unbf(w) + (j == m)) for m, w in enumerate(e["camera"])]), "Camera"
        yield "limits", put(i, lim=[bf(unbf(w) * 0.5) for w in e["lim"]]), "Limits"
        yield "look", put(i, look=False), "Look"
        if e["vertices"] > 3:
            yield "longtail", put(i, vertices=e["vertices"] + 3), None
            yield "shorttail", put(i, vertices=e["vertices"] - 3), None
            yield "flat", put(i, alpha=[bf(0.5)] * len(e["alpha"])), "FadingThere"
            yield "reversed", put(i, alpha=e["alpha"][::-1]), "Fading"
        for j, t in enumerate(g):
            if t["kind"] == "Tail" and rng.random() < 0.3:
                m = rng.randrange(len(t["v"]))
                v = list(t["v"])
                v[m] = [bf(1.0)] * 3 if not v[m] else []
                yield "hidden", put(j, v=v), "Hidden"
                yield "gap", g[:j] + g[j + 1:], None
            if t["kind"] == "Curves" and t["lam"]:
                yield "curve", put(j, y=t["y"][:3] + [[bf(unbf(w) + 0.1) for w in t["y"][3]]]), "Curve"
                yield "caption", put(j, caption=bf(unbf(t["caption"]) + 0.1)), "Caption"
