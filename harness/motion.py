"""Recording motion for spec/TraceMotion.tla."""
import math
import numpy as np
from bf import bf
from core import Unexpected

PI = math.pi


def num(v):
    """The value of a coordinate function at one time as a float; anything else is a violation."""
    if isinstance(v, complex) or getattr(getattr(v, "dtype", None), "kind", "f") == "c":
        return float("nan")
    if np.ndim(v) != 0:
        if np.size(v) != 1:
            raise Unexpected("scalar expected, got shape %s" % (np.shape(v),))
        v = np.asarray(v).reshape(())
    return float(v)


def arr(f, lams):
    v = np.asarray(f(np.asarray(lams)))
    if v.dtype.kind == "c":
        return [float("nan")] * len(lams)
    if v.shape != (len(lams),):
        raise Unexpected("shape %s for %d times" % (v.shape, len(lams)))
    return [float(x) for x in v]


def sample4(t, r, th, ph):
    z, s = math.cos(th), math.sin(th)
    cp, sp = (math.cos(ph), math.sin(ph)) if math.isfinite(ph) else (math.nan, math.nan)
    return [bf(x) for x in (t, r, th, z, s, ph, s * cp, s * sp)]


def coords(traj, lams, scalar=False):
    if scalar:
        return [[num(f(lam)) for lam in lams] for f in traj]
    return [arr(f, lams) for f in traj]


def samples(traj, lams, scalar=False):
    c = coords(traj, lams, scalar)
    return [sample4(*v) if all(map(math.isfinite, v[1:3])) else [bf(math.nan)] * 8 for v in zip(*c)]


def sharpness(e):
    """r(lambda) of eccentric orbits is peaked at apoapsis: singular at acosh(1/e) off the real axis."""
    return 1.0 if e < 0.5 else max(1.0, 0.9 / math.acosh(1 / e))


def spin_rate(ev):
    """The largest rate of phi in the equatorial plane (it is not seen at the pole), reached at the inner turning point."""
    from bf import unbf
    a, E, L = (unbf(ev[k]) for k in "aEL")
    r = unbf(ev["lon"]) / unbf(ev["lod"])
    return abs(a * (E * (r * r + a * a) - a * L) / (r * r - 2 * r + a * a) - a * E) + abs(L)


def pow2_below(v):
    return 2.0 ** math.floor(math.log2(v))


def window(traj, lam0, h, n, tt, chunk=40, scalar=False):
    """Ticks events: n samples starting at (about) lam0, h apart (both exact)."""
    k0 = round(lam0 / h)
    lams = [(k0 + k) * h for k in range(n)]
    s = samples(traj, lams, scalar)
    ev = []
    for i in range(0, n, chunk):
        ev.append({"kind": "Ticks", "first": i == 0, "h": bf(h), "tt": tt, "s": s[i:i + chunk]})
    return ev


def stable_orbit_event(a, p, e, x, E, L, Q):
    """Turning points are exact: p/(1-e) and p/(1+e)."""
    hid, lod = 1 - e, 1 + e        # representable sums are exact up to half an ulp: covered by the range slack
    return {"kind": "Orbit", "a": bf(a), "E": bf(E), "L": bf(L), "Q": bf(Q), "hin": bf(p), "hid": bf(hid),
            "lon": bf(p), "lod": bf(lod), "zz": bf(1 - x * x), "mid": bf(p / (hid * lod)), "plunge": False}


def phases(q, rng, when_only=False):
    """Concrete initial phases for legs (rleg, pleg)."""
    def one(leg):
        v = {"low": 0.0, "high": PI, "up": rng.uniform(0.05, PI - 0.05), "down": rng.uniform(PI + 0.05, 2 * PI - 0.05)}[leg]
        if q.get("turns") == "some" and leg not in ("low", "high"):
            v += 2 * PI * rng.choice([-3, -1, 1, 2])
        elif q.get("turns") == "some" and leg == "high":
            v = rng.choice([-PI, PI])
        return v
    return mixed([rng.uniform(-20, 20) if rng.random() < 0.7 else 0.0, one(q["rleg"]), one(q["pleg"]),
                  rng.uniform(-7, 7) if rng.random() < 0.7 else 0.0], rng)


def mixed(ph, rng):
    """The same legs with some of the phases given as integers."""
    def one(v, free):
        if rng.random() < 0.2:
            if v == 0 or free:
                return round(v)
            if 1 <= v < 3:
                return int(v)
        return v
    return [one(v, k in (0, 3)) for k, v in enumerate(ph)]


def near(ph, rng, often=0.3):
    """Phases next to (not at) turning points where they were at one."""
    def one(v):
        return v + rng.choice([1, -1]) * 10 ** rng.uniform(-4, -1.3) if v in (0.0, PI, -PI) and rng.random() < often else v
    return [ph[0], one(ph[1]), one(ph[2]), ph[3]]


def lattice(f, lam, per, pert, n, nr, reach, rng):
    """The corners of a parallelogram of up to 10^reach full radial and polar oscillations, to the future or the past."""
    sgn = rng.choice([1, -1])
    u = sgn * per * max(1, round(10 ** rng.uniform(0, reach)))
    v = sgn * pert * max(1, round(abs(u) / pert * 2 ** rng.uniform(-1, 1)))
    s = samples(f, [lam, lam + u, lam + v, lam + u + v], scalar=rng.random() < 0.3)
    return {"kind": "Lattice", "A": s[0], "B": s[1], "C": s[2], "D": s[3], "n": n, "nr": nr}
