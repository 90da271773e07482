"""Concrete plunges for spec/Plunge.tla, with their radial structure found independently of the code under test."""
import math
from decimal import Decimal, localcontext
import numpy as np
import params
from bf import bf


def coef(a, E, L, Q):
    """c0 .. c4 of the radial polynomial."""
    return [-a * a * Q, 2 * L * L + 2 * Q + 2 * a * a * E * E - 4 * a * E * L, a * a * E * E - L * L - Q - a * a, 2, E * E - 1]


def structure(a, E, L, Q, every=False):
    """(arrangement, sorted real roots) or None if too close to a change of structure."""
    c = coef(a, E, L, Q)
    if Q == 0:
        r = np.append(np.roots(c[:0:-1]), 0.0)
    else:
        r = np.roots(c[::-1])
    imag = np.abs(r.imag)
    real = np.sort(r[imag < 1e-12].real)
    cx = imag[imag >= 1e-12]
    if len(cx) and cx.min() < 1e-5:
        return None
    if len(real) == 4 and (np.diff(real).min() < 1e-14 or np.diff(real[real != 0]).min() < 1e-5):
        return None
    out = []
    with localcontext() as ctx:
        ctx.prec = 50
        C = coef(*[Decimal(float(v)) for v in (a, E, L, Q)])
        for v in real:
            x = Decimal(float(v))
            for _ in range(6):
                f = (((C[4] * x + C[3]) * x + C[2]) * x + C[1]) * x + C[0]
                g = ((4 * C[4] * x + 3 * C[3]) * x + 2 * C[2]) * x + C[1]
                if g == 0 or f == 0:
                    break
                x -= f / g
            out.append(float(x))
        s = (1 - Decimal(float(a)) ** 2).sqrt()
        rm, rp = float(1 - s), float(1 + s)
    out.sort()
    below = sum(v < rm for v in out)
    if any(rm <= v <= rp for v in out):
        return None
    arr = {(2, 1): "complex", (4, 1): "deep", (4, 3): "inner"}.get((len(out), below))
    return (arr, out) if arr else None


def turning(arr, roots):
    """(lower, upper) turning point of the motion through the horizons."""
    return (roots[2], roots[3]) if arr == "inner" else (roots[0], roots[1])


def polar_turning(a, E, L, Q):
    """cos^2 of the polar turning point."""
    with localcontext() as ctx:
        ctx.prec = 50
        a, E, L, Q = [Decimal(float(v)) for v in (a, E, L, Q)]
        be = a * a * (1 - E * E)
        s = L * L + Q + be
        return float(2 * Q / (s + (s * s - 4 * be * Q).sqrt()))


def concretise(q, rng):
    """(a, E, L, Q, arrangement, roots); a carries the sign, L is positive for prograde motion."""
    for _ in range(20000):
        a = params.SPIN[q["spin"]](rng)
        s = 1 if q["sense"] == "pro" else -1
        E = {"low": lambda: rng.uniform(0.3, 0.7), "mid": lambda: rng.uniform(0.7, 0.99),
             "near1": lambda: 1 - 10 ** rng.uniform(-4, -2)}[q["energy"]]()
        if q["arr"] == "deep":
            e = rng.uniform(0.05, 0.9)
            x = 1.0 if q["carter"] == "equatorial" else 1 - 10 ** rng.uniform(-6, -2) if q["carter"] == "tiny" else rng.uniform(0.1, 0.97)
            ps = params.ref_separatrix(a, e, s * x)
            if q["energy"] == "near1":
                e = 1 - 10 ** rng.uniform(-2, -1)
            p = ps * (1 + 10 ** rng.uniform(-2, 0.5))
            w = params.witness(a, p, e, s * x)
            if w is None:
                continue
            E, L, Q = w
        else:
            if q["arr"] == "inner":
                L = s * rng.uniform(0.005, 1)
                Q = 10 ** rng.uniform(-5, -1)
            else:
                L = s * rng.choice([rng.uniform(0.05, 1), rng.uniform(0.5, 4)])
                Q = {"equatorial": lambda: 0.0, "tiny": lambda: 10 ** rng.uniform(-6, -1), "generic": lambda: rng.uniform(0.1, 14)}[q["carter"]]()
        st = structure(a, E, L, Q)
        if st is None or st[0] != q["arr"]:
            continue
        lo, hi = turning(*st)
        if q["sign"] == "-":
            a, L = -a, -L
        return a, E, L, Q, st[0], st[1]
    return None


def rate(a, E, L, Q, arr, roots):
    """Rate at which r changes around the outer turning point (far out the motion is sharply peaked there)."""
    c = coef(a, E, L, Q)
    hi = turning(arr, roots)[1]
    return math.sqrt(abs(((4 * c[4] * hi + 3 * c[3]) * hi + 2 * c[2]) * hi + c[1]) / (2 * hi))


def orbit_event(a, E, L, Q, arr, roots):
    lo, hi = turning(arr, roots)
    one = bf(1)
    return {"kind": "Orbit", "a": bf(a), "E": bf(E), "L": bf(L), "Q": bf(Q), "hin": bf(hi), "hid": one, "lon": bf(lo), "lod": one,
            "zz": bf(polar_turning(a, E, L, Q)), "mid": bf(0.5 * (lo + hi)), "plunge": True,
            "size": bf(max(map(abs, roots)))}
