"""Period integrals for spec/TraceFrequencies.tla: cosine grids and the values of the integrands on them."""
import math
import numpy as np
from bf import bf

LD = np.longdouble
_C = {}


def cosines(n):
    """cos(2 pi k / n), k = 0 .. n/2, exactly symmetric."""
    if n not in _C:
        k = np.arange(n // 2 + 1)
        c = np.array([math.cos(math.pi * (2 * int(j)) / n) for j in k])
        h = n // 4
        c[h] = 0.0
        c[h + 1:] = -c[:h][::-1]
        c[0], c[-1] = 1.0, -1.0
        _C[n] = c
    return _C[n]


def esum(v):
    v = np.asarray(v)
    return 2 * v.sum() - v[0] - v[-1]


def converge(f, n0=16, cap=2048, tol=1e-12):
    """Doubles n until all the means of f(cosines(n)) settle: (n, values) or None."""
    last = None
    n = n0
    while n <= cap:
        vals = f(cosines(n).astype(LD))
        w = vals[0]
        m = [float(esum(w)) / n] + [float(esum(w * v)) / n for v in vals[1:]]
        if last is not None and all(abs(a - b) <= tol * (abs(a) + abs(m[0])) for a, b in zip(m, last)):
            return n, vals
        last = m
        n *= 2
    return None


def enc(v):
    return [bf(float(x)) for x in v]


def stable(a, p, e, x, E, L, Q):
    """Grids for a stable orbit (a >= 0); None if they do not converge within the cap."""
    a, p, e, x, E, L, Q = map(LD, (a, p, e, x, E, L, Q))
    ee = 1 - e * e
    be = a * a * (1 - E * E)
    # the inner roots without E, whose difference from 1 means little for large eccentricities
    k = L * L + Q
    D0 = 4 * p ** 3 + a * a * Q * ee * ee - p * p * ee * k
    N0 = a * a * ee * p - p ** 3 + p * p * k - a * a * Q * ee

    def radial(c):
        u = 1 + e * c
        G = p ** 3 * (D0 - 2 * N0 * u) + a * a * Q * u * u * (D0 + ee * N0)
        w = p * np.sqrt((D0 + ee * N0) / G)
        D = p * p - 2 * p * u + a * a * u * u
        P = E * (p * p + a * a * u * u) - a * L * u * u
        return w, a * P / D, (p * p + a * a * u * u) * P / (D * u * u)

    def polar(c):
        S = be * x * x + L * L
        w = abs(x) / np.sqrt(S - be * x * x * (1 - x * x) * c * c)
        return w, w * w * abs(L) / (w * abs(L) + abs(x)) / w
    r, t = converge(radial), converge(polar)
    if r is None or t is None:
        return None
    w, d = t[1]
    return {"cr": enc(cosines(r[0])), "wr": enc(r[1][0]), "gr": enc(r[1][1]), "fr": enc(r[1][2]),
            "cz": enc(cosines(t[0])), "wz": enc(w), "dz": enc(np.float64(w * d))}


def plunge(a, E, L, Q, lo, hi, zz):
    a, E, L, Q, lo, hi, zz = map(LD, (a, E, L, Q, lo, hi, zz))
    EE = 1 - E * E
    be = a * a * EE
    s = 2 - EE * (lo + hi)
    pr = EE * (lo * lo + hi * hi + lo * hi) - 2 * (lo + hi) - (a * a * E * E - L * L - Q - a * a)

    def radial(c):
        r2 = lo + hi - (hi - lo) * c
        return (2 / np.sqrt(EE * r2 * r2 - 2 * s * r2 + 4 * pr),)

    def polar(c):
        return (1 / np.sqrt(L * L + Q + be * (1 - zz) - be * zz * c * c),)
    r, t = converge(radial), converge(polar)
    if r is None or t is None:
        return None
    return {"cr": enc(cosines(r[0])), "wr": enc(r[1][0]), "cz": enc(cosines(t[0])), "wz": enc(t[1][0])}
