"""Concrete members of the abstract classes of spec/ParamSpace.tla."""
import itertools
import math
from decimal import Decimal, InvalidOperation, localcontext

SPIN = {
    "zero": lambda r: 0.0,
    "tiny": lambda r: 10 ** (r.uniform(-9, -3) if r.random() < 0.75 else r.uniform(-16, -9)),
    "small": lambda r: r.uniform(0.001, 0.1),
    "mid": lambda r: r.uniform(0.1, 0.9),
    "high": lambda r: r.uniform(0.9, 0.99),
    "extreme": lambda r: 1 - 10 ** r.uniform(-5, -2),
}
ECC = {
    "circ": lambda r: r.choice([0.0, 0]),
    "nearcirc": lambda r: 10 ** r.uniform(-6, -2),
    "low": lambda r: r.uniform(0.01, 0.3),
    "mid": lambda r: r.uniform(0.3, 0.7),
    "high": lambda r: r.uniform(0.7, 0.9),
    "near1": lambda r: 1 - 10 ** r.uniform(-2, -1),
    "parab": lambda r: r.choice([1.0, 1]),
}
INCL = {
    "pro": lambda r: r.choice([1.0, 1]),
    "retro": lambda r: r.choice([-1.0, -1]),
    "gen+": lambda r: r.uniform(0.15, 0.95),
    "gen-": lambda r: -r.uniform(0.15, 0.95),
    "nearpol+": lambda r: r.choice([10 ** r.uniform(-4, -1), 10 ** r.uniform(-2, -1), math.cos(math.pi / 2 - 0.05)]),
    "nearpol-": lambda r: -r.choice([10 ** r.uniform(-4, -1), 10 ** r.uniform(-2, -1), math.cos(math.pi / 2 - 0.05)]),
    "polar": lambda r: r.choice([0.0, 0]),
    "neareq+": lambda r: 1 - 10 ** r.uniform(-9, -1.5),
    "neareq-": lambda r: -1 + 10 ** r.uniform(-9, -1.5),
}
# distance to the separatrix: p = ps * (1 + delta)
DIST = {
    "sep": lambda r: 10 ** r.uniform(-5, -2.5),
    "close": lambda r: r.uniform(0.005, 0.1),
    "mid": lambda r: r.uniform(0.1, 1.5),
    "far": lambda r: r.uniform(1.5, 12),
    "vfar": lambda r: 10 ** r.uniform(1.2, 2.5),
}


# ----------------------------------------------------------------- an independent separatrix
# (only used to place p on the stable side; the separatrix of the code under test is property P02's business)
def _sqrt(v):
    return v.sqrt() if isinstance(v, Decimal) else math.sqrt(v)


def _V(a, E, L, Q, r):
    return (E * (r * r + a * a) - a * L) ** 2 - (r * r - 2 * r + a * a) * (r * r + (a * E - L) ** 2 + Q)


def _schmidt(a, r, x):
    z2 = 1 - x * x
    d = r * r - 2 * r + a * a
    f = r ** 4 + a * a * (r * (r + 2) + z2 * d)
    g = 2 * a * r
    h = r * (r - 2) + z2 / (x * x) * d
    dd = (r * r + a * a * z2) * d
    return f, g, h, dd


def _dschmidt(a, r, x):
    z2 = 1 - x * x
    return (4 * r ** 3 + 2 * a * a * ((1 + z2) * r + 1 - z2), 2 * a, 2 * (r - 1) / (x * x),
            2 * (2 * r - 3) * r * r + 2 * a * a * ((1 + z2) * r - z2))


def ref_constants(a, p, e, x):
    """Constants of motion of (a >= 0, p, e, x), x != 0; None if there is no such geodesic."""
    r2 = p / (1 + e)
    f2, g2, h2, d2 = _schmidt(a, r2, x)
    s = 1 if x > 0 else -1
    try:
        if e == 1:
            E2 = 1 + 0 * p
        else:
            if e == 0:
                f1, g1, h1, d1 = f2, g2, h2, d2
                f2, g2, h2, d2 = _dschmidt(a, r2, x)
            else:
                f1, g1, h1, d1 = _schmidt(a, p / (1 - e), x)
            ka = d1 * h2 - h1 * d2
            rh = f1 * h2 - h1 * f2
            si = g1 * h2 - h1 * g2
            ep = d1 * g2 - g1 * d2
            et = f1 * g2 - g1 * f2
            rad = ep * ep + ka * (d1 * f2 - f1 * d2)
            b, q = ka * rh + 2 * ep * si, 2 * abs(si) * _sqrt(max(rad, 0 * rad))
            E2 = ka * ka / (b + q) if s > 0 and b > 0 else (b - s * q) / (rh * rh + 4 * et * si)
            if not 0 < E2 < 1:
                return None
        E = _sqrt(E2)
        f, g, h, d = _schmidt(a, r2, x)
        q = _sqrt(g * g * E2 + (f * E2 - d) * h)
        L = (f * E2 - d) / (g * E + q) if s > 0 else (-g * E - q) / h
    except (ValueError, ArithmeticError):
        return None
    z2 = 1 - x * x
    Q = z2 * (a * a * (1 - E * E) + L * L / (x * x))
    return E, L, Q


def photon(a, e, x, rng):
    """A semi-latus rectum whose turning points are also those of a retrograde photon orbit, where the quadratic equation
    for E^2 of prograde orbits is linear; None if there is none among the stable orbits."""
    def lead(p):
        f1, g1, h1, d1 = _schmidt(a, p / (1 + e), x)
        f2, g2, h2, d2 = _dschmidt(a, p, x) if e == 0 else _schmidt(a, p / (1 - e), x)
        return (f1 * h2 - h1 * f2) ** 2 + 4 * (f1 * g2 - g1 * f2) * (g1 * h2 - h1 * g2)
    with localcontext() as c:
        c.prec = 60
        a, e, x = (Decimal(v) for v in (a, e, x))
        lo, hi = Decimal(ref_separatrix(float(a), float(e), float(x))) * Decimal("1.00001"), Decimal(40)
        if lead(lo) * lead(hi) > 0:
            return None
        for _ in range(90):
            m = (lo + hi) / 2
            lo, hi = (m, hi) if (lead(m) > 0) == (lead(lo) > 0) else (lo, m)
        return float(hi)


def ergo(a, e, x):
    """The semi-latus rectum with an inner turning point where the angular momentum is not that of a quadratic equation."""
    z2 = 1 - x * x
    # r (r - 2) + z2 / x^2 (r^2 - 2 r + a^2) = 0
    k = 1 - z2 * a * a
    return None if k < 0 else (1 + math.sqrt(k)) * (1 + e)


def polar_constants(a, p, e):
    """Constants of the polar orbit: with L = 0 the conditions are linear in E^2 and Q."""
    def row(r):
        d = r * r - 2 * r + a * a
        return (r * r + a * a) ** 2 - a * a * d, -d, d * r * r

    def drow(r):
        d, dd = r * r - 2 * r + a * a, 2 * r - 2
        return 4 * r * (r * r + a * a) - a * a * dd, -dd, dd * r * r + 2 * r * d
    A = row(p / (1 + e))
    if e == 1:
        return 1, 0, (A[0] - A[2]) / -A[1]
    B = drow(p) if e == 0 else row(p / (1 - e))
    det = A[0] * B[1] - A[1] * B[0]
    E2 = (A[2] * B[1] - A[1] * B[2]) / det
    Q = (A[0] * B[2] - A[2] * B[0]) / det
    return (_sqrt(E2), 0.0, Q) if 0 < E2 < 1 else None


def witness(a, p, e, x):
    """Constants of motion found without the code under test, in 60 digits and rounded to doubles
    (None if there are none)."""
    with localcontext() as c:
        c.prec = 60
        A = [Decimal(v) for v in (float(a), float(p), float(e), float(x))]
        try:
            w = polar_constants(*A[:3]) if x == 0 else ref_constants(*A)
        except (ValueError, ArithmeticError):
            return None
        return None if w is None else tuple(float(v) for v in w)


def _stable(a, p, e, x):
    """Is the inner turning point of (a, p, e, x) a simple root with stable motion outside?"""
    r2 = p / (1 + e)
    if r2 <= 1 + math.sqrt(1 - a * a):
        return False
    c = ref_constants(a, p, e, x)
    if c is None:
        return False
    E, L, Q = c
    if e < 1:
        r1 = p / (1 - e)
        # (the sum of all roots is 2 / (1 - E^2), of the products of two (a^2 (1 - E^2) + L^2 + Q) / (1 - E^2))
        b, c = (L * L + Q) / 2, a * a * Q / (2 * r1 * r2)
        s = (a * a - r1 * r2 + (r1 + r2) * (b - c)) / (r1 + r2 + c - b)
        pr = c * (r1 + r2 + s)
        d = s * s - 4 * pr
        if d < 0:
            return True
        r3 = (s + math.sqrt(d)) / 2
    else:
        # 2 r^3 + c2 r^2 + c1 r + c0: divide by r - r2
        c2 = a * a - L * L - Q - a * a
        c0 = -a * a * Q
        s = -c2 / 2 - r2
        pr = -c0 / (2 * r2) if r2 else 0
        d = s * s - 4 * pr
        if d < 0:
            return True
        r3 = (s + math.sqrt(d)) / 2
    return r3 < r2


def ref_separatrix(a, e, x):
    """Separatrix by bisection on the root structure (a >= 0)."""
    if a == 0:
        return 6.0 + 2 * e
    if abs(x) < 1e-5:      # the formulas divide by x; p_s is smooth across x = 0
        d = 1e-5
        return (ref_separatrix(a, e, -d) * (d - x) + ref_separatrix(a, e, d) * (d + x)) / (2 * d)
    lo, hi = 1 + e, 5 + e + 4 * math.sqrt(1 + e) + 0.5
    # coarse scan from outside, then bisection
    n = 160
    prev = hi
    for i in range(1, n + 1):
        q = hi - (hi - lo) * i / n
        if not _stable(a, q, e, x):
            lo, hi = q, prev
            break
        prev = q
    for _ in range(60):
        m = 0.5 * (lo + hi)
        if _stable(a, m, e, x):
            hi = m
        else:
            lo = m
    return hi


def concretise(q, rng, dist=None, x=None, deep=None):
    """A concrete (a, p, e, x) with the sign of the spin, p measured from the separatrix of |a|, sgn(a) x.  Some of the
    large eccentricities are close to 1, up to 1 - 10^deep; next to the separatrix only if asked for."""
    a = SPIN[q["spin"]](rng)
    e = ECC[q["ecc"]](rng)
    if deep is None:
        deep = -2 if q["dist"] == "sep" else -4
    if q["ecc"] == "near1" and rng.random() < 0.5:
        e = 1 - 10 ** rng.uniform(deep, -2)
    x = INCL[q["incl"]](rng) if x is None else x
    s = -1.0 if q["sign"] == "-" else 1.0
    ps = ref_separatrix(a, e, x)
    p = ps * (1 + (DIST[q["dist"]](rng) if dist is None else dist))
    return s * a, p, e, -x if s < 0 else x


def labels(q, keys=("spin", "sign", "ecc", "incl", "dist")):
    return ["%s=%s" % (k, q[k]) for k in keys]


def cover(points, n, rng, strength=2):
    """About n of the points such that every `strength`-wise combination of classes occurs; seed-dependent fill."""
    points = list(points)
    rng.shuffle(points)
    if n >= len(points):         # every point, again and again
        return (points * -(-n // len(points)))[:n]
    keys = sorted(points[0])
    combos = list(itertools.combinations(keys, strength))
    need = set()
    feats = []
    for q in points:
        f = {(c, tuple(q[k] for k in c)) for c in combos}
        feats.append(f)
        need |= f
    chosen, left = [], list(range(len(points)))
    while need and len(chosen) < n:
        best, gain = None, -1
        for i in rng.sample(left, min(60, len(left))):
            g = len(feats[i] & need)
            if g > gain:
                best, gain = i, g
        chosen.append(best)
        left.remove(best)
        need -= feats[best]
    rng.shuffle(left)
    chosen += left[: max(0, n - len(chosen))]
    return [points[i] for i in chosen]
