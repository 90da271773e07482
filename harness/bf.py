"""Exact encoding of doubles for spec/BF.tla: <<sgn, exp, limbs>> in base 2^14."""
import math

BITS = 14
NAN = [2, 0, []]


def bf(v):
    """Encode an int, float or numpy scalar exactly; anything that is not a finite real is NaN."""
    try:
        if isinstance(v, int) and not isinstance(v, bool):
            n, d = v, 1
        else:
            if isinstance(v, complex) or getattr(getattr(v, "dtype", None), "kind", "f") == "c":
                return NAN
            f = float(v)
            if not math.isfinite(f):
                return NAN
            n, d = f.as_integer_ratio()
    except (TypeError, ValueError, OverflowError):
        return NAN
    return frac(n, d.bit_length() - 1)


def frac(n, k):
    """Encode n / 2^k."""
    if n == 0:
        return [0, 0, []]
    s = 1 if n > 0 else -1
    n = abs(n)
    e = -(-k // BITS)
    n <<= e * BITS - k
    e = -e
    while n & 16383 == 0:
        n >>= BITS
        e += 1
    limbs = []
    while n:
        limbs.append(n & 16383)
        n >>= BITS
    return [s, e, limbs]


def unbf(t):
    """Decode (for reports)."""
    s, e, m = t
    if s == 2:
        return float("nan")
    n = 0
    for d in reversed(m):
        n = (n << BITS) | d
    from fractions import Fraction

    return float(s * Fraction(n) * Fraction(2) ** (BITS * e))
