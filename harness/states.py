"""Timelike unit states anywhere in Kerr spacetime, made from the geodesic equations in 50 digits."""
import math
from decimal import Decimal, localcontext

import params
from bf import bf


def dec(*v):
    return [Decimal(float(x)) for x in v]


def cos_sin(th):
    """cos and sin of the double th, in the current precision."""
    t = Decimal(float(th))
    c, s, k, tc, ts = Decimal(1), t, 1, Decimal(1), t
    for i in range(1, 60):
        tc *= -t * t / ((2 * i - 1) * (2 * i))
        ts *= -t * t / ((2 * i) * (2 * i + 1))
        c += tc
        s += ts
    return c, s


def from_constants(a, E, L, Q, r, th, sr, sth):
    """(u^t, u^r, u^theta, u^phi) of the geodesic with these constants at (r, theta), None where it is forbidden."""
    with localcontext() as ctx:
        ctx.prec = 50
        a, E, L, Q, r = dec(a, E, L, Q, r)
        z, s = cos_sin(th)
        if s == 0:
            return None
        S = r * r + a * a * z * z
        D = r * r - 2 * r + a * a
        P = E * (r * r + a * a) - a * L
        R = P * P - D * (r * r + (a * E - L) ** 2 + Q)
        V = Q - z * z * (a * a * (1 - E * E) + L * L / (s * s))      # (Sigma u^theta)^2
        if R < 0 or V < -Decimal(10) ** -14 * (1 + abs(Q)):
            return None
        V = max(V, Decimal(0))
        ut = ((r * r + a * a) * P / D - a * (a * E * s * s - L)) / S
        up = (a * P / D - a * E + L / (s * s)) / S
        return [float(ut), float(sr * R.sqrt() / S), float(sth * V.sqrt() / S), float(up)]


def constants(a, x, u):
    """(E, L, Q) of a state, from the metric, rounded once."""
    with localcontext() as ctx:
        ctx.prec = 50
        a, r, ut, ur, uth, up = dec(a, x[1], u[0], u[1], u[2], u[3])
        z, s = cos_sin(x[2])
        S = r * r + a * a * z * z
        gtt = 2 * r / S - 1
        gtp = -2 * a * r * s * s / S
        gpp = s * s * (r * r + a * a + 2 * a * a * r * s * s / S)
        E = -(gtt * ut + gtp * up)
        L = gtp * ut + gpp * up
        Q = (S * uth) ** 2 + z * z * (a * a * (1 - E * E) + L * L / (s * s))
        return float(E), float(L), float(Q)


def zamo(a, x, v):
    """Four-velocity of a body moving with velocity v against the zero angular momentum observer (Delta > 0)."""
    with localcontext() as ctx:
        ctx.prec = 50
        a, r = dec(a, x[1])
        z, s = cos_sin(x[2])
        vr, vt, vp = dec(*v)
        S = r * r + a * a * z * z
        D = r * r - 2 * r + a * a
        A = (r * r + a * a) ** 2 - a * a * D * s * s
        g = 1 / (1 - vr * vr - vt * vt - vp * vp).sqrt()
        al = (D * S / A).sqrt()
        om = 2 * a * r / A
        return [float(g / al), float(g * vr * (D / S).sqrt()), float(g * vt / S.sqrt()),
                float(g * (om / al + vp / (s * (A / S).sqrt())))]


def sample_event(x, u):
    z, s = math.cos(x[2]), math.sin(x[2])
    return [bf(x[0]), bf(x[1]), bf(x[2]), bf(z), bf(s), bf(x[3])], [bf(v) for v in u]
