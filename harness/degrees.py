"""cos and sin of an angle in degrees, correctly rounded but for the last bit."""
from decimal import Decimal, localcontext

PI = Decimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798")


def cos_sin_deg(v):
    with localcontext() as ctx:
        ctx.prec = 60
        t = Decimal(float(v)) % 360 * PI / 180
        c, s, tc, ts = Decimal(1), t, Decimal(1), t
        for i in range(1, 50):
            tc *= -t * t / ((2 * i - 1) * (2 * i))
            ts *= -t * t / ((2 * i) * (2 * i + 1))
            c += tc
            s += ts
        return float(c), float(s)
