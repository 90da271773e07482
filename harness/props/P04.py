"""P04: mirror images."""
import math
import random
import motion
import params
import plunges
from bf import bf, unbf
import kerrgeopy as kg
from kerrgeopy.frequencies import gamma, plunging_mino_frequencies
from kerrgeopy.plunge import plunging_trajectory
from kerrgeopy.stable import stable_trajectory

MODELS = ["Mirror", ("ParamSpace", "ParamSpace_orbit"), "Plunge"]
TRACE = "TraceMirror"
ASSUMPTIONS = ["e <= 1 - 1e-4 (0.99 next to the separatrix), |a| <= 1 - 1e-5; orbits from initial data additionally e >= 2e-3 and away from the separatrix",
               "single frequency functions are compared with their own sign convention"]
PI = math.pi


def scenarios(ctx):
    entries = ctx.models["Mirror"]
    out = []
    for kind, pts, ents, n in (
            ("s", [q for q in ctx.models["ParamSpace_orbit"] if q["spin"] != "zero" and q["sign"] == "+"],
             [e for e in entries if not e["entry"].endswith("plunge")], 20000 if ctx.thorough else 2600),
            ("p", [q for q in ctx.models["Plunge"] if q["sign"] == "+"], [e for e in entries if e["entry"].endswith("plunge")], 6000 if ctx.thorough else 1100)):
        merged = []
        for i in range(max(3 * n, len(pts))):
            q = dict(pts[i % len(pts)])
            q.update(ents[i % len(ents) if len(pts) % len(ents) else (i + i // len(pts)) % len(ents)])
            merged.append(q)
        for i, q in enumerate(params.cover(merged, n, ctx.rng(kind))):
            out.append({"sid": "%s-%s-%d" % (kind, q["entry"], i), "q": q, "seed": ctx.rng(kind, i).randrange(10 ** 9),
                        "cls": params.labels(q, sorted(q))})
    return out


COORD = ["t", "r", "theta", "phi"]
VEL = ["ut", "ur", "utheta", "uphi"]


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    q = scn["q"]
    entry, frame = q["entry"], q["frame"]
    names, A, B = [], [], []
    n = 40

    def add(k, u, v):
        if isinstance(k, str):
            k, u, v = [k], [u], [v]
        names.extend(k)
        A.extend(bf(motion.num(w) if not isinstance(w, bool) else int(w)) for w in u)
        B.extend(bf(motion.num(w) if not isinstance(w, bool) else int(w)) for w in v)
    ph = motion.phases({"rleg": rng.choice(["low", "up", "down", "high"]), "pleg": rng.choice(["low", "up", "down", "high"])}, rng)
    mph = (ph[0], ph[1], ph[2], -ph[3])
    if not entry.endswith("plunge"):
        a, p, e, x = params.concretise(q, rng)
        x = -x                  # (a, -x) is the stable orbit, (-a, x) its mirror image
        scn["args"] = [a, p, e, x]
        if entry == "constants":
            add("E", kg.energy(-a, p, e, x), kg.energy(a, p, e, -x))
            add("L", kg.angular_momentum(-a, p, e, x), kg.angular_momentum(a, p, e, -x))
            add("Q", kg.carter_constant(-a, p, e, x), kg.carter_constant(a, p, e, -x))
            add(["E", "L", "Q"], kg.constants_of_motion(-a, p, e, x), kg.constants_of_motion(a, p, e, -x))
            c = kg.constants_of_motion(-a, p, e, x)
            add("L", kg.angular_momentum(-a, p, e, x, E=c[0]), c[1])
            add("Q", kg.carter_constant(-a, p, e, x, E=c[0], L=c[1]), c[2])
        elif entry == "stability":
            for d in (0.9, 0.99, 1.0, 1.01, 1.5):
                y = p * d
                s2 = bool(kg.is_stable(a, y, e, -x))
                try:
                    s1 = bool(kg.is_stable(-a, y, e, x))
                except ValueError:       # the separatrix functions are documented for a >= 0 only
                    s1 = s2
                add("stable", s1, s2)
                for f in (lambda u, v: kg.constants_of_motion(u, y, e, v), lambda u, v: kg.StableOrbit(u, y, e, v)):
                    ok = []
                    for u, v in ((-a, x), (a, -x)):
                        try:
                            f(u, v)
                            ok.append(True)
                        except ValueError:
                            ok.append(False)
                    add("stable", *ok)
        elif entry == "frequencies":
            add(["Yr", "Ytheta", "Omega", "Gamma"], kg.mino_frequencies(-a, p, e, x), kg.mino_frequencies(a, p, e, -x))
            add(["Omega"] * 3, kg.fundamental_frequencies(-a, p, e, x), kg.fundamental_frequencies(a, p, e, -x))
            for k, f in (("Yr", kg.r_frequency), ("Ysigned", kg.theta_frequency), ("Omega", kg.phi_frequency), ("Gamma", gamma)):
                add(k, f(-a, p, e, x), f(a, p, e, -x))
        elif entry == "object":
            o, m = kg.StableOrbit(-a, p, e, x, ph), kg.StableOrbit(a, p, e, -x, ph)
            add(["E", "L", "Q", "p", "e", "x"], [o.E, o.L, o.Q, o.p, o.e, o.x], [m.E, m.L, m.Q, m.p, m.e, m.x])
            add(["Yr", "Ytheta", "Omega", "Gamma"], [o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma],
                [m.upsilon_r, m.upsilon_theta, m.upsilon_phi, m.gamma])
            add(["Omega"] * 3, [o.omega_r, o.omega_theta, o.omega_phi], [m.omega_r, m.omega_theta, m.omega_phi])
            add(["E", "L", "Q"], o.constants_of_motion(), m.constants_of_motion())
            add(["Yr", "Ytheta", "Omega", "Gamma"], o.mino_frequencies(), m.mino_frequencies())
            add(["Omega"] * 3, o.fundamental_frequencies(), m.fundamental_frequencies())
            add(COORD, o.initial_position, m.initial_position)
            add(VEL, o.initial_velocity, m.initial_velocity)
            lam = rng.uniform(-20, 20) / o.upsilon_r
            add(COORD, [f(lam) for f in o.trajectory()], [f(lam) for f in m.trajectory()])
            add(VEL, [f(lam) for f in o.four_velocity()], [f(lam) for f in m.four_velocity()])
            d, f = o.trajectory_deltas(), m.trajectory_deltas()
            add(["t", "t", "Omega", "Omega"], [g(lam) for g in d], [g(lam) for g in f])
        elif entry == "trajectory":
            f, g = stable_trajectory(-a, p, e, x, ph), stable_trajectory(a, p, e, -x, mph)
            w = kg.mino_frequencies(a, p, e, -x)[0]
            n = noise(a)
            for _ in range(6):
                lam = rng.uniform(-30, 30) / w
                add(COORD, [v(lam) for v in f], [v(lam) for v in g])
        else:
            if e < 2e-3 or q["dist"] == "sep" or (q["dist"] == "close" and abs(a) > 0.99):
                return []
            m = kg.StableOrbit(a, p, e, -x, ph)
            both(add, -a, a, m, rng)
            n = min(noise(a), 34)
    else:
        w = plunges.concretise(q, rng)
        if w is None:
            return []
        a, E, L, Q, arr, roots = w
        scn["args"] = [a, E, L, Q]
        m = kg.PlungingOrbit(a, E, L, Q, ph)
        n = min(noise(a), 30)
        if entry == "plunge":
            o = kg.PlungingOrbit(-a, E, -L, Q, mph)
            add(["E", "L", "Q"], o.constants_of_motion(), m.constants_of_motion())
            add(["Yr", "Ytheta"], [o.upsilon_r, o.upsilon_theta], [m.upsilon_r, m.upsilon_theta])
            add(["Yr", "Ytheta"], plunging_mino_frequencies(-a, E, -L, Q), plunging_mino_frequencies(a, E, L, Q))
            f, g, h = o.trajectory(), m.trajectory(), plunging_trajectory(-a, E, -L, Q, mph)
            uf, ug = o.four_velocity(), m.four_velocity()
            for _ in range(6):
                lam = rng.uniform(-30, 30) / o.upsilon_r
                r = motion.num(g[1](lam))
                if abs(r * r - 2 * r + a * a) < 0.03 or abs(r) < 0.05:
                    continue
                add(COORD, [v(lam) for v in f], [v(lam) for v in g])
                add(COORD, [v(lam) for v in h], [v(lam) for v in g])
                add(VEL, [v(lam) for v in uf], [v(lam) for v in ug])
        else:
            r, th = m.initial_position[1:3]
            if abs(r * r - 2 * r + a * a) < 0.05 or r * r + (a * math.cos(th)) ** 2 < 0.01:
                return []
            both(add, -a, a, m, rng)
            n = min(n, 20)
    if not names:
        return []
    return [{"kind": "Pair", "frame": frame, "q": names, "A": A, "B": B, "n": n}]


def noise(a):
    a = abs(a)
    return 6 if a > 1 - 1e-3 else 20 if a > 0.98 else 34


def both(add, na, a, m, rng):
    """The orbits from the initial data of m and from their mirror image."""
    x, u = m.initial_position, m.initial_velocity
    c = kg.Orbit(a, tuple(x), tuple(u))
    o = kg.Orbit(na, (x[0], x[1], x[2], -x[3]), (u[0], u[1], u[2], -u[3]))
    add("stable", o.stable, c.stable)
    add(["E", "L", "Q"], o.constants_of_motion(), c.constants_of_motion())
    add(["Yr", "Ytheta"], [o.upsilon_r, o.upsilon_theta], [c.upsilon_r, c.upsilon_theta])
    if c.stable:
        add(["p", "e", "x"], [o.p, o.e, o.x], [c.p, c.e, c.x])
        add(["Omega", "Gamma"], [o.upsilon_phi, o.gamma], [c.upsilon_phi, c.gamma])
        add(["Omega"] * 3, [o.omega_r, o.omega_theta, o.omega_phi], [c.omega_r, c.omega_theta, c.omega_phi])
    f, g = o.trajectory(), c.trajectory()
    uf, ug = o.four_velocity(), c.four_velocity()
    for _ in range(5):
        lam = rng.uniform(-20, 20) / c.upsilon_r
        r = motion.num(g[1](lam))
        if abs(r * r - 2 * r + a * a) < 0.03 or abs(r) < 0.05:
            continue
        add(COORD, [v(lam) for v in f], [v(lam) for v in g])
        add(VEL, [v(lam) for v in uf], [v(lam) for v in ug])


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    by = {}
    for s in sorted(groups):
        if groups[s][0]["kind"] == "Pair":
            by.setdefault(s.split("-")[1], []).append(s)
    for entry, sids in by.items():
        for sid in rng.sample(sids, min(4, len(sids))):
            e = dict(groups[sid][0])
            for i, k in enumerate(e["q"]):
                if e["A"][i][0] == 0:
                    continue
                f = dict(e, A=e["A"][:i] + [bf(unbf(e["A"][i]) * 1.01 + 0.01)] + e["A"][i + 1:])
                yield "%s-%s" % (entry, k), [f], None
            if {"L", "x", "phi", "uphi"} & set(e["q"]):
                yield "%s-frame" % entry, [dict(e, frame="spin" if e["frame"] == "coord" else "coord")], None
