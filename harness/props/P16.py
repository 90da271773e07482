"""P16: histories of calls."""
import hashlib
import math
import os
import pickle
import random
import traceback
import core
import numpy as np
import motion
import params
import plunges
import states
from bf import bf
from core import Unexpected
import kerrgeopy as kg
from kerrgeopy import constants as kc, frequencies as kf, initial_conditions as ki, plunge as kp, stable as ks, units as ku
from kerrgeopy.spacetime import KerrSpacetime

MODELS = ["Session", ("ParamSpace", "ParamSpace_orbit"), "Plunge"]
TRACE = "TraceSession"
ASSUMPTIONS = ["two live objects, 29 operations, histories of 60 calls; one thread",
               "results are compared within 2^-24 of each value (2^-40 of the largest one): a time-dependent rounding is no history effect"]
PI = math.pi
OPS = ["make", "attributes", "constants", "mino", "fundamental", "trajectory", "phases", "unittrajectory", "deltas", "deltasphases", "velocity", "velocityphases",
       "numerical", "metric", "visible", "plot", "functions", "functiontrajectory", "failing", "fast", "recover", "solutions", "initial",
       "plotphases", "animate", "optional", "helpers", "numericalphases", "units"]
assert len(OPS) == 29


def cost(ev):
    return 1 + len(ev)


def scenarios(ctx):
    out = []
    for rep in range(8 if ctx.thorough else 1):
        for i, q in enumerate(ctx.models["Session"]):
            rng = ctx.rng(rep, i)
            out.append({"sid": "h-%d-%d" % (rep, i), "q": q, "seed": rng.randrange(10 ** 9), "cls": params.labels(q, ["kind", "pattern", "differ"]), "timeout": 300,
                        "par": rng.choice([w for w in ctx.models["ParamSpace_orbit"] if w["dist"] in ("close", "mid", "far")
                                           and (w["ecc"] in ("circ", "low", "mid") if q["kind"] == "special" else w["ecc"] in ("low", "mid", "high")) and
                                           (w["incl"] in ("pro", "retro") or w["spin"] == "zero" or w["ecc"] == "circ" if q["kind"] == "special"
                                            else w["incl"] in ("gen+", "gen-") and w["spin"] in ("small", "mid", "high"))]),
                        "plu": rng.choice(ctx.models["Plunge"])})
    return out


# ---------------------------------------------------------------------------- the two objects
def specify(scn, rng):
    """Arguments of A and B: dictionaries with kind, values and the inputs of the operations."""
    q = scn["q"]
    ph = tuple(rng.uniform(-4, 7) for _ in range(4))
    A = {"kind": q["kind"], "phases": ph, "M": 10 ** rng.uniform(-1, 7), "mu": rng.uniform(0.5, 50)}
    if rng.random() < 0.15 and q["differ"] not in ("M", "mu"):
        A["M"] = A["mu"] = None
    if q["kind"] in ("stable", "special", "state"):
        a, p, e, x = params.concretise(scn["par"], rng)
        if q["differ"] in ("a", "asign"):
            a = a or 0.3
        if q["differ"] == "xsign" or q["differ"] == "asign":
            p = max(p, 13.5)
        A.update(a=a, p=p, e=e, x=x)
    else:
        w = plunges.concretise(scn["plu"], rng)
        if w is None:
            return None
        A.update(a=w[0], E=w[1], L=w[2], Q=w[3])
        # the state constructor is for plunges with a polar motion
        if q["kind"] == "plungestate" and A["Q"] < 1e-3:
            return None
    if q["kind"] == "state":
        # (the same orbit with the spin turned positive)
        e, x, a, p = A["e"], A["x"] * math.copysign(1, A["a"] or 1), abs(A["a"]), A["p"]
        c = params.witness(a, p, e, x)
        if c is None:
            return None
        E, L, Q = c
        A["x"] = x
        th = math.acos(math.sqrt(1 - x * x) * rng.uniform(-0.8, 0.8))
        A.update(a=a, E=E, L=L, Q=Q, r=p / (1 + e * rng.uniform(-0.6, 0.6)), th=th, t=rng.uniform(-3, 3), phi=rng.uniform(-3, 3), sr=rng.choice([1, -1]), sth=rng.choice([1, -1]))
    if q["kind"] == "plungestate":
        lo, hi = plunges.turning(w[4], w[5])
        rp = 1 + math.sqrt(1 - A["a"] ** 2)
        zz = math.sqrt(plunges.polar_turning(A["a"], A["E"], A["L"], A["Q"]))
        A.update(r=rp + (hi - rp) * rng.uniform(0.2, 0.9), th=math.acos(zz * rng.uniform(-0.8, 0.8)), t=rng.uniform(-3, 3), phi=rng.uniform(-3, 3), sr=rng.choice([1, -1]),
                 sth=rng.choice([1, -1]))
    B = dict(A)
    d = q["differ"]
    eps = 10 ** rng.uniform(-4, -1.3)
    if d in ("a", "p", "E", "L", "Q", "M", "mu", "r"):
        B[d] = A[d] * (1 + eps * (1 if d in ("p", "M", "mu") else -1))
        if d in ("p",):
            pass
    elif d == "e":
        B["e"] = A["e"] * (1 - eps) if A["e"] else eps
    elif d == "x":
        B["x"] = A["x"] * (1 - eps)
    elif d in ("t", "phi"):
        B[d] = A[d] + eps
    elif d == "ur":
        B["sr"] = -A["sr"]
    elif d == "utheta":
        B["sth"] = -A["sth"]
    elif d in ("asign", "xsign"):
        B[d[0]] = -A[d[0]]
    elif d == "phases":
        k = rng.randrange(4)
        B["phases"] = tuple(v + (eps if i == k else 0) for i, v in enumerate(ph))
    for o in (A, B):
        if o["kind"] in ("state", "plungestate"):
            u = states.from_constants(o["a"], o["E"], o["L"], o["Q"], o["r"], o["th"], o["sr"], o["sth"])
            if u is None:
                return None
            o["u"], o["x0"] = tuple(float(v) for v in u), (o["t"], o["r"], o["th"], o["phi"])
        if o["kind"] in ("plunging", "plungestate"):
            s = plunges.structure(o["a"], o["E"], o["L"], o["Q"])
            if s is None or o["E"] >= 1 or abs(o["L"]) < 1e-3:
                return None
        if o["kind"] in ("stable", "special") and o["p"] <= params.ref_separatrix(abs(o["a"]), o["e"], o["x"] * math.copysign(1, o["a"] or 1)) * (1 + 1e-4):
            return None
    return A, B


def build(o):
    if o["kind"] in ("stable", "special"):
        return kg.StableOrbit(o["a"], o["p"], o["e"], o["x"], o["phases"], o["M"], o["mu"])
    if o["kind"] == "plunging":
        return kg.PlungingOrbit(o["a"], o["E"], o["L"], o["Q"], o["phases"], o["M"], o["mu"])
    return kg.Orbit(o["a"], o["x0"], o["u"], o["M"], o["mu"])


def flat(v):
    """Numbers in anything, in order."""
    if isinstance(v, (tuple, list)):
        return [w for u in v for w in flat(u)]
    v = np.asarray(v)
    if v.dtype == object:
        raise Unexpected("an array of objects")
    if v.dtype.kind == "c":
        return [float(w) for u in v.ravel() for w in (u.real, u.imag)]
    return [float(w) for w in v.ravel()]


def public(ob):
    """Digest of the public attributes present at birth."""
    out = {}
    for k, v in vars(ob).items():
        if not k.startswith("_") and not callable(v):
            try:
                out[k] = repr([u.hex() if u == u else "nan" for u in flat(v)]) if v is not None else "None"
            except Exception:  # noqa: BLE001
                out[k] = repr(v)
    return out


def digest(v):
    return hashlib.sha1(repr(v).encode()).hexdigest()[:12]


def packed(args):
    out = []
    for v in args:
        if isinstance(v, np.ndarray):
            out.append((str(v.dtype), v.shape, v.tobytes()))
        else:
            out.append(repr(v))
    return digest(out)


FORMS = ["floats", "array", "shuffled", "ints", "singles", "strided", "numpy"]


def evaluate(fns, times, form, rng, scalar=False):
    """Values of the functions at the times, obtained in one of many ways; the arrays involved are spoilt afterwards."""
    n = len(times)
    out = []
    watch = []
    for f in fns:
        if form == "floats" or scalar:
            v = [f(t) for t in times]
        elif form == "numpy":
            v = [f(np.float64(t)) for t in times]
        elif form == "ints":
            v = [f(int(t) if t == int(t) else t) for t in times]
            w = [i for i, t in enumerate(times) if t == int(t)]
            got = f(np.array([int(times[i]) for i in w]))
            if np.shape(got) != (len(w),):
                raise Unexpected("shape %s for %d integer times" % (np.shape(got), len(w)))
            for i, u in zip(w, got):
                v[i] = u
        elif form == "singles":
            v = []
            for t in times:
                g = f(np.array([t]))
                if np.shape(g) != (1,):
                    raise Unexpected("shape %s for one time" % (np.shape(g),))
                v.append(g[0])
        else:
            order = list(range(n))
            if form == "shuffled":
                rng.shuffle(order)
                order += [order[0]]
                if rng.random() < 0.3:       # many times, most of them more than once
                    order += [rng.randrange(n) for _ in range(rng.choice([80, 300, 1100]))]
            arg = np.array([float(times[i]) for i in order])
            if form == "array" and rng.random() < 0.4:
                # among many others, in the order of time
                lo, hi = min(arg), max(arg) + 1e-3
                arg = np.concatenate([arg, np.linspace(lo, hi, rng.choice([70, 257, 1024]))])
                rank = np.argsort(arg, kind="stable")
                arg = arg[rank]
                order = [int(k) if k < n else None for k in rank]
            if form == "strided":
                arg = np.repeat(arg, 2)[::2]
            keep = arg.copy()
            g = f(arg)
            if np.shape(g) != (len(order),):
                raise Unexpected("shape %s for %d times" % (np.shape(g), len(order)))
            watch.append((keep.tobytes(), arg.tobytes()))
            v = [None] * n
            for i, u in zip(order, g):
                if i is not None:
                    v[i] = float(u)
            # the caller owns both
            if isinstance(g, np.ndarray) and g.flags.writeable:
                g[...] = 123.0
            arg[...] = -7.0
        out += [motion.num(u) for u in v]
    return out, [digest(b) for b, a in watch], [digest(a) for b, a in watch]


class Session:
    """The objects of one process and what they handed out."""

    def __init__(self, spec, seed):
        self.spec = spec
        self.rng = random.Random(seed)
        self.obs, self.born, self.handles = {}, {}, {}

    def object(self, n):
        if n not in self.obs:
            self.obs[n] = build(self.spec[n])
            self.born[n] = public(self.obs[n])
        return self.obs[n]

    def prints(self):
        out = {}
        for n, ob in self.obs.items():
            now = public(ob)
            out[n] = digest([(k, now.get(k, "missing")) for k in sorted(self.born[n])])
        return out

    def call(self, n, op):
        """(outcome, values, digest of the arguments before and after)"""
        o = self.spec[n]
        form = self.rng.choice(FORMS)
        ob = self.object(n)
        args = []
        try:
            res = getattr(self, "op_" + op)(ob, o, o["in"], args)
        except ValueError:
            return {"out": "ValueError", "v": []}, "", "", False
        except Exception as ex:  # noqa: BLE001
            # the outcome of the call; where alone it gives a value (or the other way round) that shows
            if not any(f.filename.startswith(core.REPO) for f in traceback.extract_tb(ex.__traceback__)):
                raise
            return {"out": type(ex).__name__, "v": []}, "", "", False
        before, after = packed([b for b, _ in args]), packed([a for _, a in args])
        if isinstance(res, tuple) and res and all(callable(f) for f in res):
            times = o["in"]["times"]
            scalar = op.startswith("numerical")
            v, b, a = evaluate(res, times, form, self.rng, scalar)
            self.handles[(n, op)] = (res, times, scalar)
            return {"out": "value", "v": v}, before + digest(b), after + digest(a), True
        v = flat(res)
        # the caller owns a returned array
        if isinstance(res, np.ndarray) and res.flags.writeable:
            res[...] = 123
        return {"out": "value", "v": v}, before, after, False

    def again(self, n, op):
        f, times, scalar = self.handles[(n, op)]
        v, _, _ = evaluate(f, times, self.rng.choice(FORMS), self.rng, scalar)
        return v

    # ---- operations
    def lent(self, args, v):
        """A mutable argument: watched."""
        args.append((v.copy() if isinstance(v, np.ndarray) else list(v), v))
        return v

    def op_make(self, ob, o, q, args):
        new = build(o)
        return [new.E, new.L, new.Q, new.upsilon_r, new.upsilon_theta, list(new.initial_phases)]

    def op_attributes(self, ob, o, q, args):
        v = [ob.a, ob.E, ob.L, ob.Q, ob.upsilon_r, ob.upsilon_theta, list(ob.initial_phases), list(ob.initial_position), list(ob.initial_velocity), ob.stable]
        return v + ([ob.p, ob.e, ob.x, ob.upsilon_phi, ob.gamma, ob.omega_r, ob.omega_theta, ob.omega_phi] if ob.stable else [])

    def op_constants(self, ob, o, q, args):
        return list(ob.constants_of_motion(units=q["units"]))

    def op_mino(self, ob, o, q, args):
        if isinstance(ob, kg.StableOrbit):
            return list(ob.mino_frequencies(units=q["funits"]))
        if ob.stable:
            return list(kf.mino_frequencies(ob.a, ob.p, ob.e, ob.x))
        return list(kf.plunging_mino_frequencies(ob.a, ob.E, ob.L, ob.Q))

    def op_fundamental(self, ob, o, q, args):
        if isinstance(ob, kg.StableOrbit):
            return list(ob.fundamental_frequencies(units=q["funits"]))
        if ob.stable:
            return list(kf.fundamental_frequencies(ob.a, ob.p, ob.e, ob.x))
        return list(kg.mino_frequencies(*q["other"]))

    def op_trajectory(self, ob, o, q, args):
        return tuple(ob.trajectory())

    def op_phases(self, ob, o, q, args):
        ph = self.lent(args, q["phases"][:])
        return tuple(ob.trajectory(ph))

    def op_unittrajectory(self, ob, o, q, args):
        return tuple(ob.trajectory(distance_units=q["dunits"], time_units=q["tunits"]))

    def op_deltas(self, ob, o, q, args):
        return tuple(ob.trajectory_deltas())

    def op_deltasphases(self, ob, o, q, args):
        return tuple(ob.trajectory_deltas(self.lent(args, q["phases"][:])))

    def op_velocity(self, ob, o, q, args):
        return tuple(ob.four_velocity())

    def op_velocityphases(self, ob, o, q, args):
        return tuple(ob.four_velocity(initial_phases=self.lent(args, q["phases"][:])))

    def op_numerical(self, ob, o, q, args):
        return tuple(ob.numerical_four_velocity())

    def op_metric(self, ob, o, q, args):
        s = KerrSpacetime(o["a"])
        v = self.lent(args, np.array(q["vector"]))
        n = s.norm(*q["event"], v)
        m = s.metric(*q["event"])
        out = flat(m) + [float(n)]
        m[...] = 5
        return out + flat(s.metric(*q["event"])) + flat([getattr(s, k) for k in ("inner_horizon", "outer_horizon") if hasattr(s, k)])

    def op_visible(self, ob, o, q, args):
        return ob.is_visible(self.lent(args, np.array(q["points"])), *q["view"])

    def op_plotphases(self, ob, o, q, args):
        return self.op_plot(ob, o, q, args, initial_phases=self.lent(args, q["phases"][:]), **q["draw"])

    def op_animate(self, ob, o, q, args):
        from props.P20 import recording
        out, info = [], {}

        def frame(k, fig):
            ax = [x for x in fig.axes if x.name == "3d"][0]
            out.extend([float(ax.elev), float(ax.azim), float(ax.roll)] + [float(w) for w in ax.get_xlim3d()])
            for c in ax.collections:
                if hasattr(c, "_segments3d"):
                    s = np.asarray(c._segments3d)
                    out.extend([float(len(s)), float(np.abs(s[np.isfinite(s)]).sum())])
                elif hasattr(c, "_offsets3d"):
                    out.extend(flat([np.sum(np.asarray(w)) for w in c._offsets3d]))
        kw = dict(q["film"])
        if q["filmphases"]:
            kw["initial_phases"] = self.lent(args, q["phases"][:])
        l0 = q["span"][0]
        with recording(frame, info, set()):
            ob.animate("/nonexistent/film.mp4", l0, l0 + 25.5 / 240, **kw)
        return out + [float(info["n"])]

    def op_optional(self, ob, o, q, args):
        a, p, e, x = q["par"]
        c = self.lent(args, [float(v) for v in kg.constants_of_motion(a, p, e, x)])
        ur, ut = kf.r_frequency(a, p, e, x, c), kf.theta_frequency(a, p, e, x, c)
        return [kf.phi_frequency(a, p, e, x, c, ur, ut), kf.gamma(a, p, e, x, c, ur, ut), ur, ut, kf.phi_frequency(a, p, e, x, upsilon_r=ur), kf.gamma(a, p, e, x, constants=c),
                kc.angular_momentum(a, p, e, x, c[0]), kc.carter_constant(a, p, e, x, c[0], c[1]), kc.carter_constant(a, p, e, x, E=c[0]),
                list(kc.stable_radial_roots(a, p, e, x, c)), list(kc.stable_polar_roots(a, p, e, x, c)), list(kc.polar_roots_from_constants(a, *c)),
                list(kc.scale_constants(c, 3.0, 0.5))]

    def op_helpers(self, ob, o, q, args):
        x0, u0 = self.lent(args, [float(v) for v in ob.initial_position]), self.lent(args, [float(v) for v in ob.initial_velocity])
        c = self.lent(args, [float(v) for v in (ob.E, ob.L, ob.Q)])
        out = [bool(ki.is_stable(ob.a, x0, u0, c))]
        if ob.stable:
            return out + [list(ki.stable_orbit_initial_phases(ob.a, x0, u0, constants=c))]
        roots = self.lent(args, list(kc.plunging_radial_roots(ob.a, *c)))
        return out + [list(ki.plunging_orbit_initial_phases(ob.a, x0, u0, constants=c, radial_roots=roots))]

    def op_numericalphases(self, ob, o, q, args):
        return tuple(ob.numerical_four_velocity(q["dx"], self.lent(args, q["phases"][:])))

    def op_units(self, ob, o, q, args):
        out = []
        for f in q["conversions"]:
            v = self.lent(args, np.array(q["vector"]))
            g = getattr(ku, f)(v) if f == "mass_in_kg" else getattr(ku, f)(v, 7.0)
            out += flat(g)
            if g is not v and g.flags.writeable:
                g[...] = 99
        return out

    def op_plot(self, ob, o, q, args, **kw):
        import matplotlib.pyplot as plt
        try:
            fig, ax = ob.plot(*q["span"], **q["look"], **kw)
            out = [float(ax.elev), float(ax.azim)]
            for c in ax.collections:
                if hasattr(c, "_segments3d"):
                    s = np.asarray(c._segments3d)
                    out += [float(len(s)), float(np.abs(s).sum())]
                elif hasattr(c, "_offsets3d"):
                    out += flat([np.sum(np.asarray(w)) for w in c._offsets3d])
            return out
        finally:
            plt.close("all")

    def op_functions(self, ob, o, q, args):
        a, p, e, x = q["par"]
        c = kg.constants_of_motion(a, p, e, x)
        roots = kc.stable_radial_roots(a, p, e, x)
        out = [kg.separatrix(abs(a), e, x), list(c), list(roots), list(kc.stable_polar_roots(a, p, e, x)), kc.energy(a, p, e, x), kc.angular_momentum(a, p, e, x),
               kc.carter_constant(a, p, e, x), kf.r_frequency(a, p, e, x), kf.theta_frequency(a, p, e, x), kf.phi_frequency(a, p, e, x), kf.gamma(a, p, e, x),
               list(kg.mino_frequencies(a, p, e, x)), list(kg.fundamental_frequencies(a, p, e, x)), bool(kg.is_stable(abs(a), p, e, x))]
        if not (ob.stable if o["kind"] != "plunging" else False):
            out += [list(kc.plunging_radial_roots(ob.a, ob.E, ob.L, ob.Q))]
        return out + [ku.time_in_seconds(p, 3.0), ku.distance_in_km(p, 2.0), ku.frequency_in_mHz(x, 1e6), list(kc.scale_constants(c, 1.0, 0.1))]

    def op_functiontrajectory(self, ob, o, q, args):
        ph = self.lent(args, q["phases"][:])
        if ob.stable:
            return tuple(ks.stable_trajectory(ob.a, ob.p, ob.e, ob.x, ph, o["M"]))
        return tuple(kp.plunging_trajectory(ob.a, ob.E, ob.L, ob.Q, ph, o["M"]))

    def op_failing(self, ob, o, q, args):
        w = q["fail"]
        if w == "frequency":
            return list(kg.mino_frequencies(0.5, 3.0, 0.2, 0.5))
        if w == "orbit":
            return build(dict(o, a=1.5))
        if w == "unit":
            return list(kg.StableOrbit(0.5, 10.0, 0.2, 0.5).constants_of_motion(units="mks"))
        if w == "parameter":
            return list(kg.constants_of_motion(0.5, 10.0, 1.5, 0.5))
        return kg.Orbit(0.5, (0, 10.0, 1.5, 0), (1.0, 0.9, 0.0, 0.0)).E

    def op_fast(self, ob, o, q, args):
        f = kc.fast_separatrix(abs(o["a"]), q["spacing"])
        return [float(f(e, x)[0, 0]) for e, x in q["places"]]

    def op_recover(self, ob, o, q, args):
        if ob.stable:
            if o["a"] < 0:
                return [1.0]
            new = kg.StableOrbit.from_constants(ob.a, ob.E, ob.L, ob.Q)
            return [new.p, new.e, new.x, new.E] + [motion.num(f(1.25)) for f in new.trajectory()]
        new = kg.PlungingOrbit(ob.a, ob.E, ob.L, ob.Q)
        return [motion.num(f(0.25)) for f in new.trajectory()]

    def op_solutions(self, ob, o, q, args):
        if ob.stable:
            c = (ob.E, ob.L, ob.Q)
            par = (ob.a, ob.p, ob.e, ob.x)
            return tuple(ks.radial_solutions(ob.a, c, kc.stable_radial_roots(*par))) + tuple(ks.polar_solutions(ob.a, c, kc.stable_polar_roots(*par)))
        roots = kc.plunging_radial_roots(ob.a, ob.E, ob.L, ob.Q)
        if np.iscomplex(roots[3]):
            return tuple(kp.plunging_radial_solutions_complex(ob.a, ob.E, ob.L, ob.Q)) + tuple(kp.plunging_polar_solutions(ob.a, ob.E, ob.L, ob.Q))
        return tuple(ks.radial_solutions(ob.a, (ob.E, ob.L, ob.Q), np.real(roots)))

    def op_initial(self, ob, o, q, args):
        x0, u0 = self.lent(args, [float(v) for v in ob.initial_position]), self.lent(args, [float(v) for v in ob.initial_velocity])
        out = [list(ki.constants_from_initial_conditions(ob.a, x0, u0)), bool(ki.is_stable(ob.a, x0, u0))]
        if ob.stable:
            return out + [list(ki.stable_orbit_initial_phases(ob.a, x0, u0))]
        return out + [list(ki.plunging_orbit_initial_phases(ob.a, x0, u0))]


def inputs(o, rng, stable):
    """What the operations get besides the object; the same for both objects."""
    a, e, x = rng.uniform(0, 0.95), rng.uniform(0, 0.6), rng.choice([1, -1]) * rng.uniform(0.2, 1)
    M = o["M"] is not None
    return {"times": [0, 1, -2.0, rng.uniform(-5, 5), rng.uniform(0, 0.5), 10 ** rng.uniform(0, 2), 3, rng.choice([1, -1]) * 10 ** rng.uniform(2, 6)],
            "units": rng.choice(["natural", "mks", "cgs"]), "funits": rng.choice(["natural", "mks", "cgs"]),
            "dunits": rng.choice(["natural", "mks", "cgs", "au", "km"]) if M else "natural", "tunits": rng.choice(["natural", "mks", "cgs", "days"]) if M else "natural",
            "phases": [rng.uniform(-4, 7) for _ in range(4)], "vector": [rng.gauss(0, 1) for _ in range(4)], "event": [0.5, rng.uniform(3, 20), rng.uniform(0.3, 2.8), 1.0],
            "points": [[rng.gauss(0, 4) for _ in range(3)] for _ in range(8)] + [[rng.gauss(0, 0.5) for _ in range(3)], [0.0, 0.0, 0.0], [math.nan] * 3], "view": (rng.uniform(-80, 80), rng.uniform(-180, 180)),
            "span": (0.0, rng.uniform(0.5, 4)), "look": {"elevation": rng.uniform(-80, 80), "azimuth": rng.uniform(-180, 180)} if rng.random() < 0.5 else {},
            "draw": rng.choice([{}, {"tau": 2.0}, {"grid": False, "axes": False}, {"lw": 2, "color": "blue"}, {"point_density": 50}]),
            "film": rng.choice([{}, {"elevation": 10.0, "azimuth": 70.0}, {"tail_length": 0.05, "speed": 0.5}, {"tau": 0.5}, {"plot_components": True}, {"axis_limit": lambda lam: 9.0}]),
            "filmphases": rng.random() < 0.5, "dx": rng.choice([1e-6, 1e-5]),
            "conversions": ["mass_in_kg", "distance_in_km", "time_in_seconds", "time_in_days", "energy_in_joules", "angular_momentum_in_cgs", "carter_constant_in_mks", "frequency_in_mHz"],
            "par": [a, 15.0 + rng.random(), e, x], "other": [a, 14.0 + rng.random(), e, x], "fail": rng.choice(["frequency", "orbit", "unit", "parameter", "state"]),
            "spacing": rng.choice([0.25, 0.2]), "places": [(rng.random(), rng.uniform(-1, 1)) for _ in range(4)]}


def forked(f):
    """Result of f() in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = (True, f())
            except BaseException as ex:  # noqa: BLE001
                res = (False, ("".join(traceback.format_exception(ex)), any(t.filename.startswith(core.REPO) for t in traceback.extract_tb(ex.__traceback__)) or isinstance(ex, Unexpected),
                               "%s: %s" % (type(ex).__name__, str(ex)[:200])))
            with os.fdopen(w, "wb") as h:
                pickle.dump(res, h)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    if not data:
        raise Unexpected("the process died")
    good, v = pickle.loads(data)
    if not good:
        if v[1]:
            raise Unexpected(v[2])
        raise RuntimeError(v[0])
    return v


def run(scn, ctx):
    rng = random.Random(scn["seed"])
    sp = specify(scn, rng)
    for _ in range(30):
        if sp:
            break
        sp = specify(scn, rng)
    if not sp:
        return []
    A, B = sp
    A["in"] = B["in"] = inputs(A, rng, A["kind"] in ("stable", "special", "state"))
    if A["kind"] in ("plunging", "plungestate"):
        A["in"]["times"] = [t if abs(t) <= 5 else math.copysign(4.5, t) for t in A["in"]["times"]]
    q = scn["q"]
    n = len(OPS)
    calls = []
    for i in range(n + 1):
        op = OPS[(i * q["step"]) % n]
        calls += [("A", op), ("B" if q["pattern"] == "alternate" else "A", op)]
    spec = {"A": A, "B": B}
    keys = sorted(set(calls))
    name = {k: i for i, k in enumerate(keys)}
    ev = [{"kind": "Start"}]
    for k in keys:
        out, _, _, _ = forked(lambda: Session(spec, scn["seed"]).call(*k))
        ev.append({"kind": "Golden", "key": name[k] + 1, "call": list(k), "out": out["out"], "v": [bf(v) for v in out["v"]]})

    def history():
        s = Session(spec, scn["seed"] + 1)
        got = []
        for o in sorted(set(o for o, _ in calls)):
            s.object(o)
            got.append({"kind": "Born", "obj": o, "print": s.prints()[o]})
        for k in calls:
            out, b, a, fns = s.call(*k)
            got.append({"kind": "Call", "key": name[k] + 1, "call": list(k), "out": out["out"], "v": [bf(v) for v in out["v"]], "before": b, "after": a, "functions": fns,
                        "prints": s.prints()})
            if s.handles and s.rng.random() < 0.3:
                w = s.rng.choice(sorted(s.handles))
                got.append({"kind": "Again", "key": name[w] + 1, "call": list(w), "v": [bf(v) for v in s.again(*w)]})
        for w in sorted(s.handles):
            got.append({"kind": "Again", "key": name[w] + 1, "call": list(w), "v": [bf(v) for v in s.again(*w)]})
        return got
    scn["args"] = {n: {k: v for k, v in o.items() if k != "in"} for n, o in spec.items()}
    return ev + forked(history)


def canaries(groups, ctx):
    rng = ctx.rng("canary")
    sids = [s for s in sorted(groups) if len(groups[s]) > 60]
    for s in rng.sample(sids, min(4, len(sids))):
        g = groups[s]
        calls = [i for i, e in enumerate(g) if e["kind"] == "Call" and e["out"] == "value" and e["v"]]
        i = rng.choice(calls)
        e = g[i]
        k = rng.randrange(len(e["v"]))
        yield "value", g[:i] + [dict(e, v=e["v"][:k] + [bf(1.0e9 / 7)] + e["v"][k + 1:])] + g[i + 1:], "History"
        yield "raised", g[:i] + [dict(e, out="ValueError")] + g[i + 1:], "History"
        yield "missing", g[:i] + [dict(e, v=e["v"][1:])] + g[i + 1:], "History"
        yield "arguments", g[:i] + [dict(e, after=e["after"] + "x")] + g[i + 1:], "Arguments"
        yield "objects", g[:i] + [dict(e, prints={o: "x" + v for o, v in e["prints"].items()})] + g[i + 1:], "Objects"
        again = [i for i, e in enumerate(g) if e["kind"] == "Again"]
        i = rng.choice(again)
        yield "handed", g[:i] + [dict(g[i], v=[bf(1.0e9 / 7)] * len(g[i]["v"]))] + g[i + 1:], "HandedOut"
