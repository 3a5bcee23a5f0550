"""The numeric type in which the arguments are given makes no difference."""
import math
import numpy as np
import gen as G
import ref
import kerrgeopy as kg
from kerrgeopy import constants as C, frequencies as F, initial_conditions as IC, units as U_
from kerrgeopy.spacetime import KerrSpacetime
from kerrgeopy.stable import radial_solutions, polar_solutions, stable_trajectory
from kerrgeopy.plunge import plunging_trajectory, plunging_radial_integrals, plunging_radial_solutions_complex, plunging_polar_solutions

QUICK = 1.2
LEVEL = "exploration"
RULE = ("stable orbits and plunges with parameters that are whole numbers or exactly representable in half or single precision, initial data, "
        "phases, masses and lengths alike; every argument is passed as python float and again in randomly chosen types that hold the same value "
        "(python int, numpy integers of 8 to 64 bits, signed and unsigned, half/single/double/extended precision scalars, 0-d arrays, arrays of "
        "a common type for tuples); the two answers must agree; non-trivial = one answer compared")
ASSUMPTIONS = ["agreement to 1e-11 of the size of the answer times the conditioning factor of the orbit"]
REQUIRED = ["constants", "frequencies", "separatrix", "stable roots", "stable trajectory", "stable velocity", "stable deltas", "from constants",
            "plunging roots", "plunging frequencies", "plunging trajectory", "plunging velocity", "plunging deltas", "building blocks",
            "initial data constants", "initial phases", "orbit from data", "spacetime", "unit conversions", "units of orbits", "narrow integers",
            "single precision values", "whole parameters", "refused either way", "plot", "animation", "visibility"]
SCALARS = [int, np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64,
           np.float16, np.float32, np.float32, np.float64, np.longdouble]


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((1600 if tier == "quick" else 24000) * scale)
    for i in range(n):
        fam = ("stable", "plunge", "data", "units")[(0, 0, 1, 1, 2, 0, 1, 3)[i % 8]]
        if i % 20 == 3:
            fam = "graphics"
        c = dict(fam=fam, kind="", prec=("whole", "half", "single")[int(rng.integers(3))], ts=int(rng.integers(2 ** 31)))
        cut = dict(whole=np.float32, half=np.float16, single=np.float32)[c["prec"]]
        if fam == "stable":
            b = G.stable(rng)
            c["kind"] = b["kind"]
            a, p, e, x = (b[s] for s in "apex")
            if c["prec"] == "whole":
                p = float(math.ceil(p))
                if rng.random() < 0.6:
                    e = 0.0
                if rng.random() < 0.6:
                    x = float(G.pick(rng, 1, -1))
                if rng.random() < 0.3:
                    a = 0.0
                if rng.random() < 0.5:
                    p = float(int(10 ** U(1.2, 5)))
            v = [float(cut(s)) for s in (a, p, e, x)]
            if not np.all(np.isfinite(v)) or abs(v[0]) >= 1 or v[2] >= 1 or abs(v[3]) > 1:
                continue
            c["refuse"] = bool(rng.random() < 0.06)
            if c["refuse"]:
                v[1] = float(int(U(1, 2.5)) if c["prec"] == "whole" else cut(U(0.5, 2)))
            else:
                try:
                    c["gap"] = v[1] - G.sep(v[0], v[2], v[3])
                    if not c["gap"] > 1e-3 * v[1]:
                        continue
                except Exception:  # noqa: BLE001
                    continue
            c["par"] = v
        elif fam == "plunge":
            b = G.plunge(rng)
            a, E, L, Q = (b[s] for s in ("a", "E", "L", "Q"))
            c["kind"] = b["kind"]
            if c["prec"] == "whole":
                L, Q = float(round(L)), float(math.ceil(Q))
                if rng.random() < 0.3:
                    E, L, Q = U(0.8, 0.99), float(rng.integers(-4, 2)), float(rng.integers(1, 60))
            v = [float(cut(s)) for s in (a, E, L, Q)]
            if abs(v[0]) >= 1 or v[1] >= 1 or abs(v[0]) < 1e-6 or abs(v[2]) < 1e-3 or not (0 < v[3] or b["Q"] == 0):
                continue
            d = G._roots_ok(*v, "any")
            if d is None or d < 0.02:
                continue
            c["par"] = v
        elif fam == "data":
            r = float(int(U(6, 400)) if rng.random() < 0.7 else np.float32(U(6, 60)))
            th = float(G.pick(rng, 1, 2, np.float32(U(0.4, 2.7))))
            a = float(cut(G.spin(rng)))
            w = float(np.float32(r ** -1.5))
            ur, uth = (float(cut(s)) for s in (U(-.2, .2) * r ** -0.5, U(-.6, .6) * w))
            uph = float(cut(U(.5, 1) * G.sgn(rng) * w / np.sin(th)))
            if abs(a) >= 1 or a == 0:
                continue
            t0, ph0 = float(int(U(-200, 200))), float(int(U(-6, 6)))
            ut = G.unit_velocity(a, r, th, ur, uth, uph)[0]
            c["par"] = [a, t0, r, th, ph0, float(ut), ur, uth, uph]
        elif fam == "graphics":
            c["par"] = [float(cut(U(0.1, 0.95))), float(int(U(9, 40))), 0.25, float(cut(U(0.2, 0.9) * G.sgn(rng)))]
            c["movie"] = bool(rng.random() < 0.25)
            l0 = float(G.pick(rng, 0, int(U(-120, 120)), np.float16(U(-9, 9))))
            span = 1.0 if c["movie"] else float(int(U(1, 6)))
            c["span"] = [l0, l0 + (span if rng.random() < 0.5 else float(np.float16(U(0.3, 1))))]
            c["look"] = [float(int(U(-90, 90))), float(int(U(-180, 180)))]
            c["style"] = [float(int(U(1, 4))), float(int(U(1, 9)))]
            c["count"] = float(int(U(20, 200)))
            c["speed"] = float(G.pick(rng, 4, 9, 16, 30, 2.5))
            c["pts"] = [[float(int(v)) for v in w] for w in rng.normal(size=(20, 3)) * 10 ** U(0.2, 2)]
        else:
            c["par"] = []
        ints = rng.random() < 0.5
        c["q"] = [float(round(s) if ints else np.float16(s)) for s in (U(-9, 9), U(0, 6), U(0, 6), U(-4, 4))]
        c["lam"] = [float(s) for s in U(-1, 1, 5)]
        c["M"] = float(int(10 ** U(0.5, 9))) if rng.random() < 0.6 else float(np.float32(10 ** U(-1, 10)))
        c["mu"] = float(int(U(1, 120))) if rng.random() < 0.6 else float(np.float16(U(0.5, 90)))
        c["d"] = float(int(10 ** U(0, 8))) * G.sgn(rng) if rng.random() < 0.6 else float(np.float32(10 ** U(-6, 9)))
        yield c


class Forms:
    """Other numeric types holding the same value."""

    def __init__(self, seed, mon):
        self.rng, self.mon = np.random.default_rng(seed), mon

    def one(self, v):
        for _ in range(40):
            T = SCALARS[int(self.rng.integers(len(SCALARS)))]
            if T is not float and T not in (np.float16, np.float32, np.float64, np.longdouble):
                if not float(v).is_integer() or (v == 0 and math.copysign(1, v) < 0):
                    continue
                if T is not int and not np.iinfo(T).min <= v <= np.iinfo(T).max:
                    continue
            with np.errstate(all="ignore"):
                w = T(v)
            if float(w) != v:
                continue
            if T in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32):
                self.mon.event("narrow integers")
            if T in (np.float16, np.float32):
                self.mon.event("single precision values")
            return np.array(w) if T is not int and self.rng.random() < 0.15 else w
        return np.float64(v)

    def many(self, vs):
        """a sequence, in a tuple, a list or an array of one type"""
        k = int(self.rng.integers(4))
        if k == 0:
            return [self.one(v) for v in vs]
        if k == 1:
            for T in (np.int8, np.int16, np.int32, np.uint8, np.float16, np.float32, np.int64):
                if T in (np.float16, np.float32) or all(float(v).is_integer() and np.iinfo(T).min <= v <= np.iinfo(T).max for v in vs):
                    with np.errstate(all="ignore"):
                        w = np.array(vs).astype(T)
                    if np.all(w.astype(float) == np.array(vs)):
                        return w
        return tuple(self.one(v) for v in vs)


def flat(v):
    if isinstance(v, (tuple, list)):
        return np.concatenate([flat(s) for s in v]) if len(v) else np.zeros(0)
    return np.atleast_1d(np.asarray(v)).astype(complex).ravel()


def both(mon, name, f, args, forms, k=1.0, post=None, sq=()):
    """f of floats and f of the same numbers in other types: same answer or both refuse"""
    def get(x, strict):
        try:
            y = f(*x)
            return None, (post(y) if post else y)
        except Exception as ex:  # noqa: BLE001
            return ex, None
    mon.event(name)
    mon.event("calls", 2)
    ex0, want = get(args, False)
    ex1, got = get(forms, True)
    if ex0 is not None:
        mon.ok("refused either way", ex1 is not None, function=f.__name__ if hasattr(f, "__name__") else name, got=got, types=types(forms))
        return
    if ex1 is not None:
        mon.fail(name + " raised", exception="%s: %s" % (type(ex1).__name__, str(ex1)[:200]), types=types(forms))
        return
    w, g = flat(want), flat(got)
    if not mon.ok(name, w.shape == g.shape, got=got, want=want, types=types(forms)):
        return
    if not np.all(np.isfinite(w)):
        mon.event("reference call not finite")
        keep = np.isfinite(w)
        w, g = w[keep], g[keep]
    if w.size:
        tol = 1e-11 * k * np.maximum(np.abs(w), 1e-3 * np.abs(w).max()) + 1e-300
        err = np.abs(g - w)
        mon.le(name, err, tol, got=[str(s) for s in g[:9]], want=[str(s) for s in w[:9]], function=getattr(f, "__name__", name), types=types(forms))


def types(x):
    return str([type(v).__name__ + ("" if not isinstance(v, (tuple, list, np.ndarray)) else
                                    (":" + str(v.dtype) if isinstance(v, np.ndarray) else str([type(s).__name__ for s in v]))) for v in x])


def sample(lam):
    def post(fs):
        return [[np.asarray(f(s), float) for s in (lam, float(lam[0]))] for f in fs]
    return post


def run(c, mon):
    T = Forms(c["ts"], mon)
    globals()["run_" + c["fam"]](c, mon, T)


def smooth(g, lam, q):
    """away from turning points and horizons, where the answers are smooth functions of the arguments"""
    m = np.ones(lam.shape, bool)
    for u, q0 in ((g.Ups_r, q[1]), (g.Ups_theta, q[2])):
        m &= np.abs((u * lam + q0 + np.pi / 2) % np.pi - np.pi / 2) > 1e-3
    x = g.state(lam, q)
    return m & (np.minimum(np.abs(x[1] - g.rp), np.abs(x[1] - g.rm)) > 0.02) & (x[1] ** 2 + g.a ** 2 * np.cos(x[2]) ** 2 > 0.05)


def orbit(mon, tag, c, T, cls, args, forms, g, k):
    q, M, mu = c["q"], c["M"], c["mu"]
    lam = np.array(c["lam"]) * 6 / float(max(g.Ups_r, g.Ups_theta))
    lam = lam[smooth(g, lam, q)]
    if not lam.size:
        return
    build = lambda *v: cls(*v[:4], v[4], v[5], v[6])  # noqa: E731
    A, B = (*args, tuple(q), M, mu), (*forms, T.many(q), T.one(M), T.one(mu))
    dist, time = ("natural", "mks", "cgs", "au", "km")[c["ts"] % 5], ("natural", "mks", "cgs", "days")[c["ts"] % 4]
    both(mon, tag + " trajectory", lambda *v: build(*v).trajectory(distance_units=dist, time_units=time), A, B, k, sample(lam))
    both(mon, tag + " trajectory", lambda *v: build(*v[:4], (0, 0, 0, 0), None, None).trajectory(v[4]), A, B, k, sample(lam))
    fn = stable_trajectory if cls is kg.StableOrbit else plunging_trajectory
    both(mon, tag + " trajectory", lambda *v: fn(*v[:6], dist, time), A, B, k, sample(lam))
    both(mon, tag + " velocity", lambda *v: build(*v).four_velocity(), A, B, 1e3 * k, sample(lam))
    both(mon, tag + " velocity", lambda *v: build(*v[:4], (0, 0, 0, 0), None, None).four_velocity(v[4]), A, B, 1e3 * k, sample(lam))
    # a difference quotient amplifies the last digits
    both(mon, tag + " velocity", lambda *v: build(*v[:6], None).numerical_four_velocity(dx=v[6]), (*A[:6], 2.0 ** -12), (*B[:6], T.one(2.0 ** -12)), 1e6 * k, sample(lam))
    both(mon, tag + " deltas", lambda *v: build(*v).trajectory_deltas(), A, B, k, sample(lam))
    both(mon, tag + " deltas", lambda *v: build(*v[:4], (0, 0, 0, 0), None, None).trajectory_deltas(v[4]), A, B, k, sample(lam))
    for un in ("natural", "mks", "cgs"):
        both(mon, "units of orbits", lambda *v: build(*v).constants_of_motion(un), A, B, k)
    if cls is kg.StableOrbit:
        for un in ("natural", "mks", "cgs"):
            both(mon, "units of orbits", lambda *v: build(*v).mino_frequencies(un), A, B, k)
        for un in ("natural", "mks", "cgs", "mHz"):
            both(mon, "units of orbits", lambda *v: build(*v).fundamental_frequencies(un), A, B, k)
    both(mon, tag + " trajectory", lambda *v: [float(s) for s in build(*v).initial_position], A, B, k)


def run_stable(c, mon, T):
    p = c["par"]
    k = G.cond(dict(zip("apex", p), gap=c["gap"])) if not c["refuse"] else 1.0
    forms = [T.one(v) for v in p]
    if sum(float(v).is_integer() for v in p) > 1:
        mon.event("whole parameters")
    for f in (C.constants_of_motion, C.energy, C.angular_momentum, C.carter_constant):
        both(mon, "constants", f, p, forms, k)
    for f in (F.mino_frequencies, F.fundamental_frequencies, F.r_frequency, F.theta_frequency, F.phi_frequency, F.gamma):
        both(mon, "frequencies", f, p, forms, k)
    if p[0] >= 0:
        both(mon, "separatrix", C.separatrix, [p[0], p[2], p[3]], [forms[0], forms[2], forms[3]])
        both(mon, "separatrix", C.is_stable, p, forms)
        both(mon, "separatrix", lambda *v: KerrSpacetime(v[0]).separatrix(v[2], v[3]), p, forms)
        both(mon, "separatrix", lambda *v: KerrSpacetime(v[0]).is_stable(*v[1:]), p, forms)
    both(mon, "separatrix", C.valid_params, [abs(p[0]), p[2], p[3]], [T.one(abs(p[0])), forms[2], forms[3]])
    if c["refuse"]:
        return
    E, L, Q = (float(v) for v in C.constants_of_motion(*p))
    both(mon, "constants", C.angular_momentum, [*p, E], [*forms, T.one(E)], k)
    both(mon, "constants", C.carter_constant, [*p, E, L], [*forms, T.one(E), T.one(L)], k)
    if p[3] != 0:
        s = [abs(p[0]), p[1], p[2], p[3] if p[0] >= 0 else -p[3]]
        fs = [T.one(v) for v in s]
        if p[2] < 1:
            both(mon, "stable roots", C.stable_radial_roots, s, fs, k)
        both(mon, "stable roots", C.stable_polar_roots, s, fs, k)
        con = [float(np.float32(v)) for v in (E, L, Q)] if abs(p[3]) != 1 else [E, L, Q]
        both(mon, "stable roots", C.stable_radial_roots, [*s, (E, L, Q)], [*fs, T.many((E, L, Q))], k)
        # an orbit from constants of motion rounded to single precision
        if abs(p[3]) < 0.99 and 0.01 < p[2] < 0.9 and k < 100 and p[1] < 1e3:
            both(mon, "from constants", C.apex_from_constants, [s[0], *con], [fs[0], *[T.one(v) for v in con]], 1e3 * k)
            both(mon, "from constants", lambda *v: [getattr(kg.StableOrbit.from_constants(*v), n) for n in "p e x E L Q".split()],
                 [s[0], *con], [fs[0], *[T.one(v) for v in con]], 1e3 * k)
        if abs(p[3]) > 1e-6:
            g = ref.Geodesic.bound(*p)
            orbit(mon, "stable", c, T, kg.StableOrbit, p, forms, g, 10 * k)
            if p[2] > 0:
                rr = [float(v) for v in C.stable_radial_roots(*s)]
                ph = np.array(c["q"])
                both(mon, "building blocks", radial_solutions, [s[0], (E, L, Q), rr], [fs[0], T.many((E, L, Q)), rr], 10 * k, sample(ph))
                mixed = [T.one(v) for v in c["q"]]
                fr = radial_solutions(s[0], (E, L, Q), rr) + polar_solutions(s[0], (E, L, Q), C.stable_polar_roots(*s))
                for f in fr:
                    for v, w in zip(c["q"], mixed):
                        both(mon, "building blocks", lambda z: f(z), [v], [w], 100 * k, lambda y: [float(y), 1 + abs(v)])


def run_plunge(c, mon, T):
    p = c["par"]
    k = 100.0
    forms = [T.one(v) for v in p]
    both(mon, "plunging roots", C.plunging_radial_roots, p, forms, k)
    both(mon, "plunging frequencies", F.plunging_mino_frequencies, p, forms, k)
    g = ref.Geodesic.plunge(*p)
    orbit(mon, "plunging", c, T, kg.PlungingOrbit, p, forms, g, k)
    if np.iscomplex(C.plunging_radial_roots(*p)[3]):
        ph = np.array(c["q"])
        u = smooth(g, ph / float(g.Ups_r), (0, 0, 0, 0))
        if u.any():
            for f in (plunging_radial_integrals, plunging_radial_solutions_complex, plunging_polar_solutions):
                both(mon, "building blocks", f, p, forms, k, sample(ph[u]))
            fs = plunging_radial_solutions_complex(*p) + plunging_polar_solutions(*p)
            for f in fs:
                for v in ph[u]:
                    both(mon, "building blocks", lambda z: f(z), [float(v)], [T.one(float(v))], k, lambda y: [float(y), 1 + abs(v)])


def picture(fig):
    """what was drawn: vertices and widths of every line and surface, limits, camera"""
    ax = [v for v in fig.axes if hasattr(v, "get_zlim")][0]
    out = []
    for col in ax.collections:
        if hasattr(col, "_segments3d"):
            out += [np.nan_to_num(np.asarray(col._segments3d, float), nan=1e3), np.asarray(col.get_linewidth(), float)]
        elif hasattr(col, "_offsets3d"):
            out += [np.asarray(v, float) for v in col._offsets3d]
    return out + [np.array([ax.get_xlim(), ax.get_ylim(), ax.get_zlim()]), np.array([ax.elev, ax.azim])]


def run_graphics(c, mon, T):
    import contextlib
    import io
    import matplotlib.animation as an
    import matplotlib.pyplot as plt
    o = kg.StableOrbit(*c["par"])

    def plot(l0, l1, el, az, q, lw, tau, n):
        fig, _ = o.plot(l0, l1, el, az, q, lw=lw, tau=tau, point_density=n)
        try:
            return picture(fig)
        finally:
            plt.close(fig)

    class Sink(an.AbstractMovieWriter):
        """receives the frames and writes nothing"""
        log = []

        def __init__(self, fps=5, **kw):
            super().__init__(fps=fps)

        def setup(self, fig, outfile, dpi=None):
            self.fig = fig

        def grab_frame(self, **kw):
            Sink.log.append(picture(self.fig))

        def finish(self):
            pass

    def movie(l0, l1, el, az, q, lw, tau, n, tail, speed):
        import kerrgeopy.orbit as ko
        Sink.log = []
        keep = {m: m.FFMpegWriter for m in (ko, an) if hasattr(m, "FFMpegWriter")}
        try:
            for m in keep:
                m.FFMpegWriter = Sink
            with contextlib.redirect_stderr(io.StringIO()):
                o.animate("unused.mp4", l0, l1, el, az, q, lw=lw, tau=tau, tail_length=tail, speed=speed)
        finally:
            for m, w in keep.items():
                m.FFMpegWriter = w
            plt.close("all")
        return [float(len(Sink.log))] + [v for f in Sink.log for v in f]
    n = c["count"]
    A = [*c["span"], *c["look"], tuple(c["q"]), *c["style"], n]
    B = [*[T.one(v) for v in A[:4]], T.many(c["q"]), *[T.one(v) for v in A[5:]]]
    both(mon, "visibility", o.is_visible, [np.array(c["pts"]), *c["look"]], [np.array([T.many(w) for w in c["pts"]]).astype(np.int16), *B[2:4]])
    both(mon, "plot", plot, A, B, 1e3)
    if c["movie"]:
        more = [2.0, c["speed"]]
        both(mon, "animation", movie, A + more, B + [T.one(v) for v in more], 1e3)


def run_data(c, mon, T):
    a, t0, r, th, ph0, ut, ur, uth, uph = c["par"]
    X, u = (t0, r, th, ph0), (ut, ur, uth, uph)
    A, B = [a, X, u], [T.one(a), T.many(X), T.many(u)]
    both(mon, "initial data constants", IC.constants_from_initial_conditions, A, B, 10)
    both(mon, "initial data constants", IC.is_stable, A, B)
    E, L, Q = (float(v) for v in IC.constants_from_initial_conditions(*A))
    roots = np.roots(ref.R_coeffs(a, E, L, Q)[::-1]) if abs(E) < 1 else None
    both(mon, "spacetime", lambda a_, X_, u_: KerrSpacetime(a_).metric(*X_), A, B)
    both(mon, "spacetime", lambda a_, X_, u_: [KerrSpacetime(a_).norm(*X_, u_), 1.0], A, B)
    both(mon, "spacetime", lambda a_, X_, u_: [KerrSpacetime(a_).inner_horizon, KerrSpacetime(a_).outer_horizon], A, B)
    if roots is None:
        both(mon, "orbit from data", lambda *v: kg.Orbit(*v).E, A, B)
        return
    # keep clear of double roots and turning points, where the phases are not smooth in the data
    sep = min(abs(s - t) for i, s in enumerate(roots) for t in roots[:i])
    if sep < 1e-2 * r or min(abs(roots - r)) < 1e-2 * r or abs(uth) < 1e-3 * r ** -1.5:
        mon.event("data next to a turning point")
        both(mon, "orbit from data", lambda *v: kg.Orbit(*v).E, A, B, 10)
        return
    k = 1e3
    both(mon, "orbit from data", lambda *v: [getattr(kg.Orbit(*v), n) for n in ("E", "L", "Q", "upsilon_r", "upsilon_theta")], A, B, k)
    lam = np.array(c["lam"]) * 0.1 / r ** 0.5
    both(mon, "orbit from data", lambda *v: kg.Orbit(*v).trajectory(), A, B, k,
         lambda fs: [np.sign(float(fs[1](0.0))), [np.asarray(f(lam), float) for f in fs]])
    try:
        st = IC.is_stable(*A)
    except ValueError:
        return
    fn = IC.stable_orbit_initial_phases if st else IC.plunging_orbit_initial_phases
    both(mon, "initial phases", fn, A, B, k)
    both(mon, "initial phases", fn, [*A, (E, L, Q)], [*B, T.many((E, L, Q))], k)


CONV = [n for n in ("distance_in_meters distance_in_cm distance_in_km distance_in_lightyears distance_in_au time_in_seconds time2_in_seconds2 "
                    "time_in_days energy_in_joules energy_in_ergs angular_momentum_in_mks angular_momentum_in_cgs carter_constant_in_mks "
                    "carter_constant_in_cgs frequency_in_Hz frequency_in_mHz").split() if hasattr(U_, n)]


def run_units(c, mon, T):
    d, M, mu = c["d"], c["M"], c["mu"]
    for n in CONV:
        f = getattr(U_, n)
        both(mon, "unit conversions", f, [d, M], [T.one(d), T.one(M)])
        arr = np.array([d, 1.0, 3.0, -7.0])
        both(mon, "unit conversions", f, [arr, M], [T.many(list(arr)) if False else as_array(T, arr), T.one(M)])
    both(mon, "unit conversions", U_.mass_in_kg, [M], [T.one(M)])
    E, L, Q = 0.9375, float(round(c["q"][0])), float(abs(round(c["q"][1] * 9)))
    both(mon, "unit conversions", C.scale_constants, [(E, L, Q), M, mu], [T.many((E, L, Q)), T.one(M), T.one(mu)])


def as_array(T, arr):
    for dt in ("i1", "i2", "i4", "f2", "f4", "i8", "f8"):
        with np.errstate(all="ignore"):
            w = arr.astype(dt)
        if np.all(w.astype(float) == arr) and T.rng.random() < 0.6:
            return w
    return arr
