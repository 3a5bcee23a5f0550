"""Results depend only on the arguments: no history, no schedule, no mutation of inputs or objects, no leaked global state."""
import os
import gc
import pickle
import random
import signal
import sys
import threading
import warnings
import numpy as np
import gen as G
import ref
import kerrgeopy as kg
from kerrgeopy import constants as kc, initial_conditions as ki
from kerrgeopy.spacetime import KerrSpacetime
from kerrgeopy.stable import stable_trajectory
from kerrgeopy.plunge import plunging_trajectory

QUICK = 1.2
LEVEL = "exploration"
RULE = ("random programs of 24-40 operations over several live objects (StableOrbit, PlungingOrbit, Orbit, KerrSpacetime) and the free functions, "
        "with per-call phases, units, plots, functions obtained early and evaluated late, rejected calls in between; each program is executed in "
        "its order, in another order, and with every operation alone on fresh objects, each in its own process, and by 3 threads under a seeded "
        "scheduler that switches at arbitrary lines of the package; results of each operation must be the same in all of them; arguments, "
        "public attributes of the objects and the global state of numpy, matplotlib, warnings, random and the process are compared "
        "around every operation; non-trivial = an operation's results compared")
ASSUMPTIONS = ["the isolated execution of an operation is the specification of its result; whether that result is right is judged by other properties",
               "preemption points of the thread schedules are the line events of the package's Python code (the interpreter switches threads only between bytecodes)",
               "results agree to 1e-12 relative (same inputs, same code path)"]
REQUIRED = ["order", "reordered", "schedule", "switches", "early closure", "arguments untouched", "object untouched", "global state untouched",
            "fresh object equal", "rejected call", "alone", "distinct schedules", "concurrent", "object used once"]
CASE_LIMIT = 300


def spec(rng):
    k = int(rng.integers(6))
    if k == 0 or k == 1:
        c = G.stable(rng, G.pick(rng, "generic", "equatorial", "e_zero", "neg_a", "schwarzschild", "circular_eq"))
        return dict(cls="StableOrbit", p=[c[s] for s in "apex"], q=G.phases(rng))
    if k == 2 or k == 3:
        c = G.plunge(rng, G.pick(rng, "cx", "real_inner", "cx_eq", "cx_neg_a", "real_inner_eq"))
        return dict(cls="PlungingOrbit", p=[c[s] for s in ("a", "E", "L", "Q")], q=G.phases(rng))
    if k == 4:
        c = G.stable(rng, "generic")
        g = ref.Geodesic.bound(*[c[s] for s in "apex"])
        q = [0.3, float(rng.uniform(0.5, 2.6)), float(rng.uniform(0.3, 1.2)), 1.0]
        return dict(cls="Orbit", p=[c["a"], [float(v) for v in g.state(0.0, q)], [float(v) for v in g.velocity(0.0, q)]], q=None)
    return dict(cls="KerrSpacetime", p=[G.spin(rng)], q=None)


FREE = ("constants", "frequencies", "mino", "roots", "separatrix", "is_stable", "apex",
        "trajectory", "plunge_trajectory", "fast_separatrix", "E L Q", "components",
        "polar", "plunge roots", "plunge mino", "plunge integrals", "initial data", "solutions")


def special(rng, f=None):
    """Parameters of an orbit, often with a special value in one place."""
    U = rng.uniform
    p = [float(U(0.1, 0.9)), float(U(11, 30)), float(U(0, 0.8)), float(U(0.1, 1))]
    k = int(rng.integers(8))
    if k == 0:
        p[2] = 0.0
    elif k == 1:
        p[3] = 1.0
    elif k == 2:
        p[3] = -float(U(0.1, 1))
    if f == "separatrix" and rng.random() < 0.6:
        p[3] = float(G.pick(rng, 0.0, 1.0, -1.0))
    return p


def nearby(rng, p):
    """The same numbers with one or all of them moved in a far digit (towards the inside of the domain)."""
    d = 10.0 ** rng.uniform(-11, -3)
    k = int(rng.integers(len(p) + 1))
    return [float(v * (1 - d)) if k in (i, len(p)) else v for i, v in enumerate(p)]


def twins(rng):
    """A program without objects: every free function on groups of arguments that differ only in far digits."""
    U = rng.uniform
    ops = []
    for f in FREE:
        if f == "fast_separatrix":
            continue
        o = dict(kind="free", f=f, p=special(rng, f), q=[float(v) for v in U(-3, 3, 4)], lam=G.far(rng, U(-3, 3, 3)))
        g = [o]
        for _ in range(2):
            t = dict(o, p=nearby(rng, o["p"]))
            for k in ("q", "lam"):
                if rng.random() < 0.3:
                    t[k] = nearby(rng, t[k])
            g.append(t)
        ops += [g[k] for k in rng.permutation(3)]
    return dict(kind="twins", objs=[], ops=ops, order=[int(v) for v in rng.permutation(len(ops))], sched=[])


def gen(rng, tier, scale):
    U = rng.uniform
    for i in range(int((80 if tier == "quick" else 2500) * scale)):
        yield twins(rng)
    for i in range(int((60 if tier == "quick" else 2500) * scale)):
        objs = [spec(rng) for _ in range(int(rng.integers(2, 5)))]
        if i % 2:  # a second object of the same class, so that state shared by a class would show
            for s in list(objs[:1]):
                for _ in range(50):
                    t = spec(rng)
                    if t["cls"] == s["cls"]:
                        objs.append(t)
                        break
        if i % 3 == 0 and objs[0]["q"]:  # the same parameters, other phases and masses
            objs.append(dict(objs[0], q=[float(v) for v in U(0, 6, 4)]))
        if rng.random() < 0.6:  # a twin that differs in the far digits of its parameters
            t = [s for s in objs if s["cls"] != "Orbit"]
            if t:
                s = t[int(rng.integers(len(t)))]
                objs.append(dict(s, p=nearby(rng, s["p"])))
        c = G.stable(rng, "generic")
        tmpl = dict(ref=[c[s] for s in "apex"])
        ops = []
        for j in range(int(rng.integers(24, 41))):
            twin = [o for o in ops if o["kind"] == "free" and o["f"] not in ("reject", "units")]
            if twin and rng.random() < 0.15:  # an earlier call again with slightly different arguments
                o = twin[int(rng.integers(len(twin)))]
                ops.append(dict(o, p=nearby(rng, o["p"]), q=nearby(rng, o["q"]) if rng.random() < 0.3 else o["q"]))
                continue
            if rng.random() < 0.3:
                ops.append(dict(kind="free", f=G.pick(rng, *FREE, "reject", "units"),
                                p=list(tmpl["ref"]) if rng.random() < 0.5 else special(rng),
                                q=[float(v) for v in U(-3, 3, 4)], lam=G.far(rng, U(-3, 3, 3))))
                continue
            if ops and rng.random() < 0.12:  # the very same call again
                ops.append(dict(ops[int(rng.integers(len(ops)))]))
                continue
            if rng.random() < 0.15:  # several objects one after the other, each dropped after one call
                t = spec(rng)
                f = G.pick(rng, "metric", "norm") if t["cls"] == "KerrSpacetime" else G.pick(rng, "trajectory", "trajectory_deltas", "four_velocity", "is_visible", "attributes")
                o = dict(kind="temp", s=t, f=f, q=[float(v) for v in U(-7, 7, 4)] if rng.random() < 0.5 else None, form=0,
                         lam=[float(v) for v in U(-3, 3, 4)], units=int(rng.integers(4)), late=False)
                for _ in range(3):
                    for _ in range(9):
                        v = spec(rng)
                        if v["cls"] == t["cls"]:
                            break
                    v = v if v["cls"] == t["cls"] else dict(t, p=nearby(rng, t["p"]) if t["cls"] != "Orbit" else t["p"])
                    ops.append(dict(o, s=dict(v, q=t["q"]) if rng.random() < 0.7 else v))
                ops.append(o)
                continue
            o = int(rng.integers(len(objs)))
            cl = objs[o]["cls"]
            if cl == "KerrSpacetime":
                f = G.pick(rng, "metric", "metric", "norm", "separatrix", "is_stable")
            else:
                f = G.pick(rng, "trajectory", "trajectory", "trajectory_deltas", "four_velocity", "numerical_four_velocity", "constants_of_motion",
                           "is_visible", "plot" if rng.random() < 0.2 else "trajectory", "frequencies" if cl == "StableOrbit" else "trajectory_deltas",
                           "bad units" if rng.random() < 0.4 else "attributes")
            ops.append(dict(kind="method", o=o, f=f, q=None if rng.random() < 0.5 else [float(v) for v in U(-7, 7, 4)], form=int(rng.integers(3)),
                            lam=G.far(rng, U(-3, 3, 4)), units=int(rng.integers(4)), late=bool(rng.random() < 0.3)))
        if i % 2 == 0:  # groups of calls that differ only in far digits
            base = [o for o in ops if o["f"] not in ("reject", "units", "plot", "bad units", "attributes", "metric", "norm")]
            ops = ops[:10]
            for f in rng.permutation(FREE)[:7]:
                base.append(dict(kind="free", f=str(f), p=special(rng, str(f)),
                                 q=[float(v) for v in U(-3, 3, 4)], lam=G.far(rng, U(-3, 3, 3))))
            for o in base[-9:]:
                for _ in range(2):
                    t = dict(o)
                    for k in (("p", "q", "lam") if o["kind"] == "free" else ("q", "lam")):
                        if t[k] is not None and (k == "p" or rng.random() < 0.4):
                            t[k] = nearby(rng, t[k])
                    ops.append(t)
                ops.append(o)
        yield dict(kind="program", objs=objs, ops=ops, order=[int(v) for v in rng.permutation(len(ops))], sched=[int(v) for v in rng.integers(1 << 30, size=3)])


# ---------------------------------------------------------------------------------------------- operations
_USED = {}  # class -> addresses of objects already dropped


def reborn(s):
    """An object like build(s), in the memory of an earlier one of its class if there is one."""
    cls = dict(StableOrbit=kg.StableOrbit, PlungingOrbit=kg.PlungingOrbit, Orbit=kg.Orbit, KerrSpacetime=KerrSpacetime)[s["cls"]]
    used, miss = _USED.setdefault(s["cls"], set()), []
    gc.collect()
    for _ in range(5000):
        o = cls.__new__(cls)
        if not used or id(o) in used:
            break
        miss.append(o)
    del miss
    used.add(id(o))
    kw = dict(M=1e6, mu=10.0)
    if s["cls"] == "KerrSpacetime":
        o.__init__(s["p"][0])
    elif s["cls"] == "Orbit":
        o.__init__(s["p"][0], tuple(s["p"][1]), tuple(s["p"][2]), **kw)
    else:
        o.__init__(*s["p"], tuple(s["q"]), **kw)
    return o


def build(s):
    kw = dict(M=1e6, mu=10.0)
    if s["cls"] == "KerrSpacetime":
        return KerrSpacetime(s["p"][0])
    if s["cls"] == "Orbit":
        return kg.Orbit(s["p"][0], tuple(s["p"][1]), tuple(s["p"][2]), **kw)
    return getattr(kg, s["cls"])(*s["p"], tuple(s["q"]), **kw)


DU, TU = ("natural", "km", "au", "mks"), ("natural", "seconds", "days", "mks")


def own(y, *keep):
    """A copy of an answer; the answer itself is overwritten, as its owner may do."""
    out = np.array(y, float)
    for v in y if isinstance(y, (tuple, list)) else [y]:
        if isinstance(v, np.ndarray) and v.flags.writeable and not any(np.shares_memory(v, k) for k in keep if isinstance(k, np.ndarray)):
            v[...] = 77
    if isinstance(y, list):
        y[:] = [77.0] * len(y)
    return out


def prepare(op, objs, watch):
    """Perform the call; returns a thunk giving the numbers (evaluated now or at the end)."""
    lam = np.array(op["lam"])
    watch.append((lam, lam.copy()))
    q = op.get("q")
    if op["kind"] == "free":
        return free(op, lam, q, watch)
    if op["kind"] == "temp":  # an object that lives for one call
        with_ = dict(op, kind="method", o=0)
        out = prepare(with_, [reborn(op["s"])], watch)()
        return lambda: out
    o, f = objs[op["o"]], op["f"]
    if q is not None:
        q = (tuple(q), list(q), np.array(q))[op["form"]]
        watch.append((q, np.array(q)))
    ph = {} if q is None else {"initial_phases": q}
    if f == "trajectory":
        if op["units"] == 0:
            T = o.trajectory(**ph)
        else:
            T = o.trajectory(distance_units=DU[op["units"]], time_units=TU[op["units"]], **ph)
        return lambda: [own(g(lam), lam) for g in T]
    if f == "trajectory_deltas":
        T = o.trajectory_deltas(**ph)
        return lambda: [own(g(lam), lam) for g in T]
    if f == "four_velocity":
        T = o.four_velocity(**ph)
        return lambda: [own(g(lam), lam) for g in T]
    if f == "numerical_four_velocity":
        T = o.numerical_four_velocity(dx=1e-4, **ph)
        return lambda: [own(g(lam), lam) for g in T]
    if f == "constants_of_motion":
        v = o.constants_of_motion(("natural", "mks", "cgs", "natural")[op["units"]])
        v = own(v)
        return lambda: [v]
    if f == "frequencies":
        v = o.mino_frequencies(("natural", "mks", "cgs", "natural")[op["units"]]), o.fundamental_frequencies(("natural", "mks", "cgs", "mHz")[op["units"]])
        return lambda: [np.array(w, float) for w in v]
    if f == "is_visible":
        pts = np.outer(1 + np.abs(lam), [0.7, -1.1, 0.4]) * np.sign(lam)[:, None]
        watch.append((pts, pts.copy()))
        return lambda: [own(o.is_visible(pts, 10 * lam[0], 40 * lam[1]), pts)]
    if f == "plot":
        import matplotlib.pyplot as plt
        fig, ax = o.plot(0, 0.7, point_density=12, elevation=20 * lam[0], azimuth=30 * lam[1], **ph)
        out = [np.array(getattr(col, "_offsets3d", None), float) for col in ax.collections if getattr(col, "_offsets3d", None) is not None]
        plt.close(fig)
        return lambda: out
    if f == "bad units":
        return lambda: [np.array(reject(lambda: o.constants_of_motion("parsecs")) + reject(lambda: o.trajectory(initial_phases=(1, 2)) and o.trajectory((1, 2))[0](0.1)))]
    if f == "attributes":
        return lambda: [np.array([float(getattr(o, n)) for n in ("a", "E", "L", "Q", "upsilon_r", "upsilon_theta")]),
                        np.array(o.initial_phases, float), np.array(o.initial_position, float), np.array(o.initial_velocity, float)]
    x = [0.0, 3.0 + abs(lam[0]), 1.0 + 0.1 * lam[1], lam[2]]
    if f == "metric":
        m = own(o.metric(*x))
        return lambda: [m]
    if f == "norm":
        v = list(lam)
        watch.append((v, np.array(v)))
        n = o.norm(*x, v)
        return lambda: [np.array(n)]
    if f == "separatrix":
        return lambda: [own(o.separatrix(0.3 + 1e-6 * abs(lam[0]), 0.5 + 0.1 * np.sin(lam[1])))]
    return lambda: [np.array(float(o.is_stable(4 + abs(lam[0]), 0.3, 0.5)))]


def free(op, lam, q, watch):
    p, f = op["p"], op["f"]
    if f == "constants":
        return lambda: [own(kg.constants_of_motion(*p))]
    if f == "frequencies":
        return lambda: [own(kg.fundamental_frequencies(*p))]
    if f == "mino":
        return lambda: [own(kg.mino_frequencies(*p))]
    if f == "roots":
        return lambda: [own(kc.stable_radial_roots(*p))]
    if f == "polar":
        return lambda: [own(kc.stable_polar_roots(*p))]
    if f == "separatrix":
        return lambda: [own(kg.separatrix(p[0], p[2], p[3]))]
    if f == "is_stable":
        return lambda: [np.array(float(kg.is_stable(*p)))]
    if f == "E L Q":
        return lambda: [np.array([float(h(*p)) for h in (kc.energy, kc.angular_momentum, kc.carter_constant)])]
    if f == "apex":
        C = kg.constants_of_motion(*p)
        return lambda: [own(kg.apex_from_constants(p[0], *C))]
    if f == "fast_separatrix":
        s = kg.fast_separatrix(round(p[0], 2), grid_spacing=0.25)
        return lambda: [np.array(s((0.3, 0.4)), float).ravel()]
    if f == "trajectory":
        T = stable_trajectory(*p, q)
        return lambda: [own(g(lam), lam) for g in T]
    if f == "plunge_trajectory":
        T = plunging_trajectory(p[0], 0.94, 0.1 + p[3], 12.0, q)
        return lambda: [own(g(lam), lam) for g in T]
    if f.startswith("plunge") or f == "initial data":
        from kerrgeopy import plunge as kp
        P = (p[0], 0.94 + 0.01 * p[2], 0.1 + p[3], 12.0)
    if f == "plunge roots":
        return lambda: [np.array([(v.real, v.imag) for v in kp.plunging_radial_roots(*P)], float)]
    if f == "plunge mino":
        return lambda: [own(kp.plunging_mino_frequencies(*P))]
    if f == "plunge integrals":
        T = kp.plunging_radial_integrals(*P)
        return lambda: [own(g(lam), lam) for g in T]
    if f == "initial data":
        o = kg.PlungingOrbit(*P, q)
        X, u = list(map(float, o.initial_position)), list(map(float, o.initial_velocity))
        watch += [(X, np.array(X)), (u, np.array(u))]
        return lambda: [own(ki.constants_from_initial_conditions(p[0], X, u)), np.array(float(ki.is_stable(p[0], X, u))),
                        own(ki.plunging_orbit_initial_phases(p[0], X, u))]
    if f == "solutions":
        from kerrgeopy.stable import radial_solutions, polar_solutions
        C, R, Z = kg.constants_of_motion(*p), kc.stable_radial_roots(*p), kc.stable_polar_roots(*p)
        T = radial_solutions(p[0], C, R) + polar_solutions(p[0], C, Z)
        return lambda: [own(g(lam), lam) for g in T]
    if f == "components":
        C, R, Z = kg.constants_of_motion(*p), kc.stable_radial_roots(*p), kc.stable_polar_roots(*p)
        watch += [(v, np.array(v, float)) for v in (C, R, Z)]
        ups = kg.frequencies.r_frequency(*p, constants=C), kg.frequencies.theta_frequency(*p, constants=C)
        U = KerrSpacetime(p[0]).four_velocity(*stable_trajectory(*p, q), C, *ups, q)
        return lambda: [own(g(lam), lam) for g in U]
    if f == "units":
        from kerrgeopy import units
        return lambda: [np.array([units.time_in_seconds(p[1], 1e6), units.distance_in_km(p[1], 10.0), units.frequency_in_Hz(p[2], 1e5)], float)]
    bad = [(1.2, 10, .1, .5), (.9, 10, 1.2, .5), (.9, 10, .1, 1.5), (.9, 1.1, .1, .5)]
    return lambda: [np.array(sum([reject(lambda: kg.StableOrbit(*b)) for b in bad] + [reject(lambda: kg.separatrix(*b[:1], b[2], b[3])) for b in bad[:3]], []))]


def reject(f):
    try:
        f()
    except Exception as ex:  # noqa: BLE001
        return [1.0, float(len(type(ex).__name__))]
    return [0.0, 0.0]


# ---------------------------------------------------------------------------------------------- executions
def snap(o):
    out = {}
    for k, v in vars(o).items():
        if not k.startswith("_"):
            try:
                out[k] = np.array(v, float) if v is not None else None
            except Exception:  # noqa: BLE001
                pass
    return out


def gstate():
    import matplotlib
    rs = np.random.get_state()
    return (tuple(sorted(np.geterr().items())), rs[1].tobytes(), rs[2], random.getstate(), tuple(map(str, warnings.filters)),
            tuple(sorted((k, str(v)) for k, v in matplotlib.rcParams.items())), os.getcwd(), tuple(sorted(os.environ.items())),
            sys.getrecursionlimit(), str(np.get_printoptions()))


def same(u, v):
    u, v = np.asarray(u, float), np.asarray(v, float)
    if u.shape != v.shape:
        return False
    with np.errstate(all="ignore"):
        d = np.abs(u - v) <= 1e-12 * (1 + np.abs(u))
    return bool(np.all(d | (u == v) | (np.isnan(u) & np.isnan(v))))


def sequential(c, order, fresh):
    objs = None if fresh else [build(s) for s in c["objs"]]
    out, late, bad, ev = {}, [], [], {}
    g0 = None if fresh else gstate()
    for j in order:
        op = c["ops"][j]
        if fresh:
            need = {op["o"]: build(c["objs"][op["o"]])} if op["kind"] == "method" else {}
        else:
            need = objs
            before = [snap(o) for o in objs]
        watch = []
        try:
            th = prepare(op, need, watch)
            if op.get("late") and not fresh:
                late.append((j, th))
            else:
                out[j] = th()
        except Exception as ex:  # noqa: BLE001
            out[j] = type(ex).__name__
        if fresh:
            continue
        for v, keep in watch:
            ev["arguments untouched"] = ev.get("arguments untouched", 0) + 1
            if not same(v, keep):
                bad.append(("arguments untouched", j, repr(v)[:200]))
        for s, o in zip(before, objs):
            now = snap(o)
            ev["object untouched"] = ev.get("object untouched", 0) + len(s)
            for k in s:
                if k not in now or (s[k] is None) != (now[k] is None) or (s[k] is not None and not same(s[k], now[k])):
                    bad.append(("object untouched", j, "%s: %r -> %r" % (k, s[k], now.get(k))))
        g1 = gstate()
        ev["global state untouched"] = ev.get("global state untouched", 0) + 1
        for u, v in zip(g0, g1):
            if u != v:
                bad.append(("global state untouched", j, str(v)[:150]))
        g0 = g1
    for j, th in late:
        ev["early closure"] = ev.get("early closure", 0) + 1
        try:
            out[j] = th()
        except Exception as ex:  # noqa: BLE001
            out[j] = type(ex).__name__
    if not fresh:
        for s, o in zip(c["objs"], objs):  # the used objects still equal freshly built ones
            ev["fresh object equal"] = ev.get("fresh object equal", 0) + 1
            f, now = snap(build(s)), snap(o)
            for k in f:
                if k not in now or (f[k] is None) != (now[k] is None) or (f[k] is not None and not same(f[k], now[k])):
                    bad.append(("fresh object equal", -1, "%s: %r vs fresh %r" % (k, now.get(k), f[k])))
    return out, bad, ev


class Sched:
    """One runnable thread at a time; the baton moves at line events of the package, chosen by a seeded generator."""

    def __init__(self, n, seed, root):
        self.r, self.n, self.root = random.Random(seed), n, root
        self.cv = threading.Condition()
        self.live = set(range(n))
        self.cur = 0
        self.p = self.r.choice([0.003, 0.02, 0.08])
        self.log = []

    def wait(self, i):
        with self.cv:
            if not self.cv.wait_for(lambda: self.cur == i, timeout=60):
                raise TimeoutError

    def step(self, i, where):
        if self.r.random() < self.p:
            with self.cv:
                if len(self.live) > 1:
                    self.cur = self.r.choice([k for k in self.live if k != i])
                    self.log.append((i, where, self.cur))
                    self.cv.notify_all()
            self.wait(i)

    def done(self, i):
        with self.cv:
            self.live.discard(i)
            if self.live:
                self.cur = self.r.choice(sorted(self.live))
            self.cv.notify_all()

    def trace(self, i):
        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.root):
                return None

            def loc(frame, event, arg):
                if event == "line":
                    self.step(i, frame.f_lineno)
                return loc
            return loc
        return glob


def threaded(c, seed):
    root = os.path.dirname(os.path.abspath(kg.__file__))
    objs = [build(s) for s in c["objs"]]
    todo = [j for j, op in enumerate(c["ops"]) if op["f"] not in ("plot", "fast_separatrix")]
    n = 3
    S = Sched(n, seed, root)
    # every thread runs the whole program in its own rotation, on the shared objects
    outs = [dict() for _ in range(n)]
    err = []

    def work(i):
        try:
            S.wait(i)
            sys.settrace(S.trace(i))
            k = len(todo) * i // n
            for j in (todo[k:] + todo[:k])[:1 + len(todo) // 2]:
                try:
                    outs[i][j] = prepare(c["ops"][j], objs, [])()
                except TimeoutError:
                    raise
                except Exception as ex:  # noqa: BLE001
                    outs[i][j] = type(ex).__name__
        except TimeoutError:
            err.append("timeout")
        finally:
            sys.settrace(None)
            S.done(i)
    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
    [t.start() for t in ts]
    [t.join(100) for t in ts]
    if err or any(t.is_alive() for t in ts):
        return None
    return outs, len(S.log), hash(tuple(S.log)) & 0xffffffff


def isolated(f, *args):
    """Run in a forked child (no state flows back); None if it dies or exceeds its time."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(120)
            try:
                data = pickle.dumps(f(*args))
            except BaseException as ex:  # noqa: BLE001
                data = pickle.dumps(ex if isinstance(ex, Exception) else None)
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    v = pickle.loads(data) if data else None
    if isinstance(v, Exception):
        raise v
    return v


def differs(u, v):
    if isinstance(u, str) or isinstance(v, str):
        return not (isinstance(u, str) and isinstance(v, str) and u == v)
    return len(u) != len(v) or not all(same(a, b) for a, b in zip(u, v))


def run(c, mon):
    n = len(c["ops"])
    want = {}
    for j in range(n):  # every operation alone, in a process of its own
        w = isolated(sequential, c, [j], True)
        if w is None:
            mon.skip("isolated run did not finish")
        want.update(w[0])
    mon.event("alone", n)
    mon.event("object used once", sum(op["kind"] == "temp" for op in c["ops"]))
    rejected = [j for j in want if isinstance(want[j], str)]
    mon.event("rejected call", len(rejected) + sum(op["f"] in ("reject", "bad units") for op in c["ops"]))

    def compare(tag, got):
        for j in got:
            mon.event("comparison")
            mon.ok(tag, not differs(want[j], got[j]), op=c["ops"][j], obj=c["objs"][c["ops"][j]["o"]] if c["ops"][j]["kind"] == "method" else None,
                   got=str(got[j])[:300], alone=str(want[j])[:300])
    for tag, order in (("order", range(n)), ("reordered", c["order"])):
        res = isolated(sequential, c, order, False)
        if res is None:
            mon.skip("run did not finish")
        compare(tag, res[0])
        for k, v in res[2].items():
            mon.event(k, v)
        mon.compared += 1
        for name, j, what in res[1]:
            mon.fail(name, op=c["ops"][j] if j >= 0 else None, what=what)
    seen = set()
    for s in c["sched"]:
        res = isolated(threaded, c, s)
        if res is None:
            mon.event("schedule abandoned")
            continue
        outs, sw, h = res
        mon.event("switches", sw)
        mon.event("schedule")
        seen.add(h)
        for o in outs:
            compare("concurrent", o)
    mon.event("distinct schedules", len(seen))
