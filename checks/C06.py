"""Every public route to the same quantity gives the same answer."""
import numpy as np
import gen as G
import kerrgeopy as kg
from kerrgeopy.stable import stable_trajectory
from kerrgeopy.plunge import plunging_trajectory

LEVEL = "exploration"
RULE = ("stable orbits from 24 strata and plunging orbits from 16; each quantity computed through every route (free function, "
        "object attribute, object method, from_constants, optional precomputed arguments in every combination, positional or "
        "keyword) and compared; non-trivial = two routes compared")
ASSUMPTIONS = ["routes may differ by roundoff: relative 1e-10 times the conditioning factor"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"from_constants routes": 0.01}
REQUIRED = ["constants routes", "precomputed arguments", "frequency routes", "object attributes", "trajectory routes",
            "Omega = Upsilon/Gamma", "from_constants routes", "plunge frequency routes", "plunge trajectory routes", "default arguments"]


def gen(rng, tier, scale):
    n = int((600 if tier == "quick" else 9000) * scale)
    for i in range(n):
        c = G.stable(rng, G.STABLE_KINDS[i % len(G.STABLE_KINDS)])
        c["q"], c["lam"], c["M"], c["mu"] = G.phases(rng), G.times(rng, 5), float(10 ** rng.uniform(0, 8)), float(10 ** rng.uniform(-1, 2))
        yield c
    for i in range(n // 2):
        c = G.plunge(rng, G.PLUNGE_MORE[i % len(G.PLUNGE_MORE)])
        c["q"], c["lam"] = G.phases(rng), [float(v) for v in rng.uniform(-2, 2, 5)]
        yield c


def run(c, mon):
    (run_plunge if "E" in c else run_stable)(c, mon)


def run_stable(c, mon):
    p = tuple(c[s] for s in "apex")
    tol = 1e-10 * G.cond(c)
    K = mon.call("constants_of_motion", kg.constants_of_motion, *p)
    E, L, Q = K
    for i, (nm, f) in enumerate((("E", lambda: kg.energy(*p)), ("L", lambda: kg.angular_momentum(*p)), ("Q", lambda: kg.carter_constant(*p)),
                                 ("L|E", lambda: kg.angular_momentum(*p, E=E)), ("L|E", lambda: kg.angular_momentum(*p, E)),
                                 ("Q|E", lambda: kg.carter_constant(*p, E=E)), ("Q|E,L", lambda: kg.carter_constant(*p, E=E, L=L)),
                                 ("Q|E,L", lambda: kg.carter_constant(*p, E, L)), ("Q|L", lambda: kg.carter_constant(*p, L=L)))):
        mon.close("constants routes", float(mon.call(nm, f)), float({"E": E, "L": L, "Q": Q}[nm[0]]), tol, tol, route=nm)
    F = mon.call("mino_frequencies", kg.mino_frequencies, *p)
    O = mon.call("fundamental_frequencies", kg.fundamental_frequencies, *p)
    scale = float(abs(F[2])) + float(F[1])
    for v, u in zip(O, F):
        mon.close("Omega = Upsilon/Gamma", float(v), float(u) / float(F[3]), tol, tol * scale / float(F[3]))
    for nm, f, want in (("r", kg.stable_radial_roots, None), ("z", kg.stable_polar_roots, None)):
        a_, b_ = mon.call(nm, f, *p), mon.call(nm, f, *p, K)
        ok = [i for i in range(len(a_)) if not np.isnan(a_[i])]
        mon.close("precomputed arguments", np.array([float(b_[i]) for i in ok]), np.array([float(a_[i]) for i in ok]),
                  tol, 1e-7 * G.cond(c) if nm == "r" else 0, entry=nm + " roots")
    mon.close("precomputed arguments", float(kg.r_frequency(*p, constants=K)), float(F[0]), tol, entry="r")
    mon.close("precomputed arguments", abs(float(kg.theta_frequency(*p, constants=K))), float(F[1]), tol, entry="theta")
    mon.close("frequency routes", float(kg.r_frequency(*p)), float(F[0]), tol)
    mon.close("frequency routes", abs(float(kg.theta_frequency(*p))), float(F[1]), tol)
    # optional arguments of the two remaining frequencies, in every combination; the polar frequency is
    # supplied both as mino_frequencies returns it and as theta_frequency returns it
    for ups_t in (float(F[1]), kg.theta_frequency(*p)):
        for m in range(8):
            kw = {}
            if m & 1:
                kw["constants"] = K
            if m & 2:
                kw["upsilon_r"] = F[0]
            if m & 4:
                kw["upsilon_theta"] = ups_t
            mon.close("precomputed arguments", float(mon.call("phi", kg.phi_frequency, *p, **kw)), float(F[2]), tol, tol * scale, entry="phi %d" % m)
            mon.close("precomputed arguments", float(mon.call("gamma", kg.gamma, *p, **kw)), float(F[3]), tol, entry="gamma %d" % m)
        mon.close("precomputed arguments", float(kg.phi_frequency(*p, K, F[0], ups_t)), float(F[2]), tol, tol * scale, entry="positional")
        mon.close("precomputed arguments", float(kg.gamma(*p, K, F[0], ups_t)), float(F[3]), tol, entry="positional")
    q = tuple(c["q"])
    o = mon.call("StableOrbit", kg.StableOrbit, *p, q, c["M"], c["mu"])
    ok = kg.StableOrbit(a=p[0], p=p[1], e=p[2], x=p[3], initial_phases=q, mu=c["mu"], M=c["M"])
    for nm, v, w in (("E", o.E, E), ("L", o.L, L), ("Q", o.Q, Q), ("upsilon_r", o.upsilon_r, F[0]), ("upsilon_theta", o.upsilon_theta, F[1]),
                     ("upsilon_phi", o.upsilon_phi, F[2]), ("gamma", o.gamma, F[3]), ("omega_r", o.omega_r, O[0]),
                     ("omega_theta", o.omega_theta, O[1]), ("omega_phi", o.omega_phi, O[2])):
        s = scale if nm == "upsilon_phi" else scale / float(F[3])
        mirrored = c["a"] < 0 and nm in ("L", "upsilon_phi", "omega_phi")
        mon.close("object attributes", float(v), float(w), tol, tol * (1 if nm in "ELQ" else s if nm.endswith("phi") else 0), attr=nm, mirrored=mirrored)
        mon.ok("object attributes", getattr(ok, nm) == v, attr=nm)
    for u in ((), ("natural",)):
        mon.close("object methods", [float(v) for v in o.constants_of_motion(*u)], np.array(K, float), tol, tol)
        mon.close("object methods", [float(v) for v in o.mino_frequencies(*u)], np.array(F, float), tol, tol * scale)
        mon.close("object methods", [float(v) for v in o.fundamental_frequencies(*u)], np.array(O, float), tol, tol * scale / float(F[3]))
    mon.ok("object keeps its arguments", o.p == p[1] and o.e == p[2] and abs(o.a) == abs(p[0]) and abs(o.x) == abs(p[3]) and
           tuple(o.initial_phases) == q and o.M == c["M"] and o.mu == c["mu"], got=[o.a, o.p, o.e, o.x])
    if c["e"] > 1e-3 and c["gap"] > 1e-2 and 1 - c["e"] > 1e-2 and c["p"] < 1e3:
        built(c, mon, o, q)
    lam = np.array(c["lam"])
    T0 = [np.asarray(f(lam)) for f in o.trajectory()]
    at = 1e-9 * G.cond(c)
    routes = {"function": stable_trajectory(*p, q), "explicit phases": kg.StableOrbit(*p).trajectory(q),
              "keyword phases": kg.StableOrbit(*p).trajectory(initial_phases=q), "base class": kg.Orbit.trajectory(o),
              "natural": o.trajectory(distance_units="natural", time_units="natural"), "list phases": o.trajectory(list(q))}
    for nm, fs in routes.items():
        for i, f in enumerate(fs):
            mon.close("trajectory routes", np.asarray(f(lam)), T0[i], at, at, route=nm, component=i)
    z = [np.asarray(f(lam)) for f in stable_trajectory(*p)]
    for nm, fs in {"default phases": kg.StableOrbit(*p).trajectory(), "zero phases": o.trajectory((0, 0, 0, 0))}.items():
        for i, f in enumerate(fs):
            mon.close("default arguments", np.asarray(f(lam)), z[i], at, at, route=nm, component=i)
    D0 = [np.asarray(f(lam)) for f in o.trajectory_deltas()]
    for nm, fs in {"explicit phases": kg.StableOrbit(*p).trajectory_deltas(q), "base class": kg.Orbit.trajectory_deltas(o)}.items():
        for i, f in enumerate(fs):
            mon.close("delta routes", np.asarray(f(lam)), D0[i], at, at, route=nm, component=i)
    V0 = [np.asarray(f(lam)) for f in o.four_velocity()]
    for i, f in enumerate(kg.StableOrbit(*p).four_velocity(q)):
        mon.close("velocity routes", np.asarray(f(lam)), V0[i], at, 1e-7 * G.cond(c), component=i)
    for i, f in enumerate(kg.StableOrbit(*p).four_velocity(initial_phases=q)):
        mon.close("velocity routes", np.asarray(f(lam)), V0[i], at, 1e-7 * G.cond(c), component=i)
    s = kg.KerrSpacetime(o.a)
    mon.ok("spacetime routes", s.separatrix(p[2], o.x) == kg.separatrix(o.a, p[2], o.x) and s.is_stable(p[1], p[2], o.x) is True)


def built(c, mon, o, q):
    """The orbit built from its own constants of motion: same masses, phases, units and (to the accuracy of the
    inversion, see C02) parameters and numbers."""
    k = G.cond(c) * max(1.0, 0.1 / c["gap"]) * max(1.0, 0.1 / (1 - c["e"])) ** 2 * max(1.0, c["p"] / 30) ** 2 / max(c["e"], 1e-3) ** 2
    tol = 1e-8 * k
    if tol > 1e-4:
        return
    f1 = mon.call("from_constants", kg.StableOrbit.from_constants, o.a, o.E, o.L, o.Q, q, c["M"], c["mu"])
    f2 = mon.call("from_constants", kg.StableOrbit.from_constants, o.a, E=o.E, L=o.L, Q=o.Q, mu=c["mu"], M=c["M"], initial_phases=q)
    for f in (f1, f2):
        mon.ok("from_constants routes", f.M == c["M"] and f.mu == c["mu"] and tuple(f.initial_phases) == q and f.stable and f.a == o.a,
               got=[f.M, f.mu, f.initial_phases])
        for u in ("mks", "cgs"):
            for m in ("constants_of_motion", "mino_frequencies", "fundamental_frequencies"):
                v, w = (np.array([float(z) for z in getattr(h, m)(u)]) for h in (f, o))
                if m == "constants_of_motion":
                    sc = np.array([abs(w[0]), (w[1] ** 2 + w[2]) ** 0.5, w[1] ** 2 + w[2]])
                else:
                    sc = np.abs(w) + np.max(np.abs(w[1:3]))
                    sc[3:] = np.abs(w[3:])
                mon.le("from_constants routes", np.abs(v - w), tol * sc, method=m, units=u, got=v, want=w)
    mon.ok("from_constants routes", all(getattr(f1, n) == getattr(f2, n) for n in ("a", "p", "e", "x", "E", "L", "Q", "upsilon_r", "gamma")))


def run_plunge(c, mon):
    p = tuple(c[s] for s in ("a", "E", "L", "Q"))
    q = tuple(c["q"])
    tol = 1e-9 * G.pcond(c)
    o = mon.call("PlungingOrbit", kg.PlungingOrbit, *p, q)
    F = mon.call("plunging_mino_frequencies", kg.plunging_mino_frequencies, *p)
    mon.close("plunge frequency routes", [float(o.upsilon_r), float(o.upsilon_theta)], np.array(F, float), tol)
    mon.ok("object keeps its arguments", (o.a, o.E, o.L, o.Q) == p and tuple(o.initial_phases) == q and not o.stable and o.M is None and o.mu is None)
    mon.close("object methods", [float(v) for v in o.constants_of_motion()], np.array(p[1:], float), 1e-14)
    lam = np.array(c["lam"])
    T0 = [np.asarray(f(lam)) for f in o.trajectory()]
    routes = {"function": plunging_trajectory(*p, q), "explicit phases": kg.PlungingOrbit(*p).trajectory(q),
              "keyword phases": kg.PlungingOrbit(*p).trajectory(initial_phases=q), "base class": kg.Orbit.trajectory(o),
              "natural": o.trajectory(distance_units="natural", time_units="natural")}
    for nm, fs in routes.items():
        for i, f in enumerate(fs):
            mon.close("plunge trajectory routes", np.asarray(f(lam)), T0[i], tol, tol, route=nm, component=i)
    z = [np.asarray(f(lam)) for f in plunging_trajectory(*p)]
    for i, f in enumerate(kg.PlungingOrbit(*p).trajectory()):
        mon.close("default arguments", np.asarray(f(lam)), z[i], tol, tol, component=i)
    D0 = [np.asarray(f(lam)) for f in o.trajectory_deltas()]
    for nm, fs in {"explicit phases": kg.PlungingOrbit(*p).trajectory_deltas(q), "base class": kg.Orbit.trajectory_deltas(o)}.items():
        for i, f in enumerate(fs):
            mon.close("delta routes", np.asarray(f(lam)), D0[i], tol, tol, route=nm, component=i)
    V0 = [np.asarray(f(lam)) for f in o.four_velocity()]
    for i, f in enumerate(kg.PlungingOrbit(*p).four_velocity(q)):
        mon.close("velocity routes", np.asarray(f(lam)), V0[i], tol, 1e-6, component=i)
