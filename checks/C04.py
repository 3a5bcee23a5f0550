"""Every input is either rejected with an error or answered with finite real numbers."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg
from kerrgeopy.stable import stable_trajectory

LEVEL = "exploration"
RULE = ("parameter tuples near and beyond every border of the domain (|a| >= 1, e < 0 / e >= 1, |x| > 1, x = 0, p on either "
        "side of the separatrix, NaN in each slot), initial velocities off the unit shell / null / spacelike, unbound and "
        "extreme plunges, unit conversions without the masses, unknown unit names; every public entry point is called; "
        "non-trivial = at least one accept / reject decision was judged")
ASSUMPTIONS = ["validity decided independently: range predicate plus the separatrix of lib/gen.py with margin 1e-6",
               "accepted domain for finiteness: 1e-3 <= |x|, 1-e >= 1e-4, p <= 1e5"]
REQUIRED = ["rejects invalid parameters", "finite on valid parameters", "rejects bad velocity", "accepts unit velocity", "finite on valid plunges",
            "rejects unsupported plunge", "rejects units without mass", "rejects unknown unit"]

CONST = ["energy", "angular_momentum", "carter_constant", "constants_of_motion", "stable_radial_roots", "stable_polar_roots"]
FREQ = ["r_frequency", "theta_frequency", "phi_frequency", "gamma", "mino_frequencies", "fundamental_frequencies"]
INVALID = ["a=1", "a=-1", "|a|>1", "a>>1", "e<0", "e>1", "|x|>1", "below", "p<=0", "nan", "zero x", "marginal", "two bad"]


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((1500 if tier == "quick" else 12000) * scale)
    for i in range(n):
        c = G.stable(rng)
        k = INVALID[i % len(INVALID)]
        c["kind"] = "invalid " + k
        a, e, x = c["a"], c["e"], c["x"]
        tiny = 10 ** U(-15, -1)
        if k == "a=1":
            c["a"] = G.pick(rng, 1.0, 1)
            c["p"] = c["p"] + 10
        elif k == "a=-1":
            c["a"] = G.pick(rng, -1.0, -1)
            c["p"] = c["p"] + 10
        elif k == "|a|>1":
            c["a"] = float((1 + max(tiny, 3e-16)) * G.sgn(rng))
            c["p"] = c["p"] + 10
        elif k == "a>>1":
            c["a"] = float(10 ** U(0.1, 3) * G.sgn(rng))
            c["p"] = c["p"] + 10
        elif k == "e<0":
            c["e"] = float(-10 ** U(-15, 0))
        elif k == "e>1":
            c["e"] = float(1 + max(tiny, 3e-16)) if rng.random() < .5 else float(U(1, 5))
            c["p"] = c["p"] + 10
        elif k == "|x|>1":
            c["x"] = float((1 + max(tiny, 3e-16)) * G.sgn(rng)) if rng.random() < .6 else float(U(1, 4) * G.sgn(rng))
            c["p"] = c["p"] + 10
        elif k == "below":
            s = G.sep(a, e, x)
            c["p"] = float(s - 10 ** U(-4.5, 0)) if rng.random() < .6 else float(s * U(0.02, 0.99))
        elif k == "p<=0":
            c["p"] = float(G.pick(rng, 0.0, -U(0, 20), -1e-9, -c["p"]))
        elif k == "nan":
            c[G.pick(rng, "a", "p", "e", "x")] = "nan"
        elif k == "zero x":
            c["x"] = G.pick(rng, 0, 0.0, -0.0)
            c["p"] = c["p"] + 10
            c["only"] = "freq"
        elif k == "marginal":
            c["e"] = G.pick(rng, 1, 1.0)
            c["p"] = c["p"] + 10
            c["only"] = "freq"
        elif k == "two bad":
            c["e"], c["x"] = float(U(1.01, 2)), float(U(1.01, 2) * G.sgn(rng))
        yield c
    for i in range(n):
        c = G.stable(rng, G.STABLE_KINDS[i % len(G.STABLE_KINDS)])
        c["base"], c["kind"] = c["kind"], "valid"
        c["q"], c["lam"] = G.phases(rng), G.times(rng, 5)
        yield c
    for i in range(n // 2):
        yield velocity_case(rng)
    for i in range(n // 4):
        c = G.plunge(rng)
        c["base"], c["kind"] = c["kind"], "plunge invalid"
        k = i % 8
        c["why"] = ["a=0", "a=1", "a>1", "E=1", "E>1", "E<=-1", "nan", "Q<0"][k]
        if k == 0:
            c["a"] = G.pick(rng, 0, 0.0)
        elif k == 1:
            c["a"] = float(G.sgn(rng))
        elif k == 2:
            c["a"] = float(G.sgn(rng) * U(1, 2))
        elif k == 3:
            c["E"] = 1.0
        elif k == 4:
            c["E"] = float(U(1, 2))
        elif k == 5:
            c["E"] = float(-U(1, 2))
        elif k == 6:
            c[G.pick(rng, "a", "E", "L", "Q")] = "nan"
        elif k == 7:
            c["Q"] = float(-10 ** U(-12, 1))
        yield c
    kinds = G.PLUNGE_KINDS + ["horizon_turn"]
    for i in range(n // 2):
        c = G.plunge(rng, kinds[i % len(kinds)])
        c["base"], c["kind"] = c["kind"], "plunge valid"
        c["q"], c["lam"] = G.phases(rng), [0.0] + [float(v) for v in U(-1, 1, 9) * 10 ** U(-2, 3)]
        yield c
    for i in range(max(6, n // 20)):
        c = G.stable(rng, "generic")
        c["base"], c["kind"], c["M"], c["mu"] = c["kind"], "units", float(10 ** U(0, 9)), float(10 ** U(-2, 3))
        c["plunge"] = {k: v for k, v in G.plunge(rng).items()}
        yield c


def velocity_case(rng):
    U = rng.uniform
    a = float(G.pick(rng, U(-0.95, 0.95), 0.0, U(-0.95, 0.95)))
    r, th = float(U(4, 30)), float(U(0.3, 2.8))
    k = int(rng.integers(4))
    w = 1.0
    if k == 0:  # close to the horizon
        r = float(1 + np.sqrt(1 - a * a) + 10 ** U(-2.5, 0))
    elif k == 1:  # fast, far away
        r, w = float(10 ** U(1, 3)), 10 ** U(0, 1.3)
    for _ in range(100):
        u = G.unit_velocity(a, r, th, U(-0.2, 0.2) * w, U(-0.3, 0.3) * w / r, U(-0.3, 0.3) * w / r + (U(0, 3) * np.sign(a) if k == 0 else 0), k == 0)
        if u is not None:
            break
    if u is None:
        r = 10.0
        u = G.unit_velocity(a, r, th, 0.05, 0.01, 0.01)
    why = G.pick(rng, "nan", "past", "scaled", "slightly scaled", "null", "spacelike", "zero", "extreme", "unit")
    u = [float(v) for v in u]
    if why == "scaled":
        u = [v * float(U(1.01, 3)) for v in u]
    elif why == "slightly scaled":
        d = 10 ** U(-5.5, -1.5) * G.sgn(rng)
        u = [v * float(1 + d) for v in u]
    elif why == "past":
        u = [-v for v in u]
    elif why == "null":
        u[1] += float(U(1.2, 4))
    elif why == "spacelike":
        u = [0.0, u[1] + 1, u[2], u[3]]
    elif why == "zero":
        u = [0.0, 0.0, 0.0, 0.0]
    elif why == "extreme":
        a = float(G.sgn(rng))
        r = max(r, 4.0)
        u = [float(v) for v in G.unit_velocity(a, r, th, 0.01, 0.01 / r, 0.05 / r)]
    pos = [0.0, r, th, float(U(-3, 3))]
    if why == "nan":
        (pos if rng.random() < 0.4 else u)[int(rng.integers(4))] = "nan"
    return dict(kind="velocity " + why, a=a, pos=pos, u=u)


def num(v):
    return float("nan") if v == "nan" else v


def finite(v):
    v = np.asarray(v)
    return v.dtype.kind in "fiu" and bool(np.all(np.isfinite(v)))


def run(c, mon):
    k = c["kind"]
    if k == "infinite p":
        for nm in FREQ:
            try:
                v = getattr(kg, nm)(c["a"], float("inf"), c["e"], c["x"])
            except ValueError:
                continue
            mon.ok("infinite p rejected or finite", finite(v), entry=nm, got=v)
        return
    if k.startswith("invalid"):
        p = tuple(num(c[s]) for s in "apex")
        names = FREQ if c.get("only") == "freq" else CONST + FREQ
        for nm in names:
            mon.raises("rejects invalid parameters", getattr(kg, nm), *p, exc=ValueError)
        mon.raises("rejects invalid parameters", kg.StableOrbit, *p, exc=ValueError)
        mon.raises("rejects invalid parameters", stable_trajectory, *p, exc=ValueError)
        if not c.get("only") and k not in ("invalid below", "invalid p<=0") and not (k == "invalid nan" and c["p"] == "nan"):
            if k != "invalid a=-1":
                mon.raises("separatrix rejects", kg.separatrix, p[0], p[2], p[3], exc=ValueError)
            mon.raises("is_stable rejects", kg.constants.is_stable, *p, exc=ValueError)
    elif k == "valid":
        p = tuple(c[s] for s in "apex")
        for nm in CONST[:5] + FREQ:
            v = mon.call(nm, getattr(kg, nm), *p)
            mon.ok("finite on valid parameters", finite(v), entry=nm, got=v)
        o = mon.call("StableOrbit", kg.StableOrbit, *p, tuple(c["q"]))
        lam = np.array(c["lam"])
        for fs in (o.trajectory(), o.four_velocity(), o.numerical_four_velocity()):
            for f in fs:
                v = np.asarray(mon.call("component", f, lam))
                mon.ok("finite on valid parameters", v.shape == lam.shape and finite(v), entry="component", got=v)
        for f in o.trajectory_deltas():
            v = np.asarray(mon.call("delta", f, lam))
            mon.ok("finite on valid parameters", v.shape == lam.shape and finite(v), entry="delta", got=v)
        mon.ok("finite on valid parameters", finite(o.initial_position) and finite(o.initial_velocity), entry="initial")
        mon.ok("flagged stable", o.stable is True)
    elif k.startswith("velocity"):
        pos, u = tuple(num(v) for v in c["pos"]), tuple(num(v) for v in c["u"])
        if k == "velocity past":
            # a past-directed velocity is refused or followed
            try:
                o = kg.Orbit(c["a"], pos, u)
            except ValueError:
                mon.event("rejects bad velocity")
                return
            x, v = [float(f(0.0)) for f in o.trajectory()], [float(f(0.0)) for f in o.four_velocity()]
            mon.le("past-directed data followed", np.abs(np.array(x) - pos), 1e-3, got=x, want=pos)
            mon.le("past-directed data followed", np.abs(np.array(v) - u), 1e-3 * (1 + np.abs(u)), got=v, want=u)
            return
        if k != "velocity unit":
            mon.raises("rejects bad velocity", kg.Orbit, c["a"], pos, u, exc=ValueError)
            return
        E, L, Q = ref.conserved(c["a"], pos[1], pos[2], np.array(u))
        if E >= 1 - 1e-9:
            mon.raises("rejects unbound", kg.Orbit, c["a"], pos, u, exc=ValueError)
            return
        if c["a"] == 0 or E > 1 - 1e-3:
            mon.skip("not in the accepted domain")
        o = mon.call("Orbit", kg.Orbit, c["a"], pos, u)
        mon.ok("accepts unit velocity", isinstance(o.stable, (bool, np.bool_)))
        for f in o.trajectory():
            mon.ok("finite on valid parameters", finite(f(np.array([0.0, 0.1]))), entry="Orbit trajectory")
    elif k == "plunge invalid":
        p = tuple(num(c[s]) for s in ("a", "E", "L", "Q"))
        mon.raises("rejects unsupported plunge", kg.PlungingOrbit, *p, exc=ValueError)
    elif k == "plunge valid":
        p = tuple(c[s] for s in ("a", "E", "L", "Q"))
        v = mon.call("plunging_mino_frequencies", kg.plunging_mino_frequencies, *p)
        mon.ok("finite on valid plunges", finite(v), entry="frequencies", got=v)
        mon.ok("finite on valid plunges", bool(np.all(np.isfinite(kg.plunging_radial_roots(*p)))), entry="roots")
        o = mon.call("PlungingOrbit", kg.PlungingOrbit, *p, tuple(c["q"]))
        lam = np.array(c["lam"])
        # t and phi diverge on the horizons themselves
        far = lambda l: np.abs((o.trajectory()[1](l) - 1) ** 2 - (1 - p[0] ** 2)) > 1e-9
        sel = far(lam)
        if not far(0.0):
            sel = sel & False
        for fs in (o.trajectory(), o.four_velocity(), o.numerical_four_velocity(), o.trajectory_deltas()):
            for i, f in enumerate(fs):
                v = np.asarray(mon.call("component", f, lam))
                mon.ok("finite on valid plunges", v.shape == lam.shape and v.dtype.kind == "f" and finite(v[sel]), component=i, got=v)
        if far(0.0):
            mon.ok("finite on valid plunges", finite(o.initial_position) and finite(o.initial_velocity), entry="initial")
    else:
        units(c, mon)


def units(c, mon):
    p = tuple(c[s] for s in "apex")
    q = c["plunge"]
    pp = tuple(q[s] for s in ("a", "E", "L", "Q"))
    s, s_M, s_mu = kg.StableOrbit(*p), kg.StableOrbit(*p, M=c["M"]), kg.StableOrbit(*p, mu=c["mu"])
    pl, pl_M = kg.PlungingOrbit(*pp), kg.PlungingOrbit(*pp, M=c["M"])
    o = kg.Orbit(s.a, s.initial_position, s.initial_velocity)
    for ob in (s, pl, o, s_mu):
        for d in ("mks", "cgs", "km", "au"):
            mon.raises("rejects units without mass", ob.trajectory, distance_units=d, exc=ValueError)
        for d in ("mks", "cgs", "days"):
            mon.raises("rejects units without mass", ob.trajectory, time_units=d, exc=ValueError)
        for d in ("mks", "cgs"):
            mon.raises("rejects units without mass", ob.constants_of_motion, d, exc=ValueError)
    for ob in (s_M, pl_M, s_mu):
        for d in ("mks", "cgs"):
            mon.raises("rejects units without mass", ob.constants_of_motion, d, exc=ValueError)
    for ob in (s, s_mu):
        for d in ("mks", "cgs"):
            mon.raises("rejects units without mass", ob.mino_frequencies, d, exc=ValueError)
        for d in ("mks", "cgs", "mHz"):
            mon.raises("rejects units without mass", ob.fundamental_frequencies, d, exc=ValueError)
    full = kg.StableOrbit(*p, M=c["M"], mu=c["mu"])
    for bad in ("parsec", "", "MKS", "m", "Natural"):
        mon.raises("rejects unknown unit", full.constants_of_motion, bad)
        mon.raises("rejects unknown unit", full.mino_frequencies, bad)
        mon.raises("rejects unknown unit", full.fundamental_frequencies, bad)
        mon.raises("rejects unknown unit", lambda: full.trajectory(distance_units=bad)[1](0.1))
        mon.raises("rejects unknown unit", lambda: full.trajectory(time_units=bad)[0](0.1))
    for ob in (s, pl, o):
        v = mon.call("natural units need no mass", ob.constants_of_motion)
        mon.ok("natural units need no mass", finite(v))
