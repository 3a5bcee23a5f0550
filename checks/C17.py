"""Physical units: every conversion is the one that dimensional analysis dictates, everywhere it is offered."""
import numpy as np
import gen as G
import kerrgeopy as kg
from kerrgeopy import units as un
from kerrgeopy.stable import stable_trajectory
from kerrgeopy.plunge import plunging_trajectory

LEVEL = "exploration"
RULE = ("unit functions on random values and masses (1e-6 to 1e12 solar masses) including arrays and zero; every method of StableOrbit, "
        "PlungingOrbit and Orbit that accepts a unit, over all units and unit pairs, against its natural-unit value; missing masses; "
        "unknown units; scale_constants; non-trivial = a converted value compared")
ASSUMPTIONS = ["SI values of c, G and the solar mass to 5e-4 (the package may round them); everything else exact to 1e-11",
               "natural frequencies, constants and trajectories themselves are judged by other properties"]
REQUIRED = ["mass", "distance", "time", "energy", "angular momentum", "Carter constant", "frequency", "linear", "trajectory units",
            "mino frequencies units", "fundamental frequencies units", "constants units", "missing mass rejected", "unknown unit rejected",
            "scale_constants", "physical consistency"]
DU = ["natural", "mks", "cgs", "au", "km"]
TU = ["natural", "mks", "cgs", "days"]


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((480 if tier == "quick" else 6000) * scale)
    for i in range(n):
        k = i % 4
        M, mu = float(10 ** U(-6, 12)), float(10 ** U(-6, 6))
        if rng.random() < 0.1:
            M = float(G.pick(rng, 1.0, 2.0))
        if k == 0:
            yield dict(kind="functions", M=M, v=[float(w) for w in G.sgn(rng) * 10 ** U(-8, 8, 4)])
        elif k == 1:
            yield dict(G.stable(rng), kind="StableOrbit", M=M, mu=mu, q=G.phases(rng), lam=[float(v) for v in U(-3, 3, 4)])
        elif k == 2:
            yield dict(G.plunge(rng), kind="PlungingOrbit", M=M, mu=mu, q=G.phases(rng), lam=[float(v) for v in U(-1, 1, 4)])
        else:
            f = G.pick(rng, "generic", "equatorial", "cx", "real_inner", "schwarzschild")
            c = G.plunge(rng, f) if f in ("cx", "real_inner") else G.stable(rng, f)
            yield dict(c, kind="Orbit", M=M, mu=mu, q=[float(U(-5, 5)), float(U(2.6, 3.6)), float(U(0.3, 1.2)), float(U(-3, 3))], lam=[float(v) for v in U(-1, 1, 4)])


# SI reference
CC, GG, MS, AU, LY = 299792458.0, 6.6743e-11, 1.98847e30, 1.495978707e11, 9.4607e15


def run(c, mon):
    M = c["M"]
    kgm = float(mon.call("units", un.mass_in_kg, 1.0))
    met = float(mon.call("units", un.distance_in_meters, 1.0, 1.0))
    sec = float(mon.call("units", un.time_in_seconds, 1.0, 1.0))
    mon.le("physical consistency", abs(met / sec / CC - 1), 1e-12, got=met / sec)
    mon.le("physical consistency", abs(kgm / MS - 1), 5e-4, got=kgm)
    mon.le("physical consistency", abs(met * CC ** 2 / kgm / GG - 1), 5e-4, got=met)
    m_, l_, t_ = kgm * M, met * M, sec * M  # mass, length and time unit of this black hole
    mu = c.get("mu", 1.0) * kgm
    factor = dict(distance=dict(natural=1.0, mks=l_, cgs=100 * l_, km=l_ / 1e3, au=float(un.distance_in_au(1.0, M))),
                  time=dict(natural=1.0, mks=t_, cgs=t_, days=t_ / 86400))
    if c["kind"] == "functions":
        return functions(c, mon, M, m_, l_, t_)
    if c["kind"] == "StableOrbit":
        p = tuple(c[s] for s in "apex")
        mk = lambda **kw: kg.StableOrbit(*p, tuple(c["q"]), **kw)
        free = lambda du, tu, M_: stable_trajectory(*p, tuple(c["q"]), M_, du, tu)
    elif c["kind"] == "PlungingOrbit":
        p = tuple(c[s] for s in ("a", "E", "L", "Q"))
        mk = lambda **kw: kg.PlungingOrbit(*p, tuple(c["q"]), **kw)
        free = lambda du, tu, M_: plunging_trajectory(*p, tuple(c["q"]), M_, du, tu)
    else:
        src = kg.StableOrbit(*(c[s] for s in "apex"), tuple(c["q"])) if "p" in c else kg.PlungingOrbit(*(c[s] for s in ("a", "E", "L", "Q")), tuple(c["q"]))
        if not "p" in c and not (src.initial_position[1] > 1.02 * (1 + np.sqrt(1 - c["a"] ** 2))):
            return
        mk = lambda **kw: kg.Orbit(c["a"], src.initial_position, src.initial_velocity, **kw)
        free = None
    # by keyword, by name; with M only, with both masses
    o, oM, o0 = (mon.call(c["kind"], mk, **kw) for kw in (dict(M=M, mu=c["mu"]), dict(M=M), {}))
    lam = np.array(c["lam"])
    nat = [np.asarray(f(lam), float) for f in o0.trajectory()]
    for du in DU:
        for tu in TU:
            for w, ob in (("", o), ("M only", oM)):
                T = [np.asarray(mon.call("trajectory", f, lam), float) for f in mon.call("trajectory", ob.trajectory, distance_units=du, time_units=tu)]
                want = [nat[0] * factor["time"][tu], nat[1] * factor["distance"][du], nat[2], nat[3]]
                for i in range(4):
                    mon.close("trajectory units", T[i], want[i], 1e-11, component=i, distance=du, time=tu, note=w)
                if w:
                    break
            if free:
                T = [np.asarray(f(lam), float) for f in mon.call("trajectory function", free, du, tu, M)]
                for i in range(4):
                    mon.close("trajectory units", T[i], want[i], 1e-11, component=i, distance=du, time=tu, note="function")
            if (du, tu) != ("natural", "natural"):
                mon.raises("missing mass rejected", o0.trajectory, distance_units=du, time_units=tu, exc=ValueError)
                if free:
                    mon.raises("missing mass rejected", free, du, tu, None, exc=ValueError)
    q2 = tuple(np.array(c["q"]) + (1.0, 0.1, 0.2, 0.3))
    n2 = [np.asarray(f(lam), float) for f in o0.trajectory(q2)]
    T = [np.asarray(f(lam), float) for f in mon.call("trajectory", o.trajectory, q2, "km", "days")]
    for i, f in enumerate((factor["time"]["days"], factor["distance"]["km"], 1, 1)):
        mon.close("trajectory units", T[i], n2[i] * f, 1e-11, component=i, note="phases given")
    mon.raises("unknown unit rejected", lambda: [f(lam) for f in o.trajectory(distance_units="furlong")])
    mon.raises("unknown unit rejected", lambda: [f(lam) for f in o.trajectory(time_units="fortnight")])
    E, L, Q = o0.E, o0.L, o0.Q
    for ob in (o, oM, o0):
        mon.ok("constants units", tuple(ob.constants_of_motion()) == (E, L, Q) and tuple(ob.constants_of_motion("natural")) == (E, L, Q))
    C = CC
    Gn = met * C * C / kgm
    want = dict(mks=(E * mu * C * C, L * Gn * mu * m_ / C, Q * (Gn * mu * m_ / C) ** 2))
    want["cgs"] = (want["mks"][0] * 1e7, want["mks"][1] * 1e7, want["mks"][2] * 1e14)
    for u in ("mks", "cgs"):
        mon.close("constants units", list(mon.call("constants_of_motion", o.constants_of_motion, u)), np.array(want[u], float), 1e-11, units=u)
        mon.raises("missing mass rejected", oM.constants_of_motion, u, exc=ValueError)
        mon.raises("missing mass rejected", o0.constants_of_motion, u, exc=ValueError)
    mon.raises("unknown unit rejected", o.constants_of_motion, "imperial", exc=ValueError)
    if c["kind"] == "StableOrbit":
        n = [float(v) for v in o0.mino_frequencies()]
        mon.close("mino frequencies units", list(o.mino_frequencies("natural")), np.array(n), 1e-15)
        for u in ("mks", "cgs"):
            mon.close("mino frequencies units", list(mon.call("mino_frequencies", oM.mino_frequencies, u)),
                      np.array([n[0] * t_, n[1] * t_, n[2] * t_, n[3] * t_ ** 2]), 1e-11, units=u)
            mon.raises("missing mass rejected", o0.mino_frequencies, u, exc=ValueError)
        f = [float(v) for v in o0.fundamental_frequencies()]
        mon.close("fundamental frequencies units", list(o.fundamental_frequencies("natural")), np.array(f), 1e-15)
        mon.close("fundamental frequencies units", f, np.array(n[:3]) / n[3], 1e-12)
        for u, s in (("mks", 1), ("cgs", 1), ("mHz", 1e3)):
            mon.close("fundamental frequencies units", list(mon.call("fundamental_frequencies", oM.fundamental_frequencies, u)), np.array(f) * s / t_, 1e-11, units=u)
            mon.raises("missing mass rejected", o0.fundamental_frequencies, u, exc=ValueError)
        mon.raises("unknown unit rejected", o.fundamental_frequencies, "rpm", exc=ValueError)
        mon.raises("unknown unit rejected", o.mino_frequencies, "rpm", exc=ValueError)
        if c["a"] >= 0:
            cc = kg.StableOrbit.from_constants(c["a"], E, L, Q, tuple(c["q"]), M, c["mu"]) if c["e"] > 1e-3 and abs(c["x"]) < 0.99 and c["gap"] > 0.1 and c["p"] < 1e3 and c["a"] > 0.01 and c["e"] < .95 else None
            if cc is not None:
                mon.close("constants units", list(cc.constants_of_motion("mks")), np.array(want["mks"], float), 1e-7, note="from_constants")


def functions(c, mon, M, m_, l_, t_):
    lin = []
    C = CC
    v = c["v"]
    G_ = l_ * C * C / m_
    for x in v + [0.0]:
        for nm, f, w in (("distance", un.distance_in_meters, x * l_), ("distance", un.distance_in_cm, x * l_ * 100), ("distance", un.distance_in_km, x * l_ / 1e3),
                         ("time", un.time_in_seconds, x * t_), ("time", un.time_in_days, x * t_ / 86400), ("time", un.time2_in_seconds2, x * t_ * t_),
                         ("energy", un.energy_in_joules, x * m_ * C * C), ("energy", un.energy_in_ergs, x * m_ * C * C * 1e7),
                         ("angular momentum", un.angular_momentum_in_mks, x * G_ * m_ * m_ / C), ("angular momentum", un.angular_momentum_in_cgs, x * G_ * m_ * m_ / C * 1e7),
                         ("Carter constant", un.carter_constant_in_mks, x * (G_ * m_ * m_ / C) ** 2), ("Carter constant", un.carter_constant_in_cgs, x * (G_ * m_ * m_ / C) ** 2 * 1e14),
                         ("frequency", un.frequency_in_Hz, x / t_), ("frequency", un.frequency_in_mHz, x / t_ * 1e3)):
            mon.close(nm, mon.call(nm, f, x, M), np.float64(w), 1e-11, function=f.__name__, value=x)
        mon.close("distance", mon.call("au", un.distance_in_au, x, M), np.float64(x * l_ / AU), 5e-4)
        mon.close("distance", mon.call("ly", un.distance_in_lightyears, x, M), np.float64(x * l_ / LY), 5e-4)
    mon.close("mass", mon.call("mass", un.mass_in_kg, M), np.float64(m_), 1e-12)
    arr = np.array(v)
    for f in (un.distance_in_meters, un.distance_in_cm, un.distance_in_km, un.distance_in_au, un.distance_in_lightyears, un.time_in_seconds, un.time_in_days,
              un.time2_in_seconds2, un.energy_in_joules, un.energy_in_ergs, un.angular_momentum_in_mks, un.angular_momentum_in_cgs,
              un.carter_constant_in_mks, un.carter_constant_in_cgs, un.frequency_in_Hz, un.frequency_in_mHz):
        mon.close("linear", np.asarray(mon.call("array", f, arr, M)), np.array([f(x, M) for x in v]), 1e-13, function=f.__name__)
        mon.close("linear", f(v[0] + v[1], M), np.float64(f(v[0], M) + f(v[1], M)), 1e-9, 1e-9 * abs(f(v[0], M)), function=f.__name__)
    E, L, Q, s = v
    for m in (1.0, M):
        got = mon.call("scale_constants", kg.scale_constants, (E, L, Q), m, s)
        mon.close("scale_constants", list(got), np.array([E * s, L * s * m, Q * s * s * m * m]), 1e-12)
