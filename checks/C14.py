"""An orbit built from an initial position and velocity passes through them and follows the geodesic they define."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg
from kerrgeopy import initial_conditions as ic

LEVEL = "exploration"
RULE = ("initial data sampled along reference geodesics: stable (20 strata, a >= 0: eccentric, circular, spherical, equatorial, "
        "near the separatrix, wide, ergosphere, Schwarzschild) and plunging (all strata), at generic points of all four sign "
        "combinations (u^r, u^theta), exactly at radial and polar turning points, on the equator, inside and outside the horizon, "
        "and within the documented tolerance 1e-4 of a turning point; non-trivial = an Orbit accepted and compared")
ASSUMPTIONS = ["reference model lib/ref.py",
               "the turning-point tolerance 1e-4 of the initial-phase functions is part of their documented interface: data closer "
               "than that to a turning point may be moved onto it",
               "stable orbits with a < 0 built from initial data are a known finding and excluded here"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"starts at the given position (plunge)": 0.001, "constants": 0.02, "orbital parameters": 0.1,
         "follows the geodesic (stable)": 0.5}
REQUIRED = ["starts at the given position (stable)", "starts at the given position (plunge)", "starts with the given velocity",
            "follows the geodesic (stable)", "follows the geodesic (plunge)", "constants", "orbital parameters",
            "frequencies (stable)", "frequencies (plunge)", "classification", "turning point snap", "phase functions",
            "inside the horizon", "ur>0 uth>0", "ur>0 uth<0", "ur<0 uth>0", "ur<0 uth<0"]
KINDS = [k for k in G.STABLE_KINDS if not k.startswith("neg_a")]
SPOTS = ["generic", "generic", "generic", "r_min", "r_max", "north", "south", "equator_up", "equator_down", "corner", "snap_r", "snap_th"]


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((2100 if tier == "quick" else 16000) * scale)
    for i in range(n):
        if i % 2:
            c = G.plunge(rng, G.PLUNGE_MORE[(i // 2) % len(G.PLUNGE_MORE)])
            c["fam"] = "plunge"
        else:
            c = G.stable(rng, KINDS[(i // 2) % len(KINDS)])
            c["fam"] = "stable"
        s = SPOTS[int(rng.integers(len(SPOTS)))]
        q = [float(U(-50, 50)), float(U(0, 2 * np.pi)), float(U(0, 2 * np.pi)), float(U(-9, 9))]
        if s in ("r_min", "corner"):
            q[1] = 0.0
        if s == "r_max" or (s == "corner" and rng.random() < 0.5):
            q[1] = np.pi
        if s in ("north", "corner"):
            q[2] = 0.0
        if s == "south" or (s == "corner" and rng.random() < 0.5):
            q[2] = np.pi
        if s == "equator_down":
            q[2] = np.pi / 2
        if s == "equator_up":
            q[2] = -np.pi / 2
        if s == "snap_r":
            q[1] = G.pick(rng, 0.0, np.pi) + float(G.sgn(rng) * 10 ** U(-9, -2))
        if s == "snap_th":
            q[2] = G.pick(rng, 0.0, np.pi) + float(G.sgn(rng) * 10 ** U(-9, -2))
        if c["kind"] == "far" and i % 3 == 0:  # wide orbits, mostly at their turning points
            c["p"], c["e"] = float(10 ** U(2, 7)), float(U(0.02, 0.95))
            c["gap"] = c["p"]
            if rng.random() < 0.7:
                s = G.pick(rng, "r_min", "r_max", "snap_r")
                q[1] = G.pick(rng, 0.0, np.pi) + (float(G.sgn(rng) * 10 ** U(-9, -2)) if s == "snap_r" else 0.0)
        if c["kind"] in ("axis_cx", "axis_real"):
            s = "generic"
            q[2] = float(G.pick(rng, 0.0, np.pi) + U(0.1, np.pi - 0.1))
        if c["kind"] == "x_tiny":  # away from the axis, where the data determine the orbit
            c["x"] = float(G.sgn(rng) * 10 ** U(-9, -3))
            c["p"] = float(max(c["p"], G.sep(c["a"], c["e"], c["x"]) + c["gap"]))
            s, c["a"] = "generic", abs(c["a"])
            q[2] = float(G.pick(rng, 0.0, np.pi) + U(0.1, np.pi - 0.1))
        c["spot"], c["q"] = s, q
        c["lam"] = [float(v) for v in U(-1, 1, 7) * 10 ** U(-1, 1)]
        yield c


def negative_spin(c, mon):
    """Bound orbit around a hole spinning clockwise: the mirror image of the orbit around |a|."""
    q, lam = tuple(c["q"]), np.array(c["lam"])
    g = ref.Geodesic.bound(-c["a"], c["p"], c["e"], c["x"])
    x0, u0 = [float(v) for v in g.state(0.0, q)], [float(v) for v in g.velocity(0.0, q)]
    x0[3], u0[3] = -x0[3], -u0[3]
    o = mon.call("Orbit", kg.Orbit, c["a"], tuple(x0), tuple(u0))
    mon.ok("classification", bool(o.stable))
    want = list(g.state(lam, q))
    want[3] = -want[3]
    for nm, f, w in zip(("t", "r", "theta", "phi"), o.trajectory(), want):
        mon.le("negative spin " + nm, np.abs(np.asarray(f(lam)) - w) / (1 + np.abs(w)), 1e-6, got=np.asarray(f(lam)), want=w)


def run(c, mon):
    if c["kind"] == "negative spin":
        return negative_spin(c, mon)
    st = c["fam"] == "stable"
    q, lam = tuple(c["q"]), np.array([0.0] + c["lam"])
    if st:
        g, k = ref.Geodesic.bound(*(c[s] for s in "apex")), G.cond(c)
    else:
        g, k = ref.Geodesic.plunge(*(c[s] for s in ("a", "E", "L", "Q"))), G.pcond(c)
    a = c["a"]
    x0 = [float(v) for v in g.state(0.0, q)]
    u0 = [float(v) for v in g.velocity(0.0, q)]
    Sig = x0[1] ** 2 + a * a * np.cos(x0[2]) ** 2
    gap = min(abs(x0[1] - g.rp), abs(x0[1] - g.rm))
    if Sig < 0.05 or gap < 2e-2:
        return  # the components of the data diverge there
    if c["spot"] == "north" or c["spot"] == "south" or c["spot"] == "corner":
        u0[2] = 0.0 if abs(u0[2]) < 1e-12 else u0[2]
    kk = k / min(1, gap) ** 2 / min(1, Sig) ** 2
    norm = np.array(u0) @ ref.metric(a, x0[1], x0[2]) @ np.array(u0)
    if abs(norm + 1) > 1e-7:
        mon.skip("initial data not normalised to 1e-7")
    if x0[1] < g.rp:
        mon.event("inside the horizon")
    # distance to the turning points in the coordinates the documented tolerance refers to
    thm = np.arctan2(np.sqrt(g.one_minus_zm2), np.sqrt(g.zm2))
    dr = min(abs(x0[1] - g.lo), abs(x0[1] - g.hi))
    dth = min(abs(x0[2] - thm), abs(np.pi - x0[2] - thm))
    moved_r, moved_th = dr < 1.1e-4, dth < 1.1e-4
    exact_r = c["spot"] in ("r_min", "r_max", "corner") or g.hi - g.lo < 1e-12
    exact_r = exact_r and not 1e-12 <= g.hi - g.lo < 2.5e-4  # both turning points within the tolerance
    exact_th = c["spot"] in ("north", "south", "corner") or g.zm2 < 1e-20
    exact_th = exact_th and not 1e-20 <= g.zm2 < 1.6e-8
    snapped = (moved_r and not exact_r) or (moved_th and not exact_th)
    mon.event("ur%s0 uth%s0" % tuple("<>"[int(v > 0)] for v in u0[1:3]) if u0[1] * u0[2] else "turning data")

    o = mon.call("Orbit", kg.Orbit, a, tuple(x0), tuple(u0))
    if not mon.ok("classification", o.stable is st or o.stable == st, got=o.stable, want=st):
        return
    E, L, Q = g.E, g.L, g.Q
    S = 1 + L * L + abs(Q) + Sig * 0
    b = 1e-9 * kk
    mon.le("constants", np.array([abs(o.E - E), abs(o.L - L) / (1 + abs(L)), abs(o.Q - Q) / S]), b, got=[o.E, o.L, o.Q], want=[E, L, Q])
    mon.ok("keeps the data", tuple(o.initial_position) == tuple(x0) and tuple(o.initial_velocity) == tuple(u0))
    mon.ok("initial phases", len(o.initial_phases) == 4 and o.initial_phases[0] == x0[0] and o.initial_phases[3] == x0[3])
    if st:
        par = np.array([o.p / c["p"] - 1, o.e - c["e"], o.x - c["x"]])
        e = max(c["e"], 1e-8)
        mon.le("orbital parameters", np.abs(par), np.array([1e-8 * k, 1e-8 * k / e, 1e-8 * k]), got=[o.p, o.e, o.x])
        W = [g.Ups_r, g.Ups_theta, g.Ups_phi, g.Gamma]
        V = [o.upsilon_r, o.upsilon_theta, o.upsilon_phi, o.gamma]
        mon.le("frequencies (stable)", np.array([abs(abs(v) - abs(w)) / abs(w) for v, w in zip(V, W)]), 4e-7 * k / e ** 0.5, got=V, want=W)
        O = [o.omega_r, o.omega_theta, o.omega_phi]
        mon.le("frequencies (stable)", np.array([abs(abs(v) - abs(w / g.Gamma)) / abs(w / g.Gamma) for v, w in zip(O, W)]), 4e-7 * k / e ** 0.5, got=O)
    else:
        V, W = [o.upsilon_r, o.upsilon_theta], [g.Ups_r, g.Ups_theta]
        # the constants recovered from the data carry an error of ~1e-9; next to a double root the roots move by its
        # ratio to the separation and the period by that again
        mon.le("frequencies (plunge)", np.array([abs(abs(v) - w) / w for v, w in zip(V, W)]), 1e-8 * kk * max(1, 0.05 / c["sepn"]), got=V, want=W)
    X = o.trajectory()
    x1 = [float(f(0.0)) for f in X]
    err = np.abs(np.array(x1) - np.array(x0)) / (1 + np.abs(x0))
    if snapped:
        mon.event("turning point snap")
        mon.le("starts near the given position", err, 3e-4, got=x1, want=x0, spot=c["spot"])
        return
    # at a turning point the position is a quadratic function of the phase
    dev = 1e-8 * kk
    tr = 10 * dev if not exact_r else 5e-6 * kk ** 0.5
    tt = 10 * dev if not exact_th else 5e-6 * kk ** 0.5
    fam = "(%s)" % c["fam"]
    for i in range(4):
        mon.le("starts at the given position " + fam, err[i], (dev, tr, tt, dev)[i], component=i, got=x1, want=x0, spot=c["spot"])
    v1 = [float(f(0.0)) for f in o.four_velocity()]
    for i in range(4):
        d = abs(v1[i] - u0[i])
        if i in (1, 2):
            d = min(d, abs(v1[i] * abs(v1[i]) - u0[i] * abs(u0[i])))
        mon.le("starts with the given velocity", d, 1e-6 * kk * (1 + abs(u0[i])) * (1 + 30 * (exact_r or exact_th)), component=i, got=v1, want=u0, spot=c["spot"])
    want = g.state(lam, q)
    got = [np.asarray(f(lam), float) for f in X]
    ok = np.minimum(np.abs(want[1] - g.rp), np.abs(want[1] - g.rm)) > 1e-2
    amp = 1e-7 * kk * (1 + np.abs(lam)) * (1 + 100 * (exact_r or exact_th))
    if st:
        amp = amp / min(1, e ** 0.5 * 10)
    for i, nm in enumerate(("t", "r", "theta", "phi")):
        sel = ok if i in (0, 3) else np.ones_like(ok)
        if nm == "phi" and c["kind"].startswith("axis") and abs(g.L) < 1e-8:
            # the sense of the turn by pi at the axis hangs on the last digits of L; away from the axis it is complete
            got[i] = want[i] + np.remainder(got[i] - want[i] + np.pi, 2 * np.pi) - np.pi
            sel = sel & (np.sin(want[2]) > 1e-3)
        mon.le("follows the geodesic " + fam, (np.abs(got[i] - want[i]) / (1 + np.abs(want[i])))[sel], amp[sel], component=nm,
               got=got[i], want=want[i], spot=c["spot"])
    # the phase functions behind the object, called on their own and with precomputed arguments
    f = ic.stable_orbit_initial_phases if st else ic.plunging_orbit_initial_phases
    ph = mon.call("phase functions", f, a, tuple(x0), tuple(u0))
    ph2 = mon.call("phase functions", f, a, tuple(x0), tuple(u0), constants=(o.E, o.L, o.Q))
    for w in (ph, ph2):
        d = np.array([abs((float(u) - float(v) + np.pi) % (2 * np.pi) - np.pi) for u, v in zip(w[1:3], o.initial_phases[1:3])])
        mon.le("phase functions", d, 1e-9 * kk, got=list(w), want=list(o.initial_phases))
        mon.ok("phase functions", w[0] == x0[0] and w[3] == x0[3])
