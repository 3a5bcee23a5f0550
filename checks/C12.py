"""Phase conventions, anchoring, periodicity and initial data of plunging trajectories."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg

LEVEL = "exploration"
RULE = ("plunging constants from every plunge stratum; phase 0 at the innermost / northernmost turning point, phase shifts versus time "
        "shifts, 2 pi periodicity, offsets of t and phi, time reversal, the object's initial position and velocity; "
        "non-trivial = a relation checked")
ASSUMPTIONS = ["evaluation points within 1e-3 of a horizon are compared in r and theta only"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"offsets of t and phi": 0.0001, "turning points at phase 0 and pi": 0.001, "initial_position": 0.01, "time reversal": 0.1,
         "phase periodicity": 0.15, "initial_velocity": 0.05, "time shift = phase shift": 0.1}
REQUIRED = ["turning points at phase 0 and pi", "time shift = phase shift", "phase periodicity", "offsets of t and phi",
            "time reversal", "initial_position", "initial_velocity", "phases of the call"]


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((1400 if tier == "quick" else 9000) * scale)
    for i in range(n):
        c = G.plunge(rng, G.PLUNGE_KINDS[i % len(G.PLUNGE_KINDS)])
        c["q"], c["lam"] = G.phases(rng), G.far(rng, U(-2, 2, 6))
        c["n"] = [int(v) for v in rng.integers(-3, 4, 2)]
        c["s"], c["dt"], c["dph"] = float(U(-1, 1)), float(U(-100, 100)), float(U(-10, 10))
        yield c


def run(c, mon):
    p, q, lam = tuple(c[s] for s in ("a", "E", "L", "Q")), tuple(c["q"]), np.array(c["lam"])
    g = ref.Geodesic.plunge(*p)
    b = 1e-7 * G.pcond(c)
    o = mon.call("PlungingOrbit", kg.PlungingOrbit, *p, q)
    Ur, Ut = float(o.upsilon_r), float(abs(o.upsilon_theta))
    thm = np.arctan2(np.sqrt(g.one_minus_zm2), np.sqrt(g.zm2))
    gaps = lambda r: np.minimum(np.abs(r - g.rp), np.abs(r - g.rm))
    g0 = float(gaps(g.state(0.0, q)[1]))

    def ev(fs, l):
        return [np.asarray(f(l)) for f in fs]

    def same(nm, A, B, ok, tol=b):
        for i, (v, w) in enumerate(zip(A, B)):
            if i in (0, 3):
                v, w = v[ok], w[ok]
            if v.size:
                mon.close(nm, v, w, tol, tol, component=i)
    for m in (0, 1, -1):
        z = o.trajectory((0, 2 * np.pi * m, 2 * np.pi * m, 0))
        w = o.trajectory((0, np.pi + 2 * np.pi * m, np.pi + 2 * np.pi * m, 0))
        mon.close("turning points at phase 0 and pi", [float(z[1](0.0)), float(w[1](0.0))], np.array([g.lo, g.hi]), b, b)
        mon.close("turning points at phase 0 and pi", [float(z[2](0.0)), float(w[2](0.0))], np.array([thm, np.pi - thm]), b, b)
        dr, dt = 0.05 / Ur, 0.05 / Ut
        mon.ok("leaves the inner turning point outwards", float(z[1](dr)) > float(z[1](0.0)) and float(w[1](dr)) < float(w[1](0.0)))
        if g.zm2 > 1e-6:
            mon.ok("leaves the northern turning point southwards", float(z[2](dt)) > float(z[2](0.0)) and float(w[2](dt)) < float(w[2](0.0)))
    T = ev(o.trajectory(), lam)
    ok = (gaps(T[1]) > 1e-3) & (g0 > 1e-3)
    s = c["s"]
    at = ev(o.trajectory(), lam + s)
    S = ev(o.trajectory((q[0], q[1] + Ur * s, q[2] + Ut * s, q[3])), lam)
    rs = float(gaps(g.state(s, q)[1]))
    oks = (gaps(at[1]) > 1e-3) & (rs > 1e-3) & (g0 > 1e-3)
    t0, f0 = float(o.trajectory()[0](s)) - q[0], float(o.trajectory()[3](s)) - q[3]
    same("time shift = phase shift", [S[0] + t0, S[1], S[2], S[3] + f0], at, oks)
    n1, n2 = c["n"]
    same("phase periodicity", ev(o.trajectory((q[0], q[1] + 2 * np.pi * n1, q[2] + 2 * np.pi * n2, q[3])), lam), T, ok)
    same("offsets of t and phi", ev(o.trajectory((q[0] + c["dt"], q[1], q[2], q[3] + c["dph"])), lam), [T[0] + c["dt"], T[1], T[2], T[3] + c["dph"]], ok)
    M = ev(o.trajectory((0, -q[1], -q[2], 0)), -lam)
    same("time reversal", [-M[0] + q[0], M[1], M[2], -M[3] + q[3]], T, ok)
    z = kg.PlungingOrbit(*p)
    mon.ok("default phases are zero", tuple(z.initial_phases) == (0, 0, 0, 0))
    # phases given in the call act as if the orbit had been built with them
    same("phases of the call", ev(z.trajectory(q), lam), T, np.ones(lam.shape, bool), 1e-12)
    far = (gaps(T[1]) > 1e-9) & (T[1] ** 2 + p[0] ** 2 * np.cos(T[2]) ** 2 > 1e-12)
    V, W = ev(z.four_velocity(list(q)), lam[far]), ev(o.four_velocity(), lam[far])
    mon.close("phases of the call", np.array(V), np.array(W), 1e-12, 1e-14, quantity="four-velocity")
    if g0 <= 1e-3:
        return
    mon.ok("four components", len(o.initial_position) == 4 and len(o.initial_velocity) == 4)
    mon.close("initial_position", [float(v) for v in o.initial_position], np.array([float(v) for v in g.state(0.0, q)]), b, b)
    x0 = [float(v) for v in g.state(0.0, q)]
    Sig = x0[1] ** 2 + p[0] ** 2 * np.cos(x0[2]) ** 2
    if Sig < 0.02:  # next to the ring singularity the components diverge
        return
    b = b / min(1.0, Sig) ** 2
    for i, w in enumerate(g.velocity(0.0, q)):
        v, w = float(o.initial_velocity[i]), float(w)
        if i in (1, 2):
            mon.le("initial_velocity", min(abs(v * abs(v) - w * abs(w)), abs(v - w)), b * (1 + w * w) / min(1, g0), component=i, got=v, want=w)
        else:
            mon.close("initial_velocity", v, w, b / min(1, g0), b / min(1, g0), component=i)
