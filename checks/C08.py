"""Phase conventions, anchoring and periodicity of stable trajectories; initial data of the object."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg
from kerrgeopy.stable import stable_trajectory

LEVEL = "exploration"
RULE = ("stable orbits from every stratum; phase 0 at the inner radial / northern polar turning point, phase pi at the others, "
        "shifts of the phases versus shifts of Mino time, 2 pi periodicity of each phase, additivity of q_t and q_phi, "
        "reflection lambda -> -lambda, initial position and velocity reported by the object; non-trivial = a relation checked")
ASSUMPTIONS = ["relations between two evaluations of the code plus turning points known in closed form",
               "tolerance 1e-8 times the conditioning factor"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"equator at a quarter period": 0.001, "default start": 0.001, "polar turning points": 0.001, "inner turning point": 0.001,
         "initial_position": 0.003, "offsets of t and phi": 0.005, "outer turning point": 0.1}
REQUIRED = ["inner turning point", "outer turning point", "polar turning points", "time shift = phase shift", "phase periodicity",
            "offsets of t and phi", "time reversal", "initial_position", "initial_velocity", "phases of the call"]


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((1200 if tier == "quick" else 8000) * scale)
    for i in range(n):
        c = G.stable(rng, G.STABLE_KINDS[i % len(G.STABLE_KINDS)])
        c["q"], c["lam"] = G.phases(rng), G.far(rng, U(-6, 6, 6))
        c["n"] = [int(v) for v in rng.integers(-3, 4, 2)]
        c["s"] = float(U(-5, 5))
        c["dt"], c["dph"] = float(U(-100, 100)), float(U(-10, 10))
        yield c


def run(c, mon):
    p, q, lam = tuple(c[s] for s in "apex"), tuple(c["q"]), np.array(c["lam"])
    a, pp, e, x = p
    b = 1e-8 * G.cond(c)
    o = mon.call("StableOrbit", kg.StableOrbit, *p, q)
    Ur, Ut = float(o.upsilon_r), float(o.upsilon_theta)

    def ev(fs, l):
        return [np.asarray(f(l)) for f in fs]

    g = ref.Geodesic.bound(*p)
    k = G.cond(c)

    slack = 4 * (g.phi_slack(q[2] + 2 * np.pi * abs(c["n"][1])) + g.phi_slack(q[2] + Ut * lam) + g.phi_slack(q[2] + Ut * (lam + c["s"])) + g.phi_slack(q[2] + Ut * c["s"]))
    if not (np.all(np.isfinite(slack))):
        slack = 0.0

    def same(nm, A, B, tol=b, **kw):
        for i, (v, w) in enumerate(zip(A, B)):
            mon.le(nm, np.abs(v - w), tol * (1 + np.abs(w)) + (slack if i == 3 else 0), component=i, got=v, want=w, **kw)
    T = ev(o.trajectory(), lam)
    r1, r2 = pp / (1 - e), pp / (1 + e)
    thm = np.arctan2(abs(x), np.sqrt((1 - abs(x)) * (1 + abs(x))))
    for m in (0, 1, -1):
        z = o.trajectory((0, 2 * np.pi * m, 2 * np.pi * m, 0))
        w = o.trajectory((0, np.pi + 2 * np.pi * m, np.pi + 2 * np.pi * m, 0))
        mon.close("inner turning point", float(z[1](0.0)), r2, 1e-10 * G.cond(c))
        mon.close("outer turning point", float(w[1](0.0)), r1, 1e-10 * G.cond(c))
        mon.close("polar turning points", float(z[2](0.0)), thm, 0, 1e-7)
        mon.close("polar turning points", float(w[2](0.0)), np.pi - thm, 0, 1e-7)
        # direction of motion after the turning point
        dr, dt = 0.05 / Ur, 0.05 / Ut
        if e > 1e-6:
            mon.ok("leaves the inner turning point outwards", float(z[1](dr)) > r2 and float(w[1](dr)) < r1)
        if abs(x) < 1 - 1e-6:
            mon.ok("leaves the northern turning point southwards", float(z[2](dt)) > float(z[2](0.0)) and float(w[2](dt)) < float(w[2](0.0)))
    half = o.trajectory((0, 0, np.pi / 2, 0))
    mon.close("equator at a quarter period", float(half[2](0.0)), np.pi / 2, 0, 1e-9)
    mon.close("equator at a quarter period", float(o.trajectory((0, 0, -np.pi / 2, 0))[2](0.0)), np.pi / 2, 0, 1e-9)
    # shifting Mino time by s is shifting both phases, up to the constant offset of t and phi
    s = c["s"]
    sh = o.trajectory((q[0], q[1] + Ur * s, q[2] + Ut * s, q[3]))
    S, at = ev(sh, lam), ev(o.trajectory(), lam + s)
    t0, f0 = float(o.trajectory()[0](s)) - q[0], float(o.trajectory()[3](s)) - q[3]
    same("time shift = phase shift", [S[0] + t0, S[1], S[2], S[3] + f0], at)
    # 2 pi periodicity of the phases
    n1, n2 = c["n"]
    same("phase periodicity", ev(o.trajectory((q[0], q[1] + 2 * np.pi * n1, q[2] + 2 * np.pi * n2, q[3])), lam), T)
    # offsets
    Z = ev(o.trajectory((q[0] + c["dt"], q[1], q[2], q[3] + c["dph"])), lam)
    same("offsets of t and phi", Z, [T[0] + c["dt"], T[1], T[2], T[3] + c["dph"]])
    # reflection: phases -> -phases and lambda -> -lambda
    M = ev(o.trajectory((0, -q[1], -q[2], 0)), -lam)
    same("time reversal", [-M[0] + q[0], M[1], M[2], -M[3] + q[3]], T)
    # periodicity of r and theta
    same("periodicity", ev(o.trajectory()[1:2], lam + 2 * np.pi / Ur) + ev(o.trajectory()[2:3], lam + 2 * np.pi / Ut), T[1:3])
    # the object's initial data
    P0 = [float(f(0.0)) for f in o.trajectory()]
    mon.ok("four components", len(o.initial_position) == 4 and len(o.initial_velocity) == 4)
    same("initial_position", [float(v) for v in o.initial_position], P0, 1e-12 * G.cond(c))
    V0 = [float(f(0.0)) for f in o.four_velocity()]
    same("initial_velocity", [float(v) for v in o.initial_velocity], V0, 1e-9 * G.cond(c))
    same("initial_position", [float(v) for v in o.initial_position], [float(v) for v in g.state(0.0, q)], b)
    # the square of u_r, u_theta is a difference of nearly equal numbers at turning points
    for i, w in enumerate(g.velocity(0.0, q)):
        v, w = float(o.initial_velocity[i]), float(w)
        if i == 2 and float(g.axis_slack(q[2])) > 1e-12:
            continue  # the polar velocity reverses within a rounding error of the phase
        if i in (1, 2):
            mon.le("initial_velocity", min(abs(v * abs(v) - w * abs(w)), abs(v - w)), b * (1 + w * w), component=i, got=v, want=w)
        else:
            mon.close("initial_velocity", v, w, b + float(g.axis_slack(q[2])), b, component=i)
    z = kg.StableOrbit(*p)
    mon.ok("default phases are zero", tuple(z.initial_phases) == (0, 0, 0, 0))
    # phases given in the call act as if the orbit had been built with them
    same("phases of the call", ev(z.trajectory(q), lam), T, 1e-12)
    mon.close("phases of the call", np.array(ev(z.four_velocity(q), lam)), np.array(ev(o.four_velocity(), lam)), 1e-12, 1e-14, quantity="four-velocity")
    mon.close("phases of the call", np.array(ev(z.four_velocity(initial_phases=list(q)), lam)), np.array(ev(o.four_velocity(), lam)), 1e-12, 1e-14, quantity="four-velocity")
    mon.close("default start", [float(v) for v in z.initial_position], np.array([0.0, r2, thm, 0.0]), 1e-10 * G.cond(c), 1e-7)
