"""Reported trajectories agree with step-by-step integration of the geodesic equations from the reported initial data."""
import math
import numpy as np
from scipy.integrate import solve_ivp
import gen as G
import ref
import kerrgeopy as kg

LEVEL = "exploration"
RULE = ("stable orbits (all strata), plunges (all strata) and Orbit objects from initial data; the position and velocity reported at one Mino time are "
        "propagated by a Runge-Kutta integration of Hamilton's equations for the full Kerr metric (no separation of variables, no "
        "elliptic functions, no constants of motion except energy and axial angular momentum) and compared with the reported trajectory; "
        "stable orbits over several radial and polar periods, plunges between horizons, inside and outside; crossings of turning points counted "
        "against the reported frequencies; non-trivial = a coordinate compared")
ASSUMPTIONS = ["8th order integration with tolerance 1e-12; cases whose integration error estimate (two tolerances) exceeds the comparison tolerance are inconclusive",
               "segments stay 0.02 away from the horizons, 1e-3 from the axis and outside Sigma < 0.02"]
REQUIRED = ["t stable", "r stable", "theta stable", "phi stable", "t plunge", "r plunge", "theta plunge", "phi plunge", "radial turning points", "polar turning points",
            "Orbit", "mean rates"]
MAX_INCONCLUSIVE = 0.3


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((720 if tier == "quick" else 5000) * scale)
    for i in range(n):
        if i % 2:
            c = G.plunge(rng, G.PLUNGE_KINDS[(i // 2) % len(G.PLUNGE_KINDS)])
            c["fam"] = "plunge"
        else:
            k = G.STABLE_KINDS[(i // 2) % len(G.STABLE_KINDS)]
            c = G.stable(rng, "x_small" if k == "x_tiny" else k)  # the integration cannot resolve a passage of the axis at 1e-9
            c["fam"] = "stable"
        c["q"] = G.phases(rng, 5)
        c["l0"] = float(U(-3, 3)) if rng.random() < 0.5 else 0.0
        c["turns"] = float(U(1.0, 4.0)) * G.sgn(rng)
        c["frac"] = [float(v) for v in np.sort(U(0, 1, 6))]
        c["orbit"] = bool(rng.random() < 0.4)
        yield c


def flow(a, E, L):
    """Hamilton's equations in Mino time; y = (t, r, theta, phi, p_r, p_theta)."""
    def f(lam, y):
        r, th, pr, pt = y[1], y[2], y[4], y[5]
        s, co = math.sin(th), math.cos(th)
        D = r * r - 2 * r + a * a
        P = E * (r * r + a * a) - a * L
        W = L / s - a * E * s
        # H = (D pr^2 + pt^2 + W^2 - P^2/D + r^2 + a^2 cos^2)/2
        dD = 2 * r - 2
        dHr = (dD * pr * pr - (4 * E * r * P) / D + P * P * dD / (D * D) + 2 * r) / 2
        dW = -L * co / (s * s) - a * E * co
        dHt = (2 * W * dW - 2 * a * a * s * co) / 2
        return [(r * r + a * a) * P / D + a * s * W, D * pr, pt, a * P / D + W / s, -dHr, -dHt]
    return f


def run(c, mon):
    st, q = c["fam"] == "stable", tuple(c["q"])
    if st:
        a, p, e, x = (c[s] for s in "apex")
        k = G.cond(c)
        o = mon.call("StableOrbit", kg.StableOrbit, a, p, e, x, q)
    else:
        a, E, L, Q = (c[s] for s in ("a", "E", "L", "Q"))
        k = 10 * G.pcond(c)
        o = mon.call("PlungingOrbit", kg.PlungingOrbit, a, E, L, Q, q)
    T, U = o.trajectory(), o.four_velocity()
    if st:
        a = abs(a)
    l0 = c["l0"]
    if c["orbit"] and not (st and c["a"] < 0):
        x0 = [float(f(l0)) for f in T]
        u0 = [float(f(l0)) for f in U]
        if far(a, x0) and np.all(np.isfinite(u0)) and abs(ref.metric(a, x0[1], x0[2]).dot(u0).dot(u0) + 1) < 1e-8:
            ob = mon.call("Orbit", kg.Orbit, a, tuple(x0), tuple(u0))
            if bool(ob.stable) == st:
                o, l0, T, U = ob, 0.0, ob.trajectory(), ob.four_velocity()
                mon.event("Orbit")
    x0 = np.array([float(f(l0)) for f in T])
    u0 = np.array([float(f(l0)) for f in U])
    if not far(a, x0):
        # move along the motion until the starting point is well away from the singular surfaces
        for s in np.linspace(0, 2 * math.pi / float(o.upsilon_r), 40):
            x0 = np.array([float(f(l0 + s)) for f in T])
            if far(a, x0, 0.1):
                l0 = l0 + s
                u0 = np.array([float(f(l0)) for f in U])
                break
        else:
            mon.skip("no starting point away from the horizons")
    m = ref.metric(a, x0[1], x0[2])
    pc = m @ u0
    E, L = -pc[0], pc[3]
    Sig = x0[1] ** 2 + a * a * math.cos(x0[2]) ** 2
    D = x0[1] ** 2 - 2 * x0[1] + a * a
    # p_r = Sigma u^r / Delta = (dr/dlambda) / Delta
    y0 = [*x0, pc[1], pc[2]]
    # the same start with u^r and u^theta moved by the roundoff of the potentials they are square roots of
    P2 = (E * (x0[1] ** 2 + a * a) - a * L) ** 2 + abs(D) * (x0[1] ** 2 + L * L + 1)
    up = lambda v, d: math.copysign(math.sqrt(v * v + d), v)
    y0p = [*x0, up(pc[1], 2e-15 * P2 / D ** 2), up(pc[2], 2e-15 * (1 + L * L / math.sin(x0[2]) ** 2 + pc[2] ** 2))]
    per = 2 * math.pi / min(float(o.upsilon_r), 1e9)
    if st and not (per < 1e3):
        per = 2 * math.pi / abs(float(o.upsilon_theta))
    span = c["turns"] * per
    f = flow(a, E, L)
    if st:
        at = l0 + span * np.array(c["frac"])
        l1 = l0 + span
        if abs(span) * max(1, abs(float(o.upsilon_theta))) > 400:
            mon.skip("too many periods")
        ev = [lambda l, y: y[4], lambda l, y: y[5]]
        s = solve_ivp(f, (l0, l1), y0, method="DOP853", t_eval=at, rtol=2e-13, atol=1e-13, events=ev)
        s2 = solve_ivp(f, (l0, l1), y0p, method="DOP853", t_eval=at, rtol=1e-11, atol=1e-12)
    else:
        # within one side: stop close to a horizon, the ring or the axis
        def near(l, y):
            h = math.sqrt(1 - a * a)
            return min(abs(y[1] - 1 - h), abs(y[1] - 1 + h)) - 0.02

        def ring(l, y):
            return y[1] ** 2 + a * a * math.cos(y[2]) ** 2 - 0.02

        def axis(l, y):
            return abs(math.sin(y[2])) - 1e-3
        for g in (near, ring, axis):
            g.terminal = True
            if g(l0, y0) <= 0:
                mon.skip("starting point next to a singular surface")
        s = solve_ivp(f, (l0, l0 + span), y0, method="DOP853", rtol=2e-13, atol=1e-13, events=[near, ring, axis], dense_output=True)
        end = s.t[-1]
        at = l0 + (end - l0) * np.array(c["frac"]) * 0.999
        s2 = solve_ivp(f, (l0, end), y0p, method="DOP853", rtol=1e-11, atol=1e-12, dense_output=True)
        if not s.success or not s2.success:
            mon.skip("integration stopped")
    if not s.success or not s2.success:
        mon.skip("integration stopped")
    Y = s.y if st else s.sol(at)
    Z = s2.y if st else s2.sol(at)
    if Y.shape[1] != len(at):
        mon.skip("integration stopped early")
    drift = np.zeros_like(Y)
    if st and c["gap"] < 1e-2:
        # next to the separatrix the motion is exponentially sensitive: the roundoff of the constants matters, too
        for fac in (1 + 2e-14, 1 - 2e-14):
            s3 = solve_ivp(flow(a, E * fac, L), (l0, l1), y0, method="DOP853", t_eval=at, rtol=2e-13, atol=1e-13)
            if not s3.success:
                mon.skip("integration stopped")
            drift = np.maximum(drift, np.abs(s3.y - Y))
    tag = c["fam"]
    names = ("t", "r", "theta", "phi")
    for i in range(4):
        got = np.asarray(mon.call("trajectory", T[i], at), float)
        size = 1 + np.abs(Y[i]) + (np.abs(Y[i] - x0[i]) if i in (0, 3) else 0)
        tol = 3e-8 * k * size
        est = np.abs(Y[i] - Z[i]) + 10 * drift[i]
        if not np.all(est < 1e-4 * k * size):
            mon.event("integration not accurate enough")
            mon.skip("integration not accurate enough")
        mon.le("%s %s" % (names[i], tag), np.abs(got - Y[i]), tol + 50 * est, got=got, want=Y[i], lam=at, l0=l0)
    if not st:
        return
    n_r, n_t = len(s.t_events[0]), len(s.t_events[1])
    tau = abs(span)
    if float(c["e"]) > 1e-3:
        mon.le("radial turning points", abs(n_r - 2 * tau * float(o.upsilon_r) / (2 * math.pi)), 1.0 + 1e-6)
    if 1 - abs(c["x"]) > 1e-6:
        mon.le("polar turning points", abs(n_t - 2 * tau * abs(float(o.upsilon_theta)) / (2 * math.pi)), 1.0 + 1e-6)
    # mean rates between successive periapsis passages of the integrated motion (equatorial or spherical: exactly periodic)
    if (abs(c["x"]) == 1 and c["e"] > 1e-3) and n_r >= 3:
        e_ = s.t_events[0]
        P = e_[2] - e_[0]
        ye = s.y_events[0]
        mon.le("mean rates", abs(abs(P) * float(o.upsilon_r) / (2 * math.pi) - 1), 1e-6 * k)
        mon.le("mean rates", abs((ye[2][3] - ye[0][3]) / P / float(o.upsilon_phi) - 1), 1e-6 * k)
        mon.le("mean rates", abs((ye[2][0] - ye[0][0]) / P / float(o.gamma) - 1), 1e-6 * k)
    if c["e"] == 0 and 1 - abs(c["x"]) > 1e-6 and n_t >= 3:
        e_, ye = s.t_events[1], s.y_events[1]
        P = e_[2] - e_[0]
        mon.le("mean rates", abs(abs(P) * abs(float(o.upsilon_theta)) / (2 * math.pi) - 1), 1e-6 * k)
        mon.le("mean rates", abs((ye[2][3] - ye[0][3]) / P / float(o.upsilon_phi) - 1), 1e-6 * k)
        mon.le("mean rates", abs((ye[2][0] - ye[0][0]) / P / float(o.gamma) - 1), 1e-6 * k)


def far(a, x, d=0.03):
    h = math.sqrt(1 - a * a)
    return (min(abs(x[1] - 1 - h), abs(x[1] - 1 + h)) > d and x[1] ** 2 + a * a * math.cos(x[2]) ** 2 > 0.05 and abs(math.sin(x[2])) > 5e-3
            and np.all(np.isfinite(x)))
