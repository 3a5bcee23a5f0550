"""The four-velocity is the unit tangent of the trajectory and carries the orbit's constants of motion."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg

LEVEL = "exploration"
RULE = ("stable orbits (all strata) and plunges (all strata); four_velocity and numerical_four_velocity sampled along the orbit: norm, "
        "E, L, Q recomputed from the Killing vectors and Killing tensor at the point reported by the trajectory, components "
        "against the reference and against finite differences of the reported trajectory; Orbit objects from initial data; "
        "phases at construction and per call; scalar and array times; non-trivial = a component compared")
ASSUMPTIONS = ["metric and Killing tensor written independently of the package (Carter frame)",
               "points with Sigma < 0.02, or closer than 1e-3 to a horizon, or within 1e-6 of the axis are not judged; u^r and "
               "u^theta are judged through their squares next to turning points"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"norm (plunge)": 0.0001, "E": 0.0001, "L": 0.0001, "Orbit norm": 0.0001, "Orbit constants": 0.001, "Q": 0.01,
         "norm (stable)": 0.01, "components (stable)": 0.02, "components (plunge)": 0.03, "tangent (stable)": 0.01,
         "tangent (plunge)": 0.1}
REQUIRED = ["norm (stable)", "norm (plunge)", "E", "L", "Q", "components (stable)", "components (plunge)", "numerical (stable)",
            "numerical (plunge)", "tangent (stable)", "tangent (plunge)", "Orbit norm", "Orbit constants", "scalar time",
            "phases per call", "custom step"]


def gen(rng, tier, scale):
    n = int((1600 if tier == "quick" else 10000) * scale)
    for i in range(n):
        if i % 2:
            c = G.plunge(rng, G.PLUNGE_MORE[(i // 2) % len(G.PLUNGE_MORE)])
            c["fam"] = "plunge"
        else:
            c = G.stable(rng, G.STABLE_KINDS[(i // 2) % len(G.STABLE_KINDS)])
            c["fam"] = "stable"
        c["q"] = G.phases(rng)
        c["lam"] = [0.0] + G.far(rng, rng.uniform(-1, 1, 9) * 10 ** rng.uniform(-2, 1))
        c["percall"] = bool(rng.integers(2))
        c["orbit"] = bool(rng.integers(2))
        c["dx"] = G.pick(rng, None, None, 1e-5, 3e-6)
        yield c


def run(c, mon):
    st = c["fam"] == "stable"
    q, lam = tuple(c["q"]), np.array(c["lam"])
    if st:
        p = tuple(c[s] for s in "apex")
        g, k = ref.Geodesic.bound(*p), G.cond(c)
        cls = kg.StableOrbit
    else:
        p = tuple(c[s] for s in ("a", "E", "L", "Q"))
        g, k = ref.Geodesic.plunge(*p), 10 * G.pcond(c)
        cls = kg.PlungingOrbit
    if c["percall"]:
        o = mon.call("orbit", cls, *p)
        U, X = mon.call("four_velocity", o.four_velocity, q), o.trajectory(q)
        N = mon.call("numerical_four_velocity", o.numerical_four_velocity, initial_phases=q)
        mon.event("phases per call")
    else:
        o = mon.call("orbit", cls, *p, q)
        U, X = mon.call("four_velocity", o.four_velocity), o.trajectory()
        if c["dx"]:
            mon.event("custom step")
            N = mon.call("numerical_four_velocity", o.numerical_four_velocity, dx=c["dx"])
        else:
            N = mon.call("numerical_four_velocity", o.numerical_four_velocity)
    tag = "(%s)" % c["fam"]
    want = np.array([np.broadcast_to(v, lam.shape) for v in g.velocity(lam, q)])
    judge(mon, c, g, k, o.a, (o.E, o.L, o.Q), U, X, N, lam, q, want, tag, not st)
    if not c["orbit"] or (st and p[0] < 0):
        return
    x0, u0 = [float(v) for v in g.state(0.0, q)], [float(v) for v in g.velocity(0.0, q)]
    if not st and x0[1] < g.rp + 1e-2:
        return
    if np.sin(x0[2]) < 1e-3:  # the data do not determine the motion to double precision
        return
    ob = mon.call("Orbit", kg.Orbit, p[0], tuple(x0), tuple(u0))
    if bool(ob.stable) != st:
        if st and c["gap"] < 1e-3:
            mon.skip("Orbit close to the separatrix classified as plunge")
        mon.fail("Orbit constants", note="classification", got=ob.stable)
        return
    E, L, Q = g.E, g.L, g.Q
    S = 1 + L * L + Q
    mon.le("Orbit constants", max(abs(ob.E - E), abs(ob.L - L) / S, abs(ob.Q - Q) / S), 1e-7 * k, got=[ob.E, ob.L, ob.Q], want=[E, L, Q])
    U2, X2 = ob.four_velocity(), ob.trajectory()
    for l in lam[:5]:
        x = [float(f(l)) for f in X2]
        u = [float(f(l)) for f in U2]
        Sig = x[1] ** 2 + p[0] ** 2 * np.cos(x[2]) ** 2
        if Sig < 0.02 or min(abs(x[1] - g.rp), abs(x[1] - g.rm)) < 1e-2 or np.sin(x[2]) < 1e-3:
            continue
        mon.le("Orbit norm", *norm_err(p[0], x, u, 1e-8 * k), got=u)


def norm_err(a, x, u, rel):
    m = ref.metric(a, x[1], x[2])
    size = np.abs(u) @ np.abs(m) @ np.abs(u)
    return abs(u @ m @ np.array(u) + 1) if isinstance(u, np.ndarray) else abs(np.array(u) @ m @ np.array(u) + 1), rel * (1 + size)


def judge(mon, c, g, k, a, ELQ, U, X, N, lam, q, want, tag, plunge):
    XV = np.array([np.asarray(f(lam), float) for f in X])
    UV = np.array([np.asarray(mon.call("four_velocity", f, lam), float) for f in U])
    mon.ok("array shape", UV.shape == want.shape, got=UV.shape)
    NV = np.array([np.asarray(mon.call("numerical_four_velocity", f, lam), float) for f in N])
    dx = c["dx"] or 1e-6
    # finite differences of the reported trajectory, sixth order
    h = 2e-4
    d = sum(w * np.array([np.asarray(f(lam + s * h), float) for f in X])
            for s, w in ((1, .75), (-1, -.75), (2, -.15), (-2, .15), (3, 1 / 60), (-3, -1 / 60))) / h
    E, L, Q = ELQ
    for j, l in enumerate(lam):
        t, r, th, ph = XV[:, j]
        Sig = r * r + a * a * np.cos(th) ** 2
        gap = min(abs(r - g.rp), abs(r - g.rm))
        if not (Sig >= 0.02 and gap >= 1e-3 and np.sin(th) >= 1e-6):
            mon.event("point not judged")
            continue
        u = UV[:, j]
        kk = k / min(1, Sig) ** 2 / min(1, gap)
        mon.le("norm " + tag, *norm_err(a, XV[:, j], u, 1e-8 * kk), got=u)
        m = ref.metric(a, r, th)
        sz = np.abs(m) @ np.abs(u)
        e_, l_, q_ = ref.conserved(a, r, th, u)
        mon.le("E", abs(e_ - E), 1e-8 * kk * (1 + sz[0]), got=e_, want=E)
        mon.le("L", abs(l_ - L), 1e-8 * kk * (1 + sz[3]), got=l_, want=L)
        # the square of u_theta vanishes at the polar turning point
        sq = 1 + (m[2, 2] * u[2]) ** 2 + L * L / np.sin(th) ** 2 + abs(Q)
        mon.le("Q", abs(q_ - Q), 1e-7 * kk * sq, got=q_, want=Q)
        w = want[:, j]
        amp = 1 + np.abs(w)
        for i in range(4):
            e1 = abs(u[i] - w[i])
            if i in (1, 2):
                e1 = min(e1, abs(u[i] * abs(u[i]) - w[i] * abs(w[i])))
            mon.le("components " + tag, e1, 1e-7 * kk * amp[i] * max(1, abs(l) / 10), component=i, time=l, got=u[i], want=w[i])
        s = mon.call("four_velocity", U[j % 4], float(l))
        mon.ok("scalar time", np.ndim(s) == 0, got=s)
        # (no difference quotient across the kink at a passage next to the axis)
        if gap < 0.02 or np.sin(th) < max(1e-3, 20 * max(h, dx) * abs(w[2]) * Sig):
            continue
        # scale of the derivatives of the motion
        sc = 1 + np.abs(want[:, j] * Sig).max()
        # next to turning points the package keeps only half the digits of an amplitude, which a
        # difference quotient with a small step amplifies: t and phi are not differentiated there
        near = min(abs((v + np.pi / 2) % np.pi - np.pi / 2) for v in (g.Ups_r * l + q[1], g.Ups_theta * l + q[2])) < 1e-3
        v = d[:, j] / Sig
        big = kk * sc / min(1, gap) ** 3 / np.sin(th) ** 2
        for i in ((1, 2) if near else range(4)):
            rr = 1e-12 * (1 + np.abs(XV[i, j])) / Sig + 1e-15 * abs(l) * (1 + abs(u[i])) * k
            mon.le("tangent " + tag, min(abs(v[i] - u[i]), (abs(v[i] * abs(v[i]) - u[i] * abs(u[i])) if i in (1, 2) else np.inf)),
                   1e-6 * big * amp[i] + rr / h * 10, component=i, time=l, got=v[i], want=u[i])
            n = NV[i, j]
            mon.le("numerical " + tag, min(abs(n - u[i]), (abs(n * abs(n) - u[i] * abs(u[i])) if i in (1, 2) else np.inf)),
                   1e-6 * big * amp[i] + rr / dx * 10 * max(1, k) ** 0.5, component=i, time=l, got=n, want=u[i])
