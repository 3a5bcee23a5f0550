"""Trajectory deltas are the oscillating parts of t and phi and rebuild the trajectory."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg

QUICK = 2
LEVEL = "exploration"
RULE = ("stable orbits (all strata) and plunges (all strata, complex and real radial roots), each as StableOrbit / PlungingOrbit and, "
        "for half of them, as Orbit from initial data; deltas at arbitrary phases compared with the reference splitting "
        "(exactly for stable orbits, up to a linear term for plunges) and recombined into t(lambda), phi(lambda); phases given at "
        "construction and per call; non-trivial = a delta compared")
ASSUMPTIONS = ["reference model lib/ref.py; for plunges the split between a delta and the linear growth is a convention, so only "
               "the recombined trajectory and the part that is not linear in the phase are specified",
               "stable orbits with a < 0 built from initial data are excluded (known finding of C14)"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"Orbit recombination (plunge)": 0.02, "stable phi_r": 0.05, "stable recombination": 0.3, "Orbit recombination (stable)": 0.2}
REQUIRED = ["relative t_theta", "stable t_r", "stable t_theta", "stable phi_r", "stable phi_theta", "stable recombination", "plunge shape",
            "plunge recombination (complex)", "plunge recombination (real)", "Orbit recombination (stable)",
            "Orbit recombination (plunge)", "phases per call"]
NM = ("t_r", "t_theta", "phi_r", "phi_theta")


def gen(rng, tier, scale):
    n = int((500 if tier == "quick" else 12000) * scale)
    for i in range(n):
        if i % 2:
            c = G.plunge(rng, G.PLUNGE_KINDS[(i // 2) % len(G.PLUNGE_KINDS)])
            c["fam"] = "plunge"
        else:
            c = G.stable(rng, G.STABLE_KINDS[(i // 2) % len(G.STABLE_KINDS)])
            c["fam"] = "stable"
        c["q"] = G.phases(rng)
        c["lam"] = [0.0] + G.far(rng, rng.uniform(-1, 1, 12) * 10 ** rng.uniform(-2, 1))
        c["percall"] = bool(rng.integers(2))
        c["orbit"] = bool(rng.integers(2))
        yield c


def deltas(c, mon, make, q):
    """trajectory_deltas with the phases given to the constructor or to the call."""
    if c["percall"]:
        o = make()
        mon.event("phases per call")
        return o, mon.call("trajectory_deltas", o.trajectory_deltas, tuple(q)), o.trajectory(tuple(q))
    o = make(tuple(q))
    return o, mon.call("trajectory_deltas", o.trajectory_deltas), o.trajectory()


def run(c, mon):
    (stable if c["fam"] == "stable" else plunge)(c, mon)


def stable(c, mon):
    p, q, lam = tuple(c[s] for s in "apex"), c["q"], np.array(c["lam"])
    g = ref.Geodesic.bound(*p)
    o, d, tr = deltas(c, mon, lambda *w: mon.call("StableOrbit", kg.StableOrbit, *p, *w), q)
    k = G.cond(c)
    b = 2e-9 * k
    ph = (g.Ups_r * lam, g.Ups_theta * lam)
    D = [np.asarray(mon.call(n, f, ph[i % 2])) for i, (n, f) in enumerate(zip(NM, d))]
    W = [g.t_r(ph[0] + q[1]), g.t_th(ph[1] + q[2]), g.phi_r(ph[0] + q[1]), g.phi_th(ph[1] + q[2])]
    sl = g.phi_slack(ph[1] + q[2]) + g.phi_slack(q[2])
    for n, v, w in zip(NM, D, W):
        mon.ok("shape", v.shape == lam.shape and v.dtype.kind == "f", got=v.shape)
        # the frequencies enter the phases, so a relative error of the phase moves the delta
        mon.le("stable " + n, np.abs(v - w), b * (1 + np.abs(w)) + 1e-4 * b * np.max(np.abs(w)) + b * np.abs(lam) * (10 if n[0] == "t" else 1)
               + (sl if n == "phi_theta" else 0), got=v, want=w)
    # the polar part of t is small for wide orbits and small spins, but not noise
    amp = float(np.max(np.abs(g.t_th(np.linspace(0.1, 3.3, 24)))))
    if amp > 0:
        mon.le("relative t_theta", np.abs(D[1] - W[1]) / amp, (1e-9 * k + 2e-14 / float(g.zm2)) * (1 + np.abs(ph[1]) + abs(q[2])), got=D[1], want=W[1], amplitude=amp)
    for f, i in zip(d, (0, 1, 0, 1)):
        mon.ok("scalar phase", np.ndim(f(float(ph[i][1]))) == 0)
    for nm, f, G_, i0, q0 in (("t", tr[0], g.Gamma, 0, q[0]), ("phi", tr[3], g.Ups_phi, 2, q[3])):
        want = q0 + G_ * lam + D[i0] - D[i0][0] + D[i0 + 1] - D[i0 + 1][0]
        v = np.asarray(f(lam))
        mon.le("stable recombination", np.abs(v - want), b * (1 + np.abs(G_ * lam)) + b * np.abs(want) + (sl if nm == "phi" else 0), component=nm, got=v, want=want)
    if c["orbit"] and p[0] >= 0 and abs(p[3]) > 5e-4:
        x0, u0 = g.state(0.0, q), g.velocity(0.0, q)
        ob = mon.call("Orbit", kg.Orbit, p[0], tuple(float(v) for v in x0), tuple(float(v) for v in u0))
        if not ob.stable:
            mon.skip("Orbit close to the separatrix classified as plunge")
        dd, tt = mon.call("trajectory_deltas", ob.trajectory_deltas), ob.trajectory()
        Ur, Ut = float(ob.upsilon_r), float(ob.upsilon_theta)
        for f, G_, i0, q0 in ((tt[0], ob.gamma, 0, ob.initial_phases[0]), (tt[3], ob.upsilon_phi, 2, ob.initial_phases[3])):
            r_, h_ = dd[i0], dd[i0 + 1]
            want = q0 + G_ * lam + r_(Ur * lam) - r_(0.0) + h_(Ut * lam) - h_(0.0)
            v = np.asarray(f(lam))
            mon.le("Orbit recombination (stable)", np.abs(v - want), b * (1 + np.abs(G_ * lam)) + b * np.abs(want), got=v, want=want)


def gap_of(g, r):
    return np.minimum(np.abs(r - g.rp), np.abs(r - g.rm))


def plunge(c, mon):
    p, q, lam = tuple(c[s] for s in ("a", "E", "L", "Q")), c["q"], np.array(c["lam"])
    g = ref.Geodesic.plunge(*p)
    o, d, tr = deltas(c, mon, lambda *w: mon.call("PlungingOrbit", kg.PlungingOrbit, *p, *w), q)
    ut = abs(float(o.upsilon_theta))
    b = 1e-8 * G.pcond(c)
    ph = (g.Ups_r * lam, g.Ups_theta * lam)
    D = [np.asarray(mon.call(n, f, ph[i % 2])) for i, (n, f) in enumerate(zip(NM, d))]
    W = [g.t_r(ph[0] + q[1]), g.t_th(ph[1] + q[2]), g.phi_r(ph[0] + q[1]), g.phi_th(ph[1] + q[2])]
    x = g.state(lam, q)
    gap = np.minimum(gap_of(g, x[1]), float(gap_of(g, x[1][0])))
    ok = gap > 1e-4
    tol = b * np.maximum(1, np.abs(lam)) * (1 + 1e-3 / np.maximum(gap, 1e-4))
    for n, v, w, l in zip(NM, D, W, (ph[0], ph[1]) * 2):
        mon.ok("shape", v.shape == lam.shape and v.dtype.kind == "f", got=v.shape)
        sel = ok if n.endswith("_r") else np.ones_like(ok)
        if sel[0] and sel.sum() > 4:
            dif = (v - v[0]) - (w - w[0])
            i = 1 + int(np.argmax(np.where(sel[1:], np.abs(l[1:]), -1)))
            slope = dif[i] / l[i] if l[i] else 0.0
            mon.le("plunge shape", np.abs(dif - slope * l)[sel], (4 * (tol * (1 + np.abs(w)) + tol[i] * (1 + abs(w[i])) + tol[0] * (1 + abs(w[0]))))[sel], delta=n)
    cx = g.complex_roots
    tag = "plunge recombination (%s)" % ("complex" if cx else "real")
    recombine(mon, tag, d, tr, g, q, lam, ph, cx, ok, tol, x)
    if c["orbit"] and ok[0] and abs(float(np.real(x[1][0] - g.rp))) > 1e-2 and float(x[1][0]) > g.rp:
        x0, u0 = [float(v[0]) for v in x], [float(v) for v in g.velocity(0.0, q)]
        ob = mon.call("Orbit", kg.Orbit, p[0], tuple(x0), tuple(u0))
        if ob.stable:
            mon.fail("Orbit recombination (plunge)", note="classified as stable")
            return
        dd, tt = mon.call("trajectory_deltas", ob.trajectory_deltas), ob.trajectory()
        ph2 = (float(ob.upsilon_r) * lam, float(ob.upsilon_theta) * lam)
        recombine(mon, "Orbit recombination (plunge)", dd, tt, g, ob.initial_phases, lam, ph2, cx, ok, tol * 100, x)


def recombine(mon, tag, d, tr, g, q, lam, ph, cx, ok, tol, x):
    for nm, f, G_, i0, w, q0 in (("t", tr[0], g.Gamma, 0, x[0], q[0]), ("phi", tr[3], g.Ups_phi, 2, x[3], q[3])):
        r_, h_ = np.asarray(d[i0](ph[0])), np.asarray(d[i0 + 1](ph[1]))
        want = q0 + (0.0 if cx else G_ * lam) + r_ - r_[0] + h_ - h_[0]
        v = np.asarray(f(lam))
        if ok[0]:
            mon.le(tag, np.abs(v - want)[ok], (tol * (1 + np.abs(w)))[ok], component=nm, got=v, want=want)
