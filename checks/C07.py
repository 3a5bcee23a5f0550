"""Trajectories of stable orbits solve the geodesic equations, for every Mino time and phase."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg
from kerrgeopy.stable import stable_trajectory

LEVEL = "exploration"
RULE = ("stable orbits from 24 strata (spin 0/tiny/near 1/negative, retrograde, e = 0, x = +-1, near separatrix, wide, deep) "
        "with phases at turning points, beyond one period, negative, and Mino times 0, 1e-6..1000, both signs; all four "
        "coordinates at every time compared with the reference solution; non-trivial = a coordinate compared")
ASSUMPTIONS = ["reference motion by spectral quadrature of the geodesic equations and Newton inversion (lib/ref.py)",
               "tolerance 2e-9 (1+|value|) times conditioning factor times max(1,|lambda|/10); "
               "|x| >= 1e-15, 1-e >= 1e-4"]
REQUIRED = ["t", "r", "theta", "phi", "starting point", "range of r", "range of theta"]


def gen(rng, tier, scale):
    n = int((1800 if tier == "quick" else 16000) * scale)
    for i in range(n):
        c = G.stable(rng, G.STABLE_KINDS[i % len(G.STABLE_KINDS)])
        c["q"], c["lam"] = G.phases(rng), G.times(rng, 16)
        c["route"] = int(rng.integers(4))
        yield c


def run(c, mon):
    p, q, lam = tuple(c[s] for s in "apex"), tuple(c["q"]), np.array(c["lam"])
    g = ref.Geodesic.bound(*p)
    if c["route"] == 0:
        fs = mon.call("stable_trajectory", stable_trajectory, *p, q)
    elif c["route"] == 1:
        fs = mon.call("StableOrbit", kg.StableOrbit, *p).trajectory(q)
    else:
        fs = mon.call("StableOrbit", kg.StableOrbit, *p, q).trajectory()
    want = g.state(lam, q)
    k = 2e-9 * G.cond(c) * np.maximum(1, np.abs(lam) / 10)
    for nm, f, w in zip(("t", "r", "theta", "phi"), fs, want):
        v = np.asarray(mon.call(nm, f, lam))
        if v.shape != w.shape:
            mon.fail(nm, note="shape", got=v.shape)
            continue
        # a phase error grows with time, its effect on t and phi is that of their periodic parts
        tol = (k * (1 + np.abs(w)) if nm in ("r", "theta") else k + 2e-9 * G.cond(c) * np.abs(w)) + (5e-12 * float(g.Gamma) * 2 * np.pi / float(g.Ups_r) if nm == "t" else 0)  # roundoff of a t of one period
        if nm == "phi":
            tol = tol + g.phi_slack(q[2]) + g.phi_slack(q[2] + float(g.Ups_theta) * lam)
        mon.le(nm, np.abs(v - w), tol, want=w, got=v)
        s = mon.call(nm, f, c["lam"][-1])
        mon.ok("scalar time", np.ndim(s) == 0 and np.isreal(s) and abs(s - v[-1]) <= tol[-1], got=s, want=v[-1])
    t0, ph0 = float(fs[0](0)), float(fs[3](0))
    b = 1e-11 * G.cond(c)
    mon.le("starting point", abs(t0 - q[0]), b * (1 + abs(q[0])) * max(1, c["p"]), got=t0)
    mon.le("starting point", abs(ph0 - q[3]), b * (1 + abs(q[3])), got=ph0)
    r, th = np.asarray(fs[1](lam)), np.asarray(fs[2](lam))
    e, pp, x = c["e"], c["p"], c["x"]
    mon.ok("range of r", np.all(r >= pp / (1 + e) * (1 - 1e-12)) and np.all(r <= pp / (1 - e) * (1 + 1e-12 * G.cond(c))), r=r)
    ax = np.sin(want[2])  # distance from the axis, also in relative terms
    d = 2e-15 * (1 + abs(q[2]) + float(g.Ups_theta) * np.abs(lam)) * G.cond(c)
    mon.le("distance from the axis", np.abs(np.sin(th) - ax), 2e-9 * G.cond(c) * np.maximum(1, np.abs(lam) / 10) * np.minimum(ax, 0.1) * (1 + 0.0 * ax) + d * 10, got=np.sin(th), want=ax)
    mon.ok("range of theta", np.all(np.sin(th) >= abs(x) - 1e-9) and np.all((th > 0) & (th < np.pi)), theta=th)
