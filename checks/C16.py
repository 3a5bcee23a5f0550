"""Constants of motion computed from initial data are the conserved quantities of the geodesic through them."""
import math
import numpy as np
import gen as G
import ref
import kerrgeopy as kg
from kerrgeopy import initial_conditions as ic
from checks.C15 import zamo

QUICK = 2
LEVEL = "exploration"
RULE = ("random positions (outside, in the ergosphere, between and inside the horizons along reference plunges, near the axis and "
        "on the equator, r up to 1e4) and unit velocities, bound and unbound, a of both signs and 0; E, L, Q compared with the "
        "contractions of the metric with the Killing vectors and of the Killing tensor; the same constants found at several points "
        "of one geodesic; non-trivial = a triple compared")
ASSUMPTIONS = ["Kerr metric and Killing tensor from the Carter frame (lib/ref.py)",
               "points at least 1e-2 from a horizon and sin(theta) >= 1e-2; tolerance scales with the cancellation in the contraction"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"conserved along the orbit": 0.0001, "Q": 0.01, "Orbit attributes": 0.005, "L": 0.01, "E": 0.03}
REQUIRED = ["E", "L", "Q", "conserved along the orbit", "inside the horizon", "unbound", "negative spin", "Orbit attributes"]


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((4500 if tier == "quick" else 40000) * scale)
    for i in range(n):
        k = i % 5
        a = float(G.spin(rng) * G.pick(rng, 1, 1, -1))
        if k < 3:
            if rng.random() < 0.1:
                a = 0.0
            r = (1 + math.sqrt(1 - a * a)) * (1 + 10 ** U(-1.3, 1.3 if k else 4))
            d = rng.normal(size=3)
            d = d / np.linalg.norm(d)
            th = float(G.pick(rng, U(0.1, 3.04), U(0.1, 3.04), 10 ** U(-2, -0.5), math.pi - 10 ** U(-2, -0.5), math.pi / 2))
            if k == 2:
                d = d * G.pick(rng, np.array([1, 0, 1]), np.array([0, 0, 1]), np.array([0, 1, 1]), np.array([0, 0, 0]))
            yield dict(kind=("far", "random", "special directions")[k], a=a, x=[float(U(-9, 9)), float(r), th, float(U(-9, 9))],
                       v=[float(w) for w in d * U(0, 0.95)])
        elif k == 3:
            yield dict(G.stable(rng, G.pick(rng, "generic", "deep", "near_sep", "e_zero", "equatorial", "neg_a", "schwarzschild", "x_small")), q=G.phases(rng),
                       lam=[float(v) for v in U(-5, 5, 6)])
        else:
            yield dict(G.plunge(rng), q=G.phases(rng), lam=[float(v) for v in U(-3, 3, 6)])


def compare(mon, a, x, u, tag=True):
    got = mon.call("constants_from_initial_conditions", ic.constants_from_initial_conditions, a, tuple(x), tuple(u))
    if not mon.ok("three constants", len(got) == 3):
        return None
    m = ref.metric(a, x[1], x[2])
    s = np.abs(m) @ np.abs(u)
    rp, rm = 1 + math.sqrt(1 - a * a), 1 - math.sqrt(1 - a * a)
    D = abs((x[1] - rp) * (x[1] - rm))
    k = 1e-11 * (1 + (x[1] ** 2 + a * a) / D) / math.sin(x[2]) ** 2
    E, L, Q = ref.conserved(a, x[1], x[2], u)
    c2 = math.cos(x[2]) ** 2 / math.sin(x[2]) ** 2
    eL = k * (s[3] + s[0] * (1 + abs(L)) + 1e-3)
    mon.le("E", abs(got[0] - E), k * (1 + s[0]), got=got[0], want=E)
    mon.le("L", abs(got[1] - L), eL, got=got[1], want=L)
    sq = (m[2, 2] * u[2]) ** 2 + c2 * (L * L + 1) + a * a * (1 + E * E)
    mon.le("Q", abs(got[2] - Q), 10 * k * sq + c2 * 2 * (abs(L) + eL) * eL + a * a * 2 * abs(E) * k * (1 + s[0]) + 1e-12, got=got[2], want=Q)
    return got


def run(c, mon):
    a = c["a"]
    if a < 0:
        mon.event("negative spin")
    if "v" in c:
        x = c["x"]
        u = zamo(a, x[1], x[2], np.array(c["v"]))
        got = compare(mon, a, x, u)
        if got and got[0] > 1:
            mon.event("unbound")
        return
    st = "p" in c
    g = ref.Geodesic.bound(*(c[s] for s in "apex")) if st else ref.Geodesic.plunge(*(c[s] for s in ("a", "E", "L", "Q")))
    lam = np.array([0.0] + c["lam"])
    X, V = np.array(g.state(lam, c["q"])), np.array([np.broadcast_to(v, lam.shape) for v in g.velocity(lam, c["q"])])
    seen = []
    for j in range(len(lam)):
        x, u = [float(v) for v in X[:, j]], [float(v) for v in V[:, j]]
        gap = min(abs(x[1] - g.rp), abs(x[1] - g.rm))
        if gap < 1e-2 or math.sin(x[2]) < 1e-2 or x[1] ** 2 + a * a * math.cos(x[2]) ** 2 < 0.02:
            continue
        if x[1] < g.rp:
            mon.event("inside the horizon")
        got = compare(mon, g.a, x, u)
        if not got:
            return
        seen.append(got)
        k = (G.cond(c) if st else G.pcond(c)) * max(1, abs(lam[j]))
        size = float((np.abs(ref.metric(a, x[1], x[2])) @ np.abs(u))[0])
        want = (g.E, g.L, g.Q)
        S = 1 + g.L ** 2 + g.Q + x[1] ** 2 * 1e-3
        t = 1e-8 * k * (1 + size) ** 2 / min(1, gap) ** 2 / math.sin(x[2]) ** 2 / min(1, x[1] ** 2 + a * a * math.cos(x[2]) ** 2)
        mon.le("conserved along the orbit", np.abs(np.array(got) - want) / (1, S, S), t, got=list(got), want=want)
    # attributes of the objects built from parameters
    o = mon.call("object", kg.StableOrbit, *(c[s] for s in "apex")) if st else mon.call("object", kg.PlungingOrbit, *(c[s] for s in ("a", "E", "L", "Q")))
    f = -1 if st and a < 0 else 1
    S = 1 + abs(g.L) + abs(g.Q)
    mon.le("Orbit attributes", np.abs(np.array([o.E - g.E, abs(o.L) - abs(g.L), o.Q - g.Q])) / (1, S, S), 1e-9 * (G.cond(c) if st else 1), got=[o.E, o.L, o.Q], want=[g.E, g.L, g.Q])
    got = mon.call("object", o.constants_of_motion)
    mon.ok("Orbit attributes", tuple(got) == (o.E, o.L, o.Q), got=got)
