"""The spacetime object carries the Kerr metric, its horizons and the unit tangent of given motion."""
import math
import numpy as np
import gen as G
import ref
import kerrgeopy as kg
from checks.C15 import zamo

QUICK = 2
LEVEL = "exploration"
RULE = ("KerrSpacetime at a in (-1, 1) including 0, at points outside, in the ergosphere, between and inside the horizons and near the "
        "axis: metric against the Carter-frame form, symmetry, block structure, determinant, independence of t and phi, asymptotic "
        "flatness, norms of timelike / null / spacelike vectors given as list, tuple or array, horizons as roots of Delta, separatrix "
        "and stability test as the free functions, four_velocity of supplied motion; non-trivial = a metric compared")
ASSUMPTIONS = ["Carter-frame form of the metric (lib/ref.py)", "tolerance 1e-12 times the conditioning of Delta near a horizon"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"four_velocity": 0.0001, "null": 0.01, "unit observer": 0.01}
REQUIRED = ["metric", "symmetric", "vacuum determinant", "norm", "null", "unit observer", "horizons", "horizon ordering", "separatrix",
            "stability", "four_velocity", "independent of t and phi", "mirror"]


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((2000 if tier == "quick" else 60000) * scale)
    for i in range(n):
        a = float(G.pick(rng, G.spin(rng), G.spin(rng), -G.spin(rng), 0.0, 1 - 10 ** U(-10, -2), 10 ** U(-12, -2)))
        rp = 1 + math.sqrt(1 - a * a)
        r = float(G.pick(rng, rp * (1 + 10 ** U(-2, 4)), U(rp, 3), (2 - rp) + (2 * rp - 2) * U(0.02, 0.98), (2 - rp) * U(0.05, 0.95) + 1e-3, U(0.05, 40)))
        th = float(G.pick(rng, U(0.01, 3.13), 10 ** U(-4, -1), math.pi - 10 ** U(-4, -1), math.pi / 2))
        c = dict(kind="point", a=a, x=[float(U(-99, 99)), r, th, float(U(-9, 9))], v=[float(w) for w in rng.normal(size=4) * 10 ** U(-1, 1, 4)],
                 w=[float(w) for w in rng.normal(size=3)], form=int(rng.integers(3)))
        if i % 10 == 0:
            c["kind"], c["orb"] = "orbit", G.stable(rng)
            c["q"] = G.phases(rng)
            c["lam"] = [float(v) for v in U(-5, 5, 5)]
        yield c


def run(c, mon):
    a, x, v = c["a"], c["x"], c["v"]
    S = mon.call("KerrSpacetime", kg.KerrSpacetime, a)
    s = math.sqrt((1 - a) * (1 + a))
    tol = 1e-15 / max(s, 1e-9) + 1e-15
    mon.close("horizons", [float(S.outer_horizon), float(S.inner_horizon)], np.array([1 + s, a * a / (1 + s)]), 4e-15, 4 * tol)
    mon.ok("horizon ordering", 0 <= S.inner_horizon < 1 < S.outer_horizon <= 2 and S.a == a)
    g = np.asarray(mon.call("metric", S.metric, *x))
    t, r, th, ph = x
    Sig = r * r + (a * math.cos(th)) ** 2
    D = (r - 1 - s) * (r - a * a / (1 + s))
    k = 1e-13 * (1 + (r * r + a * a) / abs(D))
    if not mon.ok("shape", g.shape == (4, 4) and g.dtype.kind == "f", got=g.shape):
        return
    want = ref.metric(a, r, th)
    s2 = math.sin(th) ** 2
    # natural size of each entry (its frame terms before they cancel)
    w0, w3 = np.array([1.0, 0, 0, abs(a) * s2]), np.array([abs(a), 0, 0, r * r + a * a])
    size = (abs(D) + r * r + a * a + 2 * r) / Sig * np.outer(w0, w0) + s2 / Sig * np.outer(w3, w3)
    size[1, 1], size[2, 2] = Sig / abs(D), Sig
    mon.le("metric", np.abs(g - want), np.where(size == 0, 1e-300, k * size), got=g.tolist(), want=want.tolist(), x=x)
    mon.ok("symmetric", bool(np.allclose(g, g.T, rtol=1e-14, atol=0)) and g[0, 1] == g[0, 2] == g[1, 2] == g[1, 3] == g[2, 3] == 0)
    det = -(g[0, 0] * g[3, 3] - g[0, 3] ** 2) * g[1, 1] * g[2, 2]
    cond = (abs(g[0, 0] * g[3, 3]) + g[0, 3] ** 2) * abs(g[1, 1] * g[2, 2])
    mon.le("vacuum determinant", abs(det - Sig * Sig * s2), 1e-11 * (cond + Sig * Sig * s2) * (1 + 1e-2 / abs(D)), got=det)
    mon.ok("independent of t and phi", bool(np.all(np.asarray(S.metric(t + 3.3, r, th, ph - 1.7)) == g)))
    gm = np.asarray(kg.KerrSpacetime(-a).metric(*x))
    fl = np.array([1, 1, 1, -1.0])
    mon.ok("mirror", bool(np.allclose(gm, g * np.outer(fl, fl), rtol=1e-13, atol=0)))
    mon.ok("mirror", bool(np.allclose(np.asarray(S.metric(t, r, math.pi - th, ph)), g, rtol=1e-9 / min(1, s2), atol=1e-14)))
    vec = (list(v), tuple(v), np.array(v))[c["form"]]
    n = mon.call("norm", S.norm, *x, vec)
    w = float(np.array(v) @ want @ np.array(v))
    mon.le("norm", abs(float(n) - w), 2 * k * float(np.abs(v) @ size @ np.abs(v)), got=n, want=w)
    mon.ok("scalar", np.ndim(n) == 0)
    # the norm is the same quadratic form whatever the number type of the components
    whole = [int(round(u * 3)) for u in v]
    for vec in (whole, tuple(whole), np.array(whole), np.array(whole, dtype=np.int32), np.array(whole, dtype=float)):
        iv = np.abs(np.array(whole, dtype=float))
        mon.le("norm", abs(float(mon.call("norm", S.norm, *x, vec)) - float(np.array(whole, dtype=float) @ want @ np.array(whole, dtype=float))),
               2 * k * float(iv @ size @ iv) + 1e-300, vector=whole, form=type(vec).__name__)
    n2 = float(S.norm(*x, np.array(v) * 3.0))
    mon.le("norm", abs(n2 - 9 * float(n)), 40 * k * float(np.abs(v) @ size @ np.abs(v)))
    if r > (1 + s) * 1.01 and s2 > 1e-6:
        d = np.array(c["w"]) / np.linalg.norm(c["w"])
        u = zamo(a, r, th, d * 0.7)
        sz = float(np.abs(u) @ size @ np.abs(u))
        mon.le("unit observer", abs(float(S.norm(*x, u)) + 1), 1e-11 * (1 + sz) * (1 + r * r / D))
        # principal null directions
        for sg in (1, -1):
            l = np.array([(r * r + a * a) / D, sg, 0, a / D])
            mon.le("null", abs(float(S.norm(*x, l))), 1e-11 * (1 + float(np.abs(l) @ size @ np.abs(l))) * (1 + r * r / D))
    if c["kind"] == "orbit":
        orbit(c, mon)


def orbit(c, mon):
    o = c["orb"]
    a, p, e, x = (o[s] for s in "apex")
    S = kg.KerrSpacetime(a, 1e6)
    mon.ok("stability", S.M == 1e6)
    if a >= 0:
        ps = float(mon.call("separatrix", S.separatrix, e, x))
        mon.close("separatrix", ps, np.float64(kg.separatrix(a, e, x)), 1e-12)
        mon.ok("separatrix", abs(ps - G.sep(a, e, x)) < 1e-4, got=ps, want=G.sep(a, e, x))
        for pp in (p, ps * 0.999, ps * 1.001, p + 3):
            got = mon.call("stability", S.is_stable, pp, e, x)
            mon.ok("stability", bool(got) == bool(kg.constants.is_stable(a, pp, e, x)) == (pp > ps), got=got, p=pp, sep=ps)
    g = ref.Geodesic.bound(a, p, e, x)
    q, lam = c["q"], np.array(c["lam"])
    S = kg.KerrSpacetime(g.a)
    f = [lambda l, i=i: g.state(l, q)[i] for i in range(4)]
    U = mon.call("four_velocity", S.four_velocity, *f, (g.E, g.L, g.Q), g.Ups_r, g.Ups_theta, tuple(q))
    mon.ok("four components", len(U) == 4)
    w = g.velocity(lam, q)
    X = g.state(lam, q)
    b = 1e-7 * G.cond(o) / np.sin(X[2]) ** 2 * (1 + X[1] ** 2 / ((X[1] - g.rp) * (X[1] - g.rm)))
    for i in range(4):
        v = np.asarray(mon.call("four_velocity", U[i], lam))
        d = np.abs(v - w[i])
        if i in (1, 2):
            d = np.minimum(d, np.abs(v * np.abs(v) - w[i] * np.abs(w[i])))
        mon.le("four_velocity", d, b * (1 + np.abs(w[i])), component=i, got=v, want=w[i])
