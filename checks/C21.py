"""Symmetries of the Kerr spacetime, continuity across the special cases, and closed-form limits."""
import math
import numpy as np
import gen as G
import kerrgeopy as kg
from kerrgeopy import constants as kc

LEVEL = "exploration"
RULE = ("stable orbits and plunges compared with their mirror images (spin and inclination flipped, equatorial reflection, axial and time shifts, spin "
        "reversal of plunges), special-case inputs (a = 0, e = 0, x = 0, x = +-1, e = 1) against neighbouring generic inputs, and textbook closed forms: "
        "circular equatorial orbits (energy, angular momentum, orbital and epicyclic frequencies), ISCO, marginally bound orbits, Schwarzschild constants and "
        "separatrix, Newtonian, periapsis-precession and Lense-Thirring limits, ordering and monotonicity of the separatrix, zeros of either sign; non-trivial = a relation compared")
ASSUMPTIONS = ["closed forms of Bardeen, Press and Teukolsky (1972) and leading post-Newtonian coefficients",
               "neighbouring inputs are within 1e-7..1e-9 of the special case; agreement is required to the size of that step times a fitted slope bound"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"plunge reflection": 0.001, "equatorial reflection": 0.005, "epicyclic": 0.005}
REQUIRED = ["spin flip", "equatorial reflection", "axial symmetry", "plunge spin reversal", "plunge reflection", "continuity a=0", "continuity e=0", "continuity x=1",
            "continuity x=0", "continuity e=1", "circular", "epicyclic", "isco", "marginally bound", "schwarzschild", "newton", "precession", "lense-thirring", "ordering", "signed zero"]
ATTR = ("E", "L", "Q", "upsilon_r", "upsilon_theta", "upsilon_phi", "gamma", "omega_r", "omega_theta", "omega_phi")


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((800 if tier == "quick" else 8000) * scale)
    lam = lambda: [float(v) for v in U(-8, 8, 5)]
    for i in range(n):
        c = G.stable(rng, G.pick(rng, "generic", "generic", "equatorial", "e_zero", "circular_eq", "retro_big", "deep", "x_near_one", "near_sep", "a_small", "e_large"))
        c["orb"] = c["kind"]
        yield dict(c, kind="flip", q=G.phases(rng), lam=lam())
        c = G.stable(rng, G.pick(rng, "generic", "generic", "e_zero", "retro_big", "deep", "near_sep", "schwarzschild", "neg_a", "e_large"))
        yield dict(c, kind="reflect", q=G.phases(rng), lam=lam())
        c = G.plunge(rng)
        yield dict(c, kind="plunge", q=G.phases(rng), lam=lam())
    for i in range(n):
        s = ("a=0", "e=0", "x=1", "x=0", "e=1")[i % 5]
        a, e, x = G.spin(rng), float(U(0.05, 0.8)), float(U(0.05, 0.95)) * G.sgn(rng)
        yield dict(kind="continuity", side=s, a=float(a), e=e, x=x, sg=G.sgn(rng), p=float(U(12, 60)), q=G.phases(rng, 5), lam=lam(), double=bool(rng.random() < 0.3))
    for i in range(n // 4):
        yield dict(kind="zeros", zero="aexqv"[i % 5], a=float(U(0.05, 0.95)), e=float(U(0, 0.8)), x=float(U(0.1, 1) * G.sgn(rng)), p=float(U(12, 60)), lam=lam())
    for i in range(n):
        yield dict(kind="circular", a=float(G.pick(rng, G.spin(rng), 0.0)), sg=G.sgn(rng), u=float(10 ** U(-2, 2)))
        yield dict(kind="limits", a=float(G.pick(rng, U(-.999, .999), 0.0, 1 - 10 ** U(-7, -1))), e=float(U(0, 1)), x=float(U(-1, 1)))
        yield dict(kind="schw", e=float(G.pick(rng, U(0, 0.98), 0.0)), x=float(G.pick(rng, U(0.01, 1) * G.sgn(rng), 1.0, -1.0)), u=float(10 ** U(-2, 3)))
        yield dict(kind="weak", a=float(G.pick(rng, U(0.05, 0.99), -U(0.05, 0.99))), e=float(U(0, 0.8)), x=float(U(0.02, 1) * G.sgn(rng)), p=float(10 ** U(2.5, 5)))


def run(c, mon):
    globals()[c["kind"]](c, mon)


def orbit(mon, *p):
    return mon.call("StableOrbit", kg.StableOrbit, *p)


def zeros(c, mon):
    """A zero argument means the same whatever its sign bit."""
    z, lam = c["zero"], np.array(c["lam"])
    for zero in (0.0, -0.0, 0):
        d = {s: (zero if s == z else c[s]) for s in "apex"}
        q = (zero,) * 4 if z == "q" else (0.0, 1.0, 2.0, 0.5)
        a = tuple(d[s] for s in "apex")
        r = [float(v) for v in mon.call("constants_of_motion", kg.constants_of_motion, *a)] + [float(kg.separatrix(abs(a[0]), a[2], a[3] if a[0] >= 0 else -a[3]))]
        if z != "x":  # frequencies of polar orbits are not offered
            o = orbit(mon, *a, q)
            r += list(vals(o)) + [float(v) for f in o.trajectory() + o.four_velocity() for v in f(lam)]
            r += [float(v) for f in o.trajectory() for v in [f(zero if z == "v" else 0.25)]]
        if zero == 0 and math.copysign(1, zero) > 0 and isinstance(zero, float):
            want = r
        mon.close("signed zero", np.array(r), np.array(want), 1e-13, 1e-13, zero=repr(zero), which=z)


def vals(o):
    return np.array([float(getattr(o, n)) for n in ATTR])


def flip(c, mon):
    a, p, e, x = (c[s] for s in "apex")
    k = G.cond(c)
    q, lam = tuple(c["q"]), np.array(c["lam"])
    o1, o2 = orbit(mon, a, p, e, x, q), orbit(mon, -a, p, e, -x, q)
    v, w = vals(o1), vals(o2)
    mon.close("spin flip", w, v, 1e-10 * k, 1e-13)
    for f, g in zip(o1.trajectory(), o2.trajectory()):
        f, g = np.asarray(f(lam)), np.asarray(g(lam))
        mon.le("spin flip", np.abs(f - g), 1e-9 * k * (1 + np.abs(f)))
    for y in (x, -x):
        S = float(kg.separatrix(abs(a), e, y))
        sg = 1 if a >= 0 else -1
        orbit(mon, -a, S * (1 + 1e-4), e, -sg * y)
        mon.raises("spin flip", kg.StableOrbit, -a, S * (1 - 1e-4), e, -sg * y)
    # axial and time translations
    d = (0.7, 0, 0, -1.9)
    for i, (f, g) in enumerate(zip(o1.trajectory(), o1.trajectory(tuple(np.add(q, d))))):
        f, g = np.asarray(f(lam)), np.asarray(g(lam))
        mon.le("axial symmetry", np.abs(g - f - d[i] * (i in (0, 3))), 1e-12 * G.cond(c) * (1 + np.abs(f).max()))


def mirror(mon, tag, o1, o2, q, lam, k, skip):
    """Equatorial reflection: q_theta + pi turns theta into pi - theta and leaves the rest alone."""
    for fam in ("trajectory", "four_velocity"):
        A, B = getattr(o1, fam)(), getattr(o2, fam)()
        for i in range(4):
            f, g = np.asarray(mon.call(fam, A[i], lam)), np.asarray(mon.call(fam, B[i], lam))
            if i == 2:
                g = np.pi - g if fam == "trajectory" else -g
            d = np.abs(f - g)
            if i in (1, 2) and fam == "four_velocity":
                d = np.minimum(d, np.abs(f * np.abs(f) - g * np.abs(g)))
            ok = ~skip & (np.isfinite(f) | np.isfinite(g))
            mon.le(tag, d[ok], (1e-8 * k * (1 + np.abs(f)))[ok], component=i, family=fam)


def reflect(c, mon):
    a, p, e, x = (c[s] for s in "apex")
    q, lam = c["q"], np.array(c["lam"])
    o1, o2 = orbit(mon, a, p, e, x, tuple(q)), orbit(mon, a, p, e, x, (q[0], q[1], q[2] + np.pi, q[3]))
    mirror(mon, "equatorial reflection", o1, o2, q, lam, G.cond(c), np.zeros(lam.shape, bool))
    x1, x2, u1, u2 = o1.initial_position, o2.initial_position, o1.initial_velocity, o2.initial_velocity
    mon.le("equatorial reflection", abs(x1[2] + x2[2] - np.pi), 1e-9 * G.cond(c))
    mon.le("equatorial reflection", min(abs(u1[2] + u2[2]), abs(u1[2] * abs(u1[2]) + u2[2] * abs(u2[2]))), 1e-9 * G.cond(c))


def plunge(c, mon):
    a, E, L, Q = (c[s] for s in ("a", "E", "L", "Q"))
    q, lam = c["q"], np.array(c["lam"])
    k = 10 * G.pcond(c)
    o = mon.call("PlungingOrbit", kg.PlungingOrbit, a, E, L, Q, tuple(q))
    r = np.asarray(o.trajectory()[1](lam))
    h = math.sqrt(1 - a * a)
    skip = np.minimum(np.abs(r - 1 - h), np.abs(r - 1 + h)) < 1e-2
    skip |= r < 0.05
    o2 = mon.call("PlungingOrbit", kg.PlungingOrbit, a, E, L, Q, (q[0], q[1], q[2] + np.pi, q[3]))
    r0 = float(o.trajectory()[1](0.0))
    if min(abs(r0 - 1 - h), abs(r0 - 1 + h)) > 1e-2:
        mirror(mon, "plunge reflection", o, o2, q, lam, k, skip)
    o3 = mon.call("PlungingOrbit", kg.PlungingOrbit, -a, E, -L, Q, (q[0], q[1], q[2], -q[3]))
    for i, (f, g) in enumerate(zip(o.trajectory(), o3.trajectory())):
        f, g = np.asarray(f(lam)), np.asarray(g(lam))
        ok = ~skip if i in (0, 3) else np.ones(lam.shape, bool)
        mon.le("plunge spin reversal", np.abs(f - (-g if i == 3 else g))[ok], (1e-8 * k * (1 + np.abs(f)))[ok], component=i)
    mon.close("plunge spin reversal", [float(o3.upsilon_r), float(o3.upsilon_theta)], [float(o.upsilon_r), float(o.upsilon_theta)], 1e-10 * k)


def continuity(c, mon):
    a, p, e, x, s = c["a"], c["p"], c["e"], c["x"], c["side"]
    lam, q = np.array(c["lam"]), c["q"]
    tag = "continuity " + s
    if s == "e=1":
        S0, S1 = float(kg.separatrix(a, 1.0, x)), float(kg.separatrix(a, 1 - 1e-7, x))
        mon.le(tag, abs(S1 - S0), 1e-5)
        P = S0 + p
        v = np.array([float(f(a, P, 1, x)) for f in (kc.energy, kc.angular_momentum, kc.carter_constant)])
        w = np.array([float(f(a, P, 1 - 1e-7, x)) for f in (kc.energy, kc.angular_momentum, kc.carter_constant)])
        mon.le(tag, np.abs(v - w), 1e-5 * (1 + np.abs(v)))
        mon.close(tag, v[0], 1.0, 1e-12)
        return
    h = 1e-8
    if c["double"]:  # two special cases at once
        if s != "a=0" and s != "x=0":
            a = 0.0
        elif s == "a=0":
            e = 0.0
        else:
            e = 0.0
    if s == "a=0":
        A, B = (0.0, p, e, x), [(h, p, e, x), (-h, p, e, -x)]
    elif s == "e=0":
        A, B = (a, p, 0.0, x), [(a, p, h, x)]
    elif s == "x=1":
        A, B = (a, p, e, c["sg"]), [(a, p, e, c["sg"] * (1 - h))]
    else:
        h = 1e-3
        A, B = (a, p, e, 0.0), [(a, p, e, h), (a, p, e, -h)]
    S = [float(kg.separatrix(abs(t[0]), t[2], t[3])) for t in [A] + B]
    step = 100 * h if s != "x=0" else h
    for t in S[1:]:
        mon.le(tag, abs(t - S[0]), 100 * step if s != "x=0" else 20 * h, separatrix=S)
    f = lambda P: np.array([float(v) for v in mon.call("constants_of_motion", kg.constants_of_motion, *P)])
    v = f(A)
    w = [f(P) for P in B]
    if s == "x=0":
        mean = (w[0] + w[1]) / 2
        mon.le(tag, np.abs(mean - v), 1e2 * h * h * (1 + np.abs(v)), note="constants")
        mon.close(tag, v[1], 0.0, 0, 1e-12)
        return
    sq = math.sqrt(2 * h) if s == "x=1" else 0.0  # quantities even in the inclination angle are linear in h
    for P in w:
        mon.le(tag, np.abs(P - v), step * 10 * (1 + np.abs(v)), note="constants")
    oa = orbit(mon, *A, tuple(q))
    for P in B:
        ob = orbit(mon, *P, tuple(q))
        for n in ATTR[3:]:
            u, w1 = float(getattr(oa, n)), float(getattr(ob, n))
            mon.le(tag, abs(u - w1), step * 10 * (1 + abs(u)), attribute=n, special=u, near=w1)
        for i, (F, H) in enumerate(zip(oa.trajectory(), ob.trajectory())):
            F, H = np.asarray(F(lam)), np.asarray(H(lam))
            if i == 3 and s == "x=1":
                continue
            mon.le(tag, np.abs(F - H), step * 1000 * (1 + np.abs(F)) + (3 * sq if i == 2 else 0) + (p * 30 * h if s == "e=0" else 0), coordinate=i)


def circular(c, mon):
    a, s = c["a"], c["sg"]
    z1 = 1 + (1 - a * a) ** (1 / 3) * ((1 + a) ** (1 / 3) + (1 - a) ** (1 / 3))
    z2 = math.sqrt(3 * a * a + z1 * z1)
    ms = 3 + z2 - s * math.sqrt((3 - z1) * (3 + z1 + 2 * z2))
    mon.close("isco", float(kg.separatrix(a, 0.0, s)), ms, 1e-9 * max(1, 1e-3 / (1 - a)))
    mb = 2 - s * a + 2 * math.sqrt(1 - s * a)
    mon.close("marginally bound", float(kg.separatrix(a, 1.0, s)), 2 * mb, 1e-9 * max(1, 1e-3 / (1 - a)))
    r = ms + c["u"]
    gap = c["u"]
    k = max(1, 0.1 / gap) * max(1, r / 50) * max(1, (1e-4 / (1 - a)) ** .5)
    b = s * a
    N = math.sqrt(1 - 3 / r + 2 * b / r ** 1.5)
    E, L = (1 - 2 / r + b / r ** 1.5) / N, s * math.sqrt(r) * (1 - 2 * b / r ** 1.5 + a * a / r ** 2) / N
    o = orbit(mon, a, r, 0.0, s)
    mon.close("circular", [float(o.E), float(o.L)], [E, L], 1e-10 * k)
    mon.le("circular", abs(float(o.Q)), 1e-12)
    W = s / (r ** 1.5 + b)
    mon.close("circular", float(o.omega_phi), W, 1e-9 * k)
    er, et = 1 - 6 / r + 8 * b / r ** 1.5 - 3 * a * a / r ** 2, 1 - 4 * b / r ** 1.5 + 3 * a * a / r ** 2
    mon.close("epicyclic", [float(o.omega_r), abs(float(o.omega_theta))], [abs(W) * math.sqrt(er), abs(W) * math.sqrt(et)], 1e-8 * k)
    lam = np.array([-2.0, 0.3, 5.0])
    T = o.trajectory()
    mon.close("circular", np.asarray(T[1](lam)), np.full(3, r), 1e-9 * k)
    mon.close("circular", np.asarray(T[2](lam)), np.full(3, math.pi / 2), 1e-9)
    mon.close("circular", np.asarray(T[3](lam)), W * np.asarray(T[0](lam)), 1e-8 * k)


def limits(c, mon):
    """Ordering and monotonicity of the separatrix."""
    a, e, x = abs(c["a"]), c["e"], c["x"]
    f = lambda e, x: float(mon.call("separatrix", kg.separatrix, a, e, x))
    xs = sorted({-1.0, -abs(x), 0.0, abs(x), 1.0, min(1.0, abs(x) + 0.02)})
    S = [f(e, y) for y in xs]
    mon.le("ordering", np.diff(S), 1e-7, x=xs, separatrix=S)
    es = sorted({0.0, e / 2, e, 1.0})
    S = [f(v, x) for v in es]
    mon.le("ordering", -np.diff(S), 1e-7, e=es, separatrix=S)
    mon.ok("ordering", all(S[i] > (1 + v) * (1 + math.sqrt(1 - a * a)) - 1e-7 for i, v in enumerate(es)), separatrix=S)
    mon.ok("ordering", all(1 + v - 1e-6 < s < 12 for v, s in zip(es, S)))


def schw(c, mon):
    e, x = c["e"], c["x"]
    mon.close("schwarzschild", float(kg.separatrix(0.0, e, x)), 6 + 2 * e, 1e-10)
    p = 6 + 2 * e + c["u"]
    k = max(1, 0.1 / c["u"]) * max(1, p / 50) * max(1, 0.05 / (1 - e))
    D = p - 3 - e * e
    o = orbit(mon, 0.0, p, e, x)
    E, L2 = math.sqrt(((p - 2) ** 2 - 4 * e * e) / (p * D)), p * p / D
    mon.close("schwarzschild", float(o.E), E, 1e-10 * k)
    mon.close("schwarzschild", float(o.L), x * math.sqrt(L2), 1e-10 * k)
    mon.le("schwarzschild", abs(float(o.Q) - (1 - x * x) * L2), 1e-10 * k * L2)
    s = 1 if x > 0 else -1
    mon.close("schwarzschild", [abs(float(o.upsilon_theta)), float(o.upsilon_phi)], [math.sqrt(L2), s * math.sqrt(L2)], 1e-10 * k)
    # radial period: elliptic integral by the arithmetic-geometric mean
    A, B = 1.0, math.sqrt(1 - 4 * e / (p - 6 + 2 * e))
    for _ in range(60):
        A, B = (A + B) / 2, math.sqrt(A * B)
    mon.close("schwarzschild", float(o.upsilon_r), math.sqrt(p * (p - 6 + 2 * e) / D) * A, 1e-9 * k)


def weak(c, mon):
    a, p, e, x = (c[s] for s in "apex")
    o = orbit(mon, a, p, e, x)
    y = x if a > 0 else -x
    N = ((1 - e * e) / p) ** 1.5
    rel = 30 / p + 10 * p ** -1.5
    mon.close("newton", [float(o.omega_r), abs(float(o.omega_theta)), abs(float(o.omega_phi))], [N] * 3, rel)
    mon.close("newton", 1 - float(o.E), (1 - e * e) / (2 * p), 60 / p)
    mon.ok("newton", float(o.omega_phi) * y > 0 and float(o.L) * y > 0)
    mon.close("newton", [abs(float(o.L)), float(o.Q)], [abs(x) * math.sqrt(p), (1 - x * x) * p], 30 / p + 10 / p ** 1.5, 1e-9)
    prec = abs(float(o.upsilon_theta)) / float(o.upsilon_r) - 1  # in-plane advance per radial period
    want = 3 / p - 6 * abs(a) * y / p ** 1.5
    mon.le("precession", abs(prec - want), 40 / p ** 2, got=prec, want=want)
    # node precession: 2 a / p^1.5 of a turn, along the spin, independent of the inclination
    node = abs(float(o.upsilon_phi)) - abs(float(o.upsilon_theta))
    node = node * (1 if y > 0 else -1) / abs(float(o.upsilon_theta))
    mon.le("lense-thirring", abs(node - 2 * abs(a) / p ** 1.5), 15 / p ** 2 + 1e-9 * G.cond(dict(c, gap=p)), got=node, want=2 * abs(a) / p ** 1.5)
