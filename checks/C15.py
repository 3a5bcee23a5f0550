"""Bound and plunging motion are told apart correctly from initial data."""
import math
import numpy as np
import gen as G
import ref
import kerrgeopy as kg
from kerrgeopy import initial_conditions as ic

LEVEL = "exploration"
RULE = ("positions outside the horizon (r_+ < r < 40, any theta) with random future-directed unit velocities, E < 1, plus bound and "
        "marginal orbits perturbed across the separatrix and points of the inner plunge below a bound region; verdicts of Orbit.stable "
        "and of the stability test from initial data judged by the exact radial roots; for accepted orbits the reported motion is "
        "sampled: stable ones stay outside the horizon and inside their turning points, plunges cross it; non-trivial = a verdict judged")
ASSUMPTIONS = ["radial roots in 40-digit arithmetic (lib/ref.py)", "cases whose radial roots nearly merge (< 5e-4) or whose starting "
               "point is within 1.5e-4 of the barrier between the two regions are not judged"]
REQUIRED = ["stable recognised", "plunge recognised", "is_stable stable", "is_stable plunge", "stable stays outside", "plunge crosses",
            "Schwarzschild plunge rejected", "unbound rejected", "matches the separatrix", "inner plunge below a bound region"]
MAX_INCONCLUSIVE = 0.4


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((6000 if tier == "quick" else 25000) * scale)
    for i in range(n):
        k = i % 7
        a = float(G.spin(rng) * G.pick(rng, 1, 1, 1, -1))
        rp = 1 + math.sqrt(1 - a * a)
        if k in (0, 1, 2):
            r = rp * (1 + 10 ** U(-1.5, 1.3))
            v = U(0, 0.9) * (1 / math.sqrt(r) if k else 1)
            d = rng.normal(size=3)
            d = d / np.linalg.norm(d)
            th = float(U(0.15, math.pi - 0.15))
            if k == 2:
                th, d[1] = math.pi / 2, 0.0
                if rng.random() < 0.2:
                    d[0] = 0.0
            if rng.random() < 0.1:
                a, r = 0.0, 2.0 * (1 + 10 ** U(-1.5, 1.3))
            yield dict(kind="random" if k < 2 else "equatorial", a=a, r=float(r), th=th, d=[float(w) for w in d], v=float(v))
        elif k in (3, 4):
            c = G.stable(rng, G.pick(rng, "generic", "near_sep", "equatorial", "e_small", "e_zero", "circular_eq", "retro_big", "deep"))
            yield dict(c, kind="bound, kicked" if k == 4 else "bound", q=[0.0, float(U(0, 6.28)), float(U(0, 6.28)), 0.0],
                       kick=0.0 if k == 3 else float(G.sgn(rng) * 10 ** U(-4, -1)))
        elif k == 5:
            # just inside or just outside the barrier between an inner plunge and the bound region above it
            b, e, x = float(U(0.05, 0.98)), float(U(0.05, 0.85)), float(G.pick(rng, U(0.1, 0.97), 1.0)) * G.sgn(rng)
            p = G.sep(b, e, x) + 10 ** U(-4, -1)
            yield dict(kind="barrier", a=b, p=float(p), e=e, x=x, side=int(rng.integers(2)), off=float(10 ** U(-6, -1.5)), cz=float(U(-0.98, 0.98)),
                       sr=G.sgn(rng), sth=G.sgn(rng))
        else:
            c = G.plunge(rng, G.pick(rng, "real_three", *G.PLUNGE_MORE))
            qr = G.pick(rng, U(2, 4.28), U(0, 6.28), 0.0, math.pi, G.sgn(rng) * 10 ** U(-4, -1))
            yield dict(c, kind="plunge data", base=c["kind"], q=[0.0, float(qr), float(U(0, 6.28)), 0.0])


def zamo(a, r, th, vec):
    """unit velocity with the given velocity (|vec| < 1) in the frame of zero angular momentum observers"""
    g = ref.metric(a, r, th)
    w = -g[0, 3] / g[3, 3]
    N = math.sqrt(-(g[0, 0] - g[0, 3] ** 2 / g[3, 3]))
    ga = 1 / math.sqrt(1 - float(np.dot(vec, vec)))
    return (ga / N, ga * vec[0] / math.sqrt(g[1, 1]), ga * vec[1] / math.sqrt(g[2, 2]), ga * (w / N + vec[2] / math.sqrt(g[3, 3])))


def data(c):
    if "d" in c:
        x = (0.0, c["r"], c["th"], 0.3)
        return x, zamo(c["a"], c["r"], c["th"], np.array(c["d"]) * c["v"])
    if c["kind"] == "barrier":
        a = c["a"]
        E, L, Q = ref.constants(a, c["p"], c["e"], c["x"])
        real, comp = ref.radial_roots(a, E, L, Q)
        if len(real) != 4:
            return None
        real = [float(v) for v in real]
        r = real[1] - min(c["off"], 0.5 * (real[1] - real[0])) if c["side"] else real[2] + min(c["off"], 0.5 * (real[3] - real[2]))
        z = math.sqrt(1 - c["x"] ** 2) * c["cz"]
        D, S, s2 = r * r - 2 * r + a * a, r * r + a * a * z * z, 1 - z * z
        P = E * (r * r + a * a) - a * L
        R = max(0.0, P * P - D * (r * r + (L - a * E) ** 2 + Q))
        T = max(0.0, Q - z * z * (a * a * (1 - E * E) + L * L / s2))
        u = (((r * r + a * a) / D * P - a * a * E * s2 + a * L) / S, c["sr"] * math.sqrt(R) / S, c["sth"] * math.sqrt(T) / S, (a / D * P + L / s2 - a * E) / S)
        return (0.0, r, math.acos(z), 0.3), u
    g = ref.Geodesic.bound(*(c[s] for s in "apex")) if "p" in c else ref.Geodesic.plunge(*(c[s] for s in ("a", "E", "L", "Q")))
    x = [float(v) for v in g.state(0.0, c["q"])]
    u = [float(v) for v in g.velocity(0.0, c["q"])]
    if c.get("kick") and x[1] > g.rp * 1.01:
        # change the azimuthal velocity seen by a zero angular momentum observer
        m = ref.metric(c["a"], x[1], x[2])
        w = -m[0, 3] / m[3, 3]
        N = math.sqrt(-(m[0, 0] - m[0, 3] ** 2 / m[3, 3]))
        ga = u[0] * N
        v = np.array([u[1] * math.sqrt(m[1, 1]), u[2] * math.sqrt(m[2, 2]), (u[3] - w * u[0]) * math.sqrt(m[3, 3])]) / ga
        v[2] *= 1 + c["kick"]
        if float(v @ v) < 0.999:
            u = zamo(c["a"], x[1], x[2], v)
    return tuple(x), tuple(float(v) for v in u)


def run(c, mon):
    a = c["a"]
    d = data(c)
    if d is None:
        mon.skip("roots nearly merge")
    x, u = d
    rp = 1 + math.sqrt(1 - a * a)
    rm = 2 - rp
    if min(abs(x[1] - rp), abs(x[1] - rm)) < 0.02 or np.sin(x[2]) < 0.05 or x[1] ** 2 + a * a * np.cos(x[2]) ** 2 < 0.05:
        return
    E, L, Q = ref.conserved(a, x[1], x[2], u)
    if E >= 0.999:
        if E > 1.001:
            mon.raises("unbound rejected", kg.Orbit, a, x, u, exc=ValueError)
        return
    if E <= -0.999:
        return  # inside the ergosphere; refused by the package like E >= 1
    Q = max(Q, 0.0)
    if Q < 1e-14 * (1 + L * L):
        Q = 0.0
    if a == 0:
        real = schw(E, L * L + Q)
        if len(real) == 3 and abs(x[1] - np.clip(x[1], real[1], real[2])) < abs(x[1] - np.clip(x[1], 0, real[0])):
            lo, hi, other = real[1], real[2], [0.0, real[0]]
        else:
            lo, hi, other = 0.0, real[0], real[1:] or None
            if other is None:
                # distance from the double root: discriminant of R/r in 1/r
                K = L * L + Q
                im = np.abs(np.roots([E * E - 1, 2, -K, 2 * K]).imag)
                if np.any((im > 0) & (im < 2e-2)):
                    mon.skip("roots nearly merge")
    else:
        # the starting point may lie a rounding error outside [lo, hi]
        real, comp = ref.radial_roots(a, E, L, Q)
        real = [float(v) for v in real]
        if len(real) == 4:
            k = 0 if abs(x[1] - np.clip(x[1], real[0], real[1])) < abs(x[1] - np.clip(x[1], real[2], real[3])) else 1
            lo, hi, other = real[2 * k], real[2 * k + 1], real[2 - 2 * k:4 - 2 * k]
        else:
            lo, hi, other = real[0], real[1], None
            # complex roots next to the real axis outside the horizon: motion about to become bound
            if comp and abs(float(comp[0].imag)) < 2e-2 and float(comp[0].real) > rm:
                mon.skip("roots nearly merge")
    if other is not None:
        between = other[1] if other[1] <= lo else other[0]
        edge = lo if other[1] <= lo else hi
        if abs(between - edge) < 5e-4 or abs(x[1] - between) < 1.5e-4:
            mon.skip("roots nearly merge")
    want = lo > rp
    if not want and hi < rp:
        mon.skip("not reached from outside")
    s = mon.call("is_stable", ic.is_stable, a, x, u)
    mon.ok("is_stable stable" if want else "is_stable plunge", bool(s) == want, got=s, want=want, ELQ=[E, L, Q], roots=[lo, hi])
    s = mon.call("is_stable", ic.is_stable, a, x, u, constants=(E, L, Q))
    mon.ok("is_stable stable" if want else "is_stable plunge", bool(s) == want, note="constants given", got=s, want=want, ELQ=[E, L, Q], roots=[lo, hi])
    if not want and a == 0:
        mon.raises("Schwarzschild plunge rejected", kg.Orbit, a, x, u, exc=ValueError)
        return
    o = mon.call("Orbit", kg.Orbit, a, x, u)
    if not mon.ok("stable recognised" if want else "plunge recognised", bool(o.stable) == want, got=o.stable, want=want, ELQ=[E, L, Q], roots=[lo, hi]):
        return
    if want is False and other is not None and min(other) > rp:
        mon.event("inner plunge below a bound region")
    lam = np.linspace(0, 2 * np.pi / float(o.upsilon_r), 181)
    r = np.asarray(o.trajectory()[1](lam), float)
    t = 1e-5 * (1 + hi) * max(1.0, 0.05 / (1 - E))
    if want:
        mon.ok("stable stays outside", bool(np.all(r > rp)) and float(r.min()) > lo - t and float(r.max()) < hi + t, got=[float(r.min()), float(r.max())], want=[lo, hi])
        # the equivalent orbital parameters lie above the separatrix
        p, e = 2 * lo * hi / (lo + hi), (hi - lo) / (hi + lo)
        if abs(L) / math.sqrt(L * L + Q) > 1e-3 and a >= 0:
            mon.ok("matches the separatrix", o.p > float(kg.separatrix(o.a, o.e, o.x)) - 1e-6 and abs(o.p - p) < 1e-5 * p * max(1.0, 0.05 / (1 - E)) and abs(o.e - e) < 1e-4,
                   got=[o.p, o.e], want=[p, e])
    else:
        mon.ok("plunge crosses", float(o.trajectory((0, 0, 0, 0))[1](0.0)) < rm + 1e-7 and float(o.trajectory((0, np.pi, 0, 0))[1](0.0)) > rp - 1e-7 and float(r.min()) < rp,
               got=[float(r.min()), float(r.max())], want=[lo, hi])


def schw(E, K):
    """nonzero real radial roots for a = 0: (E^2-1) r^3 + 2 r^2 - K r + 2 K"""
    import mpmath as mp
    with mp.workdps(40):
        E, K = mp.mpf(E), mp.mpf(K)
        rt = mp.polyroots([-(1 - E * E), 2, -K, 2 * K], maxsteps=500, extraprec=400)
        return sorted(float(r.real) for r in rt if abs(r.imag) < mp.mpf(10) ** -20)
