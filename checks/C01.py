"""Constants of motion and turning points of stable orbits."""
import mpmath as mp
import numpy as np
import gen as G
import ref
import kerrgeopy as kg

LEVEL = "exploration"
RULE = ("stable orbits (a,p,e,x) drawn from 24 strata (spin 0 / tiny / near 1 / negative, e = 0 / tiny / near 1, "
        "x = 0 / small / near 1 / +-1, p from 1e-5 above the separatrix to 1e5, turning point on the ergosphere, "
        "python ints), plus exactly polar and marginally bound orbits; non-trivial = at least one comparison with "
        "the 50-digit turning-point solution was decided")
ASSUMPTIONS = ["reference: R(r1)=R(r2)=0 and Theta(x)=0 solved in 50-digit arithmetic (lib/ref.py)",
               "tolerance 3e-11 relative times max(1, p/1e3); |x| >= 1e-15 or x = 0; radial and polar roots for 1-e>=1e-4"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"polar polynomial at turning point": 0.001, "z_plus": 0.001, "E polar": 0.001, "Q polar": 0.001, "z_minus": 1}
REQUIRED = ["E", "L", "Q", "radial polynomial at turning points", "polar polynomial at turning point", "E polar",
            "E marginal", "eccentricity described by the constants"]


def gen_cases(rng, n):
    for i in range(n):
        kind = G.STABLE_KINDS[i % len(G.STABLE_KINDS)]
        yield G.stable(rng, kind)
    for i in range(n // 5):
        k = i % 3
        c = G.stable(rng, ("generic", "a_big", "e_zero", "far", "schwarzschild", "neg_a", "e_large")[i % 7])
        if k == 0:
            c["x"] = float(G.pick(rng, 0.0, 0.0, -0.0))
            c["kind"] = "polar/" + c["kind"]
        elif k == 1:
            c["e"] = 1.0
            c["kind"] = "marginal/" + c["kind"]
            c["x"] = G.pick(rng, c["x"], c["x"], G.sgn(rng))
        else:
            c["x"], c["e"] = 0.0, 1.0
            c["kind"] = "polar marginal/" + c["kind"]
        s = G.sep(c["a"], c["e"], c["x"]) if c["x"] else G.sep(c["a"], c["e"], 1e-7)
        c["p"] = c["p"] if c["kind"].endswith("far") else s + c["gap"]
        yield c
    for i in range(n // 6):  # nearly polar
        c = G.stable(rng, ("generic", "a_big", "e_zero", "near_sep", "neg_a", "e_large", "schwarzschild", "far")[i % 8])
        x = float(10 ** rng.uniform(-9, -3) * G.sgn(rng))
        yield dict(c, kind="nearly polar", x=x, p=float(G.sep(c["a"], c["e"], x) + c["gap"]))
    for i in range(n // 8):  # nearly marginally bound
        c = G.stable(rng, ("generic", "a_big", "near_sep", "schwarzschild", "neg_a", "equatorial", "a_small")[i % 7])
        s0 = G.sep(c["a"], 1.0, c["x"])
        c["e"] = 1 - 10 ** rng.uniform(-15, -4)
        yield dict(c, kind="nearly marginal", p=float(s0 + 10 ** rng.uniform(-1.5, 2)), gap=0.1)
    for i in range(max(4, n // 60)):  # marginally bound with r_min on the ergosphere
        c = dict(kind="marginal ergo", a=float(rng.uniform(0.85, 0.99)), p=4.0, e=1.0, x=1.0, gap=0.1)
        if 4.0 > G.sep(c["a"], 1.0, 1.0) + 1e-3:
            yield c


def gen(rng, tier, scale):
    return list(gen_cases(rng, int((2000 if tier == "quick" else 20000) * scale)))


def run(c, mon):
    a, p, e, x = c["a"], c["p"], c["e"], c["x"]
    want = ref.constants(a, p, e, x)
    tol = 3e-11 * max(1.0, p / 1e3)
    got = mon.call("constants_of_motion", kg.constants_of_motion, a, p, e, x)
    tag = " marginal" if e == 1 else (" polar" if x == 0 else "")
    E, L, Q = (float(v) for v in got)
    mon.ok("three real scalars", len(got) == 3 and all(np.isscalar(v) and np.isreal(v) for v in got), got=got)
    mon.close("E" + tag, E, want[0], tol)
    mon.close("L" + tag, L, want[1], tol)
    mon.close("Q" + tag, Q, want[2], tol, 1e-12)
    mon.ok("sign of L is the direction of motion", np.sign(L) == np.sign(x) * (np.sign(a) if a < 0 else 1) if x else L == 0, L=L)
    mon.ok("energy bound", (0 < E < 1 or (E == 1 and e > 1 - 1e-13)) if e < 1 else E == 1, E=E)
    mon.ok("Q sign", Q >= 0 and (Q == 0) == (abs(x) == 1) if abs(x) <= 1 - 1e-9 or abs(x) == 1 else Q >= 0, Q=Q)
    # single-constant entry points
    mon.close("energy()", float(mon.call("energy", kg.energy, a, p, e, x)), want[0], tol)
    mon.close("angular_momentum()", float(mon.call("angular_momentum", kg.angular_momentum, a, p, e, x)), want[1], tol)
    mon.close("carter_constant()", float(mon.call("carter_constant", kg.carter_constant, a, p, e, x)), want[2], tol, 1e-12)
    # independent invariant: the returned floats make R vanish at both turning points.  Normalised by
    # the size of the terms of R.
    aa = abs(a)
    for r in ([p / (1 + e)] if e == 1 else [p / (1 + e), p / (1 - e)]):
        R = ref.R_of(aa, E, L, Q, r)
        r_ = mp.mpf(r)
        scale = (E * (r_ ** 2 + aa ** 2) - aa * L) ** 2 + (r_ ** 2 - 2 * r_ + aa ** 2) * (r_ ** 2 + (L - aa * E) ** 2 + Q)
        scale = max(scale, r_ ** 4)
        mon.le("radial polynomial at turning points", abs(float(R / scale)), 1e-10)
    z2 = 1 - mp.mpf(x) ** 2
    b = mp.mpf(aa) ** 2 * (1 - mp.mpf(E) ** 2)
    Z = Q - (Q + b + mp.mpf(L) ** 2) * z2 + b * z2 ** 2
    mon.le("polar polynomial at turning point", abs(float(Z)) / (1 + abs(Q) + L * L), 1e-10)
    if e > 1 - 1e-4:  # 1 - E^2 has lost its digits: the inner roots are not determined by E, L, Q
        return
    # the shape that the returned floats describe: double roots make this sharper than the residual of R
    A, E_, L_, Q_ = (mp.mpf(v) for v in (aa, E, L, Q))
    rts = sorted(mp.polyroots([E_ ** 2 - 1, 2, A * A * (E_ * E_ - 1) - L_ * L_ - Q_, 2 * ((L_ - A * E_) ** 2 + Q_), -A * A * Q_], maxsteps=400, extraprec=200),
                 key=lambda z: -mp.re(z))
    S2 = mp.re(rts[0] + rts[1])
    rmin = p / (1 + e)
    k = max(1.0, 0.1 / c["gap"]) * max(1.0, p / 20) ** 2 * max(1.0, 1 / (rmin * rmin - 2 * rmin + aa * aa))
    if k < 1e4 and abs(aa) < 1 - 1e-5:
        mon.close("eccentricity described by the constants", float(mp.re(((rts[0] - rts[1]) / S2) ** 2)), e * e, 0, 3e-12 * k)
        mon.close("semilatus rectum described by the constants", float(2 * mp.re(rts[0] * rts[1]) / S2), p, 3e-11 * k)
    # roots of the radial and polar polynomials
    real, comp = ref.radial_roots(aa, *[mp.mpf(v) for v in ref.constants(a, p, e, x, mpf=True)]) if x else (None, None)
    rr = mon.call("stable_radial_roots", kg.stable_radial_roots, a, p, e, x)
    mon.ok("four radial roots in decreasing order", len(rr) == 4 and rr[0] >= rr[1] > rr[2] >= rr[3] >= 0, roots=rr)
    mon.close("r1", float(rr[0]), p / (1 - e), 1e-12)
    mon.close("r2", float(rr[1]), p / (1 + e), 1e-12)
    if real is not None and len(real) == 4:
        k = 1e-9 * max(1.0, p / 1e3) / (1 - e)
        mon.close("r3", float(rr[2]), float(real[1]), 0, k * max(1.0, float(real[1])) * (1 + 1e-3 / max(1e-9, float(real[1] - real[0]))))
        mon.close("r4", float(rr[3]), float(real[0]), 0, k * (1 + 1e-3 / max(1e-9, float(real[1] - real[0]))))
    if x:
        zz = mon.call("stable_polar_roots", kg.stable_polar_roots, a, p, e, x)
        mon.close("z_minus", float(zz[0]), 1 - x * x, 1e-12, 1e-15)
        if a == 0:
            mon.ok("z_plus undefined for a=0", np.isnan(zz[1]), z=zz)
        else:
            zp = float((Q + b + mp.mpf(L) ** 2) / b) - (1 - x * x)
            mon.close("z_plus", float(zz[1]), zp, 1e-7 * max(1.0, p / 1e3) * max(1, .05 / (1 - e)))
