"""Plunging trajectories solve the geodesic equations (two real or four real radial roots)."""
import numpy as np
from scipy.optimize import brentq
import gen as G
import ref
import kerrgeopy as kg
from kerrgeopy.plunge import plunging_trajectory

LEVEL = "exploration"
RULE = ("plunging constants (a,E,L,Q) from every plunge stratum: complex radial roots (equatorial, tiny Q, high / low E, high / low spin, "
        "large Q), four real roots with the plunge inside the bound region, three roots inside the horizon, mirrored spin; "
        "arbitrary phases and Mino times covering several radial periods; all four coordinates compared with the reference, "
        "t and phi across the horizons as principal values; non-trivial = a coordinate compared")
ASSUMPTIONS = ["reference motion by spectral quadrature with the horizon poles integrated analytically (lib/ref.py)",
               "1-E >= 1e-3, radial roots separated by >= 1e-3; points within 1e-8 of a horizon in r "
               "are compared in r and theta only"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"theta": 0.0001, "starting point": 0.001, "r": 0.1}
REQUIRED = ["t", "r", "theta", "phi", "starting point", "complex roots", "real roots", "next to a horizon"]


def gen(rng, tier, scale):
    n = int((500 if tier == "quick" else 12000) * scale)
    for i in range(n):
        kinds = G.PLUNGE_KINDS + ["horizon_turn", "axis_cx", "axis_real"]
        c = G.plunge(rng, kinds[i % len(kinds)])
        c["q"] = G.phases(rng)
        c["lam"] = [0.0] + G.far(rng, rng.uniform(-1, 1, 14) * 10 ** rng.uniform(-2, 1))
        c["route"] = int(rng.integers(3))
        # approach horizon crossings: (horizon, direction, period, log10 distance, side)
        c["near"] = [(int(rng.integers(2)), int(rng.integers(2)), int(rng.integers(-3, 4)), float(rng.uniform(-7, -2)), int(rng.choice((-1, 1)))) for _ in range(4)]
        yield c


def crossings(g, q, near):
    """Mino times at which r lies the given distance from a horizon."""
    out = []
    for hor, sense, per, lg, side in near:
        target = (g.rp, g.rm)[hor] + side * 10.0 ** lg
        f = lambda s: float(g.r_of_psi(g.psi(s))) - target
        try:
            s = brentq(f, 0.0, np.pi, xtol=1e-15)
        except ValueError:  # beyond a turning point
            continue
        out.append(((s if sense else -s) + 2 * np.pi * per - q[1]) / float(g.Ups_r))
    return out


def horizon_gap(g, r):
    return np.minimum(np.abs(r - g.rp), np.abs(r - g.rm))


def run(c, mon):
    p, q, lam = tuple(c[s] for s in ("a", "E", "L", "Q")), tuple(c["q"]), np.array(c["lam"])
    g = ref.Geodesic.plunge(*p)
    at = crossings(g, q, c.get("near", []))
    if at:
        mon.event("next to a horizon")
        lam = np.concatenate((lam, at))
    mon.event("complex roots" if g.complex_roots else "real roots")
    if c["route"] == 0:
        fs = mon.call("plunging_trajectory", plunging_trajectory, *p, q)
    elif c["route"] == 1:
        fs = mon.call("PlungingOrbit", kg.PlungingOrbit, *p).trajectory(q)
    else:
        fs = mon.call("PlungingOrbit", kg.PlungingOrbit, *p, q).trajectory()
    want = g.state(lam, q)
    r = want[1]
    k = 5e-8 * G.pcond(c) * np.maximum(1, np.abs(lam))
    slack = g.phi_slack(float(g.Ups_theta) * lam + q[2]) + float(g.phi_slack(q[2]))
    gap = np.minimum(horizon_gap(g, r), float(horizon_gap(g, g.state(0.0, q)[1])))
    for nm, f, w in zip(("t", "r", "theta", "phi"), fs, want):
        v = np.asarray(mon.call(nm, f, lam))
        if v.shape != w.shape or v.dtype.kind != "f":
            mon.fail(nm, note="shape/dtype", got=str(v.dtype))
            continue
        if nm == "phi" and g.one_minus_zm2 == 0:  # the sense of a turn by pi is a matter of convention
            mon.event("through the axis")
            w = v + np.remainder(w - v + np.pi, 2 * np.pi) - np.pi
        if nm in ("t", "phi"):
            ok = gap > 1e-8
            if not ok.any():
                continue
            mon.le(nm, (np.abs(v - w) / (1 + np.abs(w)))[ok], (k * (1 + 1e-3 / gap) + slack)[ok], want=w, got=v)
        else:
            mon.le(nm, np.abs(v - w) / (1 + np.abs(w)), k, want=w, got=v)
        s = mon.call(nm, f, c["lam"][-1])
        mon.ok("scalar time", np.ndim(s) == 0 and np.isreal(s), got=s)
    if gap[0] > 1e-4:
        mon.le("starting point", abs(float(fs[0](0)) - q[0]), 1e-9 * (1 + abs(q[0])))
        mon.le("starting point", abs(float(fs[3](0)) - q[3]), 1e-9 * (1 + abs(q[3])))
