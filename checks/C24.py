"""The public building blocks (radial/polar solutions, radial integrals) integrate the separated equations."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg
from kerrgeopy.stable import radial_solutions, polar_solutions
from kerrgeopy.plunge import plunging_radial_integrals, plunging_radial_solutions_complex, plunging_polar_solutions

LEVEL = "exploration"
RULE = ("stable orbits and plunges from all strata; radial_solutions and polar_solutions called with the package's constants and roots or with "
        "correctly rounded reference roots, plunging_radial_integrals, plunging_radial_solutions_complex and plunging_polar_solutions with constants; "
        "phases at turning points, generic, negative, over several periods; every returned function compared with the reference quadrature; "
        "non-trivial = one function compared")
ASSUMPTIONS = ["reference by spectral quadrature with principal values at the horizons (lib/ref.py)",
               "tolerance 2e-9 (stable) and 1e-8 (plunges) times conditioning factor; horizons at least 1e-4 away for functions singular there",
               "the integral at the inner horizon loses digits in proportion to 1/a^2 (it enters with a factor a^2)"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"plunge theta": 0.0001, "plunge phi_theta": 0.001, "plunge t_theta": 0.001, "stable r": 0.003, "stable phi_r": 0.005,
         "stable theta": 0.01, "stable t_r": 0.1, "I_r_minus": 0.4}
REQUIRED = ["stable r", "stable t_r", "stable phi_r", "stable theta", "stable t_theta", "stable phi_theta",
            "plunge r", "plunge t_r", "plunge phi_r", "plunge theta", "plunge t_theta", "plunge phi_theta",
            "I_r", "I_r2", "I_r_plus", "I_r_minus", "real roots rejected", "reference roots", "negative spin"]


def gen(rng, tier, scale):
    n = int((700 if tier == "quick" else 14000) * scale)
    for i in range(n):
        if i % 2:
            c = G.plunge(rng, G.PLUNGE_KINDS[(i // 2) % len(G.PLUNGE_KINDS)])
            c["fam"] = "plunge"
        else:
            c = G.stable(rng, G.STABLE_KINDS[(i // 2) % len(G.STABLE_KINDS)])
            c["fam"] = "stable"
        c["ph"] = [0.0, float(np.pi), float(-np.pi / 2), float(2 * np.pi)] + [float(v) for v in rng.uniform(-1, 1, 8) * 10 ** rng.uniform(-1, 1.6)]
        c["own"] = bool(rng.integers(2))
        yield c


def run(c, mon):
    (stable if c["fam"] == "stable" else plunge)(c, mon)


def evaluate(mon, name, f, q):
    v = np.asarray(mon.call(name, f, q))
    mon.ok("shape", v.shape == q.shape and v.dtype.kind == "f", function=name, got=v.shape)
    s = mon.call(name, f, float(q[-1]))
    mon.ok("scalar phase", np.ndim(s) == 0, function=name)
    return v


def separated(c, mon, tag, a, ELQ, rr, pr, g, q, b, sgn, gap_min=None):
    """radial_solutions and polar_solutions against the reference (oscillating parts)."""
    fr = mon.call("radial_solutions", radial_solutions, a, ELQ, rr)
    fp = mon.call("polar_solutions", polar_solutions, a, ELQ, pr)
    sc = 1 + np.abs(q)
    r = g.r_of_psi(g.psi(q))
    sel = np.ones(q.shape, bool) if gap_min is None else np.minimum(np.abs(r - g.rp), np.abs(r - g.rm)) > gap_min
    wide = 1 if gap_min is None else 1 + 1e-3 / np.maximum(np.minimum(np.abs(r - g.rp), np.abs(r - g.rm)), 1e-4)
    amp = 5e-12 * abs(float(g.Gamma)) * 2 * np.pi / float(g.Ups_r)
    for nm, f, w, ex in (("r", fr[0], r, 0), ("t_r", fr[1], g.t_r(q), amp), ("phi_r", fr[2], sgn * g.phi_r(q), 0)):
        v = evaluate(mon, nm, f, q)
        s = sel if nm != "r" else np.ones_like(sel)
        size = np.max(np.abs(w[s])) if s.any() else 0.0
        mon.le(tag + " " + nm, np.abs(v - w)[s], ((b * (1 + np.abs(w) + 1e-4 * size) * sc + ex) * (1 if nm == "r" else wide))[s], got=v, want=w)
    zc = np.sqrt(g.zm2) * np.cos(g.chi(q))
    v = evaluate(mon, "theta", fp[0], q)
    mon.le(tag + " theta", np.abs(np.cos(v) - zc), b * sc, got=v)
    for nm, f, w in (("t_theta", fp[1], g.t_th(q)), ("phi_theta", fp[2], sgn * g.phi_th(q))):
        v = evaluate(mon, nm, f, q)
        mon.le(tag + " " + nm, np.abs(v - w), b * (1 + np.abs(w)) * sc + (g.phi_slack(q) if nm == "phi_theta" else 0), got=v, want=w)


def stable(c, mon):
    a, p, e, x = (c[s] for s in "apex")
    g = ref.Geodesic.bound(a, p, e, x)
    q = np.array(c["ph"])
    b = 2e-9 * G.cond(c)
    neg = a < 0
    if c["own"] or neg:
        aa, xx = (-a, -x) if neg else (a, x)
        ELQ = tuple(float(v) for v in mon.call("constants_of_motion", kg.constants_of_motion, aa, p, e, xx))
        rr = tuple(float(v) for v in mon.call("stable_radial_roots", kg.stable_radial_roots, aa, p, e, xx, ELQ))
        pr = tuple(mon.call("stable_polar_roots", kg.stable_polar_roots, aa, p, e, xx, ELQ))
        if neg:  # the same motion seen from a frame with the opposite azimuth
            mon.event("negative spin")
            ELQ = (ELQ[0], -ELQ[1], ELQ[2])
    else:
        mon.event("reference roots")
        ELQ = (g.E, g.L, g.Q)
        aa = abs(a)
        rr = (float(p / (1 - e)), float(p / (1 + e))) + tuple(g.ro)
        pr = (g.zm2, g.bzp / g.b if g.b else float("inf"))
    if aa == 0:
        pr = tuple(mon.call("stable_polar_roots", kg.stable_polar_roots, aa, p, e, x, ELQ))
    separated(c, mon, "stable", -aa if neg else aa, ELQ, rr, pr, g, q, b, -1 if neg else 1)


def plunge(c, mon):
    P = tuple(c[s] for s in ("a", "E", "L", "Q"))
    a = P[0]
    g = ref.Geodesic.plunge(*P)
    q = np.array(c["ph"])
    b = 1e-8 * G.pcond(c)
    roots = mon.call("plunging_radial_roots", kg.plunging_radial_roots, *P)
    cx = any(np.iscomplex(v) for v in roots)
    mon.ok("complex roots recognized", cx == bool(g.complex_roots), got=roots)
    if not g.complex_roots:
        mon.raises("real roots rejected", plunging_radial_solutions_complex, *P, exc=ValueError)
        pr = (g.zm2, g.bzp / g.b)
        separated(c, mon, "plunge", a, P[1:], tuple(float(np.real(v)) for v in roots), pr, g, q, b, 1, 1e-4)
        return
    sc = 1 + np.abs(q)
    r = g.r_of_psi(g.psi(q))
    gap = np.minimum(np.abs(r - g.rp), np.abs(r - g.rm))
    ok = gap > 1e-4
    near = 1 + 1e-3 / np.maximum(gap, 1e-4)
    I = mon.call("plunging_radial_integrals", plunging_radial_integrals, *P)
    # a turning point next to a horizon loses the digits of its distance
    kp, km = max(1, 1e-4 / (g.hi - g.rp)), max(1, 1e-4 / (g.rm - g.lo), (3e-2 / a) ** 2)
    for nm, f, w, k in zip(("I_r", "I_r2", "I_r_plus", "I_r_minus"), I, g.radial_integrals(q), (1, 1, kp, km)):
        v = evaluate(mon, nm, f, q)
        s = ok if "_r_" in nm else np.ones_like(ok)
        mon.le(nm, np.abs(v - w)[s], (b * k * (1 + np.abs(w) + 1e-4 * np.max(np.abs(w))) * sc * (near if "_r_" in nm else 1))[s], got=v, want=w)
    rs, t_r, phi_r = mon.call("plunging_radial_solutions_complex", plunging_radial_solutions_complex, *P)
    v = evaluate(mon, "r", rs, q)
    mon.le("plunge r", np.abs(v - r), b * (1 + np.abs(r)) * sc, got=v, want=r)
    th, t_th, phi_th = mon.call("plunging_polar_solutions", plunging_polar_solutions, *P)
    v = evaluate(mon, "theta", th, q)  # from the equator, moving north
    mon.le("plunge theta", np.abs(np.cos(v) - np.sqrt(g.zm2) * np.cos(g.chi(q - np.pi / 2))), b * sc, got=v)
    # the radial and polar parts of t and phi are defined up to a multiple of Mino time moved from one to the other
    lr, lt = q / float(g.Ups_r), q / float(g.Ups_theta)
    for nm, f, h, wr, wt, G_ in (("t", t_r, t_th, g.t_r(q), g.t_th(q - np.pi / 2) - g.t_th(np.array(-np.pi / 2)), g.Gamma),
                                 ("phi", phi_r, phi_th, g.phi_r(q), g.phi_th(q - np.pi / 2) - g.phi_th(np.array(-np.pi / 2)), g.Ups_phi)):
        v, w = evaluate(mon, nm + "_r", f, q), evaluate(mon, nm + "_theta", h, q)
        i = int(np.argmax(np.abs(q)))
        slope = (w[i] - wt[i]) / lt[i]
        mon.le("plunge %s_theta" % nm, np.abs(w - wt - slope * lt), b * (1 + np.abs(wt) + np.abs(slope * lt)) * sc, got=w, want=wt)
        full = wr + (G_ - slope) * lr
        mon.le("plunge %s_r" % nm, np.abs(v - full)[ok], (b * (1 + np.abs(full) + np.abs(G_ * lr) + np.abs(slope * lr)) * sc * near)[ok], got=v, want=full)
