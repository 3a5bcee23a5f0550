"""Mino and Boyer-Lindquist frequencies of stable orbits are the averages of the motion."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg

LEVEL = "exploration"
RULE = ("stable orbits from 24 strata (see lib/gen.py) including retrograde, negative spin, a = 0, e = 0, x = +-1, within 1e-5 "
        "of the separatrix, p up to 1e5; every frequency compared with the average of the geodesic equations over the torus; "
        "non-trivial = at least one frequency compared")
ASSUMPTIONS = ["reference averages by spectral quadrature of the geodesic equations (lib/ref.py), converged to 1e-13",
               "relative tolerance 2e-9 times a conditioning factor (separatrix gap, 1-e, |x|, p, 1-a); |x| >= 1e-15"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"advance independent of radial phase": 0.0001, "measured polar period": 0.001, "measured radial period": 0.001,
         "measured advance per period": 0.003, "Upsilon_theta": 0.003, "|theta_frequency()|": 0.003, "Omega_phi": 0.005,
         "Upsilon_phi": 0.005, "phi_frequency()": 0.005, "Omega_theta": 0.005, "Gamma": 0.01, "gamma()": 0.01, "Omega_r": 0.03,
         "Upsilon_r": 0.03, "r_frequency()": 0.03}
REQUIRED = ["Upsilon_r", "Upsilon_theta", "Upsilon_phi", "Gamma", "Omega_r", "Omega_theta", "Omega_phi",
            "measured radial period", "measured polar period", "measured advance per period"]


def gen(rng, tier, scale):
    n = int((2400 if tier == "quick" else 16000) * scale)
    for i in range(n):
        c = G.stable(rng, G.STABLE_KINDS[i % len(G.STABLE_KINDS)])
        c["measure"] = bool(rng.random() < 0.3)
        yield c


def run(c, mon):
    p = tuple(c[s] for s in "apex")
    tol = 2e-9 * G.cond(c)
    g = ref.Geodesic.bound(*p)
    want = (g.Ups_r, g.Ups_theta, g.Ups_phi, g.Gamma)
    got = mon.call("mino_frequencies", kg.mino_frequencies, *p)
    mon.ok("four frequencies", len(got) == 4)
    scale = abs(g.Uphi_r) + abs(g.Uphi_t)
    for nm, v, w in zip(("Upsilon_r", "Upsilon_theta", "Upsilon_phi", "Gamma"), got, want):
        mon.close(nm, float(v), w, tol, tol * scale if nm == "Upsilon_phi" else 0)
    om = mon.call("fundamental_frequencies", kg.fundamental_frequencies, *p)
    mon.ok("three frequencies", len(om) == 3)
    for nm, v, w in zip(("Omega_r", "Omega_theta", "Omega_phi"), om, want):
        mon.close(nm, float(v), w / g.Gamma, 2 * tol, 2 * tol * scale / g.Gamma if nm == "Omega_phi" else 0)
    mon.ok("positive", got[0] > 0 and got[1] > 0 and got[3] > 0)
    mon.close("r_frequency()", float(mon.call("r_frequency", kg.r_frequency, *p)), g.Ups_r, tol)
    mon.close("|theta_frequency()|", abs(float(mon.call("theta_frequency", kg.theta_frequency, *p))), g.Ups_theta, tol)
    mon.close("phi_frequency()", float(mon.call("phi_frequency", kg.phi_frequency, *p)), g.Ups_phi, tol, tol * scale)
    mon.close("gamma()", float(mon.call("gamma", kg.gamma, *p)), g.Gamma, tol)
    if not c["measure"]:
        return
    # the frequencies really are those of the computed motion: periods and secular advances
    o = mon.call("StableOrbit", kg.StableOrbit, *p)
    t, r, th, ph = o.trajectory()
    Tr, Tt = 2 * np.pi / float(got[0]), 2 * np.pi / float(got[1])
    lam = np.array([0.05, 0.21, 0.4, 0.63, 0.9])
    b = 1e-8 * G.cond(c)
    mon.close("measured radial period", r(lam * Tr + Tr), np.asarray(r(lam * Tr)), b)
    mon.close("measured polar period", th(lam * Tt + Tt), np.asarray(th(lam * Tt)), 0, b)
    # the advance over one radial period does not depend on the radial phase (below), so its mean over
    # equally spaced polar phases is exactly the average rate times the period
    if abs(c["x"]) > 0.5:
        s = np.arange(48) * Tt / 48
        mon.close("measured advance per period", np.mean(t(s + Tr) - t(s)), g.Gamma * Tr, b)
        mon.close("measured advance per period", np.mean(ph(s + Tr) - ph(s)), g.Ups_phi * Tr, b, b)
        s = np.arange(48) * Tr / 48
        if c["e"] < 0.5 and c["gap"] > 0.3:
            mon.close("measured advance per period", np.mean(t(s + Tt) - t(s)), g.Gamma * Tt, b)
            mon.close("measured advance per period", np.mean(ph(s + Tt) - ph(s)), g.Ups_phi * Tt, b, b)
    # exact statement: over one radial period the radial part of t contributes Gamma_r exactly, so the
    # difference of two advances depends on the polar phase only
    T = Tr
    d = []
    for q in (0.0, 1.3):
        tt, _, _, pp = o.trajectory((0, q, 0.7, 0))
        d.append((float(tt(T) - tt(0.0)), float(pp(T) - pp(0.0))))
    mon.close("advance independent of radial phase", d[0], np.array(d[1]), b, b)
