"""Radial roots and Mino frequencies of plunging orbits."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg

LEVEL = "exploration"
RULE = ("plunging constants from every plunge stratum; roots compared with 50-digit roots in the documented order, frequencies with the "
        "average of the motion, and with the periods measured on the computed trajectory; non-trivial = a root compared")
ASSUMPTIONS = ["radial roots separated by >= 1e-3, 1-E >= 1e-3"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"measured polar period": 0.001, "measured radial period": 0.001, "Upsilon_theta": 0.001, "turning points": 0.001,
         "other roots": 0.05, "real roots of the motion": 0.05}
REQUIRED = ["real roots of the motion", "other roots", "Upsilon_r", "Upsilon_theta", "measured radial period", "measured polar period",
            "turning points"]


def gen(rng, tier, scale):
    n = int((2400 if tier == "quick" else 16000) * scale)
    for i in range(n):
        c = G.plunge(rng, G.PLUNGE_MORE[i % len(G.PLUNGE_MORE)])
        c["lam"] = [float(v) for v in rng.uniform(-2, 2, 4)]
        yield c


def run(c, mon):
    p = tuple(c[s] for s in ("a", "E", "L", "Q"))
    g = ref.Geodesic.plunge(*p)
    k = 1e-9 * G.pcond(c)
    rr = mon.call("plunging_radial_roots", kg.plunging_radial_roots, *p)
    mon.ok("four roots", len(rr) == 4)
    rr = [complex(v) for v in rr]
    lo, hi = g.lo, g.hi
    if g.complex_roots:
        mon.ok("real roots of the motion", rr[0].imag == 0 and rr[1].imag == 0)
        mon.close("real roots of the motion", [rr[0].real, rr[1].real], np.array([lo, hi]), k, k)
        mon.ok("other roots", rr[2].imag != 0 and rr[3] == rr[2].conjugate())
        w = complex(g.other[0])
        mon.le("other roots", abs(rr[2] - complex(w.real, np.copysign(w.imag, rr[2].imag))), k * (1 + abs(w)))
    else:
        mon.ok("all real", all(v.imag == 0 for v in rr))
        mon.close("real roots of the motion", [rr[1].real, rr[0].real], np.array([lo, hi]), k, k)
        o = sorted(float(v) for v in g.other)
        mon.close("other roots", [rr[3].real, rr[2].real], np.array(o), 10 * k, 10 * k)
    ups = mon.call("plunging_mino_frequencies", kg.plunging_mino_frequencies, *p)
    mon.ok("two real frequencies", len(ups) == 2 and all(np.isreal(v) and np.ndim(v) == 0 for v in ups), got=ups)
    mon.close("Upsilon_r", float(ups[0]), g.Ups_r, k)
    mon.close("Upsilon_theta", abs(float(ups[1])), g.Ups_theta, k)
    o = mon.call("PlungingOrbit", kg.PlungingOrbit, *p)
    mon.close("object frequencies", [float(o.upsilon_r), float(abs(o.upsilon_theta))], np.array([g.Ups_r, g.Ups_theta]), k)
    t, r, th, ph = o.trajectory()
    lam = np.array(c["lam"])
    Tr, Tt = 2 * np.pi / float(ups[0]), 2 * np.pi / abs(float(ups[1]))
    mon.close("measured radial period", np.asarray(r(lam + Tr)), np.asarray(r(lam)), 10 * k, 10 * k)
    mon.close("measured polar period", np.asarray(th(lam + Tt)), np.asarray(th(lam)), 10 * k, 10 * k)
    b = 1e-7 * G.pcond(c)
    mon.close("turning points", [float(r(0.0)), float(r(Tr / 2))], np.array([lo, hi]), b, b)
    thm = np.arctan2(np.sqrt(g.one_minus_zm2), np.sqrt(g.zm2))
    mon.close("turning points", [float(th(0.0)), float(th(Tt / 2))], np.array([thm, np.pi - thm]), b, b)
    s = np.linspace(0, Tr, 41)
    rs = np.asarray(r(s))
    mon.ok("r stays between the roots", np.all(rs >= lo - b) and np.all(rs <= hi + b))
    mon.ok("crosses both horizons", lo <= g.rm + 1e-12 and hi >= g.rp - 1e-12 and rs.min() <= g.rm + 0.02 * hi and rs.max() >= g.rp - 0.02 * hi)
    u = rs[:21]
    mon.ok("outward in the first half period", np.all(np.diff(u) > -b) and np.all(np.diff(rs[20:]) < b))
