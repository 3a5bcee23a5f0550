"""Separatrix and stability test: the true boundary of stable motion."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg

LEVEL = "exploration"
RULE = ("(a,e,x) over the full square including a=0/tiny/near 1, e in {0,1}/near 0/near 1, x in {0,+-1}/near them; the "
        "claimed separatrix p_s is judged by the sign of the exact stability indicator dR/dr(r_min) at p_s(1+-d), "
        "d = 1e-6, and is_stable at p_s(1+-d) and at random p; interpolated separatrix functions at nodes and between")
ASSUMPTIONS = ["stability indicator evaluated in 50-digit arithmetic (lib/ref.py)",
               "|x| >= 1e-5 or x = 0; interpolation error bound fitted for grids of spacing <= 0.1 and a <= 0.95"]
REQUIRED = ["stable just above", "unstable just below", "is_stable on the separatrix", "is_stable above", "is_stable below", "fast_separatrix at nodes",
            "fast_separatrix between nodes"]


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((3000 if tier == "quick" else 20000) * scale)
    for i in range(n):
        k = i % 12
        a, e, x, kind = G.spin(rng), U(0, 1), U(0.001, 1) * G.sgn(rng), "generic"
        if k == 1:
            kind, x = "equatorial", G.sgn(rng)
        elif k == 2:
            kind, x = "polar", 0.0
        elif k == 3:
            kind, e = "circular", 0.0
        elif k == 4:
            kind, e = "marginal", 1.0
        elif k == 5:
            kind, a = "schwarzschild", 0.0
        elif k == 6:
            kind, a = "a tiny", 10 ** U(-16, -2)
        elif k == 7:
            kind, a = "a near 1", 1 - 10 ** U(-6, -1)
        elif k == 8:
            kind, x = "x near 1", (1 - 10 ** U(-16, -1)) * G.sgn(rng)
        elif k == 9:
            kind, x = "x small", 10 ** U(-5, -1) * G.sgn(rng)
        elif k == 10:
            kind, e = "e small", 10 ** U(-16, -1)
        elif k == 11:
            kind, x, e = "corner", G.pick(rng, 0.0, 1.0, -1.0), G.pick(rng, 0.0, 1.0)
        if kind not in ("circular", "marginal", "corner") and rng.random() < 0.15:
            e = G.pick(rng, 0.0, 1.0)
        yield dict(kind=kind, a=float(a), e=float(e), x=float(x), d=1e-6, up=float(10 ** U(-4, 1)), dn=float(U(0.05, 0.95)))
    for i in range(int((10 if tier == "quick" else 60) * scale) or 1):
        yield dict(kind="fast", a=float(G.pick(rng, U(0, 0.5), U(0.5, 0.9), U(0.9, 0.95), 0.0)), h=float(G.pick(rng, 0.1, 0.05, 0.08)),
                   pts=[[float(U(0, 1)), float(U(-1, 1))] for _ in range(12)])


def run(c, mon):
    if c["kind"] == "fast":
        return fast(c, mon)
    a, e, x = c["a"], c["e"], c["x"]
    ps = float(mon.call("separatrix", kg.separatrix, a, e, x))
    mon.ok("finite positive", np.isfinite(ps) and 1 + e <= ps <= 13, p=ps)
    d = c["d"]

    def indicator(p):
        try:
            return float(ref.stability_indicator(a, p, e, x))
        except ref.RefError:
            return -1.0
    # R'(r_min) > 0 above the separatrix.  At e = 0 the indicator is -R''(r_0).
    up, dn = indicator(ps * (1 + d)), indicator(ps * (1 - d))
    mon.ok("stable just above", up > 0, p=ps, indicator=up)
    mon.ok("unstable just below", dn <= 0, p=ps, indicator=dn)
    # the outermost boundary: everything above is stable
    mon.ok("stable further above", indicator(ps + c["up"]) > 0, p=ps + c["up"])
    st = kg.KerrSpacetime(a)
    mon.ok("KerrSpacetime.separatrix agrees", st.separatrix(e, x) == ps)
    for p, want, nm in ((ps * (1 + d), True, "is_stable above"), (ps * (1 - d), False, "is_stable below"),
                        (ps + c["up"], True, "is_stable further above"), (ps * c["dn"], False, "is_stable further below")):
        mon.ok(nm, bool(mon.call("is_stable", kg.is_stable, a, p, e, x)) is want, p=p, ps=ps)
        mon.ok(nm + " (spacetime)", bool(st.is_stable(p, e, x)) is want, p=p, ps=ps)
    # the boundary itself is not stable
    mon.ok("is_stable on the separatrix", not kg.is_stable(a, ps, e, x) and not st.is_stable(ps, e, x), p=ps)
    # consequence for every constructor
    if e < 1:
        mon.raises("constants rejected on the separatrix", kg.constants_of_motion, a, ps, e, x, exc=ValueError)
        mon.raises("constants rejected below", kg.constants_of_motion, a, ps * (1 - d), e, x, exc=ValueError)
        mon.raises("constants rejected further below", kg.constants_of_motion, a, ps * c["dn"], e, x, exc=ValueError)
    E = mon.call("energy above", kg.energy, a, ps * (1 + d), e, x)
    mon.ok("energy finite above", np.isfinite(E) and 0 < E <= 1, E=E)


def fast(c, mon):
    a, h = c["a"], c["h"]
    f = mon.call("fast_separatrix", kg.fast_separatrix, a, h)
    ne, nx = int(1 / h), int(2 / h)
    for i in (0, ne // 2, ne - 1):
        for j in (0, nx // 3, nx // 2, nx - 1):
            e, x = np.linspace(0, 1, ne)[i], np.linspace(-1, 1, nx)[j]
            want = G.sep(a, e, x) if abs(x) > 1e-12 else G.sep(a, e, 1e-7)
            mon.close("fast_separatrix at nodes", float(np.squeeze(f(e, x))), want, 0, 1e-6, e=e, x=x)
    for e, x in c["pts"]:
        want = G.sep(a, e, x)
        mon.close("fast_separatrix between nodes", float(np.squeeze(f(e, x))), want, 0, 40 * h ** 3 * max(1, 0.02 / (1 - a)), e=e, x=x)
    # a grid of points in one call
    es, xs = np.sort([q[0] for q in c["pts"]])[:3], np.sort([q[1] for q in c["pts"]])[:3]
    grid = np.asarray(f(es, xs))
    one = np.array([[float(np.squeeze(f(e, x))) for x in xs] for e in es])
    mon.close("fast_separatrix grid", grid, one, 1e-12)
