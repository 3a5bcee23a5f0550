"""Evaluating on arrays, integers and numpy scalars is evaluating point by point."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg
from kerrgeopy.stable import stable_trajectory
from kerrgeopy.plunge import plunging_trajectory

LEVEL = "exploration"
RULE = ("all four functions returned by trajectory, trajectory_deltas, four_velocity and numerical_four_velocity of stable, plunging and "
        "Orbit objects evaluated on python floats, ints, numpy scalars, 0-d, 1-d, 2-d, 3-d, empty, length-1, strided, reversed, "
        "repeated, permuted, integer, single precision and large (to 40000 entries) arrays; result shape = input shape and each entry = the scalar evaluation; parameters given as ints and "
        "numpy scalars; non-trivial = a container compared")
ASSUMPTIONS = ["entries agree to 1e-11 of the function's scale (library routines may differ in the last bits between array and scalar calls); "
               "times whose phases are within 1e-3 of a turning point or whose radius is within 0.02 of a horizon are not used here"]
REQUIRED = ["trajectory", "trajectory_deltas", "four_velocity", "numerical_four_velocity", "shape", "integer times", "numpy parameters",
            "integer parameters", "empty", "order", "array left untouched", "single precision", "large"]


def gen(rng, tier, scale):
    U = rng.uniform
    n = int((300 if tier == "quick" else 8000) * scale)
    for i in range(n):
        k = i % 3
        c = G.plunge(rng) if k == 1 else G.stable(rng, "ints" if i % 12 == 0 else None)
        c["fam"] = "plunge" if k == 1 else "stable"
        c["q"] = [float(U(-5, 5)), float(U(0, 6.28)), float(U(0, 6.28)), float(U(-4, 4))]
        c["lam"] = G.far(rng, U(-1, 1, 24) * 10 ** U(-1, 1.3), hi=4)
        c["perm"] = [int(v) for v in rng.permutation(24)]
        c["single"], c["large"] = bool(rng.random() < 0.3), int(rng.integers(16)) if rng.random() < 0.4 else -1
        c["orbit"] = bool(k == 2 and c.get("a", -1) >= 0)
        yield c


def good(g, q, lam):
    """times away from turning points and horizons"""
    m = np.ones(lam.shape, bool)
    for u, q0 in ((g.Ups_r, q[1]), (g.Ups_theta, q[2])):
        m &= np.abs((u * lam + q0 + np.pi / 2) % np.pi - np.pi / 2) > 1e-3
    x = g.state(lam, q)
    r, th = x[1], x[2]
    m &= np.minimum(np.abs(r - g.rp), np.abs(r - g.rm)) > 0.02
    m &= r * r + g.a ** 2 * np.cos(th) ** 2 > 0.05
    return m


def run(c, mon):
    st, q = c["fam"] == "stable", tuple(c["q"])
    p = tuple(c[s] for s in ("apex" if st else ("a", "E", "L", "Q")))
    g = ref.Geodesic.bound(*p) if st else ref.Geodesic.plunge(*p)
    cls = kg.StableOrbit if st else kg.PlungingOrbit
    o = mon.call("object", cls, *p, q)
    lam = np.array(c["lam"])
    ints = np.arange(-6, 7)
    ok, oki = good(g, q, lam), good(g, q, ints.astype(float))
    if ok.sum() < 4:
        return
    k = G.cond(c) if st else G.pcond(c)
    lam = lam[ok]
    perm = np.argsort(np.array(c["perm"])[ok])
    if c["orbit"]:
        o = mon.call("Orbit", kg.Orbit, c["a"], o.initial_position, o.initial_velocity)
        if not o.stable:
            return
    fams = [("trajectory", o.trajectory()), ("trajectory_deltas", o.trajectory_deltas()), ("four_velocity", o.four_velocity()),
            ("numerical_four_velocity", o.numerical_four_velocity(dx=1e-4))]
    for name, fs in fams:
        mon.ok("four functions", len(fs) == 4)
        for i, f in enumerate(fs):
            if name == "trajectory_deltas":
                u = (g.Ups_r, g.Ups_theta)[i % 2]
                L = u * lam
            else:
                L = lam
            w = np.array([float(mon.call(name, f, float(v))) for v in L])
            size = 1e-11 * k * (1 + np.abs(w).max()) * (1 if name != "numerical_four_velocity" else 1e5)

            def cmp(what, arg, want):
                keep = np.array(arg, copy=True)
                got = np.asarray(mon.call(name, f, arg))
                if not mon.ok("shape", got.shape == np.shape(arg), function=name, component=i, container=what, got=got.shape, want=np.shape(arg)):
                    return
                mon.ok("real", got.dtype.kind == "f", function=name, component=i, container=what, got=str(got.dtype))
                if np.size(arg):
                    d = np.abs(got - want)
                    if "velocity" in name and i in (1, 2):  # square roots of a potential: judge the square as well
                        d = np.minimum(d, np.abs(got * np.abs(got) - want * np.abs(want)) / (1e-3 if name != "four_velocity" else 1))
                    mon.le(name, d, size, component=i, container=what, got=got, want=want)
                mon.ok("array left untouched", bool(np.all(np.asarray(arg) == keep)), function=name)
            cmp("1-d", L, w)
            mon.event("order")
            cmp("permuted", L[perm], w[perm])
            cmp("reversed view", L[::-1], w[::-1])
            cmp("strided", np.repeat(L, 2)[::2], w)
            cmp("repeated", np.repeat(L[:3], 3), np.repeat(w[:3], 3))
            n = len(L) // 2
            cmp("2-d", L[:2 * n].reshape(2, n), w[:2 * n].reshape(2, n))
            cmp("column", L[:, None], w[:, None])
            cmp("fortran", np.asfortranarray(L[:2 * n].reshape(n, 2)), w[:2 * n].reshape(n, 2))
            cmp("3-d", L[:4].reshape(2, 1, 2), w[:4].reshape(2, 1, 2))
            cmp("length 1", L[:1], w[:1])
            cmp("0-d", np.array(L[1]), w[1])
            cmp("numpy scalar", np.float64(L[2]), w[2])
            cmp("empty", np.array([]), w[:0])
            mon.event("empty")
            cmp("read-only", ro(L), w)
            cmp("big-endian", L.astype(">f8"), w)
            if c["single"]:
                S = L.astype("f4")
                ws = np.array([float(f(float(v))) for v in S])
                cmp("single precision", S, ws)
                cmp("single precision 2-d", S[:2 * n].reshape(2, n), ws[:2 * n].reshape(2, n))
                mon.event("single precision")
            if c["large"] >= 0 and c["large"] % 4 == i:
                m = (200, 3000, 12000, 40000)[c["large"] // 4]
                at = np.random.default_rng(m + i).integers(len(L), size=m)
                cmp("large", L[at], w[at])
                cmp("large 2-d", L[at].reshape(-1, 40), w[at].reshape(-1, 40))
                cmp("large transposed", L[at].reshape(-1, 40).T, w[at].reshape(-1, 40).T)
                mon.event("large")
            if name != "trajectory_deltas" and oki.any():
                I = ints[oki]
                wi = np.array([float(f(float(v))) for v in I])
                s2 = size
                size = 1e-11 * k * (1 + np.abs(wi).max()) * (1 if name != "numerical_four_velocity" else 1e5)
                cmp("integers", I, wi)
                mon.event("integer times")
                v = f(int(I[0]))
                if not ("velocity" in name and i in (1, 2)):
                    mon.le(name, abs(float(v) - wi[0]), size, component=i, container="python int")
                cmp("numpy int", np.int64(I[-1]), wi[-1])
                size = s2
    # parameters in other numeric types
    alt = [tuple(np.float64(v) for v in p)]
    mon.event("numpy parameters")
    if all(float(v).is_integer() for v in p):
        alt.append(tuple(int(v) for v in p))
    if any(float(v).is_integer() for v in p):
        mon.event("integer parameters")
        alt.append(tuple(int(v) if float(v).is_integer() else v for v in p))
        alt.append(tuple(float(v) for v in p))
    base = [np.asarray(f(lam), float) for f in cls(*p, q).trajectory()]
    fn = stable_trajectory if st else plunging_trajectory
    for al in alt:
        for T in (mon.call("parameters", cls, *al, np.array(q)).trajectory(), mon.call("parameters", fn, *al, list(q)), mon.call("parameters", cls, *al).trajectory(tuple(np.float64(v) for v in q))):
            for i, f in enumerate(T):
                v = np.asarray(f(lam))
                mon.le("trajectory", np.abs(v - base[i]), 1e-11 * k * (1 + np.abs(base[i]).max()), component=i, note="parameter types")
        if st:
            for f in (kg.mino_frequencies, kg.fundamental_frequencies, kg.constants_of_motion):
                mon.close("parameter types", [float(v) for v in mon.call("parameters", f, *al)], np.array([float(v) for v in f(*p)]), 1e-13, 1e-15)


def ro(x):
    y = x.copy()
    y.flags.writeable = False
    return y
