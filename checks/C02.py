"""Orbital parameters <-> constants of motion round trip."""
import numpy as np
import gen as G
import ref
import kerrgeopy as kg

LEVEL = "exploration"
RULE = ("stable orbits from the C01 strata (a >= 0, separatrix gap >= 1e-3); their constants (from the code and, "
        "independently, rounded from the 50-digit reference) are converted back; constants of plunging orbits with "
        "complex radial roots, with E outside (0,1), negative Q, |a| >= 1, NaN or turning points inside the horizon must be rejected; non-trivial = a recovered parameter was compared")
ASSUMPTIONS = ["parameters are recovered to the conditioning of a quartic root problem: a double root costs half the "
               "digits, so p, e, x tolerance is 1e-6 with e compared through e^2 near 0 and x through 1-x^2 near +-1"]
# bounds sharper than the general conditioning estimate of the group they belong to
SHARP = {"constants reproduced": 0.001, "x": 0.001, "from_constants E": 0.004, "from_constants L": 0.004, "from_constants Q": 0.001,
         "from_constants trajectory": 0.001, "e^2": 0.01, "p": 0.02}
REQUIRED = ["p", "e^2", "x", "constants reproduced", "from_constants trajectory", "rejects complex roots", "rejects constants of no bound orbit"]
KINDS = ["generic", "generic", "e_small", "e_zero", "e_large", "x_small", "x_near_one", "equatorial", "circular_eq",
         "a_small", "a_big", "schwarzschild", "schw_circ", "ergo", "deep", "retro_big", "far", "ints"]


def gen(rng, tier, scale):
    n = int((1500 if tier == "quick" else 12000) * scale)
    out = []
    for i in range(n):
        c = G.stable(rng, KINDS[i % len(KINDS)])
        if c["kind"] == "far" and c["p"] > 2000:
            c["p"] = c["gap"] = float(10 ** rng.uniform(2, 3.3))
        if c["kind"] == "e_large":
            c["e"] = float(1 - 10 ** rng.uniform(-2.5, -1))
            c["p"] = G.sep(c["a"], c["e"], c["x"]) + c["gap"]
        if c["gap"] < 1e-3:
            continue
        c["q"] = G.phases(rng)
        c["lam"] = [float(v) for v in rng.uniform(-3, 3, 4)]
        c["form"] = int(rng.integers(3))
        out.append(c)
    for i in range(n // 6):
        c = G.plunge(rng, "cx")
        c["kind"] = "complex roots"
        out.append(c)
    for i in range(n // 4):
        why = ("three roots inside", "E >= 1", "E < 0", "Q < 0", "|a| >= 1", "nan")[i % 6]
        if i % 6 == 0:
            c = G.plunge(rng, "real_three")
        else:
            c = G.stable(rng, KINDS[(i // 6) % len(KINDS)])
            c["E"], c["L"], c["Q"] = (float(v) for v in ref.constants(*(c[s] for s in "apex")))
            if why == "E >= 1":
                c["E"] = float(1 + rng.choice([0.0, 1e-15, 1e-6, 0.3]))
            elif why == "E < 0":
                c["E"], c["L"] = -c["E"], -c["L"]
            elif why == "Q < 0":
                c["Q"] = -float(10 ** rng.uniform(-6, 1)) * (1 + c["L"] ** 2)
            elif why == "|a| >= 1":
                c["a"] = float(rng.choice([1.0, -1.0, 1.5, -3.0]))
            else:
                c[G.pick(rng, "E", "L", "Q")] = "nan"
        c["kind"], c["why"] = "no bound orbit", why
        out.append(c)
    return out


def run(c, mon):
    if c["kind"] == "no bound orbit":
        k = (c["a"],) + tuple(float(c[s]) for s in ("E", "L", "Q"))
        mon.raises("rejects constants of no bound orbit", kg.apex_from_constants, *k, exc=ValueError)
        mon.raises("rejects constants of no bound orbit", kg.StableOrbit.from_constants, *k, exc=ValueError)
        return
    if c["kind"] == "negative spin":
        k = mon.call("constants_of_motion", kg.constants_of_motion, *(c[s] for s in "apex"))
        try:
            v = [float(x) for x in kg.apex_from_constants(c["a"], *k)]
        except ValueError as err:
            mon.fail("round trip with negative spin", note=str(err))
            return
        mon.close("round trip with negative spin", np.array(v[1:]), np.array([c["p"], c["e"], c["x"]]), 1e-6, 1e-6)
        return
    if c["kind"] == "complex roots":
        k = (c["a"], c["E"], c["L"], c["Q"])
        mon.raises("rejects complex roots", kg.apex_from_constants, *k, exc=ValueError)
        mon.raises("from_constants rejects complex roots", kg.StableOrbit.from_constants, *k, exc=ValueError)
        return
    a, p, e, x = c["a"], c["p"], c["e"], c["x"]
    own = mon.call("constants_of_motion", kg.constants_of_motion, a, p, e, x)
    exact = ref.constants(a, p, e, x)
    E, L, Q = own if c["form"] else exact
    a2, p2, e2, x2 = (float(np.real(v)) for v in mon.call("apex_from_constants", kg.apex_from_constants, a, E, L, Q))
    # conditioning of the root problem: roundoff of E, L, Q over the gaps between the roots
    g = c["gap"]
    k = max(1.0, 0.1 / g) * max(1.0, 0.1 / (1 - e)) ** 2 * max(1.0, p / 30) ** 2 * max(1.0, 0.02 / (1 - a) ** .5)
    mon.ok("spin unchanged", a2 == a, a2=a2)
    small = e < 1e-2
    # near a double root r1 = r2 only the sum and the squared difference are well conditioned
    mon.close("p", p2, p, (2e-8 if small else 1e-9) * k * max(1, .05 / max(e, 1e-2)))
    mon.close("e^2", e2 ** 2, e ** 2, 1e-8 * k, 1e-9 * k)
    mon.close("x", x2 ** 2, x ** 2, 1e-8, 1e-9)
    mon.ok("direction", np.sign(x2) == np.sign(x), x2=x2)
    if 1e-9 * k > 1e-3 or (e < 1e-6 and e2 < 0):
        mon.skip("ill-conditioned")
    back = ref.constants(a, p2, max(e2, 0.0), x2) if x2 else None
    tol = 1e-7 * k
    for nm, v, w in zip("ELQ", back, (E, L, Q)):
        mon.close("constants reproduced", v, float(w), tol, tol)
    if g < 1e-2 or k > 1e3:
        return
    o = mon.call("from_constants", kg.StableOrbit.from_constants, a, E, L, Q, tuple(c["q"]))
    mon.close("from_constants E", float(o.E), float(E), 1e-8 * k)
    mon.close("from_constants L", float(o.L), float(L), 1e-8 * k)
    mon.close("from_constants Q", float(o.Q), float(Q), 1e-8 * k, 1e-8 * k)
    mon.ok("from_constants initial phases", tuple(o.initial_phases) == tuple(c["q"]))
    if e < 1e-3:
        # the phase angle of a nearly circular orbit is carried by the phases, the orbit by p
        return
    lam = np.array(c["lam"])
    s = ref.Geodesic.bound(a, p, e, x).state(lam, c["q"])
    for nm, f, w in zip(("t", "r", "theta", "phi"), o.trajectory(), s):
        mon.close("from_constants trajectory", np.asarray(f(lam)), w, 1e-5 * k, 1e-5 * k, component=nm)
    o2 = mon.call("from_constants M mu", kg.StableOrbit.from_constants, a, E, L, Q, M=2.0, mu=0.5)
    mon.ok("from_constants M mu kept", o2.M == 2.0 and o2.mu == 0.5 and tuple(o2.initial_phases) == (0, 0, 0, 0))
