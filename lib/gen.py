"""Stratified workload generators.  Independent of kerrgeopy (only numpy and the reference model)."""
import math
import numpy as np
import ref


def _indicator(a, p, e, x, constants=False):
    """float version of ref.stability_indicator for x != 0: dR/dr at r_min (sign only)."""
    z2 = 1 - x * x

    def co(r):
        D = r * r - 2 * r + a * a
        return ((r * r + a * a) ** 2 - D * a * a * x * x, 2 * a * r, D / (x * x) - a * a, D * (r * r + z2 * a * a))

    r2 = p / (1 + e)
    f2, g2, h2, d2 = co(r2)
    if e == 1:
        E = 1.0
        A, B, C = h2, 2 * g2, -(f2 - d2)
        disc = B * B - 4 * A * C
        if disc < 0:
            return -1.0
        s = 1 if x > 0 else -1
        L = 2 * (f2 - d2) / (2 * g2 + s * math.sqrt(disc))
    else:
        r1 = p / (1 - e)
        # divided differences keep e -> 0 regular
        sm, sq = r1 + r2, r1 * r1 + r2 * r2
        f1 = sm * sq + a * a * ((1 + z2) * sm + 2 * x * x)
        g1 = 2 * a
        h1 = (sm - 2) / (x * x)
        d1 = sm * sq - 2 * (sq + r1 * r2) + a * a * ((1 + z2) * sm - 2 * z2)
        A = -d2 * h1 + d1 * h2
        B = -2 * (d2 * g1 - d1 * g2)
        C = d2 * f1 - d1 * f2
        disc = B * B - 4 * A * C
        if disc < 0:
            return -1.0
        s = math.sqrt(disc)
        sg = 1 if x > 0 else -1
        best = None
        for y in ([(-B + s) / (2 * A), (-B - s) / (2 * A)] if A else []):
            if y * sg <= 0:
                continue
            q = f2 - 2 * g2 * y - h2 * y * y
            if q == 0 or d2 / q <= 0:
                continue
            E = math.sqrt(d2 / q)
            if best is None or abs(y) < abs(best[1]):
                best = (E, y)
        if best is None:
            return -1.0
        E, L = best[0], best[0] * best[1]
    if constants:
        return E, L
    Q = z2 * (a * a * (1 - E * E) + L * L / (x * x))
    # R(r) = (E^2-1)(r-r1)(r-r2)(r-r3)(r-r4): stable iff r3 < r2
    c0 = 1 - E * E
    K = (L - a * E) ** 2 + Q
    if e == 1:
        # cubic 2 r^3 - (L^2+Q+a^2(1-E^2)) r^2 + 2K r - a^2 Q, one root r2
        b = (a * a * c0 + L * L + Q) / 2
        s_, pr = b - r2, a * a * Q / (2 * r2)
    else:
        pr = a * a * Q / (c0 * r1 * r2)
        s_ = (2 * K / c0 - pr * (r1 + r2)) / (r1 * r2)
    dd = s_ * s_ / 4 - pr
    if dd < 0:
        return 1.0
    return r2 - (s_ / 2 + math.sqrt(dd))


def sep(a, e, x):
    """Separatrix by scan from above and bisection on r2 = r3 (float, ~1e-9)."""
    if a < 0:
        a, x = -a, -x
    if a == 0:
        return 6 + 2 * e
    if abs(x) < 1e-7:
        x = 1e-7 if x >= 0 else -1e-7
    hi, lo = 12.5, (1 + e) * (1 + math.sqrt(1 - a * a))  # r_min outside the horizon
    n = 120
    prev = hi
    for i in range(1, n + 1):
        q = hi - (hi - lo) * i / n
        if i == n or _indicator(a, q, e, x) <= 0:
            break
        prev = q
    l, h = q, prev
    for _ in range(60):
        m = 0.5 * (l + h)
        if _indicator(a, m, e, x) > 0:
            h = m
        else:
            l = m
    return h


def refine_sep(a, e, x, p0=None, half=2e-6):
    """mp-accurate separatrix near the float estimate."""
    import mpmath as mp
    if a < 0:
        a, x = -a, -x
    p0 = sep(a, e, x) if p0 is None else p0

    def f(p):
        try:
            return ref.stability_indicator(a, p, e, x)
        except ref.RefError:
            return mp.mpf(-1)
    l, h = mp.mpf(p0) - half, mp.mpf(p0) + half
    if not (f(h) > 0):
        raise ref.RefError("separatrix bracket")
    while h - l > 1e-15:
        m = (l + h) / 2
        if f(m) > 0:
            h = m
        else:
            l = m
    return float(h)


def pick(rng, *opts):
    return opts[int(rng.integers(len(opts)))]


def sgn(rng):
    return 1.0 if rng.random() < 0.5 else -1.0


def spin(rng):
    k = rng.integers(6)
    U = rng.uniform
    if k == 0:
        return U(0.001, 0.1)
    if k == 1:
        return 1 - 10 ** U(-4, -1)
    return U(0.05, 0.98)


STABLE_KINDS = ["generic", "generic", "generic", "near_sep", "far", "e_small", "e_zero", "e_large", "x_small",
                "x_near_one", "equatorial", "circular_eq", "a_small", "a_big", "schwarzschild", "schw_circ",
                "neg_a", "neg_a_eq", "ergo", "deep", "ints", "retro_big", "corotating", "x_tiny"]


def stable(rng, kind=None):
    """One stable orbit: dict(kind, a, p, e, x, gap)."""
    U = rng.uniform
    kind = kind or STABLE_KINDS[int(rng.integers(len(STABLE_KINDS)))]
    a, e, x = spin(rng), U(0.02, 0.92), U(0.03, 0.98) * sgn(rng)
    gap = 10 ** U(-1.5, 1.3)
    if kind == "near_sep":
        gap = 10 ** U(-5, -2)
    elif kind == "e_small":
        e = 10 ** U(-16, -1.5)
    elif kind == "e_zero":
        e = 0.0
    elif kind == "e_large":
        e = 1 - 10 ** U(-4, -1)
    elif kind == "x_small":
        x = 10 ** U(-3, -1.3) * sgn(rng)
    elif kind == "x_tiny":  # nearly polar
        x = 10 ** U(-15, -3) * sgn(rng)
        a = pick(rng, a, a, a, -a, 0.0, 10 ** U(-9, -3))
        e = pick(rng, e, e, 0.0)
    elif kind == "x_near_one":
        x = (1 - 10 ** U(-16, -1.7)) * sgn(rng)
    elif kind == "equatorial":
        x = sgn(rng)
    elif kind == "circular_eq":
        e, x = 0.0, sgn(rng)
    elif kind == "a_small":
        a = 10 ** U(-16, -2)
        x = pick(rng, x, x, sgn(rng))
    elif kind == "a_big":
        a = 1 - 10 ** U(-8, -1)
        x = pick(rng, x, x, sgn(rng))
    elif kind == "schwarzschild":
        a, x = 0.0, pick(rng, x, x, x, sgn(rng))
    elif kind == "schw_circ":
        a, e, x = 0.0, 0.0, pick(rng, x, sgn(rng))
    elif kind == "neg_a":
        a = -a
    elif kind == "neg_a_eq":
        a, x = -a, sgn(rng)
    elif kind == "deep":  # strong field prograde, inside r = 2
        a, x = 1 - 10 ** U(-4, -1), 1 - 10 ** U(-4, -0.7)
        e, gap = U(0, 0.6), 10 ** U(-2.5, -0.3)
    elif kind == "retro_big":
        a, x = U(0.7, 0.999), -U(0.3, 1.0)
    if kind == "ergo":  # a turning point exactly on the ergosphere r = 2 (equatorial)
        for _ in range(60):
            a = U(0.9, 0.999)
            e = pick(rng, 0.0, 0.25, 0.125, U(0.01, 0.2))
            x = pick(rng, 1.0, 1.0, 1.0, U(0.95, 1))
            p = 2.0 * (1 + e) if rng.random() < 0.5 else 2.0 * (1 - e)
            s = sep(a, e, x)
            if p > s + 1e-3:
                return dict(kind=kind, a=a, p=p, e=e, x=x, gap=p - s)
        a, e, x, gap = 0.97, 0.0, 1.0, 0.3
    if kind == "corotating":  # 2 E r_+ = a L: the third radial root touches the horizon
        for _ in range(30):
            a, e, x = U(0.7, 0.995), U(0, 0.75), pick(rng, 1.0, U(0.3, 1), U(0.3, 1))
            s, rp = sep(a, e, x) + 1e-4, 1 + math.sqrt(1 - a * a)

            def f(p):
                E, L = _indicator(a, p, e, x, True)
                return 2 * E * rp - a * L
            try:
                P = [s + 8 * i / 40 for i in range(41)]
                v = [f(q) for q in P]
                i = next(i for i in range(40) if v[i] * v[i + 1] < 0)
                l, h = P[i], P[i + 1]
                for _ in range(60):
                    m = (l + h) / 2
                    l, h = (m, h) if f(m) * v[i] > 0 else (l, m)
            except (TypeError, StopIteration):
                continue
            p = l * (1 + sgn(rng) * pick(rng, 10 ** U(-16, -13.5), 10 ** U(-10, -7), 10 ** U(-16, -4)))
            return dict(kind=kind, a=float(a), p=float(p), e=float(e), x=float(x), gap=float(p - s))
        a, e, x, gap = 0.97, 0.3, 0.9, 0.3
    if kind == "ints":
        a = pick(rng, 0, 0.5, 0.9)
        e = pick(rng, 0, 0.5, 0)
        x = pick(rng, 1, -1, 0.5)
        return dict(kind=kind, a=a, p=int(rng.integers(13, 30)), e=e, x=x, gap=1.0)
    if kind == "far":
        p = 10 ** U(2, 7)
        return dict(kind=kind, a=a, p=p, e=e, x=x, gap=p)
    if kind == "near_sep":
        s = refine_sep(a, e, x)
    else:
        s = sep(a, e, x)
    return dict(kind=kind, a=float(a), p=float(s + gap), e=float(e), x=float(x), gap=float(gap))


def cond(c):
    """Conditioning factor (>= 1) of a stable orbit: how much relative roundoff is amplified in the
    frequencies and the trajectory.  Factors fitted to the measured error of the unchanged code."""
    a, p, e, x = abs(c["a"]), c["p"], c["e"], abs(c["x"])
    k = max(1.0, 0.1 / c["gap"])
    k *= max(1.0, 0.05 / (1 - e))
    k *= max(1.0, p / 50)
    k *= max(1.0, (1e-4 / (1 - a)) ** 0.5)
    return k


def phases(rng, kind=None):
    """Initial phases: generic, beyond one period, negative, exact turning points."""
    U = rng.uniform
    k = int(rng.integers(8)) if kind is None else kind
    q = [U(-5, 5), U(0, 2 * np.pi), U(0, 2 * np.pi), U(-4, 4)]
    if k == 0:
        return [0, 0, 0, 0]
    if k == 1:
        q[1] = pick(rng, 0.0, np.pi, -np.pi, 2 * np.pi)
    if k == 2:
        q[2] = pick(rng, 0.0, np.pi, np.pi / 2, -np.pi / 2, 3 * np.pi / 2)
    if k == 3:
        q[1], q[2] = U(-30, 30), U(-30, 30)
    if k == 4:
        q[1], q[2] = U(-2 * np.pi, 0), U(-2 * np.pi, 0)
    if k == 5 and rng.random() < 0.7:  # some of them zero
        keep = int(rng.integers(1, 15))
        q = [v if keep >> i & 1 else 0.0 for i, v in enumerate(q)]
    if k == 6 and rng.random() < 0.3:  # times and azimuths far from zero
        q[0], q[3] = U(-1, 1) * 10 ** U(1, 4), U(-1, 1) * 10 ** U(1, 4)
    return [float(v) for v in q]


def times(rng, n=9):
    U = rng.uniform
    k = int(rng.integers(6))
    if k == 0:
        t = U(-100, 100, n)
    elif k == 1:
        t = 10 ** U(-6, 0, n) * np.where(rng.random(n) < 0.5, 1, -1)
    elif k == 2:
        t = U(-1000, 1000, n)
    elif k == 3 and rng.random() < 0.5:
        t = U(-1, 1, n) * 10 ** U(3, 6.5)
    else:
        t = U(-10, 10, n)
    t[0] = 0.0
    return [float(v) for v in t]


# ------------------------------------------------------------------------------------------------
PLUNGE_KINDS = ["cx", "cx", "cx", "cx_eq", "cx_tinyQ", "cx_lowE", "cx_nearE1", "cx_abig", "cx_small_a",
                "real_inner", "real_inner", "real_inner_eq", "real_three", "cx_neg_a", "real_neg_a", "cx_bigQ", "real_small_a", "near_double",
                "cx_symmetric"]
PLUNGE_MORE = PLUNGE_KINDS + ["axis_cx", "axis_real"]


def _roots_ok(a, E, L, Q, want, dmin=1e-3):
    """float classification of the quartic with a safety margin; None if badly conditioned."""
    c = [E * E - 1, 2.0, a * a * (E * E - 1) - L * L - Q, 2 * ((L - a * E) ** 2 + Q), -a * a * Q]
    r = np.roots(c) if Q != 0 else np.append(np.roots(c[:-1]), 0.0)
    im = np.abs(r.imag)
    d = min(abs(r[i] - r[j]) for i in range(4) for j in range(i))
    if d < dmin:
        return None
    n = int(np.sum(im > 1e-7))
    rm, rp = a * a / (1 + math.sqrt(1 - a * a)), 1 + math.sqrt(1 - a * a)
    if n == 2 and want not in ("real", "real_three"):
        return d
    if n == 0 and want != "cx":
        rr = np.sort(r.real)
        if want == "real_three":
            return d if rr[2] < rm - 1e-6 and rr[3] > rp else None
        # inner plunge below a bound region
        return d if (rr[0] < rm + 1e-6 or a < 1e-5) and rr[1] > rp - 1e-6 else None
    return None


def _symmetric(a, L, Q):
    """Energy for which the complex roots lie symmetrically above the middle of the real ones."""
    def f(E):
        r = np.roots([E * E - 1, 2.0, a * a * (E * E - 1) - L * L - Q, 2 * ((L - a * E) ** 2 + Q), -a * a * Q])
        c = r[np.abs(r.imag) > 1e-7]
        return None if len(c) != 2 else float(2 * c[0].real - np.sum(r[np.abs(r.imag) <= 1e-7].real))
    E = np.linspace(0.1, 0.97, 25)
    v = [f(x) for x in E]
    for x, y, u, w in zip(E, E[1:], v, v[1:]):
        if u is None or w is None or u * w > 0:
            continue
        for _ in range(60):
            m = (x + y) / 2
            s = f(m)
            if s is None:
                return None
            x, y = (m, y) if s * u > 0 else (x, m)
        return (x + y) / 2
    return None


def plunge(rng, kind=None):
    """Plunging constants: dict(kind, a, E, L, Q, sepn) where sepn = smallest root separation."""
    U = rng.uniform
    kind = kind or PLUNGE_KINDS[int(rng.integers(len(PLUNGE_KINDS)))]
    for _ in range(2000):
        a = U(0.1, 0.99)
        if kind.startswith("cx"):
            E, L, Q = U(0.3, 0.97), U(-3, 3), U(0.05, 10)
            if kind == "cx_eq":
                Q = 0.0
            elif kind == "cx_tinyQ":
                Q = 10 ** U(-10, -2)
            elif kind == "cx_lowE":
                E = U(0.02, 0.3)
            elif kind == "cx_nearE1":
                E = 1 - 10 ** U(-3, -1.5)
            elif kind == "cx_abig":
                a = 1 - 10 ** U(-4, -1)
            elif kind == "cx_small_a":
                a = 10 ** (U(-3, -1) if rng.random() < 0.5 else U(-10, -2))
            elif kind == "cx_bigQ":
                Q = U(10, 40)
            elif kind == "cx_symmetric":
                E = _symmetric(a, L, Q)
                if E is None:
                    continue
                E *= 1 + sgn(rng) * 10 ** U(-17, -3)
            if abs(L) < 0.05:
                continue
            d = _roots_ok(a, E, L, Q, "cx")
        elif kind in ("axis_cx", "axis_real"):
            # through or close to the axis of rotation: L = 0 or tiny
            L = float(pick(rng, sgn(rng) * 0.0, sgn(rng) * 10 ** U(-20, -1.3)))
            if kind == "axis_cx":
                E, Q = U(0.1, 0.97), 10 ** U(-2, 1)
                d = _roots_ok(a, E, L, Q, "cx")
            else:
                e, x = U(0.05, 0.85), sgn(rng) * 1e-5
                E, _, Q = (float(v) for v in ref.constants(a, sep(a, e, x) + 10 ** U(-1, 1.2), e, x))
                d = _roots_ok(a, E, L, Q, "real")
            if d is None or abs(Q / (a * a * (1 - E * E)) - 1) < 0.02:  # the separatrix of the polar motion
                continue
        elif kind == "horizon_turn":
            # a turning point at (or a hair outside) one of the horizons: E (r_h^2 + a^2) = a L
            rt = math.sqrt(1 - a * a)
            E, Q = U(0.3, 0.95), U(0.05, 8)
            L = 2 * E * float(pick(rng, 1 + rt, a * a / (1 + rt))) / a * (1 + sgn(rng) * 10 ** U(-17, -2))
            d = _roots_ok(a, E, L, Q, "any")
            if d is None:
                continue
        elif kind == "near_double":
            # either side of the separatrix: the barrier has just vanished or is about to
            e, x = U(0.05, 0.85), float(pick(rng, U(0.1, 0.97), 1.0)) * sgn(rng)
            E, L, Q = (float(v) for v in ref.constants(a, sep(a, e, x) + 10 ** U(-6, -2), e, x))
            Q = 0.0 if abs(x) == 1 else Q
            L *= 1 - sgn(rng) * 10 ** U(-8, -2)
            d = _roots_ok(a, E, L, Q, pick(rng, "cx", "real"), 2e-4)
            if d is None or d > 0.1 or d * (1 - E * E) < 8e-4:  # relative to the length of the radial range
                continue
        elif kind == "real_three":
            # three roots inside the inner horizon: small Q, L comparable to a E, high spin
            a, E, L, Q = U(0.3, 0.995), U(0.05, 0.97), U(0, 1.8), 10 ** U(-5, -0.5)
            if L < 0.05:
                continue
            d = _roots_ok(a, E, L, Q, "real_three")
        else:
            e = U(0.05, 0.85)
            x = U(0.1, 0.97) * sgn(rng)
            if kind == "real_inner_eq":
                x = sgn(rng)
            if kind == "real_small_a":
                a = 10 ** U(-10, -1)
            if kind == "real_neg_a" and rng.random() < 0.3:
                x = sgn(rng)
            p = sep(a, e, x) + 10 ** U(-1, 1.2)
            E, L, Q = ref.constants(a, p, e, x)
            if x == 1 or x == -1:
                Q = 0.0
            d = _roots_ok(a, E, L, Q, "real")
        if d is None:
            continue
        if kind.endswith("neg_a"):
            a, L = -a, -L  # the mirrored frame
        return dict(kind=kind, a=float(a), E=float(E), L=float(L), Q=float(Q), sepn=float(d))
    raise RuntimeError("no plunge found for " + kind)


def pcond(c):
    a = abs(c["a"])
    k = max(1.0, 0.1 / c["sepn"])
    k *= max(1.0, 0.03 / (1 - c["E"]))
    k *= max(1.0, (1e-3 / (1 - a)))
    if c["kind"] == "horizon_turn":  # the last digits of the root are the distance to the horizon
        k *= 200
    return k


def unit_velocity(a, r, th, ur, uth, uph, ergosphere=False):
    """Future-directed unit timelike velocity with the given spatial components, None if there is none."""
    g = ref.metric(a, r, th)
    A, B = g[0, 0], g[0, 3] * uph
    C = g[1, 1] * ur ** 2 + g[2, 2] * uth ** 2 + g[3, 3] * uph ** 2 + 1
    if A >= 0:
        if not ergosphere or A == 0 or B * B < A * C or B >= 0:
            return None
        return ((-B + math.sqrt(B * B - A * C)) / A, ur, uth, uph)
    return ((-B - math.sqrt(B * B - A * C)) / A, ur, uth, uph)


def far(rng, lam, prob=0.06, hi=5):
    """now and then the same times a long way out"""
    k = 10 ** rng.uniform(1.5, hi) if rng.random() < prob else 1.0
    return [float(v * k) for v in lam]
