"""Reference model of bound timelike Kerr geodesics, written from the geodesic equations alone.

Nothing in this file imports or mirrors kerrgeopy.  It contains no elliptic function and no closed
form solution: constants of motion come from the turning-point conditions solved in 50-digit
arithmetic, roots from mpmath, and the motion from spectral (trapezoidal / Fourier) quadrature of

    (dr/dlambda)^2     = R(r)   = (E(r^2+a^2)-aL)^2 - Delta (r^2 + (L-aE)^2 + Q)
    (dz/dlambda)^2     = Z(z)   = Q - (Q + b + L^2) z^2 + b z^4,   b = a^2 (1-E^2),  z = cos(theta)
    dt/dlambda         = (r^2+a^2)/Delta (E(r^2+a^2)-aL) + aL - a^2 E (1-z^2)
    dphi/dlambda       = a/Delta (E(r^2+a^2)-aL) - aE + L/(1-z^2)

Conventions (those the package documents): q_r = 0 at the inner radial turning point, q_theta = 0 at
theta_min, t(0) = q_t0, phi(0) = q_phi0; across a horizon t and phi are principal values.
"""
import sys
import numpy as np

try:
    import mpmath as mp
except ImportError:  # pure python, kept with the verification tooling
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import mpmath as mp
    sys.path.remove("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

mp.mp.dps = 50


class RefError(Exception):
    """The reference model cannot decide this input (inconclusive, never a violation)."""


# --------------------------------------------------------------------------------------------
# polynomials
def R_coeffs(a, E, L, Q):
    """Coefficients of R(r), highest power first, in mp arithmetic.

    Expanded by hand from the definition above:
      r^4: E^2-1   r^3: 2   r^2: 2E(a^2 E - aL) - (L-aE)^2 - Q - a^2
      r^1: 2((L-aE)^2+Q)   r^0: (a^2E-aL)^2 - a^2((L-aE)^2+Q)
    """
    a, E, L, Q = map(mp.mpf, (a, E, L, Q))
    K = (L - a * E) ** 2 + Q
    return [E ** 2 - 1, mp.mpf(2), 2 * E * (a ** 2 * E - a * L) - K - a ** 2, 2 * K,
            (a ** 2 * E - a * L) ** 2 - a ** 2 * K]


def polyval(c, r):
    s = mp.mpf(0)
    for k in c:
        s = s * r + k
    return s


def polyder(c):
    n = len(c) - 1
    return [k * (n - i) for i, k in enumerate(c[:-1])]


def R_of(a, E, L, Q, r):
    a, E, L, Q, r = map(mp.mpf, (a, E, L, Q, r))
    D = r * r - 2 * r + a * a
    return (E * (r * r + a * a) - a * L) ** 2 - D * (r * r + (L - a * E) ** 2 + Q)


# --------------------------------------------------------------------------------------------
# constants of motion of a bound orbit (a,p,e,x), from the turning point conditions
def _fghd(r, a, z2):
    D = r * r - 2 * r + a * a
    x2 = 1 - z2
    return ((r * r + a * a) ** 2 - D * a * a * x2, 2 * a * r, D / x2 - a * a, D * (r * r + z2 * a * a))


def _fghd_d(r, a, z2):
    D = r * r - 2 * r + a * a
    D1 = 2 * r - 2
    x2 = 1 - z2
    return (4 * r * (r * r + a * a) - D1 * a * a * x2, 2 * a, D1 / x2,
            D1 * (r * r + z2 * a * a) + D * 2 * r)


def constants(a, p, e, x, mpf=False):
    """(E, L, Q) with R(p/(1-e)) = R(p/(1+e)) = 0 and polar turning point cos^2 = 1-x^2.

    Negative a is the documented alternative encoding of direction: (a,x) = (|a|, x*sgn a)."""
    if a < 0:
        a, x = -a, -x
    a, p, e, x = map(mp.mpf, (a, p, e, x))
    z2 = 1 - x * x
    if x == 0:
        def lin(r):  # R = E2*A - D*Q - B
            D = r * r - 2 * r + a * a
            return (r * r + a * a) ** 2 - D * a * a, D, D * r * r
        r2 = p / (1 + e)
        if e == 1:
            E2 = mp.mpf(1)
            A, D, B = lin(r2)
            Q = (E2 * A - B) / D
        else:
            A1, D1, B1 = lin(r2)
            if e == 0:
                r = p
                dD = 2 * r - 2
                D = r * r - 2 * r + a * a
                A2, D2, B2 = 4 * r * (r * r + a * a) - dD * a * a, dD, dD * r * r + 2 * r * D
            else:
                A2, D2, B2 = lin(p / (1 - e))
            # A E2 - D Q = B
            det = -A1 * D2 + A2 * D1
            E2 = (-B1 * D2 + B2 * D1) / det
            Q = (A1 * B2 - A2 * B1) / det
        out = (mp.sqrt(E2), mp.mpf(0), Q)
        return out if mpf else tuple(float(v) for v in out)

    sg = 1 if x > 0 else -1
    f2, g2, h2, d2 = _fghd(p / (1 + e), a, z2)
    if e == 1:
        E = mp.mpf(1)
        # h L^2 + 2 g E L - (f E^2 - d) = 0
        disc = mp.sqrt(g2 ** 2 + h2 * (f2 - d2))
        Ls = [(-g2 + disc) / h2, (-g2 - disc) / h2] if h2 != 0 else [(f2 - d2) / (2 * g2)]
        Ls = [l for l in Ls if mp.sign(l) == sg]
        if not Ls:
            raise RefError("no marginally bound root")
        L = min(Ls, key=abs)
    else:
        f1, g1, h1, d1 = _fghd_d(p, a, z2) if e == 0 else _fghd(p / (1 - e), a, z2)
        # d2 (f1 - 2 g1 y - h1 y^2) = d1 (f2 - 2 g2 y - h2 y^2), y = L/E
        A = -d2 * h1 + d1 * h2
        B = -2 * (d2 * g1 - d1 * g2)
        C = d2 * f1 - d1 * f2
        disc = B * B - 4 * A * C
        if disc < 0:
            raise RefError("no real constants")
        s = mp.sqrt(disc)
        ys = [(-B + s) / (2 * A), (-B - s) / (2 * A)] if A != 0 else [-C / B]
        best = None
        for y in ys:
            if mp.sign(y) != sg:
                continue
            q = f2 - 2 * g2 * y - h2 * y * y
            if q == 0 or d2 / q <= 0:
                continue
            E = mp.sqrt(d2 / q)
            if best is None or abs(y) < abs(best[1]):
                best = (E, y)
        if best is None:
            raise RefError("no constants with the right direction")
        E, L = best[0], best[0] * best[1]
    Q = z2 * (a * a * (1 - E * E) + L * L / (x * x))
    out = (E, L, Q)
    return out if mpf else tuple(float(v) for v in out)


def stability_indicator(a, p, e, x):
    """> 0 iff the radial potential confines the motion at r_min = p/(1+e) (R grows just outside it),
    i.e. p above the separatrix; e = 0: R'' < 0.  mp number, normalised."""
    if a < 0:
        a, x = -a, -x
    E, L, Q = constants(a, p, e, x, mpf=True)
    c = R_coeffs(a, E, L, Q)
    p_, e_ = mp.mpf(p), mp.mpf(e)
    r2 = p_ / (1 + e_)
    if e_ == 0:
        return -polyval(polyder(polyder(c)), r2) / r2 ** 2
    return polyval(polyder(c), r2) / (r2 ** 3 * e_)


def separatrix(a, e, x, lo=None, hi=None, tol=1e-13):
    """Largest p at which the indicator changes sign, by scan from above + bisection (mp/float)."""
    if lo is None:
        hi, lo = mp.mpf("14"), mp.mpf("1.0001")

    def f(p):
        try:
            return stability_indicator(a, p, e, x)
        except RefError:
            return mp.mpf(-1)
    # scan down from hi
    n = 240
    prev = hi
    assert f(hi) > 0
    b = None
    for i in range(1, n + 1):
        q = hi - (hi - lo) * i / n
        if f(q) <= 0:
            b = (q, prev)
            break
        prev = q
    if b is None:
        raise RefError("no separatrix found")
    l, h = b
    while h - l > tol:
        m = (l + h) / 2
        if f(m) > 0:
            h = m
        else:
            l = m
    return float((l + h) / 2)


# --------------------------------------------------------------------------------------------
# roots of R for given constants
def radial_roots(a, E, L, Q):
    """All four roots of R in mp arithmetic: (sorted real list, complex list)."""
    c = R_coeffs(a, E, L, Q)
    zero = False
    if c[-1] == 0:
        zero = True
        c = c[:-1]
    try:
        rts = mp.polyroots(c, maxsteps=400, extraprec=400)
    except mp.NoConvergence:
        raise RefError("polyroots did not converge")
    scale = max(abs(r) for r in rts)
    real, comp = [], []
    for r in rts:
        if abs(mp.im(r)) <= mp.mpf(10) ** (-30) * scale:
            real.append(mp.re(r))
        else:
            comp.append(r)
    if zero:
        real.append(mp.mpf(0))
    return sorted(real), comp


def motion_interval(a, E, L, Q, r0=None):
    """[lo, hi] of the allowed radial interval containing r0 (or the plunging one), and the sum and
    product of the two remaining roots."""
    real, comp = radial_roots(a, E, L, Q)
    rp = 1 + mp.sqrt(1 - mp.mpf(a) ** 2)
    rm = 1 - mp.sqrt(1 - mp.mpf(a) ** 2)
    if len(real) == 4:
        pairs = [(real[0], real[1]), (real[2], real[3])]
    elif len(real) == 2:
        pairs = [(real[0], real[1])]
    else:
        raise RefError("no allowed interval")
    for k, (lo, hi) in enumerate(pairs):
        ok = (lo <= r0 <= hi) if r0 is not None else (lo <= rm + mp.mpf(10) ** -25 and hi >= rp)
        if ok:
            if len(real) == 4:
                o = pairs[1 - k]
                s, pr = o[0] + o[1], o[0] * o[1]
                other = o
            else:
                s, pr = 2 * mp.re(comp[0]), abs(comp[0]) ** 2
                other = comp
            return lo, hi, s, pr, other
    raise RefError("r0 not in an allowed interval")


# --------------------------------------------------------------------------------------------
class _Series:
    """f(psi) even and 2 pi periodic, sampled; gives mean, and the antiderivative
    F(psi) = c0 psi + sum c_k/k sin(k psi)."""

    def __init__(self, samples):
        n = len(samples)
        c = np.fft.rfft(samples).real / n
        c[1:] *= 2
        self.c0 = c[0]
        m = np.max(np.abs(c))
        big = np.nonzero(np.abs(c) > 1e-17 * m)[0]
        self.K = int(big[-1]) if len(big) else 0
        tail = np.max(np.abs(c[3 * n // 8:])) / m if m > 0 else 0.0
        self.tail = tail
        self.K = min(self.K, n // 2 - 1)
        # terms below relative 1e-17 of the largest never matter
        k = np.arange(1, self.K + 1)
        self.ck = c[1:self.K + 1]
        self.sk = self.ck / k if self.K else np.zeros(0)
        self.k = k

    def anti(self, psi):
        psi = np.asarray(psi, float)
        if self.K == 0:
            return self.c0 * psi
        return self.c0 * psi + self._sum(self.sk, psi, np.sin)

    def osc(self, psi):
        psi = np.asarray(psi, float)
        if self.K == 0:
            return np.zeros_like(psi)
        return self._sum(self.sk, psi, np.sin)

    def val(self, psi):
        psi = np.asarray(psi, float)
        if self.K == 0:
            return self.c0 + np.zeros_like(psi)
        return self.c0 + self._sum(self.ck, psi, np.cos)

    def _sum(self, co, psi, fn):
        flat = psi.ravel()
        out = np.zeros_like(flat)
        step = 256
        for s in range(0, len(flat), step):
            w = flat[s:s + step]
            out[s:s + step] = fn(np.outer(w, self.k)) @ co
        return out.reshape(psi.shape)


def _invert(series, lam):
    """psi with series.anti(psi) = lam (series positive)."""
    lam = np.asarray(lam, float)
    per = 2 * np.pi * series.c0
    n = np.round(lam / per)
    y = lam - n * per  # in [-per/2, per/2]
    lo = np.full_like(y, -np.pi - 1e-9)
    hi = np.full_like(y, np.pi + 1e-9)
    psi = y / series.c0
    last = np.full_like(y, np.inf)
    for it in range(200):
        F = series.anti(psi) - y
        hi = np.where(F > 0, np.minimum(hi, psi), hi)
        lo = np.where(F <= 0, np.maximum(lo, psi), lo)
        d = series.val(psi)
        new = psi - F / d
        step = np.abs(new - psi)
        bad = (new < lo) | (new > hi) | ~np.isfinite(new) | ((step > 1e-12) & (step > 0.5 * last))
        new = np.where(bad, 0.5 * (lo + hi), new)
        last = np.abs(new - psi)
        if np.all(last <= 4e-16 * (1 + np.abs(new))):
            psi = new
            break
        psi = new
    else:
        if np.any(last > 1e-9):
            raise RefError("inversion of the Mino time")
    return psi + 2 * np.pi * n


MAXN = 1 << 17


class Geodesic:
    """Reference solution.  Build with Geodesic.bound(a,p,e,x) or Geodesic.plunge(a,E,L,Q[,r0])."""

    @classmethod
    def bound(cls, a, p, e, x):
        if a < 0:
            a, x = -a, -x
        E, L, Q = constants(a, p, e, x, mpf=True)
        g = cls()
        r1, r2 = mp.mpf(p) / (1 - mp.mpf(e)), mp.mpf(p) / (1 + mp.mpf(e))
        c0, c1 = 1 - E * E, 2
        # Vieta for (E^2-1) r^4 + 2 r^3 + ...: sum of roots = 2/(1-E^2); product = a^2 Q/(1-E^2)
        s = 2 / c0 - r1 - r2
        pr = mp.mpf(a) ** 2 * Q / (c0 * r1 * r2)
        g._setup(a, E, L, Q, r2, r1, s, pr, pe=(float(p), float(e)))
        g.zm2 = float(1 - mp.mpf(x) ** 2)
        g.params = (a, p, e, x)
        return g

    @classmethod
    def plunge(cls, a, E, L, Q, r0=None):
        lo, hi, s, pr, other = motion_interval(a, E, L, Q, r0)
        g = cls()
        rp = 1 + mp.sqrt(1 - mp.mpf(a) ** 2)
        pe = None
        if lo > rp:  # in fact a bound orbit outside
            p_ = 2 * lo * hi / (lo + hi)
            e_ = (hi - lo) / (hi + lo)
            pe = (float(p_), float(e_))
        g._setup(a, E, L, Q, lo, hi, s, pr, pe=pe)
        g.other = other
        g.complex_roots = isinstance(other, list)
        return g

    def _setup(self, a, E, L, Q, lo, hi, s, pr, pe):
        self.a, self.E, self.L, self.Q = (float(v) for v in (a, E, L, Q))
        self.lo, self.hi = float(lo), float(hi)
        self.k = float(1 - E * E)
        self.half = float((hi - lo) / 2)
        self.onee = float(1 - (hi - lo) / (hi + lo)) if hi + lo != 0 else 0.0
        self.s, self.pr = float(s), float(pr)
        disc = (s * s / 4 - pr)
        if disc >= 0:
            q = mp.sqrt(disc)
            self.ro = (float(s / 2 + q), float(s / 2 - q))
            big = s / 2 + q if s >= 0 else s / 2 - q
            if big != 0:
                self.ro = (float(max(big, pr / big)), float(min(big, pr / big)))
                self.dro = (float(lo - max(big, pr / big)), float(lo - min(big, pr / big)))
            else:
                self.dro = (float(lo), float(lo))
        else:
            self.ro = None
            self.rho = (float(s / 2), float(mp.sqrt(-disc)))
        self.pe = pe
        am = mp.mpf(a)
        root = mp.sqrt(1 - am * am)
        self.rp, self.rm = float(1 + root), float(1 - root)
        self.drpm = float(2 * root)
        self.horizon = hi >= 1 + root and lo <= 1 - root
        b = am * am * (1 - E * E)
        sm = Q + b + L * L
        dd = sm * sm - 4 * b * Q
        if dd < 0:
            dd = mp.mpf(0)
        bz = (sm + mp.sqrt(dd)) / 2 if L != 0 else max(mp.mpf(Q), b)
        self.b, self.bzp = float(b), float(bz)
        self.zm2 = float(Q / bz) if bz != 0 else 0.0
        if self.zm2 < 0:
            raise RefError("Q<0")
        self._mp = dict(lo=lo, hi=hi, b=b, bz=bz, zm2=(Q / bz if bz != 0 else mp.mpf(0)))
        self.one_minus_zm2 = float(1 - self._mp["zm2"])
        self._radial()
        self._polar()

    # -- radial -------------------------------------------------------------------------
    def _geom(self, psi):
        """r and the product W = k |(r-ro0)(r-ro1)| at the radial angle psi, free of cancellation."""
        if self.pe is not None:
            p, e = self.pe
            onee = self.onee
            den = onee + 2 * e * np.cos(psi / 2) ** 2          # 1 + e cos psi
            r = p / den
            dlo = p * 2 * e * np.sin(psi / 2) ** 2 / ((1 + e) * den)   # r - r_min
        else:
            dlo = 2 * self.half * np.sin(psi / 2) ** 2
            r = self.lo + dlo
        if self.ro is not None:
            W = self.k * np.abs((dlo + self.dro[0]) * (dlo + self.dro[1]))
        else:
            W = self.k * ((r - self.rho[0]) ** 2 + self.rho[1] ** 2)
        return r, W

    def _W(self, r):
        if self.ro is not None:
            return self.k * np.abs((r - self.ro[0]) * (r - self.ro[1]))
        return self.k * ((r - self.rho[0]) ** 2 + self.rho[1] ** 2)

    def r_of_psi(self, psi):
        return self._geom(psi)[0]

    def _radial(self):
        N = 64
        while True:
            psi = 2 * np.pi * np.arange(N) / N
            r, W = self._geom(psi)
            if self.pe is not None:
                p, e = self.pe
                # (r1-r)(r-r2) = (r e sin psi)^2/(1-e^2), dr/dpsi = r^2 e sin psi/p
                g = np.sqrt(self.onee * (1 + e)) * (r / p) / np.sqrt(W)
            else:
                g = 1 / np.sqrt(W)
            lam = _Series(g)
            E, L, a = self.E, self.L, self.a
            base_t = E * (r * r + a * a) + 2 * E * r + 4 * E
            Ap = ((8 * E - 2 * a * L) * self.rp - 4 * E * a * a) / self.drpm
            Am = -((8 * E - 2 * a * L) * self.rm - 4 * E * a * a) / self.drpm
            Bp = a * (2 * E * self.rp - a * L) / self.drpm
            Bm = -a * (2 * E * self.rm - a * L) / self.drpm
            self._poles = []
            if self.horizon and self.pe is None:
                ft, fp = base_t * g, np.zeros_like(g)
                half = self.half
                for r0, A, B in ((self.rp, Ap, Bp), (self.rm, Am, Bm)):
                    if A == 0 and B == 0:
                        continue
                    W0 = self._W(np.array(r0))
                    sW, sW0 = np.sqrt(W), np.sqrt(W0)
                    reg = -self.k * (r + r0 - self.s) / (sW * sW0 * (sW + sW0))
                    ft = ft + A * reg
                    fp = fp + B * reg
                    # pole angle
                    mr0 = mp.mpf(1) + (mp.sqrt(1 - mp.mpf(self.a) ** 2) if r0 == self.rp else -mp.sqrt(1 - mp.mpf(self.a) ** 2))
                    frac = (mr0 - self._mp["lo"]) / (self._mp["hi"] - self._mp["lo"])
                    if frac <= 0:
                        raise RefError("horizon at turning point")
                    s0 = float(2 * mp.asin(mp.sqrt(frac)))
                    self._poles.append((s0, A / (half * np.sin(s0) * float(sW0)), B / (half * np.sin(s0) * float(sW0))))
            else:
                D = (r - self.rp) * (r - self.rm)
                P = E * (r * r + a * a) - a * L
                ft = (base_t + ((8 * E - 2 * a * L) * r - 4 * E * a * a) / D) * g
                fp = a * (2 * E * r - a * L) / D * g
            st, sp = _Series(ft), _Series(fp)
            tail = max(lam.tail, st.tail, sp.tail)
            # next to a nearly double complex root the roundoff of r - rho sets the floor of the tail
            floor = 1e-13 if self.ro is not None else max(1e-13, min(1e-11, 1e-15 / self.rho[1]))
            if tail < 3e-15 or (N >= 8192 and tail < floor):
                break
            N *= 2
            if N > MAXN:
                raise RefError("radial series did not converge (tail %.1e)" % tail)
        self.Nr = N
        self.lr, self.tr, self.pr_ = lam, st, sp
        self.Ups_r = 1 / lam.c0
        self.Gam_r = st.c0 / lam.c0
        self.Uphi_r = sp.c0 / lam.c0

    # -- polar --------------------------------------------------------------------------
    def _polar(self):
        N = 32
        zm2 = self.zm2
        omz = float(1 - self._mp["zm2"])
        zeta1 = float(self._mp["bz"] - self._mp["b"])
        self.sL = float(np.sign(self.L))
        self._sx = np.sqrt(omz)
        if self._sx == 0 or self.L == 0:
            # a polar orbit turns by pi at each passage of the axis (in either direction, modulo 2 pi)
            self.sL = float(self._sx == 0)
        while True:
            chi = 2 * np.pi * np.arange(N) / N
            c2 = np.cos(chi) ** 2
            s2 = np.sin(chi) ** 2
            zeta = self.bzp - self.b * zm2 * c2
            g = 1 / np.sqrt(zeta)
            lam = _Series(g)
            sin2 = omz + zm2 * s2
            ft = -self.a ** 2 * self.E * sin2 * g
            # L/sin^2 has poles near the real axis when |x| is small; split off
            # sign(L) sqrt(omz)/sin2, whose antiderivative is sign(L)*atan(tan(chi)/sqrt(omz))
            fp = (-self.L * self.b / (np.sqrt(zeta * zeta1) * (np.sqrt(zeta) + np.sqrt(zeta1)))
                  if self.L != 0 else np.zeros_like(g))
            st, sp = _Series(ft), _Series(fp)
            tail = max(lam.tail, st.tail, sp.tail)
            if tail < 3e-15 or (N >= 8192 and tail < 1e-13):
                break
            N *= 2
            if N > MAXN:
                raise RefError("polar series did not converge")
        self.Nt = N
        self.lt, self.tt, self.pt = lam, st, sp
        self.Ups_theta = 1 / lam.c0
        self.Gam_t = st.c0 / lam.c0
        self.Uphi_t = (sp.c0 + self.sL) / lam.c0
        self.Ups_phi = self.Uphi_r + self.Uphi_t
        self.Gamma = self.Gam_r + self.Gam_t

    # -- evaluation as functions of the phases ----------------------------------------------
    def psi(self, q_r):
        return _invert(self.lr, np.asarray(q_r, float) / self.Ups_r)

    def chi(self, q_th):
        return _invert(self.lt, np.asarray(q_th, float) / self.Ups_theta)

    def _pole(self, psi, which):
        out = 0.0
        for s0, A, B in self._poles:
            c = (A, B)[which]
            out = out - c * np.log(np.abs(np.sin((psi + s0) / 2) / np.sin((psi - s0) / 2)))
        return out

    def t_r(self, q_r, full=False):
        """radial part of t: oscillatory (full=False: minus Gam_r*lambda) or full."""
        psi = self.psi(q_r)
        v = self.tr.osc(psi) - self.Gam_r * self.lr.osc(psi) + self._pole(psi, 0)
        return v + self.Gam_r * np.asarray(q_r, float) / self.Ups_r if full else v

    def phi_r(self, q_r, full=False):
        psi = self.psi(q_r)
        v = self.pr_.osc(psi) - self.Uphi_r * self.lr.osc(psi) + self._pole(psi, 1)
        return v + self.Uphi_r * np.asarray(q_r, float) / self.Ups_r if full else v

    def radial_integrals(self, q_r):
        """Integrals of r, r^2, 1/(r - r_+), 1/(r - r_-) over Mino time from the inner turning point (principal values)."""
        psi = self.psi(q_r)
        N = 2 * self.Nr
        s = 2 * np.pi * np.arange(N) / N
        r, W = self._geom(s)
        sW = np.sqrt(W)
        out = [_Series(r / sW).anti(psi), _Series(r * r / sW).anti(psi)]
        root = mp.sqrt(1 - mp.mpf(self.a) ** 2)
        for r0, m0 in ((self.rp, 1 + root), (self.rm, 1 - root)):
            W0 = self._W(np.array(r0))
            sW0 = np.sqrt(W0)
            reg = _Series(-self.k * (r + r0 - self.s) / (sW * sW0 * (sW + sW0)))
            frac = (m0 - self._mp["lo"]) / (self._mp["hi"] - self._mp["lo"])
            if not 0 < frac < 1:
                raise RefError("horizon at turning point")
            s0 = float(2 * mp.asin(mp.sqrt(frac)))
            c = 1 / (self.half * np.sin(s0) * float(sW0))
            out.append(reg.anti(psi) - c * np.log(np.abs(np.sin((psi + s0) / 2) / np.sin((psi - s0) / 2))))
        return out

    def t_th(self, q, full=False):
        chi = self.chi(q)
        v = self.tt.osc(chi) - self.Gam_t * self.lt.osc(chi)
        return v + self.Gam_t * np.asarray(q, float) / self.Ups_theta if full else v

    def _phosc(self, chi):
        v = self.pt.osc(chi) - self.Uphi_t * self.lt.osc(chi)
        if self.sL:
            s, c = np.sin(chi), np.cos(chi)
            # atan(tan(chi)/sx) - chi, continuous
            v = v + self.sL * np.arctan2(s * c * (1 - self._sx), self._sx * c * c + s * s)
        return v

    def phi_th(self, q, full=False):
        chi = self.chi(q)
        v = self._phosc(chi)
        return v + self.Uphi_t * np.asarray(q, float) / self.Ups_theta if full else v

    def phi_slack(self, q_th, ulps=16):
        """How far phi moves when the polar phase is rounded: a passage of the axis turns phi by pi within a
        phase of the order of |x|, so roundoff of the phase is roundoff of phi divided by |x|."""
        q = np.asarray(q_th, float)
        chi = self.chi(q)
        d = ulps * 1.2e-16 * (2 + np.abs(q))
        sc = np.abs(np.sin(chi))
        if self.L == 0:
            return np.where(self.one_minus_zm2 + self.zm2 * sc * sc < 100 * d * d, np.pi, 0 * q)
        # the closest point to the axis within the rounding interval
        s2 = self.one_minus_zm2 + self.zm2 * np.maximum(0, sc - d) ** 2
        return np.minimum(np.pi, d * abs(self.L) / (s2 * float(self.Ups_theta)))

    def axis_slack(self, q_th, ulps=16):
        """Relative change of 1/sin^2(theta) when the polar phase or theta is rounded (matters next to the axis only)."""
        q = np.asarray(q_th, float)
        chi = self.chi(q)
        s2 = self.one_minus_zm2 + self.zm2 * np.sin(chi) ** 2
        d = ulps * 1.2e-16 * (2 + np.abs(q))
        s2 = np.where(s2 > 0, s2, 1)
        # and the rounding of theta itself next to pi
        return (2 * np.abs(np.sin(chi)) * d + d * d) / s2 + 2e-15 / np.sqrt(s2)

    def state(self, lam, q=(0, 0, 0, 0)):
        """t, r, theta, phi at Mino times lam."""
        lam = np.asarray(lam, float)
        qt, qr, qth, qph = (float(v) for v in q)
        Q_r = self.Ups_r * lam + qr
        Q_t = self.Ups_theta * lam + qth
        psi, chi = self.psi(Q_r), self.chi(Q_t)
        chi0 = self.chi(qth)
        t = qt + self.Gamma * lam
        t = t + self.t_r(Q_r) - self.t_r(qr) + self.t_th(Q_t) - self.t_th(qth)
        ph = qph + self.Ups_phi * lam
        ph = ph + self.phi_r(Q_r) - self.phi_r(qr) + self._phosc(chi) - self._phosc(chi0)
        r = self.r_of_psi(psi)
        # theta from cos = zm cos chi, via atan2 for accuracy near the axis
        zm = np.sqrt(self.zm2)
        cz = zm * np.cos(chi)
        sz = np.sqrt(self.one_minus_zm2 + self.zm2 * np.sin(chi) ** 2)
        th = np.arctan2(sz, cz)
        return t, r, th, ph

    def velocity(self, lam, q=(0, 0, 0, 0)):
        """u^t, u^r, u^theta, u^phi at Mino times lam (dx/dtau = dx/dlambda / Sigma)."""
        lam = np.asarray(lam, float)
        qt, qr, qth, qph = (float(v) for v in q)
        psi = self.psi(self.Ups_r * lam + qr)
        chi = self.chi(self.Ups_theta * lam + qth)
        r, W = self._geom(psi)
        z = np.sqrt(self.zm2) * np.cos(chi)
        s2 = self.one_minus_zm2 + self.zm2 * np.sin(chi) ** 2
        a, E, L = self.a, self.E, self.L
        Sig = r * r + a * a * z * z
        D = (r - self.rp) * (r - self.rm)
        P = E * (r * r + a * a) - a * L
        if self.pe is not None:
            p, e = self.pe
            drdl = r * e * np.sin(psi) * np.sqrt(W / (self.onee * (1 + e)))
        else:
            drdl = self.half * np.sin(psi) * np.sqrt(W)
        zeta = np.sqrt(self.bzp - self.b * self.zm2 * np.cos(chi) ** 2)
        dthdl = np.sqrt(self.zm2) * np.sin(chi) * zeta / np.sqrt(s2)
        ut = ((r * r + a * a) / D * P + a * L - a * a * E * s2) / Sig
        uph = (a / D * P - a * E + (L / s2 if L != 0 else 0.0)) / Sig
        return ut, drdl / Sig, dthdl / Sig, uph


# --------------------------------------------------------------------------------------------
def metric(a, r, th):
    """Covariant Kerr metric from the Carter orthonormal frame (not the expanded BL form)."""
    s2, c = np.sin(th) ** 2, np.cos(th)
    Sig = r * r + a * a * c * c
    D = r * r - 2 * r + a * a
    w0 = np.array([1.0, 0, 0, -a * s2])            # dt - a sin^2 dphi
    w3 = np.array([-a, 0, 0, r * r + a * a])       # (r^2+a^2) dphi - a dt
    g = -D / Sig * np.outer(w0, w0) + s2 / Sig * np.outer(w3, w3)
    g[1, 1] = Sig / D
    g[2, 2] = Sig
    return g


def conserved(a, r, th, u):
    """(E, L, Q) of 4-velocity u from the Killing vectors and the Killing tensor."""
    g = metric(a, r, th)
    ul = g @ np.asarray(u, float)
    E, L = -ul[0], ul[3]
    c2, s2 = np.cos(th) ** 2, np.sin(th) ** 2
    mu2 = -float(np.asarray(u, float) @ ul)
    Q = ul[2] ** 2 + c2 * (a * a * (mu2 - E * E) + L * L / s2)
    return E, L, Q
