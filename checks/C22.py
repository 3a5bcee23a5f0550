"""Plots and animations show the trajectory: positions, occlusion by the hole, fading tail, camera and frame times."""
import contextlib
import io
import os
import re
import tempfile
import numpy as np
from matplotlib.colors import to_rgba
import gen as G
import kerrgeopy as kg

QUICK = 2
LEVEL = "exploration"
RULE = ("plot and animate of StableOrbit, PlungingOrbit and Orbit over random ranges, densities, cameras, phases, line styles; the "
        "artists handed to matplotlib are read back from every figure and every animation frame (frames captured at the movie "
        "writer, ffmpeg replaced by a stand-in that stores its input in a scratch directory); is_visible on random points; "
        "non-trivial = a figure, a frame or a visibility verdict compared")
ASSUMPTIONS = ["BL coordinates drawn as x = r sin(theta) cos(phi) etc. and the hole as a ball of radius r_+",
               "points within 1e-9 of the rim of the hole are not judged", "trajectories themselves are judged by other properties"]
REQUIRED = ["visible", "hidden", "inside the hole hidden", "plot points", "plot occlusion", "plot line width", "plot body", "plot hole",
            "plot limits", "plot camera", "frame count", "frame body", "frame tail", "frame occlusion", "frame camera", "frame opacity",
            "frame limits", "frame components", "frame caption", "frame color", "frame axes", "frame pixels", "list of points"]
CASE_LIMIT = 300


# documented default of every option, by the name the case uses
PLOT_DEFAULTS = dict(l0=0, el=30, az=-60, grid=True, axes=True, lw=1, color="red", tau=1e300)
ANIMATE_DEFAULTS = dict(l0=0, el=30, az=-60, grid=True, axes=True, tau=2, tail=5, lw=2, speed=1, bg=None, comp=False)
PLOT_ORDER = ["lambda0", "lambda1", "elevation", "azimuth", "initial_phases", "grid", "axes", "lw", "color", "tau", "point_density"]
ANIMATE_ORDER = ["lambda0", "lambda1", "elevation", "azimuth", "initial_phases", "grid", "axes", "color", "tau", "tail_length", "lw",
                 "azimuthal_pan", "elevation_pan", "roll", "speed", "background_color", "axis_limit", "plot_components"]


def use_defaults(rng, c, defaults):
    """Leave some options out (their documented defaults are then expected) and give some by position."""
    c["omit"] = [k for k in defaults if rng.random() < 0.2]
    for k in c["omit"]:
        c[k] = defaults[k]
    c["positional"] = int(rng.integers(6)) if rng.random() < 0.3 else 0


def arguments(c, kw, order):
    """(args, kwargs) for the call: omitted options dropped, a prefix given by position."""
    names = dict(l0="lambda0", el="elevation", az="azimuth", tail="tail_length", bg="background_color", comp="plot_components")
    kw = {k: v for k, v in kw.items() if k not in [names.get(n, n) for n in c.get("omit", [])]}
    args = []
    for k in order[:c.get("positional", 0)]:
        if k not in kw:
            break
        args.append(kw.pop(k))
    return args, kw


def gen(rng, tier, scale):
    U = rng.uniform
    q = tier == "quick"
    for i in range(int((150 if q else 4000) * scale)):
        a = float(G.pick(rng, G.spin(rng), -G.spin(rng), 0.0))
        pts = rng.normal(size=(40, 3)) * 10 ** U(-1, 1)
        yield dict(kind="is_visible", a=a, el=float(G.pick(rng, U(-90, 90), 0.0, 90.0, -90.0, U(-400, 400))), az=float(G.pick(rng, U(-180, 180), 0.0, U(-700, 700))),
                   pts=[[float(v) for v in w] for w in pts], form=int(rng.integers(3)), n=int(G.pick(rng, 40, 1, 3, 2)))

    def orb(kinds):
        k = G.pick(rng, *kinds)
        c = G.plunge(rng, k) if k in G.PLUNGE_KINDS else G.stable(rng, k)
        c["orb"], c["kind"] = k, "plot"
        c["cls"] = "Orbit" if k == "generic" and rng.random() < 0.4 else "own"
        c["q"] = G.phases(rng)
        c["el"], c["az"] = float(U(-90, 90)), float(U(-180, 180))
        c["l0"] = float(G.pick(rng, 0, U(-3, 3)))
        c["own_phases"] = bool(rng.integers(2))
        return c
    kinds = ["generic", "equatorial", "deep", "e_zero", "schwarzschild", "neg_a", "cx", "real_inner", "cx_neg_a"]
    for i in range(int((60 if q else 1200) * scale)):
        c = orb(kinds)
        c["rng"] = float(10 ** U(-1, 0.8))
        c["den"] = int(U(12 / c["rng"] + 1, 60 / c["rng"] + 20))
        c["tau"], c["lw"] = float(G.pick(rng, 1e300, 10 ** U(-1, 1))), float(U(0.3, 4))
        c["grid"], c["axes"] = bool(rng.integers(2)), bool(rng.integers(2))
        c["color"] = G.pick(rng, "red", "blue", "#123456")
        c["default"] = bool(i % 15 == 0)
        use_defaults(rng, c, PLOT_DEFAULTS)
        yield c
    for i in range(int((30 if q else 500) * scale)):
        c = orb(kinds)
        c["kind"] = "animate"
        c["rng"] = float(U(0.3, 2.0))
        c["speed"] = float(G.pick(rng, 1, 0.5, 2, 0.125, 1))
        if c["speed"] == 0.125:
            c["rng"] = 0.3
        c["tail"] = float(G.pick(rng, 5, 0.3, 0.1, 0.77))
        c["tau"], c["lw"] = float(10 ** U(-1, 1)), float(U(0.3, 4))
        c["pan"], c["lim"] = [bool(v) for v in rng.integers(2, size=3)], bool(rng.integers(2))
        c["comp"], c["grid"], c["axes"] = bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2))
        c["bg"] = G.pick(rng, None, None, "black", "white")
        c["pixels"] = False
        use_defaults(rng, c, ANIMATE_DEFAULTS)
        yield c
    for i in range(int((2 if q else 20) * scale) or 1):
        c = orb(["generic"])
        c.update(kind="animate", rng=0.12, speed=1.0, tail=5.0, tau=2.0, lw=2.0, pan=[False] * 3, lim=False, comp=bool(i % 2), grid=True, axes=True,
                 bg=G.pick(rng, None, "black"), pixels=True)
        yield c


def make(c):
    if c["orb"] in G.PLUNGE_KINDS:
        p, cls = tuple(c[s] for s in ("a", "E", "L", "Q")), kg.PlungingOrbit
    else:
        p, cls = tuple(c[s] for s in "apex"), kg.StableOrbit
    o = cls(*p) if c["own_phases"] else cls(*p, tuple(c["q"]))
    if c["cls"] == "Orbit":
        s = kg.StableOrbit(*p, tuple(c["q"]))
        o = kg.Orbit(c["a"], s.initial_position, s.initial_velocity)
    return o, (tuple(c["q"]) if c["own_phases"] else None)


def hidden(pts, rp, el, az):
    """None where too close to call."""
    el, az = np.radians(el), np.radians(az)
    n = np.array([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)])
    d = pts @ n
    perp = np.linalg.norm(np.cross(pts, n), axis=1)
    R = np.linalg.norm(pts, axis=1)
    hid = ((d < 0) & (perp <= rp)) | (R <= rp)
    near = (np.abs(perp - rp) < 1e-9 * (1 + R)) | (np.abs(R - rp) < 1e-9) | ((np.abs(d) < 1e-9 * (1 + R)) & (perp <= rp))
    return hid, near


def run(c, mon):
    {"is_visible": visible, "plot": plot, "animate": animate}[c["kind"]](c, mon)


_ORB = {}


def visible(c, mon):
    a = c["a"]
    o = mon.call("StableOrbit", kg.StableOrbit, a, 15.0, 0.3, 0.6)
    pts = np.array(c["pts"])[:c["n"]]
    arg = (pts, pts.tolist(), [tuple(w) for w in pts])[c["form"]]
    if c["form"]:
        mon.event("list of points")
    keep = pts.copy()
    v = np.asarray(mon.call("is_visible", o.is_visible, arg, c["el"], c["az"]))
    hid, near = hidden(pts, 1 + np.sqrt(1 - a * a), c["el"], c["az"])
    if not mon.ok("one verdict per point", v.shape == (len(pts),) and v.dtype == bool, got=v):
        return
    for j in range(len(pts)):
        if not near[j]:
            inside = np.linalg.norm(pts[j]) < 1
            mon.ok("inside the hole hidden" if inside else ("hidden" if hid[j] else "visible"), bool(v[j]) == (not hid[j]), point=pts[j], got=v[j])
    mon.ok("points untouched", bool(np.all(pts == keep)))


def cart(X, lam):
    r, th, ph = (np.asarray(f(lam), float) for f in X[1:])
    return np.column_stack((r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)))


def artists(ax):
    out = {}
    for col in ax.collections:
        out.setdefault(type(col).__name__, []).append(col)
    return out


def strip(segs):
    return np.array([np.asarray(s, float) for s in segs]).reshape(-1, 2, 3)


def plot(c, mon):
    import matplotlib.pyplot as plt
    o, q = make(c)
    kw = {} if q is None else dict(initial_phases=q)
    if c["default"]:
        fig, ax = mon.call("plot", o.plot, **kw)
        l0, l1, el, az, lw, tau, N, col = 0, 10, 30, -60, 1, np.inf, 2000, "red"
        grid = axes = True
    else:
        l0, l1, el, az, lw, tau, col, grid, axes = (c["l0"], c["l0"] + c["rng"], c["el"], c["az"], c["lw"], c["tau"], c["color"], c["grid"], c["axes"])
        N = (l1 - l0) * c["den"]
        pos, kw = arguments(c, dict(lambda0=l0, lambda1=l1, elevation=el, azimuth=az, grid=grid, axes=axes, lw=lw, color=col, tau=tau,
                                    point_density=c["den"], **kw), PLOT_ORDER)
        fig, ax = mon.call("plot", o.plot, *pos, **kw)
    A = artists(ax)
    lines = A.get("Line3DCollection", [])
    if not mon.ok("plot has one orbit line", len(lines) == 1, got=list(A)):
        return
    S = strip(lines[0]._segments3d)
    n = len(S) + 1
    mon.ok("plot points", abs(n - N) <= 1, note="number of points", got=n, want=N)
    lam = np.linspace(l0, l1, n)
    X = o.trajectory() if q is None else o.trajectory(q)
    P = cart(X, lam)
    size = 1 + np.abs(P).max()
    rp = 1 + np.sqrt(1 - o.a ** 2)
    for k in (0, 1):
        W = P[:-1] if k == 0 else P[1:]
        mon.le("plot points", np.abs(S[:, k, :2] - W[:, :2]).max(), 1e-9 * size)
        hid, near = hidden(W, rp, el, az)
        nan = np.isnan(S[:, k, 2])
        mon.ok("plot occlusion", bool(np.all((nan == hid) | near)), got=int(nan.sum()), want=int(hid.sum()))
        if (~nan).any():
            mon.le("plot points", np.abs(S[~nan, k, 2] - W[~nan, 2]).max(), 1e-9 * size)
    w = np.broadcast_to(np.asarray(lines[0].get_linewidth(), float), (n,) if np.size(lines[0].get_linewidth()) >= n else (n - 1,))[:n - 1]
    mon.ok("plot line width", bool(np.all(np.diff(w) >= -1e-12)) and w.min() >= 0.1 - 1e-9, note="newest part is the thickest", got=[w[0], w[-1]])
    # width = 0.1 + lw exp(-age/tau), the age known to one step
    h = lam[1] - lam[0]
    age = lam[-1] - lam[1:]
    hi, lo = 0.1 + lw * np.exp(-np.maximum(age - 1.01 * h, 0) / tau), 0.1 + lw * np.exp(-(age + 1.01 * h) / tau)
    mon.ok("plot line width", bool(np.all((w <= hi + 1e-9) & (w >= lo - 1e-9))), got=[w[0], w[-1]], want=[lo[0], hi[-1]])
    mon.ok("plot color", np.allclose(lines[0].get_color()[0] if np.ndim(lines[0].get_color()) == 2 else to_rgba(lines[0].get_color()), to_rgba(col)))
    body = A.get("Path3DCollection", [])
    if mon.ok("plot body", len(body) == 1):
        off = np.array([np.asarray(v, float).ravel() for v in body[0]._offsets3d]).T
        mon.ok("plot body", off.shape == (1, 3) and np.abs(off[0] - P[-1]).max() <= 1e-9 * size, got=off, want=P[-1])
    hole(mon, "plot hole", A, rp)
    lim = np.array([ax.get_xlim(), ax.get_ylim(), ax.get_zlim()])
    mon.ok("plot limits", bool(np.all(lim[:, 0] <= np.minimum(P.min(0), -rp * 0.99) + 1e-9) and np.all(lim[:, 1] >= np.maximum(P.max(0), rp * 0.99) - 1e-9)), got=lim)
    mon.ok("plot camera", abs(ax.elev - el) < 1e-9 and abs(ax.azim - az) < 1e-9, got=[ax.elev, ax.azim], want=[el, az])
    mon.ok("plot axes", bool(ax._axis3don) == axes if hasattr(ax, "_axis3don") else True)
    if axes and hasattr(ax, "_draw_grid"):
        mon.ok("plot grid", bool(ax._draw_grid) == grid)
    ext = lim[:, 1] - lim[:, 0]
    box = np.asarray(ax.get_box_aspect() if hasattr(ax, "get_box_aspect") and ax.get_box_aspect() is not None else ax._box_aspect, float)
    mon.ok("plot equal scale", bool(np.allclose(ext / box, (ext / box)[0], rtol=1e-6)), got=(ext / box))
    mon.ok("returns figure and axes", ax.figure is fig)
    plt.close(fig)


def hole(mon, name, A, rp):
    poly = A.get("Poly3DCollection", [])
    if mon.ok(name, len(poly) >= 1):
        v = np.asarray(poly[0]._vec, float)[:3] if hasattr(poly[0], "_vec") else None
        if v is not None:
            mon.ok(name, bool(np.allclose(np.linalg.norm(v, axis=0), rp, rtol=1e-9)) and v[2].min() < -0.99 * rp and v[2].max() > 0.99 * rp, got=float(np.linalg.norm(v, axis=0).max()), want=rp)


def animate(c, mon):
    import matplotlib.animation as an
    import matplotlib.pyplot as plt
    o, q = make(c)
    frames = []
    orig = an.FFMpegWriter.grab_frame
    pan_calls = {"az": [], "el": [], "roll": [], "lim": []}

    def grab(self, **kw):
        fig = self.fig
        ax = [x for x in fig.axes if hasattr(x, "get_zlim")][0]
        A = artists(ax)
        tail = A["Line3DCollection"][0]
        frames.append(dict(
            segs=strip(tail._segments3d) if len(tail._segments3d) else np.zeros((0, 2, 3)), alpha=np.array(tail.get_alpha(), float), lw=tail.get_linewidth(),
            body=np.array([np.asarray(v, float).ravel() for v in A["Path3DCollection"][0]._offsets3d]).T,
            cam=(ax.elev, ax.azim, ax.roll), lim=np.array([ax.get_xlim(), ax.get_ylim(), ax.get_zlim()]),
            text=[t.get_text() for t in ax.texts], color=tail.get_color(), labels=[x.get_ylabel() for x in fig.axes if x is not ax],
            on=(bool(getattr(ax, "_axis3don", c["axes"])), bool(getattr(ax, "_draw_grid", c["grid"]))),
            lines=[np.array(l.get_data(), float) for x in fig.axes if x is not ax for l in x.lines], face=fig.get_facecolor(), nax=len(fig.axes),
            save=kw))
        if len(frames) == 1:
            hole(mon, "plot hole", A, 1 + np.sqrt(1 - o.a ** 2))
        if c["pixels"]:
            return orig(self, **kw)
    with tempfile.TemporaryDirectory(prefix="kgp-an-") as d:
        fake = os.path.join(d, "ffmpeg")
        with open(fake, "w") as f:
            f.write('#!/bin/sh\nfor o; do :; done\ncat > "$o"\n')
        os.chmod(fake, 0o755)
        path, out = os.environ["PATH"], os.path.join(d, "movie.mp4")
        kw = dict(lambda0=c["l0"], lambda1=c["l0"] + c["rng"], elevation=c["el"], azimuth=c["az"], grid=c["grid"], axes=c["axes"], color="blue", tau=c["tau"],
                  tail_length=c["tail"], lw=c["lw"], speed=c["speed"], background_color=c["bg"], plot_components=c["comp"])
        if q is not None:
            kw["initial_phases"] = q

        def rec(key, f):
            def g(l):
                pan_calls[key].append(float(l))
                return f(l)
            return g
        pan = dict(az=lambda l: c["az"] + 20 * l, el=lambda l: c["el"] / 2 + 5 * l, roll=lambda l: 3 * l + 1, lim=lambda l: 20 + l)
        if c["pan"][0]:
            kw["azimuthal_pan"] = rec("az", pan["az"])
        if c["pan"][1]:
            kw["elevation_pan"] = rec("el", pan["el"])
        if c["pan"][2]:
            kw["roll"] = rec("roll", pan["roll"])
        if c["lim"]:
            kw["axis_limit"] = rec("lim", pan["lim"])
        before = set(plt.get_fignums())
        try:
            os.environ["PATH"] = d + os.pathsep + path
            an.FFMpegWriter.grab_frame = grab
            with contextlib.redirect_stderr(io.StringIO()):
                pos, kw = arguments(c, kw, ANIMATE_ORDER)
                mon.call("animate", o.animate, out, *pos, **kw)
        finally:
            os.environ["PATH"] = path
            an.FFMpegWriter.grab_frame = orig
        mon.ok("figure closed", set(plt.get_fignums()) == before)
        mon.ok("file written", os.path.exists(out))
        if c["pixels"] and os.path.exists(out):
            b = os.path.getsize(out)
            mon.ok("frame pixels", frames and b % len(frames) == 0 and b // len(frames) > 1000000, got=b)
            data = np.fromfile(out, dtype=np.uint8).reshape(len(frames), -1, 4)
            mon.ok("frame pixels", bool(np.any(data[0] != data[-1])) and len(np.unique(data[-1], axis=0)) > 5, note="successive frames differ and are not blank")
    N = c["rng"] * 240
    step = int(c["speed"] * 8)
    want = N / step
    mon.ok("frame count", want - 2 <= len(frames) <= want + 1 and len(frames) > 0, got=len(frames), want=want)
    rp = 1 + np.sqrt(1 - o.a ** 2)
    X = o.trajectory() if q is None else o.trajectory(q)
    n = int((c["l0"] + c["rng"] - c["l0"]) * 240)
    best = None
    for nn in (n - 1, n, n + 1):  # rounding of the number of points
        if nn > 1:
            T = np.linspace(c["l0"], c["l0"] + c["rng"], nn)
            J = step * (len(frames) - 1)
            if J < nn:
                e = np.abs(cart(X, T[[J]])[0] - frames[-1]["body"][0]).max()
                if best is None or e < best[0]:
                    best = (e, T)
    if not mon.ok("frame body", best is not None):
        return
    T = best[1]
    P = cart(X, T)
    size = 1 + np.abs(P).max()
    for i, f in enumerate(frames):
        j = i * step
        l = T[j]
        mon.ok("frame body", f["body"].shape == (1, 3) and np.abs(f["body"][0] - P[j]).max() <= 1e-9 * size, frame=i, got=f["body"], want=P[j])
        el, az = (pan["el"](l) if c["pan"][1] else c["el"]), (pan["az"](l) if c["pan"][0] else c["az"])
        ro = pan["roll"](l) if c["pan"][2] else 0
        mon.le("frame camera", np.abs(np.array(f["cam"]) - (el, az, ro)), 1e-9 * (1 + np.abs([el, az, ro])), frame=i, got=f["cam"], want=[el, az, ro])
        S = f["segs"]
        k = len(S)
        tl = c["tail"] * 240
        full = min(j, tl)
        mon.ok("frame tail", full - 3 <= k + 1 <= full + 2 if full > 2 else k <= 2, frame=i, got=k + 1, want=full)
        if k:
            # consecutive trajectory points ending one step before (or at) the body
            ok = False
            for end in (j - 1, j):
                W = P[end - k:end + 1]
                if end - k >= 0 and np.abs(S[:, 0, :2] - W[:-1, :2]).max() <= 1e-9 * size and np.abs(S[:, 1, :2] - W[1:, :2]).max() <= 1e-9 * size:
                    ok = True
                    break
            if mon.ok("frame tail", ok, frame=i, note="tail follows the trajectory up to the body"):
                for s, V in ((0, W[:-1]), (1, W[1:])):
                    hid, near = hidden(V, rp, el, az)
                    nan = np.isnan(S[:, s, 2])
                    mon.ok("frame occlusion", bool(np.all((nan == hid) | near)), frame=i, got=int(nan.sum()), want=int(hid.sum()))
                    if (~nan).any():
                        mon.le("frame tail", np.abs(S[~nan, s, 2] - V[~nan, 2]).max(), 1e-9 * size, frame=i)
                al = np.broadcast_to(f["alpha"], (k,)) if f["alpha"].ndim == 0 else f["alpha"]
                mon.ok("frame opacity", bool(np.all(np.diff(al) >= -1e-12)) and al.max() <= 1 + 1e-9 and al.min() >= 0 and len(al) >= k, frame=i, got=[al[0], al[-1]])
                h = T[1] - T[0]
                age = np.arange(len(al))[::-1] * h
                up, dn = 0.1 + 0.9 * np.exp(-np.maximum(age - 1.01 * h, 0) / c["tau"]), 0.1 + 0.9 * np.exp(-(age + 1.01 * h) / c["tau"])
                mon.ok("frame opacity", bool(np.all((al <= up + 1e-9) & (al >= dn - 1e-9))), frame=i, note="exponential fading", got=[al[0], al[-1]], want=[dn[0], up[-1]])
        if c["lim"]:
            w = pan["lim"](l)
            mon.le("frame limits", np.abs(np.abs(f["lim"]) - w), 0.1 * w, frame=i)
        else:
            mon.ok("frame limits", bool(np.all(np.abs(f["lim"].sum(1)) < 1e-9 * size) and np.all(f["lim"][:, 1] >= max(np.abs(P).max(), 0.99 * rp) - 1e-9)), frame=i, got=f["lim"])
        if c["comp"]:
            ok = len(f["lines"]) == 4
            if ok and j > 2 and (i % 5 == 0 or i == len(frames) - 1):
                for ln, g in zip(f["lines"], X):
                    m = ln.shape[1]
                    ok = ok and abs(m - j) <= 1 and np.allclose(ln[0], T[:m]) and np.allclose(ln[1], np.asarray(g(T[:m]), float), rtol=1e-9, atol=1e-9)
            mon.ok("frame components", ok, frame=i)
            nums = [float(v) for v in re.findall(r"=\s*([-+0-9.eE]+)", " ".join(f["text"]))]
            par = [o.p, o.e, o.x] if o.stable else [o.E, o.L, o.Q]
            mon.ok("frame caption", all(any(abs(v - w) <= 0.0051 for v in nums) for w in [o.a, *par, l]), frame=i, got=f["text"], want=[o.a, *par, l])
        mon.ok("frame color", bool(np.allclose(np.asarray(f["color"])[..., :3], to_rgba("blue")[:3])), frame=i, got=f["color"])
        mon.ok("frame axes", f["on"][0] == c["axes"] and (not c["axes"] or f["on"][1] == c["grid"]), frame=i, got=f["on"])
        mon.ok("tail width", bool(np.allclose(f["lw"], c["lw"])), frame=i, got=f["lw"])
        if c["bg"]:
            mon.ok("background", f["face"] == to_rgba(c["bg"]))
    for k, calls in pan_calls.items():
        if calls:
            d = min(np.abs(T - v).min() for v in calls) if len(calls) < 3 else np.abs(np.array(calls)[:, None] - T[None, ::step]).min(1).max()
            mon.ok("frame camera", d < 1e-9, note="pan functions called with the Mino time of the frame", which=k)
