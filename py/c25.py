"""C25: what the plotting helpers draw is the function."""
import collections, gc, math
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
import gsplines
import gsplines.plot as gp
import gsplines.basis as B
import gsplines.functions as F
import pyh
from pyref import *

COUNT = collections.Counter()
SHOWN = [0]


def _show(*a, **k):
    SHOWN[0] += 1


plt.show = _show


def curve(c, codom, dom=None):
    """A spline or an expression, with its reference."""
    g = c.rng
    sc = g.choice([1.0] * 8 + [0.1, 4.0])
    if g.random() < 0.7:
        k = g.choice(["leg", "lag", "0101"])
        dim = 6 if k == "0101" else g.choice([2, 3, 4, 5, 6])
        par = [0.4] if k == "0101" else [float(x) for x in np.linspace(-1, 1, dim)] if k == "lag" else []
        r = BasisRef(k, dim, par)
        b = B.get_basis(r.name, dim, par)
        n = g.choice([g.randint(1, 5)] * 9 + [g.randint(6, 14)])
        t0 = g.choice([0.0, g.uniform(-3, 3), g.uniform(-60, 60)])
        taus = [g.uniform(0.2, 1.0) * sc for _ in range(n)]
        if dim % 2 == 0 and g.random() < 0.5:
            q = gsplines.interpolate(taus, [[g.uniform(-2, 2) for _ in range(codom)] for _ in range(n + 1)], b)
            t0, co = 0.0, np.ravel(q.get_coefficients())
        else:
            co = [g.uniform(-2, 2) for _ in range(n * codom * dim)]
            q = gsplines.GSpline((t0, t0 + sum(taus)), codom, n, b, co, taus, "q")
        s = Spline(t0, codom, r, taus, co, q)
        c.note(s)
        return s
    a = g.uniform(-2, 2)
    dom = (a, a + g.uniform(0.4, 2) * min(sc, 1.5))
    v = g.uniform(0.5, 2)
    w = Leaf("const", dom, codom, v, F.ConstFunction(dom, codom, v))
    l = g.choice([Leaf("sin", dom, 1, None, F.Sin(dom)), Leaf("exp", dom, 1, None, F.Exponential(dom)),
                  Leaf("poly", dom, 1, [1.0, -2.0, 0.5], F.CanonicPolynomial(dom, [1.0, -2.0, 0.5]))])
    f = Bin("*", l, w, l.lib * w.lib)
    if g.random() < 0.3:
        f = Leaf("const", dom, codom, v, F.ConstFunction(dom, codom, v))
    c.note(f)
    return f


def xy(line):
    return np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float)


def judge_values(c, key, f, x, y, comp, deg):
    cc, e, ok = f.jet(ld(x), deg)
    r, s = cc[deg][:, comp] * FACT[deg], e[deg][:, comp] * FACT[deg]
    bad = ok & ~(np.abs(ld(y) - r) <= 1e-11 * (s + np.abs(r)) + LD(1e-280))
    c.checks += len(x)
    if np.any(np.abs(r) > 1e-3):
        c.nontriv = True
    if bad.any():
        i = int(np.nonzero(bad)[0][0])
        c.fail(key, "derivative %d component %d at %r drawn %r expected %r" % (deg, comp, x[i], y[i], float(r[i])))


def is_grid(x, f, dt):
    a, b = f.dom
    return len(x) >= 1 and abs(x[0] - a) <= 1e-9 * (1 + abs(a)) and np.all(np.diff(x) > 0) and \
        np.all(np.diff(x) <= dt * (1 + 1e-6) + 1e-12) and b - x[-1] <= dt * (1 + 1e-6) + 1e-12 and x[-1] <= b + 1e-6 * (1 + abs(b))


def match(c, key, axes, fs, colors, dt, up):
    """Every axis shows exactly the curves, their breakpoints and waypoints."""
    if not c.check(np.shape(axes) == (up + 1, fs[0].dim), key + ":layout", lambda: np.shape(axes)):
        return None
    found = {}
    for i in range(up + 1):
        for j in range(fs[0].dim):
            ax = axes[i][j]
            lines = list(ax.get_lines())
            for n, f in enumerate(fs):
                col = to_rgba(colors[n]) if colors is not None else None
                mine = [l for l in lines if col is None or to_rgba(l.get_color()) == col]
                cand = [l for l in mine if l.get_linestyle() not in ("None", "", " ") and len(xy(l)[0]) and is_grid(xy(l)[0], f, dt) and xy(l)[0].max() > xy(l)[0].min() - 1
                        and not (len(xy(l)[0]) == 2 and xy(l)[0][0] == xy(l)[0][1])]
                if not c.check(len(cand) >= 1, key + ":no-curve", lambda: "axis %d %d curve %d of %d lines" % (i, j, n, len(lines))):
                    continue
                l = cand[0]
                found[(n, i, j)] = l
                x, y = xy(l)
                c.check(len(x) == len(y), key + ":data-length")
                judge_values(c, key + ":value", f, x, y, j, i)
                # the step is the one asked for
                if len(x) > 2:
                    c.check(np.all(np.abs(np.diff(x) - dt) <= 1e-6 * dt + 1e-12), key + ":step", lambda: (dt, np.diff(x)[:3]))
                lo, hi = sorted(ax.get_xlim())
                c.check(lo - 1e-9 <= x.min() and x.max() <= hi + 1e-9, key + ":xlim", lambda: (lo, hi, x.min(), x.max()))
                lo, hi = sorted(ax.get_ylim())
                m = 1e-9 * (1 + np.abs(y).max())
                c.check(lo - m <= y.min() and y.max() <= hi + m, key + ":ylim", lambda: (i, j, lo, hi, y.min(), y.max()))
                if isinstance(f, Spline):
                    vert = [xy(v)[0] for v in mine if v is not l]
                    for bp in f.bp:
                        c.check(any(len(v) == 2 and abs(v[0] - v[1]) < 1e-12 and abs(v[0] - bp) < 1e-9 * (1 + abs(bp)) for v in vert),
                                key + ":breakpoint", lambda: "axis %d %d breakpoint %r" % (i, j, float(bp)))
                    if i == 0:
                        wp = f.lib.get_waypoints()[:, j]
                        ok = any(len(xy(v)[0]) == len(f.bp) and np.allclose(xy(v)[0], f.bp.astype(float), rtol=0, atol=1e-9) and np.allclose(xy(v)[1], wp, rtol=1e-9, atol=1e-9)
                                 and v.get_marker() not in ("None", "", None, " ") for v in mine if v is not l)
                        c.check(ok, key + ":waypoints", lambda: "component %d" % j)
            # nothing else is drawn
            for v in lines:
                x = xy(v)[0]
                if any(v is l for l in found.values()):
                    continue
                ok = any(isinstance(f, Spline) and ((len(x) == 2 and x[0] == x[1] and np.min(np.abs(f.bp - x[0])) < 1e-9 * (1 + abs(x[0]))) or
                         (i == 0 and len(x) == len(f.bp) and np.allclose(x, f.bp.astype(float), rtol=0, atol=1e-9))) for f in fs)
                c.check(ok, key + ":stray-line", lambda: "axis %d %d x %s" % (i, j, x[:4]))
    return found


def legend(c, key, ax, labels, colors):
    lg = ax.get_legend()
    if not c.check(lg is not None, key + ":no-legend"):
        return
    h = getattr(lg, "legend_handles", None)
    h = h if h is not None else lg.legendHandles
    c.check([t.get_text() for t in lg.get_texts()] == list(labels), key + ":labels", lambda: [t.get_text() for t in lg.get_texts()])
    for a, col, lab in zip(h, colors, labels):
        c.check(to_rgba(a.get_color()) == to_rgba(col) and a.get_linestyle() == "-", key + ":legend-line", lambda: "%s has colour %s style %s" % (lab, a.get_color(), a.get_linestyle()))


def snapshot(f):
    t = np.linspace(f.dom[0], f.dom[1], 9)[1:-1]
    return t, f.lib(t)


def finish(c, fs, snaps):
    for f, (t, v) in zip(fs, snaps):
        c.check(np.array_equal(f.lib(t), v), "function-changed-by-plotting")
    plt.close("all")


def grid_axes(fig, rows, cols, skip=0):
    a = fig.axes[skip:]
    return np.array(a, dtype=object).reshape(rows, cols) if len(a) == rows * cols else np.array(a, dtype=object)


def step(g):
    return g.choice([0.01, 0.1, g.uniform(0.02, 0.2), g.choice([g.uniform(0.02, 0.2), 0.004])])


def size(g, often, low=1):
    """Mostly small, now and then a few more."""
    return g.randint(low, often) if g.random() < 0.9 else g.randint(often + 1, often + 3)


COLORS = ["red", "green", "blue", "black", (0.3, 0.2, 0.9), "#8822aa", "orange"]


def s_plot(c):
    g = c.rng
    f = curve(c, size(g, 4))
    up = size(g, 4, 0)
    dt = step(g)
    kw = {}
    if g.random() < 0.8:
        kw["_dt"] = dt
    else:
        dt = 0.01
    if g.random() < 0.8:
        kw["_up_to_deriv"] = up
    else:
        up = 3
    show = g.random() < 0.3
    c.note("plot", kw, show)
    n0 = SHOWN[0]
    sn = [snapshot(f)]
    gp.plot(f.lib, _show=show, **kw)
    c.check(SHOWN[0] - n0 == (1 if show else 0), "show")
    match(c, "plot", grid_axes(plt.gcf(), up + 1, f.dim), [f], None, dt, up)
    finish(c, [f], sn)


def s_axes(c):
    g = c.rng
    f = curve(c, size(g, 3))
    up, dt, col = size(g, 3, 0), step(g), g.choice(COLORS)
    fig, ax = plt.subplots(up + 1, f.dim, squeeze=False)
    c.note("axes", up, dt, col)
    sn = [snapshot(f)]
    gp.plot_derivatives_in_axes(f.lib, ax if up or g.random() < 0.7 else ax[0], _dt=dt, _up_to_deriv=up, color=col)
    match(c, "axes", ax, [f], [col], dt, up)
    finish(c, [f], sn)


def distinct(fs):
    return all(abs(a.dom[0] - b.dom[0]) > 1e-6 or True for a in fs for b in fs)


def s_compare(c):
    g = c.rng
    codom = size(g, 3)
    fs = [curve(c, codom) for _ in range(size(g, 3) if codom < 4 else g.randint(1, 3))]
    up, dt = g.randint(0, 3), step(g)
    cols = g.sample(COLORS, len(fs))
    labels = ["curve %d" % i for i in range(len(fs))] if g.random() < 0.6 else []
    kw = {"_colors": cols} if g.random() < 0.7 else {}
    if not kw:
        cm = plt.get_cmap("viridis")
        cols = [cm(v) for v in np.linspace(0, 1, len(fs))]
    if g.random() < 0.8:
        kw["_dt"] = dt
    else:
        dt = 0.01
    c.note("compare", up, dt, cols, labels)
    sn = [snapshot(f) for f in fs]
    gp.plot_compare([f.lib for f in fs], _legends=labels, _up_to_deriv=up, _show=False, **kw)
    ax = grid_axes(plt.gcf(), up + 1, codom)
    match(c, "compare", ax, fs, cols, dt, up)
    if labels and ax.ndim == 2:
        for a in ax.ravel():
            legend(c, "compare", a, labels, cols)
    finish(c, fs, sn)


def path(c, key, ax, fs, dt, cols):
    """The big axis of the 2d plots shows the path."""
    for n, f in enumerate(fs):
        N = max(1, int(math.ceil((f.dom[1] - f.dom[0]) / dt - 1e-9)))
        ok = False
        for l in ax.get_lines():
            x, y = xy(l)
            if cols is not None and to_rgba(l.get_color()) != to_rgba(cols[n]):
                continue
            if abs(len(x) - N) > 1:
                continue
            t = f.dom[0] + dt * np.arange(len(x))
            r, e, k = values(f, t)
            tol = 1e-11 * (e + np.abs(r)) + LD(1e-12)
            good = (np.abs(ld(x) - r[:, 0]) <= tol[:, 0]) & (np.abs(ld(y) - r[:, 1]) <= tol[:, 1])
            if np.all(good | ~k):
                ok = True
        c.check(ok, key + ":path", lambda: "curve %d, %d lines" % (n, len(ax.get_lines())))
        if isinstance(f, Spline):
            wp = f.lib.get_waypoints()
            off = [np.asarray(s.get_offsets()) for s in ax.collections]
            c.check(any(o.shape == wp.shape and np.allclose(o, wp, rtol=1e-9, atol=1e-9) for o in off), key + ":path-waypoints")


def s_2d(c):
    g = c.rng
    f = curve(c, g.choice([2, 2, 2, 2, 1, 3]))
    up, dt = g.randint(0, 4), step(g)
    c.note("2d", up, dt)
    sn = [snapshot(f)]
    plt.close("all")
    r = gp.plot2d(f.lib, _up_to_deriv=up, _dt=dt, _show=False)
    if f.dim != 2:
        c.check(not plt.get_fignums(), "2d:drew-other-dimension")
        c.nontriv = True
        return
    fig = plt.gcf()
    if c.check(len(fig.axes) == 1 + 2 * (up + 1), "2d:axes", len(fig.axes)):
        path(c, "2d", fig.axes[0], [f], dt, None)
        match(c, "2d", grid_axes(fig, up + 1, 2, 1), [f], None, dt, up)
    finish(c, [f], sn)


def s_2dcompare(c):
    g = c.rng
    fs = [curve(c, 2) for _ in range(size(g, 3))]
    up, dt = g.randint(0, 3), step(g)
    cols = g.sample(COLORS, len(fs))
    labels = ["curve %d" % i for i in range(len(fs))] if g.random() < 0.6 else []
    c.note("2dcompare", up, dt, cols, labels)
    sn = [snapshot(f) for f in fs]
    plt.close("all")
    gp.plot2d_compare([f.lib for f in fs], _colors=cols, _legends=labels, _up_to_deriv=up, _dt=dt, _show=False)
    fig = plt.gcf()
    if c.check(len(fig.axes) == 1 + 2 * (up + 1), "2dcompare:axes", len(fig.axes)):
        path(c, "2dcompare", fig.axes[0], fs, dt, cols)
        ax = grid_axes(fig, up + 1, 2, 1)
        match(c, "2dcompare", ax, fs, cols, dt, up)
        if labels:
            for a in fig.axes:
                legend(c, "2dcompare", a, labels, cols)
    finish(c, fs, sn)


pyh.run([("plot", 4, s_plot), ("axes", 3, s_axes), ("compare", 4, s_compare), ("2d", 2, s_2d), ("2dcompare", 2, s_2dcompare)], COUNT)
