"""C24: what Python sees is the mathematically defined result, for any array layout, operand lifetime and order of calls."""
import collections, gc, math
import numpy as np
import gsplines
import gsplines.basis as B
import gsplines.functions as F
import gsplines.functional_analysis as FA
import gsplines.collocation as CO
import gsplines.optimization as OP
import pyh
from pylay import lay1, lay2, KINDS1
from pyref import *

COUNT = collections.Counter()
UNIT = LD(1.2e-16)


# ------------------------------------------------------------------ judging
def close(c, key, got, ref, scale, rel, ok=None):
    got = np.asarray(got)
    if not c.check(got.dtype == np.float64, key + ":dtype", lambda: got.dtype):
        return False
    if not c.check(got.shape == ref.shape, key + ":shape", lambda: "%s expected %s" % (got.shape, ref.shape)):
        return False
    if got.size == 0:
        return True
    tol = rel * np.asarray(scale, dtype=LD) + LD(1e-280)
    bad = ~(np.abs(got.astype(LD) - ref) <= tol)
    bad &= np.isfinite(ref) & np.isfinite(tol) & (np.abs(ref) < 1e250)
    if ok is not None:
        bad &= ok.reshape(ok.shape + (1,) * (got.ndim - ok.ndim))
    c.checks += got.size
    if np.any(np.abs(ref) > 1e-3 * np.asarray(scale, dtype=LD) / 50) and np.any(ref != 0):
        c.nontriv = True
    if bad.any():
        i = tuple(x[0] for x in np.nonzero(bad))
        c.fail(key, "at %s got %r expected %r tolerance %r" % (i, got[i], float(ref[i]), float(np.broadcast_to(tol, got.shape)[i])))
        return False
    return True


def hold(c, arr, what):
    """The array must keep its value whatever happens to the object it came from."""
    if isinstance(arr, np.ndarray):
        c.keep.append((arr, arr.copy(), what))
    return arr


def recheck(c):
    gc.collect()
    churn = [np.full(n, 4e44) for n in (1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 128) for _ in range(3)]
    for arr, cp, what in c.keep:
        c.check(arr.tobytes() == cp.tobytes(), "array-changed:" + what, lambda: "%s became %s" % (cp, arr))
    del churn


def points(c, dom, n=None):
    g = c.rng
    a, b = dom
    n = g.choice([g.randint(0, 9)] * 15 + [g.randint(10, 80)]) if n is None else n
    L = b - a
    q = g.random()
    if q < 0.15:
        p = [float(np.float32(a + L * g.uniform(0.02, 0.98))) for _ in range(n)]
    elif q < 0.3 and math.floor(b - 1e-6) >= math.ceil(a + 1e-6):
        p = [float(g.randint(math.ceil(a + 1e-6), math.floor(b - 1e-6))) for _ in range(n)]
    else:
        p = [a + L * g.random() for _ in range(n)]
        for i in range(n):
            if g.random() < 0.08:
                p[i] = g.choice([a, b])
    return p


def judge(c, node, key, d=0, n=None, lib=None):
    """Values of the library object against the reference, through a random layout."""
    lib = node.lib if lib is None else lib
    t = points(c, node.dom, n)
    arg = lay1(c.rng, t)
    COUNT["layout_" + arg.kind] += 1
    c.note(key, arg.kind, t)
    got = lib(arg.obj)
    c.check(arg.unchanged(), "argument-changed:" + key, arg.kind)
    r, e, ok = values(node, arg.val)
    if not close(c, key, got, r, e + np.abs(r), 2e4 * UNIT, ok):
        return None
    hold(c, got, key)
    return arg, got


def attrs(c, node, key):
    f = node.lib
    c.check(f.get_codom_dim() == node.dim, key + ":codom", f.get_codom_dim())
    d = f.get_domain()
    c.check(isinstance(d, tuple) and len(d) == 2 and abs(d[0] - node.dom[0]) <= 1e-12 * (1 + abs(d[0])) and
            abs(d[1] - node.dom[1]) <= 1e-12 * (1 + abs(d[0]) + abs(d[1])), key + ":domain", (d, node.dom))
    L = node.dom[1] - node.dom[0]
    c.check(abs(f.get_domain_length() - L) <= 1e-12 * (1 + abs(d[0]) + abs(d[1])), key + ":length", f.get_domain_length())
    c.check(f.is_point_in_domain(node.dom[0] + L * c.rng.uniform(0.01, 0.99)), key + ":in-domain")
    c.check(not f.is_point_in_domain(node.dom[0] - L * c.rng.uniform(0.1, 3)) and
            not f.is_point_in_domain(node.dom[1] + L * c.rng.uniform(0.1, 3)), key + ":out-of-domain")


# ------------------------------------------------------------------ generators
def domain(g):
    a = g.choice([0.0, 0.0, g.uniform(-4, 4), g.uniform(-1, 1)])
    return (a, a + g.choice([1.0, g.uniform(0.3, 3)]))


def nodes(g, dim):
    q = g.random()
    if q < 0.4:
        x = np.linspace(-1, 1, dim)
    elif q < 0.7 and dim > 1:
        x = gll(dim)[0].astype(float)
    else:
        x = np.linspace(-1, 1, dim) + np.array([g.uniform(-0.3, 0.3) for _ in range(dim)]) / dim
    if g.random() < 0.2:
        x = x[::-1]
    return [float(v) for v in x]


def basis(c, kinds=("leg", "lag", "0101"), dmin=1, dmax=7, even=False):
    g = c.rng
    k = g.choice(kinds)
    dim = g.choice([d for d in range(dmin, dmax + 1) if not even or d % 2 == 0])
    how = g.randrange(3)
    if k == "leg":
        r = BasisRef("leg", dim)
        lib = [lambda: B.BasisLegendre(dim), lambda: B.BasisLegendre.get(dim), lambda: B.get_basis("legendre", dim, [])][how]()
    elif k == "lag":
        dim = max(dim, 2)
        x = nodes(g, dim)
        r = BasisRef("lag", dim, x)
        a = lay1(g, x, kind=g.choice([q for q in KINDS1 if q not in ("f32", "int")]))
        if how == 2:
            a = lay1(g, x, kind="list")
        lib = [lambda: B.BasisLagrange(a.obj), lambda: B.BasisLagrange.get(a.obj), lambda: B.get_basis("lagrange", dim, a.obj)][how]()
        c.check(a.unchanged(), "argument-changed:basis")
    else:
        al = g.choice([0.5, g.uniform(0.05, 0.9)])
        r = BasisRef("0101", 6, [al])
        lib = [lambda: B.Basis0101(al), lambda: B.Basis0101.get(al), lambda: B.get_basis("basis0101", 6, [al])][how]()
    c.note("basis", r.name, r.dim, r.params, "how", how)
    return r, lib


def lengths(g, n, kind="leg"):
    q = g.random()
    if q < 0.25:
        return [float(g.randint(1, 3)) for _ in range(n)]
    return [g.uniform(0.3, 2.5) for _ in range(n)]


def spline(c, codom=None, dom=None, dmin=1, kinds=("leg", "lag", "0101")):
    g = c.rng
    r, b = basis(c, kinds, dmin)
    codom = codom or g.choice([1, 2, 3, 4, g.randint(1, 7)])
    n = g.choice([1, 1, 2, 3, 4, 5, g.randint(1, 12)])
    if dom:
        w = np.array([g.uniform(0.3, 1) for _ in range(n)])
        taus = [float(x) for x in w / w.sum() * (dom[1] - dom[0])]
        t0 = dom[0]
    else:
        taus = lengths(g, n)
        t0 = g.choice([0.0, g.uniform(-3, 3)])
    if g.random() < 0.2:
        coef = [float(g.randint(-4, 4)) for _ in range(n * codom * r.dim)]
    else:
        coef = [g.uniform(-2, 2) for _ in range(n * codom * r.dim)]
    ac, at = lay1(g, coef), lay1(g, taus)
    s = Spline(t0, codom, r, at.val, ac.val)
    if dom:
        s.dom = dom
    s.lib = gsplines.GSpline(s.dom, codom, n, b, ac.obj, at.obj, g.choice(["q", "gspline", ""]))
    c.check(ac.unchanged() and at.unchanged(), "argument-changed:GSpline", (ac.kind, at.kind))
    COUNT["layout_" + ac.kind] += 1
    # the spline may not depend on the arrays and the basis it was made from
    for a in (ac, at):
        if isinstance(a.base, np.ndarray) and a.base.flags.writeable:
            a.base.fill(3)
    c.note(s)
    return s


def leaf(c, dom, dim):
    g = c.rng
    if dim > 1:
        if g.random() < 0.5:
            v = g.uniform(-2, 2)
            return Leaf("const", dom, dim, v, F.ConstFunction(dom, dim, v))
        s = spline(c, dim, dom)
        i = Leaf("lin", dom, 1, 1.0, F.Identity(dom))
        return Bin("o", s, i, s.lib.compose(i.lib))
    k = g.choice(["exp", "sin", "cos", "lin", "id", "poly", "const", "spl"])
    if k == "exp":
        return Leaf("exp", dom, 1, None, F.Exponential(dom))
    if k == "sin":
        return Leaf("sin", dom, 1, None, F.Sin(dom))
    if k == "cos":
        return Leaf("cos", dom, 1, None, F.Cos(dom))
    if k == "lin":
        a = g.uniform(-2, 2)
        return Leaf("lin", dom, 1, a, F.DomainLinearDilation(dom, a))
    if k == "id":
        return Leaf("lin", dom, 1, 1.0, F.Identity(dom))
    if k == "const":
        v = g.uniform(-2, 2)
        return Leaf("const", dom, 1, v, F.ConstFunction(dom, 1, v))
    if k == "poly":
        co = [g.uniform(-1.5, 1.5) for _ in range(g.randint(1, 6))]
        a = lay1(g, co)
        n = Leaf("poly", dom, 1, co, F.CanonicPolynomial(dom, a.obj))
        c.check(a.unchanged(), "argument-changed:poly")
        return n
    s = spline(c, 1, dom)
    i = Leaf("lin", dom, 1, 1.0, F.Identity(dom))
    return Bin("o", s, i, s.lib.compose(i.lib))


def expr(n):
    return n.lib if isinstance(n.lib, F.FunctionExpression) else n.lib.deriv(0)


def tree(c, dom, dim, depth, der=2):
    g = c.rng
    if depth == 0 or g.random() < 0.1:
        return leaf(c, dom, dim)
    op = g.choice(["+", "-", "*", "*", "neg", "o", "o", "|", "D"] + (["dot", "dotp"] if dim == 1 else []))
    COUNT["op_" + op] += 1
    if op in "+-":
        a, b = tree(c, dom, dim, depth - 1, der), tree(c, dom, dim, depth - 1, der)
        if g.random() < 0.1:
            b = a
        return Bin(op, a, b, a.lib + b.lib if op == "+" else a.lib - b.lib)
    if op == "*":
        a, b = tree(c, dom, 1, depth - 1, der), tree(c, dom, dim, depth - 1, der)
        if g.random() < 0.5:
            a, b = b, a
        return Bin("*", a, b, a.lib * b.lib)
    if op == "neg":
        a = tree(c, dom, dim, depth - 1, der)
        return Neg(a, -a.lib)
    if op in ("dot", "dotp"):
        m = g.randint(1, 3)
        a, b = tree(c, dom, m, depth - 1, der), tree(c, dom, m, depth - 1, der)
        return Bin("dot", a, b, a.lib.dot(b.lib) if op == "dot" else F.DotProduct(expr(a), expr(b)))
    if op == "o":
        inner = tree(c, dom, 1, depth - 1, 0) if g.random() < 0.5 else leaf(c, dom, 1)
        t = ld(np.linspace(dom[0], dom[1], 61))
        v = values(inner, t)[0]
        if not np.all(np.abs(v) < 6):
            inner = Leaf("sin", dom, 1, None, F.Sin(dom))
            v = ld([-1, 1])
        lo, hi = float(v.min()), float(v.max())
        od = (lo - 0.5 - 0.3 * (hi - lo), hi + 0.5 + 0.3 * (hi - lo))
        if g.random() < 0.3:
            s = spline(c, dim, od)
            return Bin("o", s, inner, s.lib.compose(inner.lib))
        outer = tree(c, od, dim, depth - 1, der)
        return Bin("o", outer, inner, outer.lib.compose(inner.lib))
    if op == "|":
        m = dom[0] + (dom[1] - dom[0]) * g.uniform(0.3, 0.7)
        a, b = tree(c, (dom[0], m), dim, depth - 1, der), tree(c, (m, dom[1]), dim, depth - 1, der)
        return Bin("|", a, b, a.lib.concat(b.lib))
    d = g.randint(0, der)
    a = tree(c, dom, dim, depth - 1, der - d)
    return Deriv(a, d, a.lib.deriv(d) if d != 1 or g.random() < 0.5 else a.lib.deriv())


def strip(n, top=True):
    """Forget every library object but the root's."""
    if not top:
        n.lib = None
    for k in ("a", "b"):
        s = getattr(n, k, None)
        if isinstance(s, Node):
            strip(s, False)


# ------------------------------------------------------------------ scenarios
def s_tree(c):
    g = c.rng
    dom = domain(g)
    f = tree(c, dom, g.choice([1, 1, 2, 3]), g.randint(1, 3))
    c.note(f)
    attrs(c, f, "tree")
    subs = []

    def walk(n):
        for k in ("a", "b"):
            s = getattr(n, k, None)
            if isinstance(s, Node):
                subs.append(s)
                walk(s)
    walk(f)
    first = judge(c, f, "tree-value", n=g.randint(0, 8))
    # operands still are what they were
    for s in g.sample(subs, min(2, len(subs))):
        if s.lib is not None:
            judge(c, s, "operand-value", n=3)
    if g.random() < 0.6:
        d = g.randint(1, 2)
        df = Deriv(f, d, f.lib.deriv(d))
        judge(c, df, "tree-derivative", n=5)
    del subs[:]
    strip(f)
    gc.collect()
    if first:
        arg, got = first
        c.check(np.array_equal(f.lib(arg.obj), got, equal_nan=True), "value-after-operands-deleted")
    judge(c, f, "tree-value-after-deletion", n=4)
    lib = f.lib.deriv(1)
    f.lib = None
    gc.collect()
    judge(c, Deriv(f, 1, lib), "derivative-after-deletion", n=4)
    del lib
    recheck(c)


def s_basis(c):
    g = c.rng
    r, b = basis(c)
    c.check(b.get_dim() == r.dim and b.get_name() == r.name, "basis-attributes", (b.get_dim(), b.get_name()))
    p = hold(c, b.get_parameters(), "parameters")
    if r.kind != "leg":
        c.check(np.array_equal(np.ravel(p), r.params), "basis-parameters", lambda: p)
    for _ in range(g.randint(2, 8)):
        s, tau = g.choice([g.uniform(-1, 1), g.uniform(-1, 1), -1.0, 1.0, 0.0]), g.uniform(0.3, 3)
        d = g.randint(0, r.dim + 1 if r.kind != "0101" else 4)
        how = g.randrange(3)
        R, M = r.ders([s], tau, max(d, 1) + 1)
        f = (2 / LD(tau)) ** d
        ref, mag = R[d, 0] * f, M[d, 0] * f
        if how == 2:
            # d/dtau of (2/tau)^d phi^(d)(s); basis0101 depends on tau through tau*s as well
            ref, mag = -d / LD(tau) * ref, mag * (d + 1) / tau
            if r.kind == "0101":
                ref = ref + f * (R[d + 1, 0] * LD(s) + d * R[d, 0]) / LD(tau)
                mag = mag + f * M[d + 1, 0] / tau
        a = lay1(g, [0.0] * r.dim, kind=g.choice(["c", "stride", "col", "fcol", "row2d", "view3"]))
        w = a.obj
        w[:] = np.nan
        outside = a.base.copy()
        c.note("window", how, s, tau, d, a.kind)
        if how == 0:
            d = 0
            ref, mag = R[0, 0], M[0, 0]
            b.eval_on_window(s, tau, w)
        elif how == 1:
            b.eval_derivative_on_window(s, tau, d, w)
        else:
            b.eval_derivative_wrt_tau_on_window(s, tau, d, w)
        scale = np.max(mag) + np.abs(ref)
        close(c, "basis-window-%d" % how, w.copy(), ref, scale, 2e5 * UNIT)
        # nothing around the buffer was touched
        got = a.base.copy()
        w[:] = np.nan
        c.check(a.base.tobytes() == outside.tobytes(), "buffer-overrun", a.kind)
        del got
    for bad in (np.zeros(r.dim + 1), np.zeros(r.dim - 1), np.zeros(r.dim, dtype=int), np.zeros(r.dim, dtype=np.float32), [0.0] * r.dim):
        if g.random() < 0.5:
            refused(c, "buffer:" + type(bad).__name__, lambda: b.eval_on_window(0.3, 1.0, bad))
            refused(c, "buffer-deriv:" + type(bad).__name__, lambda: b.eval_derivative_on_window(0.3, 1.0, 1, bad))
            refused(c, "buffer-tau:" + type(bad).__name__, lambda: b.eval_derivative_wrt_tau_on_window(0.3, 1.0, 1, bad))
    ro = np.zeros(r.dim)
    ro.flags.writeable = False
    refused(c, "buffer:readonly", lambda: b.eval_on_window(0.3, 1.0, ro))
    r2, b2 = basis(c)
    same = r.kind == r2.kind and r.dim == r2.dim and r.params == r2.params
    c.check((b == b2) == same, "basis-equality", (r.name, r2.name))
    c.check((b != b2) != same, "basis-inequality", (r.name, r2.name))
    c.check(b == b and not (b != b), "basis-self-equality")
    b3 = gsplines.basis.get_basis(r.name, r.dim, r.params)
    c.check(b == b3 and b3 == b and not (b != b3), "basis-equal-again", r.name)
    del b, b2
    recheck(c)


def coef_waypoints(s):
    out = []
    for i in range(len(s.taus) + 1):
        p = max(i - 1, 0)
        R, M = s.b.ders([-1 if i == 0 else 1], s.taus[p], 0)
        out.append((np.einsum("b,cb->c", R[0, 0], s.coef[p]), np.einsum("b,cb->c", M[0, 0], np.abs(s.coef[p]))))
    return ld([o[0] for o in out]), ld([o[1] for o in out])


def s_spline(c):
    g = c.rng
    s = spline(c)
    q = s.lib
    attrs(c, s, "spline")
    c.check(q.get_number_of_intervals() == len(s.taus), "spline-intervals")
    c.check(q.get_basis_name() == s.b.name, "spline-basis-name")
    c.check(np.array_equal(np.ravel(hold(c, q.get_coefficients(), "coefficients")), s.coef.ravel().astype(float)), "spline-coefficients")
    c.check(np.array_equal(np.ravel(hold(c, q.get_interval_lengths(), "lengths")), s.taus.astype(float)), "spline-lengths")
    close(c, "spline-breakpoints", np.ravel(hold(c, q.get_domain_breakpoints(), "breakpoints")), s.bp, 1 + np.abs(s.bp).max(), 1e-14)
    w, m = coef_waypoints(s)
    close(c, "spline-waypoints", hold(c, q.get_waypoints(), "waypoints"), w, m.max() * np.ones_like(w), 1e-12)
    b = q.get_basis()
    c.check(b.get_dim() == s.b.dim and b.get_name() == s.b.name and list(np.ravel(b.get_parameters())) == s.b.params, "spline-basis")
    judge(c, s, "spline-value")
    # arrays handed out may be written by the caller without touching the spline
    for arr in (q.get_coefficients(), q.get_interval_lengths(), q.get_domain_breakpoints(), q.get_waypoints()):
        if arr.flags.writeable:
            arr.fill(1e3)
    judge(c, s, "spline-value-after-writing-arrays")
    for _ in range(2):
        d = g.randint(0, min(s.b.dim + 1, 6))
        ds = Deriv(s, d, q.deriv(d) if d != 1 or g.random() < 0.5 else q.deriv())
        c.check(ds.lib.get_basis_name() == s.b.name and ds.lib.get_number_of_intervals() == len(s.taus), "derived-attributes")
        judge(c, ds, "spline-derivative")
    f = g.choice([1.0, g.uniform(0.2, 4)])
    T = f * float(s.taus.sum())
    q2 = q.linear_scaling_new_execution_time(T)
    t0 = s.dom[0]
    t = ld(points(c, s.dom, 6))
    got = q2((t0 + f * (t - t0)).astype(float))
    r, e, ok = values(s, t)
    e1 = s.jet(t, 1)[1][0]
    close(c, "scaled-value", got, r, e + e1 + np.abs(r), 1e6 * UNIT, ok)
    c.check(abs(q2.get_domain()[1] - (t0 + T)) < 1e-12 * (1 + abs(t0) + T) and abs(q2.get_domain()[0] - t0) < 1e-14 * (1 + abs(t0)), "scaled-domain")
    co = s.coef.ravel().astype(float)
    q3 = gsplines.GSpline(s.dom, s.dim, len(s.taus), b, co, s.taus.astype(float), "other")
    c.check(q == q3 and not (q != q3), "equality-of-equal")
    k = g.randrange(len(co))
    co[k] += 0.5
    q4 = gsplines.GSpline(s.dom, s.dim, len(s.taus), b, co, s.taus.astype(float), "other")
    c.check(not (q == q4) and q != q4, "equality-of-different")
    # algebra available to splines
    i = Leaf("lin", s.dom, 1, 1.0, F.Identity(s.dom))
    comp = Bin("o", s, i, q.compose(i.lib))
    dot = Bin("dot", s, comp, q.dot(comp.lib) if g.random() < 0.5 else q.dot(q))
    oth = Leaf("const", (s.dom[1], s.dom[1] + 1), s.dim, 0.7, F.ConstFunction((s.dom[1], s.dom[1] + 1), s.dim, 0.7))
    cat = Bin("|", s, oth, q.concat(oth.lib))
    dq = q.deriv(0)
    b2 = dq.get_basis()
    s.lib = None
    del q, q2, q3, q4, i, oth, dq
    gc.collect()
    # bases handed out outlive the splines
    churn = [gsplines.GSpline((0.0, 1.0), 1, 1, b, np.full(s.b.dim, 7.0), [1.0], "churn") for _ in range(3)]
    for x in (b, b2):
        c.check(x.get_dim() == s.b.dim and x.get_name() == s.b.name and list(np.ravel(x.get_parameters())) == s.b.params, "basis-after-deletion")
        win = np.full(s.b.dim, np.nan)
        tau = g.uniform(0.3, 3)
        x.eval_on_window(0.25, tau, win)
        r0, m0 = s.b.ders([0.25], tau, 1)
        close(c, "basis-value-after-deletion", win, r0[0, 0], np.max(m0[0, 0]) + np.abs(r0[0, 0]), 2e5 * UNIT)
    del churn, b, b2
    judge(c, comp, "spline-composed")
    judge(c, dot, "spline-dot")
    judge(c, cat, "spline-concat")
    recheck(c)


def waypoints(g, n, codom):
    if g.random() < 0.3:
        return np.array([[float(g.randint(-3, 3)) for _ in range(codom)] for _ in range(n + 1)])
    return np.array([[g.uniform(-2, 2) for _ in range(codom)] for _ in range(n + 1)])


def judge_interp(c, key, r, coef, taus, w, codom):
    """The defining equations of the interpolating spline, on the coefficients."""
    n = len(taus)
    co = ld(np.ravel(coef)).reshape(n, codom, r.dim)
    K = max(r.dim - 2, 0)
    J = []
    for i in range(n):
        R, M = r.ders([-1, 1], taus[i], max(K, 1))
        f = np.array([(2 / LD(taus[i])) ** k for k in range(R.shape[0])], dtype=LD)[:, None, None]
        J.append((f * np.einsum("knb,cb->knc", R, co[i]), f * np.einsum("knb,cb->knc", M, np.abs(co[i])) +
                  f * np.max(M, axis=2, keepdims=True) * np.max(np.abs(w))))
    for i in range(n):
        v, m = J[i]
        sc = np.max(m[0]) + np.max(np.abs(w)) + LD(1e-300)
        close(c, key + ":start", v[0, 0].astype(float), ld(w[i]), sc, 1e-8)
        close(c, key + ":end", v[0, 1].astype(float), ld(w[i + 1]), sc, 1e-8)
        for k in range(1, r.dim // 2):
            if i == 0:
                close(c, key + ":rest", v[k, 0].astype(float), 0 * v[k, 0], np.max(m[k]), 1e-8)
            if i == n - 1:
                close(c, key + ":rest", v[k, 1].astype(float), 0 * v[k, 1], np.max(m[k]), 1e-8)
        if i + 1 < n:
            for k in range(1, K + 1):
                close(c, key + ":continuity", v[k, 1].astype(float), J[i + 1][0][k, 0], np.max(m[k]) + np.max(J[i + 1][1][k]), 1e-8)
    if np.any(np.abs(w) > 1e-3):
        c.nontriv = True


def s_interp(c):
    g = c.rng
    r, b = basis(c, dmin=2, dmax=6, even=True)
    n, codom = g.choice([1, 2, 3, 4, 6, g.randint(1, 12)]), g.choice([1, 2, 3, 4, g.randint(1, 7)])
    it = gsplines.Interpolator(codom, n, b)
    ref_b = b
    if g.random() < 0.3:
        del b
        gc.collect()
        r2, ref_b = r, gsplines.basis.get_basis(r.name, r.dim, r.params)
    kept = []
    for _ in range(g.randint(1, 4)):
        taus = lengths(g, n)
        aw, at = lay2(g, waypoints(g, n, codom)), lay1(g, taus)
        COUNT["layout2_" + aw.kind] += 1
        c.note("interp", aw.kind, at.kind, taus, aw.val.tolist())
        how = g.randrange(5)
        if how == 0:
            q = it.interpolate(at.obj, aw.obj)
        elif how == 1:
            q = gsplines.interpolate(at.obj, aw.obj, ref_b)
        elif how == 2 and r.kind == "leg":
            q = gsplines.pw_polynomial_interpolation(at.obj, aw.obj, r.dim)
        else:
            co = it.solve_interpolation(at.obj, aw.obj)
            c.check(co.size == n * codom * r.dim, "solution-size", co.shape)
            judge_interp(c, "solve", r, co, at.val, aw.val, codom)
            hold(c, co, "solution")
            i = g.randrange(n)
            dc = hold(c, it.get_coeff_derivative_wrt_tau(co, at.obj, i), "sensitivity")
            fd = []
            for h in (1e-3, 5e-4):
                tp, tm = at.val.copy(), at.val.copy()
                tp[i] += h
                tm[i] -= h
                fd.append((np.ravel(it.solve_interpolation(tp, aw.val)) - np.ravel(it.solve_interpolation(tm, aw.val))) / (2 * h))
            rich = (4 * fd[1] - fd[0]) / 3
            close(c, "sensitivity", np.ravel(dc).copy(), ld(rich), np.max(np.abs(rich)) + np.max(np.abs(co)) + 1e-12, 1e-4)
            q = None
        c.check(aw.unchanged() and at.unchanged(), "argument-changed:interpolate", (aw.kind, at.kind))
        if q is not None:
            c.check(np.array_equal(np.ravel(q.get_interval_lengths()), at.val), "interp-lengths")
            c.check(q.get_codom_dim() == codom and q.get_number_of_intervals() == n and q.get_domain()[0] == 0.0 and
                    abs(q.get_domain()[1] - at.val.sum()) < 1e-12 * (1 + at.val.sum()), "interp-attributes")
            c.check(q.get_basis_name() == r.name, "interp-basis")
            judge_interp(c, "interpolate", r, q.get_coefficients(), at.val, aw.val, codom)
            close(c, "interp-waypoints", hold(c, q.get_waypoints(), "waypoints"), ld(aw.val), np.max(np.abs(aw.val)) + 1, 1e-7)
            s = Spline(0.0, codom, r, at.val, np.ravel(q.get_coefficients()), q)
            kept.append(s)
            judge(c, s, "interp-value")
    del it, ref_b
    gc.collect()
    for s in kept:
        judge(c, s, "interp-value-after-deletion", n=3)
    recheck(c)


def s_sobolev(c):
    g = c.rng
    r, b = basis(c, dmin=2, dmax=6, even=True)
    n, codom = g.choice([1, 2, 3, 4]), g.randint(1, 3)
    degs = [1, 3] if r.kind == "0101" else list(range(0, r.dim // 2 + 1))
    terms = [(d, g.uniform(0.1, 2)) for d in g.sample(degs, g.randint(1, min(2, len(degs))))]
    aw = lay2(g, waypoints(g, n, codom))
    N = (FA.SobolevNorm if g.random() < 0.7 else FA.SobolevNormBase)(aw.obj, b, terms)
    c.note("sobolev", terms, aw.kind, aw.val.tolist())
    if isinstance(aw.base, np.ndarray) and aw.base.flags.writeable:
        c.check(aw.unchanged(), "argument-changed:SobolevNorm")
        aw.base.fill(5)
    if g.random() < 0.4:
        b2, b = gsplines.basis.get_basis(r.name, r.dim, r.params), None
        gc.collect()
        b = b2
    x, wt = np.polynomial.legendre.leggauss(24)
    for _ in range(g.randint(1, 3)):
        at = lay1(g, lengths(g, n))
        q = gsplines.interpolate(at.val, aw.val, b)
        s = Spline(0.0, codom, r, at.val, np.ravel(q.get_coefficients()))
        ref, mag = LD(0), LD(0)
        for d, w in terms:
            for i in range(n):
                R, M = r.ders(x, at.val[i], d)
                f = (2 / LD(at.val[i])) ** d
                v = f * np.einsum("nb,cb->nc", R[d], s.coef[i])
                ref += w * np.sum(wt[:, None] * v * v) * at.val[i] / 2
                mag += w * np.sum(wt[:, None] * (f * np.einsum("nb,cb->nc", M[d], np.abs(s.coef[i]))) ** 2) * at.val[i] / 2
        val = N(at.obj)
        c.note("cost at", at.kind, at.val.tolist())
        close(c, "cost", np.float64(val), np.asarray(ref), abs(ref) + mag * LD(1e-3), 1e-8)
        a = lay1(g, [0.0] * n, kind=g.choice(["c", "row2d", "c"]))
        a.obj[:] = np.nan
        N.deriv_wrt_interval_len(at.obj, a.obj)
        fd = []
        for h in (1e-3, 5e-4):
            row = []
            for i in range(n):
                tp, tm = at.val.copy(), at.val.copy()
                tp[i] += h
                tm[i] -= h
                row.append((N(tp) - N(tm)) / (2 * h))
            fd.append(np.array(row))
        rich = (4 * fd[1] - fd[0]) / 3
        close(c, "gradient", a.obj.copy(), ld(rich), np.max(np.abs(rich)) + float(abs(ref)) + 1e-9 + float(mag) * 1e-6, 1e-4)
        c.check(at.unchanged(), "argument-changed:cost", at.kind)
        refused(c, "gradient-buffer", lambda: N.deriv_wrt_interval_len(at.obj, np.zeros(n + g.choice([-1, 1]))))
        refused(c, "lengths", lambda: N(np.ones(n + g.choice([-1, 1]))))
    recheck(c)


def s_integral(c):
    g = c.rng
    dom = domain(g)
    m = g.randint(1, 3)
    f = tree(c, dom, m, g.randint(0, 2), 1)
    h = tree(c, dom, m, g.randint(0, 1), 1)
    if g.random() < 0.4:
        f = spline(c, m, dom)
    c.note(f, h)
    ng, ni = g.randint(2, 12), g.randint(1, 4)
    x, w = gll(ng)
    L = (LD(dom[1]) - LD(dom[0])) / ni
    t = np.concatenate([LD(dom[0]) + L * (k + (x + 1) / 2) for k in range(ni)])
    W = np.tile(w * L / 2, ni)

    def ref(a, b, terms):
        K = max(d for d, _ in terms)
        ca, ea, oa = a.jet(t, K)
        cb, eb, ob = b.jet(t, K)
        s, e = LD(0), LD(0)
        for d, wt in terms:
            k = FACT[d] ** 2
            s += wt * k * np.sum(W[:, None] * ca[d] * cb[d])
            e += abs(wt) * k * np.sum(W[:, None] * (np.abs(ca[d]) * eb[d] + ea[d] * np.abs(cb[d]) + np.abs(ca[d] * cb[d])))
            # the nodes themselves are rounded
            ca1, cb1 = a.jet(t, d + 1)[0][d + 1], b.jet(t, d + 1)[0][d + 1]
            e += abs(wt) * k * (d + 1) * np.sum(W[:, None] * (np.abs(ca1 * cb[d]) + np.abs(ca[d] * cb1))) * (abs(dom[0]) + abs(dom[1]))
        return s, e, bool((oa & ob).all())

    terms = [(d, g.uniform(-1, 2)) for d in g.sample([0, 1, 2], g.randint(1, 3))]
    deg = g.randint(0, 2)
    upto = [(d, 1.0) for d in range(deg + 1)]
    kw = g.random() < 0.3
    calls = [
        ("semi-inner", lambda: FA.sobolev_semi_inner_product(f.lib, h.lib, terms, ng, ni) if not kw else
         FA.sobolev_semi_inner_product(_lhs=f.lib, _rhs=h.lib, _weights=terms, _n_int=ni, _n_glp=ng), (f, h, terms)),
        ("semi-norm", lambda: FA.sobolev_semi_norm(f.lib, terms, ng, ni) if not kw else
         FA.sobolev_semi_norm(_in=f.lib, _weights=terms, _n_int=ni, _n_glp=ng), (f, f, terms)),
        ("inner", lambda: FA.sobolev_inner_product(f.lib, h.lib, deg, ng, ni) if not kw else
         FA.sobolev_inner_product(_lhs=f.lib, _rhs=h.lib, _deg=deg, _n_int=ni, _n_glp=ng), (f, h, upto)),
        ("norm", lambda: FA.sobolev_norm(f.lib, deg, ng, ni) if not kw else
         FA.sobolev_norm(_in=f.lib, _weights=deg, _n_int=ni, _n_glp=ng), (f, f, upto)),
        ("l2-inner", lambda: FA.l2_inner_product(f.lib, h.lib, ng, ni) if not kw else
         FA.l2_inner_product(_lhs=f.lib, _rhs=h.lib, _n_int=ni, _n_glp=ng), (f, h, [(0, 1.0)])),
        ("l2-norm", lambda: FA.l2_norm(f.lib, ng, ni) if not kw else FA.l2_norm(_in=f.lib, _n_int=ni, _n_glp=ng), (f, f, [(0, 1.0)])),
    ]
    for name, call, args in g.sample(calls, 4):
        s, e, ok = ref(*args)
        v = call()
        if ok:
            close(c, "integral:" + name, np.float64(v), np.asarray(s), e + abs(s), 1e5 * UNIT)
    # defaults: ten nodes, one interval
    ng = g.choice([10, 10, 3, 6, 13])
    x, w = gll(ng)
    L = LD(dom[1]) - LD(dom[0])
    t, W = LD(dom[0]) + L * (x + 1) / 2, w * L / 2
    more = () if ng == 10 and g.random() < 0.7 else (ng,)
    defaults = [
        ("semi-inner", lambda: FA.sobolev_semi_inner_product(f.lib, h.lib, terms, *more), (f, h, terms)),
        ("semi-norm", lambda: FA.sobolev_semi_norm(f.lib, terms, *more), (f, f, terms)),
        ("inner", lambda: FA.sobolev_inner_product(f.lib, h.lib, deg, *more), (f, h, upto)),
        ("norm", lambda: FA.sobolev_norm(f.lib, deg, *more), (f, f, upto)),
        ("l2-inner", lambda: FA.l2_inner_product(f.lib, h.lib, *more), (f, h, [(0, 1.0)])),
        ("l2-norm", lambda: FA.l2_norm(f.lib, *more), (f, f, [(0, 1.0)])),
    ]
    for name, call, args in g.sample(defaults, 3):
        s, e, ok = ref(*args)
        if ok:
            close(c, "integral-defaults:" + name, np.float64(call()), np.asarray(s), e + abs(s), 1e5 * UNIT)
    judge(c, f, "integrand-unchanged", n=3)


def s_colloc(c):
    g = c.rng
    n = g.choice([2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 25, 33, 48])
    p, w = CO.legendre_gauss_lobatto_points_weights(n)
    x, W = gll(n)
    c.note("gll", n)
    close(c, "nodes", np.ravel(hold(c, p, "nodes")), x, np.ones(n), 1e-12)
    close(c, "weights", np.ravel(hold(c, w, "weights")), W, W, 1e-10)
    m = g.randint(2, 15)
    t = g.uniform(-1, 1)
    q, dq, l = CO.q_and_evaluation(t, m)
    T = ld([t])
    c.note("q", t, m)
    close(c, "q", np.float64(q), (legendre(m + 1, T) - legendre(m - 1, T))[0], 1.0, 1e-12)
    close(c, "q-derivative", np.float64(dq), ((2 * m + 1) * legendre(m, T))[0], LD(m * m), 1e-12)
    close(c, "L", np.float64(l), legendre(m, T)[0], 1.0, 1e-12)
    refused(c, "one-node", lambda: CO.legendre_gauss_lobatto_points_weights(g.choice([0, 1, -1])))
    recheck(c)


def refused(c, key, call):
    try:
        r = call()
    except Exception as e:
        COUNT["refusal_" + type(e).__name__] += 1
        c.check(True, "refused:" + key)
        return
    c.check(False, "not-refused:" + key, lambda: repr(r)[:300])


def s_invalid(c):
    g = c.rng
    s = spline(c, dmin=2)
    q, codom, n = s.lib, s.dim, len(s.taus)
    d1, d2 = s.dom, (s.dom[0] + g.choice([0.5, 1e-1, -3]), s.dom[1] + 0.7)
    f, f2 = F.Sin(d1), F.Cos(d2)
    v2, v3 = F.ConstFunction(d1, 2, 1.5), F.ConstFunction(d1, 3, 1.5)
    e1 = f * f
    co, ta = s.coef.ravel().astype(float), s.taus.astype(float)
    b = q.get_basis()
    odd = B.BasisLegendre(g.choice([1, 3, 5]))
    even = B.BasisLegendre(4)
    bare = B.Basis(4, "bare")
    w = waypoints(g, 2, 2)
    N = FA.SobolevNorm(w, even, [(1, 1.0)])
    it = gsplines.Interpolator(2, 2, even)
    G = gsplines.GSpline
    neg = ta.copy()
    neg[g.randrange(n)] *= g.choice([0, -1])
    reqs = [
        ("sum-domain", lambda: f + f2), ("sub-domain", lambda: f - f2), ("mul-domain", lambda: f * f2),
        ("sum-expr-domain", lambda: e1 + f2), ("sum-expr-domain2", lambda: f2 + e1),
        ("sum-codom", lambda: f + v2), ("sub-codom", lambda: v3 - v2), ("mul-vectors", lambda: v2 * v2), ("mul-vectors2", lambda: v3 * v2),
        ("compose-vector", lambda: f.compose(v2)), ("compose-vector-expr", lambda: e1.compose(v3)), ("spline-compose-vector", lambda: q.compose(v2)),
        ("concat-gap", lambda: f.concat(F.Sin((d1[1] + 0.5, d1[1] + 1)))), ("concat-codom", lambda: f.concat(F.ConstFunction((d1[1], d1[1] + 1), 2, 1.0))),
        ("spline-concat-gap", lambda: q.concat(F.ConstFunction((d1[1] + 0.3, d1[1] + 1), codom, 1.0))),
        ("dot-codom", lambda: v2.dot(v3)), ("dot-domain", lambda: f.dot(f2)), ("dotproduct-codom", lambda: F.DotProduct(v2.deriv(0), v3.deriv(0))),
        ("sum-type", lambda: f + 3), ("sum-none", lambda: f + None), ("mul-str", lambda: f * "x"),
        ("coef-count", lambda: G(s.dom, codom, n, b, np.append(co, 1.0), ta, "x")), ("coef-count2", lambda: G(s.dom, codom, n, b, co[:-1], ta, "x")),
        ("tau-count", lambda: G(s.dom, codom, n, b, co, np.append(ta, 1.0), "x")), ("tau-count2", lambda: G(s.dom, codom, n + 1, b, co, ta, "x")),
        ("tau-sign", lambda: G(s.dom, codom, n, b, co, neg, "x")), ("codom", lambda: G(s.dom, codom + 1, n, b, co, ta, "x")),
        ("negative-count", lambda: G(s.dom, -codom, n, b, co, ta, "x")), ("none-basis", lambda: G(s.dom, codom, n, None, co, ta, "x")),
        ("bare-basis", lambda: G(s.dom, 1, 1, bare, [1, 2, 3, 4], [1.0], "x")), ("bare-interp", lambda: gsplines.Interpolator(1, 1, bare)),
        ("bare-interpolate", lambda: gsplines.interpolate([1, 1], w, bare)), ("bare-sobolev", lambda: FA.SobolevNorm(w, bare, [(1, 1.0)])),
        ("bare-eval", lambda: bare.eval_on_window(0.1, 1.0, np.zeros(4))),
        ("unknown-basis", lambda: B.get_basis("chebyshev", 4, [])), ("0101-params", lambda: B.get_basis("basis0101", 6, [])),
        ("0101-alpha", lambda: B.Basis0101(g.choice([-0.5, 0.0, 1.0, 2.0]))), ("lagrange-repeated", lambda: B.BasisLagrange([0.0, 0.5, 0.5])),
        ("odd-basis", lambda: gsplines.Interpolator(2, 2, odd)), ("odd-basis2", lambda: gsplines.interpolate([1, 1], w, odd)),
        ("odd-pw", lambda: gsplines.pw_polynomial_interpolation([1, 1], w, 5)), ("zero-pw", lambda: gsplines.pw_polynomial_interpolation([1, 1], w, 0)),
        ("interp-lengths", lambda: gsplines.interpolate([1, 1, 1], w, even)), ("interp-lengths2", lambda: it.interpolate([1], w)),
        ("interp-rows", lambda: it.interpolate([1, 1], w[:2])), ("interp-cols", lambda: it.interpolate([1, 1], w[:, :1])),
        ("interp-negative", lambda: it.interpolate([1, -1], w)), ("interp-zero", lambda: gsplines.interpolate([0, 1], w, even)),
        ("interp-1d", lambda: it.interpolate([1, 1], [1.0, 2.0, 3.0])), ("solve-rows", lambda: it.solve_interpolation([1, 1], w[:1])),
        ("solve-lengths", lambda: it.solve_interpolation([1, 1, 1], w)), ("sens-coef", lambda: it.get_coeff_derivative_wrt_tau(np.zeros(5), [1, 1], 0)),
        ("sens-index", lambda: it.get_coeff_derivative_wrt_tau(np.zeros(16), [1, 1], 2)), ("sens-neg-index", lambda: it.get_coeff_derivative_wrt_tau(np.zeros(16), [1, 1], -1)),
        ("empty-waypoints", lambda: gsplines.interpolate([], np.zeros((0, 2)), even)), ("one-waypoint", lambda: gsplines.interpolate([], np.zeros((1, 2)), even)),
        ("flat-waypoints", lambda: gsplines.interpolate([1, 1], np.zeros((3, 0)), even)),
        ("interp-empty", lambda: gsplines.Interpolator(0, 2, even)), ("interp-none", lambda: gsplines.Interpolator(2, 0, even)),
        ("sobolev-one", lambda: FA.SobolevNorm(w[:1], even, [(1, 1.0)])), ("sobolev-empty", lambda: FA.SobolevNorm(np.zeros((0, 2)), even, [(1, 1.0)])),
        ("cost-lengths", lambda: N([1.0])), ("cost-negative", lambda: N([1.0, -1.0])), ("cost-gradient", lambda: N.deriv_wrt_interval_len([1, 1], np.zeros(1))),
        ("cost-gradient-int", lambda: N.deriv_wrt_interval_len([1, 1], np.zeros(2, dtype=int))),
        ("scale-zero", lambda: q.linear_scaling_new_execution_time(0.0)), ("scale-negative", lambda: q.linear_scaling_new_execution_time(-1.0)),
        ("deriv-negative", lambda: q.deriv(-1)), ("deriv-float", lambda: f.deriv(1.5)),
        ("points-2d", lambda: f(np.zeros((2, 2)))), ("points-str", lambda: f("abc")), ("points-none", lambda: q(None)), ("points-ragged", lambda: f([[0.1], [0.2, 0.3]])),
        ("abstract", lambda: F.Function(d1, 1, "x")([0.1])), ("abstract-base", lambda: F.FunctionBase(d1, 1, "x")([0.1])),
        ("optim-one", lambda: OP.minimum_jerk_path(np.zeros((1, 2)))), ("optim-empty", lambda: OP.broken_lines_path(np.zeros((0, 2)))),
        ("optim-odd", lambda: OP.optimal_sobolev_norm(w, odd, [(1, 1.0)], 1.0)), ("optim-bare", lambda: OP.optimal_sobolev_norm(w, bare, [(1, 1.0)], 1.0)),
        ("integral-codom", lambda: FA.l2_inner_product(v2, v3)), ("integral-domain", lambda: FA.l2_inner_product(f, f2)),
        ("gll", lambda: CO.legendre_gauss_lobatto_points_weights(1)),
    ]
    for k, call in g.sample(reqs, 14):
        c.note("invalid", k)
        refused(c, k, call)
    c.nontriv = True
    # everything still works
    judge(c, s, "spline-after-refusals", n=4)
    judge(c, Bin("*", Leaf("sin", d1), Leaf("sin", d1), e1), "expression-after-refusals", n=4)
    r = BasisRef("leg", 4)
    judge_interp(c, "interpolator-after-refusals", r, it.interpolate([1, 0.5], w).get_coefficients(), [1, 0.5], w, 2)
    v = N([1.0, 0.5])
    c.check(abs(v - FA.SobolevNorm(w, even, [(1, 1.0)])([1.0, 0.5])) <= 1e-10 * abs(v), "cost-after-refusals")


def s_optim(c):
    g = c.rng
    n, codom = g.randint(1, 4), g.randint(1, 3)
    aw = lay2(g, waypoints(g, n, codom))
    k = g.choice(["broken_lines_path", "minimum_acceleration_path", "minimum_jerk_path", "minimum_snap_path", "minimum_crackle_path", "rojas_path", "optimal_sobolev_norm"])
    c.note(k, aw.kind, aw.val.tolist())
    T, dim, params = 1.0, {"broken_lines_path": 2, "minimum_acceleration_path": 4, "minimum_jerk_path": 6, "minimum_snap_path": 8,
                           "minimum_crackle_path": 10, "rojas_path": 6}.get(k), []
    if k == "rojas_path":
        kk = g.uniform(0.3, 3)
        q = OP.rojas_path(aw.obj, kk)
        # the path is built with duration 4n/sqrt(2) and scaled to one: alpha/(1-alpha) grows with its fourth power
        ratio = (kk * 4 * n / math.sqrt(2)) ** 4
        params = [ratio / (1 + ratio)]
        name = "basis0101"
    elif k == "optimal_sobolev_norm":
        r, b = basis(c, ("leg", "lag"), 2, 6, True)
        T = g.uniform(1, 5)
        q = OP.optimal_sobolev_norm(aw.obj, b, [(1, g.uniform(0.2, 2))], T)
        name, dim, params = r.name, r.dim, r.params
        del b
    else:
        q = getattr(OP, k)(aw.obj)
        name = "legendre"
    c.check(aw.unchanged(), "argument-changed:" + k, aw.kind)
    if not c.check(q is not None, "no-path"):
        return
    gc.collect()
    c.check(q.get_basis_name() == name and q.get_codom_dim() == codom and q.get_number_of_intervals() == n, "path-attributes")
    c.check(q.get_domain()[0] == 0 and abs(q.get_domain()[1] - T) < 1e-9 * T, "path-duration", q.get_domain())
    bp = np.ravel(q.get_domain_breakpoints())
    close(c, "path-waypoints", q(np.clip(bp, *q.get_domain())), ld(aw.val), np.max(np.abs(aw.val)) + 1, 1e-6)
    b = q.get_basis()
    c.check(b.get_dim() == dim, "path-dimension", (b.get_dim(), dim))
    if name != "legendre":
        c.check(np.shape(np.ravel(b.get_parameters())) == np.shape(params) and np.allclose(1 - np.ravel(b.get_parameters()), 1 - np.array(params), rtol=1e-7, atol=1e-13), "path-parameters", lambda: (b.get_parameters(), params))
    kind = {"legendre": "leg", "lagrange": "lag", "basis0101": "0101"}[name]
    r = BasisRef(kind, b.get_dim(), np.ravel(b.get_parameters()) if kind != "leg" else ())
    s = Spline(0.0, codom, r, np.ravel(q.get_interval_lengths()), np.ravel(q.get_coefficients()), q)
    judge(c, s, "path-value", n=5)
    if name != "basis0101":
        judge_interp(c, "path", r, q.get_coefficients(), np.ravel(q.get_interval_lengths()), aw.val, codom)
    recheck(c)


pyh.run([("tree", 6, s_tree), ("basis", 3, s_basis), ("spline", 4, s_spline), ("interp", 4, s_interp), ("sobolev", 2, s_sobolev),
         ("integral", 2, s_integral), ("colloc", 1, s_colloc), ("invalid", 2, s_invalid), ("optim", 2, s_optim)], COUNT)
