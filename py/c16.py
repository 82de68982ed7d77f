"""C16: dictionaries of splines and bases, also as JSON text, give back the same object."""
import collections, copy, gc, json, math
import numpy as np
import gsplines
import gsplines.basis as B
from gsplines.serialization import basis_to_dict, dict_to_basis, gspline_to_dict, dict_to_gspline
import pyh
from pylay import lay1
from pyref import gll

COUNT = collections.Counter()
SPECIAL = [0.0, -0.0, 1e-300, 5e-324, 1.7976931348623157e308, -1e308, 0.1, 1 / 3, 1e22, 2.2250738585072014e-308]


def bits(a):
    a = np.array(a, dtype=np.float64).ravel()
    a[np.isnan(a)] = np.nan  # JSON has one NaN only (derivatives of overflowing splines)
    return a.tobytes()


def value(g):
    q = g.random()
    return g.choice(SPECIAL) if q < 0.06 else float(g.randint(-5, 5)) if q < 0.2 else g.uniform(-2, 2) * 10 ** g.uniform(-12, 12) if q < 0.5 else g.uniform(-2, 2)


def basis(c, even=False):
    g = c.rng
    k = g.choice(["legendre", "legendre", "lagrange", "lagrange", "basis0101"])
    dim = g.choice([2, 4, 6, 8]) if even else g.randint(1, 9)
    if k == "legendre":
        b, par = B.BasisLegendre(dim), []
    elif k == "lagrange":
        dim = max(dim, 2)
        q = g.random()
        x = np.linspace(-1, 1, dim) if q < 0.3 else gll(dim)[0].astype(float) if q < 0.6 else \
            np.linspace(-1, 1, dim) + np.array([g.uniform(-0.3, 0.3) for _ in range(dim)]) / dim
        if g.random() < 0.2:
            x = x[::-1].copy()
        b, par = B.BasisLagrange(x), list(x)
    else:
        par = [g.choice([0.5, g.uniform(1e-3, 0.999), 1e-9, 1 - 1e-9])]
        dim, b = 6, B.Basis0101(par[0])
    c.note("basis", k, dim, par)
    return b, k, dim, par


def spline(c, origin=None):
    g = c.rng
    origin = origin or g.choice(["raw", "raw", "interp", "derived", "scaled", "twice"])
    if origin == "interp":
        b, k, dim, par = basis(c, True)
        n, codom = g.randint(1, 5), g.randint(1, 4)
        q = gsplines.interpolate([g.uniform(0.3, 2) for _ in range(n)], [[g.uniform(-2, 2) for _ in range(codom)] for _ in range(n + 1)], b)
    elif origin == "raw":
        b, k, dim, par = basis(c)
        n, codom = g.randint(1, 7), g.randint(1, 5)
        t0 = g.choice([0.0, -0.0, g.uniform(-5, 5), 1e3, g.uniform(-1, 1) * 1e-3])
        taus = [g.choice([g.uniform(0.1, 3), 10 ** g.uniform(-4, 4), float(g.randint(1, 4))]) for _ in range(n)]
        coef = [value(g) for _ in range(n * codom * dim)]
        q = gsplines.GSpline((t0, t0 + math.fsum(taus)), codom, n, b, lay1(g, coef).obj, lay1(g, taus).obj, g.choice(["gspline", "x"]))
        c.note("raw", t0, taus, coef[:6])
    elif origin == "derived":
        q = spline(c, g.choice(["raw", "interp"])).deriv(g.randint(0, 4))
    elif origin == "scaled":
        q = spline(c, g.choice(["raw", "interp"]))
        q = q.linear_scaling_new_execution_time(q.get_domain_length() * g.uniform(0.2, 4))
    else:
        q = dict_to_gspline(gspline_to_dict(spline(c, g.choice(["raw", "interp", "derived"]))))
    c.note("origin", origin)
    COUNT["origin_" + origin] += 1
    return q


def same_basis(c, b, k, key):
    ok = b.get_name() == k.get_name() and b.get_dim() == k.get_dim() and bits(b.get_parameters()) == bits(k.get_parameters())
    c.check(ok, key + ":basis", lambda: "%s %s %s became %s %s %s" % (b.get_name(), b.get_dim(), b.get_parameters(), k.get_name(), k.get_dim(), k.get_parameters()))
    c.check(b == k, key + ":basis-equality")
    c.check(type(b) is type(k), key + ":basis-type", (type(b), type(k)))
    g = c.rng
    for _ in range(2):
        u, v = np.full(b.get_dim(), np.nan), np.full(b.get_dim(), np.nan)
        s, tau, d = g.uniform(-1, 1), g.uniform(0.2, 3), g.randint(0, 3)
        b.eval_derivative_on_window(s, tau, d, u)
        k.eval_derivative_on_window(s, tau, d, v)
        c.check(np.array_equal(u, v, equal_nan=True), key + ":basis-values", lambda: (u, v))
        b.eval_derivative_wrt_tau_on_window(s, tau, d, u)
        k.eval_derivative_wrt_tau_on_window(s, tau, d, v)
        c.check(np.array_equal(u, v, equal_nan=True), key + ":basis-tau", lambda: (u, v))


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        m = np.max(np.abs(a[np.isfinite(a)]), initial=0)
        return bool(np.all((np.abs(a - b) <= 1e-12 * m) | (a == b) | (np.isnan(a) & np.isnan(b))))


def same_spline(c, q, r, key):
    c.check(q.get_domain() == r.get_domain(), key + ":domain", lambda: (q.get_domain(), r.get_domain()))
    c.check(q.get_codom_dim() == r.get_codom_dim() and q.get_number_of_intervals() == r.get_number_of_intervals(), key + ":dimensions")
    c.check(bits(q.get_coefficients()) == bits(r.get_coefficients()), key + ":coefficients", lambda: (q.get_coefficients(), r.get_coefficients()))
    c.check(bits(q.get_interval_lengths()) == bits(r.get_interval_lengths()), key + ":lengths")
    c.check(bits(q.get_domain_breakpoints()) == bits(r.get_domain_breakpoints()), key + ":breakpoints")
    c.check(q == r or not np.all(np.isfinite(q.get_coefficients())), key + ":equality")
    same_basis(c, q.get_basis(), r.get_basis(), key)
    g = c.rng
    a, b = q.get_domain()
    t = np.array([a + (b - a) * g.random() for _ in range(7)] + list(np.ravel(q.get_domain_breakpoints())))
    t = np.clip(t, a, b)
    c.check(near(q(t), r(t)), key + ":values", lambda: (q(t), r(t)))
    d = g.randint(1, 4)
    c.check(near(q.deriv(d)(t), r.deriv(d)(t)), key + ":derivatives")
    if np.any(np.abs(np.ravel(q.get_coefficients())) > 1e-6):
        c.nontriv = True


def plain(x):
    """Only what JSON knows: the dictionary must be serialisable as it is."""
    return json.loads(json.dumps(x))


def s_spline(c):
    g = c.rng
    q = spline(c)
    before = bits(q.get_coefficients())
    d = gspline_to_dict(q)
    c.check(bits(q.get_coefficients()) == before, "operand-changed")
    frozen = json.dumps(d)
    ways = {"dict": d, "json": plain(d), "json-text": json.loads(json.dumps(d, indent=g.choice([None, 2]), sort_keys=True)), "copy": copy.deepcopy(d)}
    k = g.choice(sorted(ways))
    c.note("way", k)
    COUNT["way_" + k] += 1
    src = ways[k]
    r = dict_to_gspline(src)
    c.check(json.dumps(d) == frozen, "dictionary-changed")
    same_spline(c, q, r, k)
    # two trips through JSON give the same text
    c.check(json.dumps(gspline_to_dict(r), sort_keys=True) == json.dumps(d, sort_keys=True), "second-dictionary", lambda: gspline_to_dict(r))
    # the dictionary and the spline are independent of each other
    src["coefficients"][0] = 77.0
    src["basis"]["name"] = "other"
    src["interval_lengths"][-1] = -1.0
    same_spline(c, q, r, k + "-after-editing")
    d2 = gspline_to_dict(q)
    del q
    gc.collect()
    c.check(json.dumps(d2) == frozen, "dictionary-depends-on-spline")
    same_spline(c, r, dict_to_gspline(d2), "after-deletion")


def s_basis(c):
    g = c.rng
    b, k, dim, par = basis(c)
    d = basis_to_dict(b)
    c.check(d.get("name") == k and d.get("dim") == dim and bits(d.get("parameters")) == bits(par if k != "legendre" else b.get_parameters()), "basis-entries", lambda: d)
    for way, src in (("dict", d), ("json", plain(d))):
        same_basis(c, b, dict_to_basis(src), way)
    c.check(plain(basis_to_dict(dict_to_basis(plain(d)))) == plain(d), "second-dictionary")
    c.nontriv = True


def refused(c, key, call, desc=""):
    try:
        r = call()
    except Exception as e:
        COUNT["refusal_" + type(e).__name__] += 1
        c.check(True, key)
        return
    c.check(False, "not-refused:" + key, lambda: "%s gave %r" % (desc, r))


OTHER = {float: ["1.0", None, [1.0], {"a": 1}, (1.0,)], int: ["3", None, [3], 2.5, {"a": 1}],
         str: [None, 3, 2.5, ["legendre"], {"a": 1}, b"legendre"], list: [None, 3, 2.5, "abc", {"a": 1.0}], dict: [None, 3, "legendre", [1.0], 2.5]}
SPL = {"domain_left_boundary": float, "domain_right_boundary": float, "codom_dim": int, "number_of_intervals": int, "basis": dict,
       "coefficients": list, "interval_lengths": list}
BAS = {"name": str, "dim": int, "parameters": list}


def s_bad(c):
    g = c.rng
    q = spline(c)
    d = plain(gspline_to_dict(q))
    bd = d["basis"]
    for _ in range(6):
        k = g.choice(sorted(SPL))
        x = copy.deepcopy(d)
        if g.random() < 0.4:
            del x[k]
            what = "missing"
        else:
            x[k] = g.choice(OTHER[SPL[k]])
            what = "type"
        c.note("bad", k, what, x.get(k) if what == "type" else "")
        snap = repr(x)
        refused(c, "spline-%s:%s" % (what, k), lambda: dict_to_gspline(x), repr(x.get(k)))
        c.check(repr(x) == snap, "refused-dictionary-changed")
        k = g.choice(sorted(BAS))
        y = copy.deepcopy(bd)
        if g.random() < 0.4:
            del y[k]
            what = "missing"
        else:
            y[k] = g.choice(OTHER[BAS[k]])
            what = "type"
        c.note("bad basis", k, what, y.get(k) if what == "type" else "")
        refused(c, "basis-%s:%s" % (what, k), lambda: dict_to_basis(y), repr(y.get(k)))
        z = copy.deepcopy(d)
        z["basis"] = y
        refused(c, "inner-basis-%s:%s" % (what, k), lambda: dict_to_gspline(z), repr(y.get(k)))
    # sizes that do not fit
    x = copy.deepcopy(d)
    k = g.choice(["coefficients", "interval_lengths"])
    x[k] = x[k][:-1] if g.random() < 0.5 else x[k] + [1.0]
    refused(c, "size:" + k, lambda: dict_to_gspline(x))
    x = copy.deepcopy(d)
    x[g.choice(["codom_dim", "number_of_intervals"])] += g.choice([1, 2])
    refused(c, "size:dims", lambda: dict_to_gspline(x))
    x = copy.deepcopy(d)
    x["basis"]["name"] = g.choice(["", "unknown", "Legendre"])
    refused(c, "basis-unknown", lambda: dict_to_gspline(x))
    refused(c, "empty", lambda: dict_to_gspline({}))
    refused(c, "empty-basis", lambda: dict_to_basis({}))
    same_spline(c, q, dict_to_gspline(d), "after-refusals")
    c.nontriv = True


pyh.run([("spline", 6, s_spline), ("basis", 2, s_basis), ("bad", 3, s_bad)], COUNT)
