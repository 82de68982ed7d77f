"""Long double reference of bases, splines and functions, as truncated Taylor series with first order error propagation.

jet(t, K) -> c[k, point, component] Taylor coefficients, e[k, point, component] magnitude (in units of the rounding
unit) of what rounding can do to them, ok[point] False where a breakpoint is too near to say which piece applies."""
import math
import numpy as np

LD = np.longdouble
FACT = [LD(math.factorial(i)) for i in range(40)]


def ld(x):
    return np.asarray(x, dtype=LD)


# ---------------------------------------------------------------- bases
class BasisRef:
    """Functions of the window variable s; value at deg d is the d-th derivative with respect to s."""
    def __init__(self, kind, dim, params=()):
        self.kind, self.dim, self.params = kind, dim, [float(x) for x in params]
        self.name = {"leg": "legendre", "lag": "lagrange", "0101": "basis0101"}[kind]
        if kind == "leg":
            P = np.zeros((dim, dim), dtype=LD)
            P[0, 0] = 1
            if dim > 1:
                P[1, 1] = 1
            for n in range(1, dim - 1):
                P[n + 1, 1:] += P[n, :-1] * LD(2 * n + 1) / LD(n + 1)
                P[n + 1] -= P[n - 1] * LD(n) / LD(n + 1)
            self.P = P
        elif kind == "lag":
            x = ld(self.params)
            P = np.zeros((dim, dim), dtype=LD)
            for i in range(dim):
                q = np.zeros(dim, dtype=LD)
                q[0] = 1
                for j in range(dim):
                    if j != i:
                        r = np.zeros(dim, dtype=LD)
                        r[1:] = q[:-1]
                        r -= x[j] * q
                        q = r / (x[i] - x[j])
                P[i] = q
            self.P = P
        else:
            a = LD(self.params[0])
            self.k = np.sqrt(LD(2)) / 4 * a ** LD(0.25) / (1 - a) ** LD(0.25)

    def ders(self, s, tau, K):
        """d^k/ds^k for k=0..K: array [K+1, n, dim], and a magnitude of the same shape."""
        s = ld(s)
        n = len(s)
        r = np.zeros((K + 1, n, self.dim), dtype=LD)
        m = np.zeros_like(r)
        if self.kind != "0101":
            S = np.maximum(1, np.abs(s))
            for k in range(K + 1):
                for p in range(k, self.dim):
                    f = FACT[p] / FACT[p - k]
                    r[k] += f * s[:, None] ** (p - k) * self.P[None, :, p]
                    m[k] += f * S[:, None] ** (p - k) * np.abs(self.P[None, :, p])
                if k and self.kind == "lag":
                    # a differentiation matrix mixes all functions, also beyond the degree
                    m[k] += self.dim ** 2 * np.max(m[k - 1], axis=1, keepdims=True)
            return r, m
        kt = self.k * LD(tau)
        p = kt * s
        # p is computed with a relative error; exp amplifies it by |p|
        for k in range(K + 1):
            for j, sg in ((0, 1), (2, -1)):
                # exp(sg p) (cos p + i sin p) = exp((sg + i) p)
                re, im = LD(1), LD(0)
                for _ in range(k):
                    re, im = sg * re - im, sg * im + re
                E = np.exp(sg * p)
                c, si = np.cos(p), np.sin(p)
                r[k, :, j] = kt ** k * E * (re * c - im * si)
                r[k, :, j + 1] = kt ** k * E * (re * si + im * c)
                m[k, :, j] = m[k, :, j + 1] = kt ** k * E * (2 ** (LD(k) / 2)) * (1 + np.abs(p))
            if k == 0:
                r[0, :, 4] = p
                m[0, :, 4] = np.abs(p) + kt
                r[0, :, 5] = 1
                m[0, :, 5] = 1
            elif k == 1:
                r[1, :, 4] = kt
                m[1, :, 4] = kt
        return r, m


# ---------------------------------------------------------------- nodes of the expression tree
class Node:
    lib = None


class Leaf(Node):
    def __init__(self, kind, dom, dim=1, par=None, lib=None):
        self.kind, self.dom, self.dim, self.par, self.lib = kind, dom, dim, par, lib

    def __str__(self):
        return "%s%s%r" % (self.kind, "" if self.par is None else repr(self.par), self.dom)

    def jet(self, t, K):
        n = len(t)
        c = np.zeros((K + 1, n, self.dim), dtype=LD)
        e = np.zeros_like(c)
        for k in range(K + 1):
            if self.kind == "exp":
                c[k, :, 0] = np.exp(t) / FACT[k]
                e[k] = np.abs(c[k]) * 3
            elif self.kind in ("sin", "cos"):
                o = (k + (1 if self.kind == "cos" else 0)) % 4
                v = (np.sin(t), np.cos(t), -np.sin(t), -np.cos(t))[o]
                c[k, :, 0] = v / FACT[k]
                e[k] = 3 / FACT[k]
            elif self.kind == "lin":
                if k == 0:
                    c[0, :, 0] = LD(self.par) * t
                elif k == 1:
                    c[1, :, 0] = LD(self.par)
                e[k] = np.abs(c[k]) * 2
            elif self.kind == "const":
                if k == 0:
                    c[0, :, :] = LD(self.par)
            elif self.kind == "poly":
                for i, a in enumerate(self.par):
                    if i >= k:
                        w = LD(a) * t ** (i - k) * LD(math.comb(i, k))
                        c[k, :, 0] += w
                        e[k, :, 0] += np.abs(w) * (i + 2)
        return c, e, np.ones(n, bool)


class Spline(Node):
    def __init__(self, t0, codom, basis, taus, coef, lib=None):
        self.t0, self.dim, self.b, self.lib = float(t0), codom, basis, lib
        self.taus, self.coef = ld(taus), ld(coef).reshape(len(taus), codom, basis.dim)
        self.bp = np.concatenate(([LD(self.t0)], LD(self.t0) + np.cumsum(self.taus)))
        self.dom = (self.t0, float(self.bp[-1]))

    def __str__(self):
        return "spline[%s%d%s t0=%r codom=%d taus=%s coef=%s]" % (self.b.name, self.b.dim, self.b.params, self.t0, self.dim,
                                                                [float(x) for x in self.taus], [float(x) for x in self.coef.ravel()[:8]])

    def jet(self, t, K):
        n = len(t)
        c = np.zeros((K + 1, n, self.dim), dtype=LD)
        e = np.zeros_like(c)
        ok = np.ones(n, bool)
        mag = max(abs(self.bp[0]), abs(self.bp[-1]))
        for x in self.bp[1:-1]:
            ok &= np.abs(t - x) > 1e-9 * (1 + mag)
        idx = np.clip(np.searchsorted(self.bp[1:-1], t, side="left"), 0, len(self.taus) - 1)
        for i in range(len(self.taus)):
            w = np.nonzero(idx == i)[0]
            if not len(w):
                continue
            tau = self.taus[i]
            s = 2 * (t[w] - self.bp[i]) / tau - 1
            r, m = self.b.ders(s, tau, K + 1)
            for k in range(K + 2):
                f = (2 / tau) ** k / FACT[k]
                v = f * np.einsum("nb,cb->nc", r[k], self.coef[i])
                u = f * np.einsum("nb,cb->nc", m[k], np.abs(self.coef[i]))
                if k <= K:
                    c[k, w] = v
                    e[k, w] += 4 * u
                if k >= 1:
                    e[k - 1, w] += k * u * (np.abs(t[w]) + mag + tau)[:, None] * (len(self.taus) + 2)
        return c, e, ok


class Bin(Node):
    def __init__(self, op, a, b, lib=None):
        self.op, self.a, self.b, self.lib = op, a, b, lib
        self.dom = a.dom
        self.dim = {"+": a.dim, "-": a.dim, "*": max(a.dim, b.dim), "dot": 1, "o": a.dim, "|": a.dim}[op]
        if op == "o":
            self.dom = b.dom
        if op == "|":
            self.dom = (a.dom[0], b.dom[1])

    def __str__(self):
        return "(%s %s %s)" % (self.a, self.op, self.b)

    def jet(self, t, K):
        if self.op == "|":
            j = LD(self.a.dom[1])
            ca, ea, oa = self.a.jet(t, K)
            cb, eb, ob = self.b.jet(t, K)
            left = t < j
            ok = np.where(left, oa, ob) & (np.abs(t - j) > 1e-9 * (1 + abs(j)))
            L = left[None, :, None]
            return np.where(L, ca, cb), np.where(L, ea, eb), ok
        if self.op == "o":
            ci, ei, oi = self.b.jet(t, K)
            g0, eg0 = ci[0, :, 0], ei[0, :, 0]
            co, eo, oo = self.a.jet(g0, K + 1)
            n, dim = len(t), co.shape[2]
            c = np.zeros((K + 1, n, dim), dtype=LD)
            e = np.zeros_like(c)
            d = ci[:, :, 0].copy()
            d[0] = 0
            ad, ed = np.abs(d), ei[:, :, 0].copy()
            ed[0] = 0
            pw = np.zeros((K + 1, n), dtype=LD)
            pw[0] = 1
            apw, epw = pw.copy(), np.zeros_like(pw)
            for m in range(K + 1):
                oe = eo[m] + (m + 1) * np.abs(co[m + 1]) * eg0[:, None]
                for k in range(m, K + 1):
                    c[k] += co[m] * pw[k][:, None]
                    e[k] += oe * apw[k][:, None] + np.abs(co[m]) * (epw[k] + apw[k])[:, None]
                npw, napw, nepw = np.zeros_like(pw), np.zeros_like(pw), np.zeros_like(pw)
                for k in range(K + 1):
                    for j in range(k + 1):
                        npw[k] += pw[j] * d[k - j]
                        napw[k] += apw[j] * ad[k - j]
                        nepw[k] += epw[j] * ad[k - j] + apw[j] * ed[k - j] + apw[j] * ad[k - j]
                pw, apw, epw = npw, napw, nepw
            return c, e, oi & oo
        ca, ea, oa = self.a.jet(t, K)
        cb, eb, ob = self.b.jet(t, K)
        ok = oa & ob
        if self.op in "+-":
            return (ca + cb if self.op == "+" else ca - cb), ea + eb + np.abs(ca) + np.abs(cb), ok
        n = len(t)
        c = np.zeros((K + 1, n, max(ca.shape[2], cb.shape[2])), dtype=LD)
        e = np.zeros_like(c)
        for k in range(K + 1):
            for j in range(k + 1):
                c[k] += ca[j] * cb[k - j]
                e[k] += ea[j] * np.abs(cb[k - j]) + np.abs(ca[j]) * eb[k - j] + 4 * np.abs(ca[j]) * np.abs(cb[k - j])
        if self.op == "dot":
            c, e = c.sum(axis=2, keepdims=True), e.sum(axis=2, keepdims=True)
        return c, e, ok


class Neg(Node):
    def __init__(self, a, lib=None):
        self.a, self.dom, self.dim, self.lib = a, a.dom, a.dim, lib

    def __str__(self):
        return "-" + str(self.a)

    def jet(self, t, K):
        c, e, ok = self.a.jet(t, K)
        return -c, e, ok


class Deriv(Node):
    def __init__(self, a, d, lib=None):
        self.a, self.d, self.dom, self.dim, self.lib = a, d, a.dom, a.dim, lib

    def __str__(self):
        return "D%d%s" % (self.d, self.a)

    def jet(self, t, K):
        c, e, ok = self.a.jet(t, K + self.d)
        f = np.array([FACT[k + self.d] / FACT[k] for k in range(K + 1)], dtype=LD)[:, None, None]
        return c[self.d:] * f, e[self.d:] * f, ok


def values(node, t):
    c, e, ok = node.jet(ld(t), 0)
    return c[0], e[0], ok


# ---------------------------------------------------------------- Gauss-Lobatto
def legendre(n, x):
    p0, p1 = LD(1) + 0 * x, x
    if n == 0:
        return p0
    for k in range(1, n):
        p0, p1 = p1, ((2 * k + 1) * x * p1 - k * p0) / LD(k + 1)
    return p1


def gll(n):
    """Nodes and weights of the n-point rule."""
    N = n - 1
    x = -np.cos(LD(np.pi) * ld(range(n)) / N)
    for _ in range(200):
        p, pm = legendre(N, x), legendre(N - 1, x)
        dx = (x * p - pm) / (n * p)
        x = x - dx
        if np.max(np.abs(dx)) < LD(1e-18):
            break
    x[0], x[-1] = -1, 1
    return x, 2 / (N * LD(n) * legendre(N, x) ** 2)
