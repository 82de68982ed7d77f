"""The same numbers as Python objects of many memory layouts, with a check that a callee left them alone."""
import numpy as np


class Arg:
    def __init__(self, kind, obj, val, base=None):
        self.kind, self.obj, self.val = kind, obj, np.array(val, dtype=float)
        self.base = base if base is not None else (obj if isinstance(obj, np.ndarray) else None)
        self.snap = self.base.tobytes() if self.base is not None else repr(obj)

    def unchanged(self):
        return (self.base.tobytes() if self.base is not None else repr(self.obj)) == self.snap


KINDS1 = ["c", "stride", "neg", "col", "row2d", "list", "tuple", "ro", "f32", "int", "be", "n1", "ld", "view3", "fcol", "obj"]


def lay1(rng, v, allow_int=True, kind=None):
    v = np.array(v, dtype=float)
    n = len(v)
    k = kind or rng.choice(KINDS1)
    if k == "int" and not (allow_int and np.all(v == np.round(v))):
        k = "stride"
    if k == "f32" and not np.all(v == v.astype(np.float32)):
        k = "neg"
    junk = lambda *s: np.full(s, rng.choice([np.nan, 7e77, -3.25]))
    if k == "c" or (k == "neg" and n < 2):
        return Arg("c", v.copy(), v)
    if k == "stride":
        m = rng.randint(2, 4)
        b = junk(n * m + 3)
        o = rng.randint(0, 2)
        w = b[o:o + n * m:m][:n]
        w[:] = v
        return Arg(k, w, v, b)
    if k == "neg" and n > 1:  # pybind11 refuses reversed views of a single element
        m = rng.randint(1, 3)
        b = junk(n * m + 1)
        w = b[::-m][:n]
        w[:] = v
        return Arg(k, w, v, b)
    if k in ("col", "fcol"):
        b = np.array(junk(n, 3), order="C" if k == "col" else "F")
        b[:, 1] = v
        return Arg(k, b[:, 1], v, b)
    if k == "row2d":
        b = junk(3, n)
        b[2] = v
        return Arg(k, b[2], v, b)
    if k == "view3":
        b = junk(2, n, 3)
        b[1, :, 2] = v
        return Arg(k, b[1, :, 2], v, b)
    if k == "list":
        return Arg(k, [float(x) for x in v], v)
    if k == "tuple":
        return Arg(k, tuple(float(x) for x in v), v)
    if k == "obj":
        return Arg(k, [int(x) if x == round(x) and abs(x) < 1e9 else np.float64(x) for x in v], v)
    if k == "ro":
        w = v.copy()
        w.flags.writeable = False
        return Arg(k, w, v)
    if k == "f32":
        return Arg(k, v.astype(np.float32), v)
    if k == "int":
        return Arg(k, v.astype(rng.choice([np.int64, np.int32, np.int16])), v)
    if k == "be":
        return Arg(k, v.astype(">f8"), v)
    if k == "ld":
        return Arg(k, v.astype(np.longdouble), v)
    return Arg("n1", v.reshape(n, 1).copy(), v)


KINDS2 = ["c", "f", "T", "stride", "negr", "negc", "negboth", "list", "ro", "int", "f32", "be", "bcrow", "bccol", "bcall", "view3", "sub"]


def lay2(rng, m, kind=None):
    """For the broadcast kinds the values differ from m: read .val."""
    m = np.array(m, dtype=float)
    r, c = m.shape
    k = kind or rng.choice(KINDS2)
    if k == "int" and not np.all(m == np.round(m)):
        k = "T"
    if k == "f32" and not np.all(m == m.astype(np.float32)):
        k = "negr"
    junk = lambda *s: np.full(s, rng.choice([np.nan, 7e77, -3.25]))
    if k == "c":
        return Arg(k, np.ascontiguousarray(m).copy(), m)
    if k == "f":
        return Arg(k, np.array(m, order="F"), m)
    if k == "T":
        b = np.array(m.T, order=rng.choice("CF"))
        return Arg(k, b.T, m, b)
    if k == "stride":
        sr, sc = rng.randint(1, 3), rng.randint(1, 3)
        b = np.array(junk(r * sr + 1, c * sc + 2), order=rng.choice("CF"))
        w = b[:r * sr:sr, 1:1 + c * sc:sc][:r, :c]
        w[:] = m
        return Arg(k, w, m, b)
    if k in ("negr", "negc", "negboth") and r * c == 1:
        return Arg("c", m.copy(), m)
    if k in ("negr", "negc", "negboth"):
        b = np.array(junk(r, c), order=rng.choice("CF"))
        w = b[::-1] if k == "negr" else b[:, ::-1] if k == "negc" else b[::-1, ::-1]
        w[:] = m
        return Arg(k, w, m, b)
    if k == "list":
        return Arg(k, [list(map(float, x)) for x in m], m)
    if k == "ro":
        w = m.copy()
        w.flags.writeable = False
        return Arg(k, w, m)
    if k == "int":
        return Arg(k, m.astype(np.int64), m)
    if k == "f32":
        return Arg(k, m.astype(np.float32), m)
    if k == "be":
        return Arg(k, m.astype(">f8"), m)
    if k == "bcrow":
        b = m[0].copy()
        return Arg(k, np.broadcast_to(b, (r, c)), np.broadcast_to(b, (r, c)), b)
    if k == "bccol":
        b = m[:, :1].copy()
        return Arg(k, np.broadcast_to(b, (r, c)), np.broadcast_to(b, (r, c)), b)
    if k == "bcall":
        b = m[:1, :1].copy()
        return Arg(k, np.broadcast_to(b, (r, c)), np.broadcast_to(b, (r, c)), b)
    if k == "view3":
        b = junk(r, 2, c)
        b[:, 1, :] = m
        return Arg(k, b[:, 1, :], m, b)
    b = np.array(junk(r + 2, c + 3), order=rng.choice("CF"))
    b[1:1 + r, 2:2 + c] = m
    return Arg("sub", b[1:1 + r, 2:2 + c], m, b)
