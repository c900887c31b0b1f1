"""Shape specifications: strategies, construction, and independent geometry."""
import math

import numpy as np
from hypothesis import strategies as st

from .core import call

PRIMS2 = ("disk", "rect")
PRIMS3 = ("ball", "cube", "torus", "prism", "cyl")


def fl(lo, hi):
    """Floats of moderate size, rounded so that cases stay readable; rounding
    keeps plenty of distinct values and shrinks well."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda v: min(max(round(v, 6), lo), hi))


def angle():
    return st.one_of(st.just(0.0), fl(-3.2, 3.2), st.integers(-8, 8).map(lambda k: k * math.pi / 8), fl(-13.0, 13.0))


def stretch(dim):
    comp = st.one_of(fl(-3.0, 3.0), st.sampled_from([0.5, 1.0, 2.0, 1.5, 0.0]))
    return st.lists(comp, min_size=dim, max_size=dim).filter(lambda v: 0.2 <= math.sqrt(sum(c * c for c in v)) <= 5.0)


@st.composite
def prim(draw, dim=None, transform=True, kinds=None, size=(0.1, 3.0)):
    if kinds is None:
        kinds = PRIMS2 + PRIMS3 if dim is None else (PRIMS2 if dim == 2 else PRIMS3)
    kind = draw(st.sampled_from(kinds))
    d = 2 if kind in PRIMS2 else 3
    lo, hi = size
    s = {"kind": kind}
    if kind in ("disk", "ball"):
        s["x0"] = [draw(fl(-5, 5)) for _ in range(d)]
        s["r"] = draw(fl(lo, hi))
    elif kind in ("rect", "cube"):
        b = []
        for _ in range(d):
            a = draw(fl(-5, 5))
            w = draw(fl(lo, 2 * hi))
            b += [a, a + w]
        s["bbox"] = b
    elif kind == "torus":
        r1 = draw(fl(lo, hi))
        s["r1"], s["r2"] = r1, draw(fl(lo * 0.3, hi))
    elif kind == "prism":
        s["b"], s["h"] = draw(fl(lo, hi)), draw(fl(lo, hi))
    elif kind == "cyl":
        s["h"], s["r"] = draw(fl(lo, 2 * hi)), draw(fl(lo, hi))
    if transform:
        if draw(st.booleans()):
            r = [draw(angle()), draw(angle()), draw(angle())]
            if d == 2:
                r = [r[0], 0.0, 0.0]
            s["rotate"] = r
        if draw(st.booleans()):
            s["stretch"] = draw(stretch(d))
        if draw(st.booleans()):
            s["translate"] = [draw(fl(-8, 8)) for _ in range(d)]
    return s


def pdim(s):
    k = s["kind"]
    if k in PRIMS2:
        return 2
    if k in PRIMS3:
        return 3
    if k == "repeat":
        return 3
    return pdim(s["ops"][0])


def build(s):
    """Construct the real SeismicMesh object (lists and tuples as in the docs)."""
    import SeismicMesh as S

    kw = {k: list(s[k]) for k in ("rotate", "stretch", "translate") if s.get(k) is not None}
    k = s["kind"]
    if k == "disk":
        return call(S.Disk, list(s["x0"]), s["r"], what="Disk", **kw)
    if k == "ball":
        return call(S.Ball, list(s["x0"]), s["r"], what="Ball", **kw)
    if k == "rect":
        return call(S.Rectangle, tuple(s["bbox"]), what="Rectangle", **kw)
    if k == "cube":
        return call(S.Cube, tuple(s["bbox"]), what="Cube", **kw)
    if k == "torus":
        return call(S.Torus, s["r1"], s["r2"], what="Torus", **kw)
    if k == "prism":
        return call(S.Prism, s["b"], s["h"], what="Prism", **kw)
    if k == "cyl":
        return call(S.Cylinder, s["h"], s["r"], what="Cylinder", **kw)
    if k == "repeat":
        return call(S.Repeat, tuple(s["bbox"]), build(s["ops"][0]), list(s["period"]), what="Repeat")
    cls = {"union": S.Union, "inter": S.Intersection, "diff": S.Difference}[k]
    ops = [build(o) for o in s["ops"]]
    if s.get("k"):
        return call(cls, ops, smoothness=s["k"], what=k)
    return call(cls, ops, what=k)


def bare(s):
    return {k: v for k, v in s.items() if k not in ("rotate", "stretch", "translate")}


def forward(s):
    """(A, t): x = A @ y + t maps the untransformed solid to the transformed one:
    stretch along the vector, rotate about z, then y, then x, then translate."""
    d = pdim(s)
    A = np.eye(d)
    v = s.get("stretch")
    if v is not None:
        v = np.asarray(v, float)
        al = np.linalg.norm(v)
        n = v / al
        A = np.eye(d) + (al - 1.0) * np.outer(n, n)
    r = s.get("rotate")
    if r is not None:
        if d == 2:
            c, q = math.cos(r[0]), math.sin(r[0])
            A = np.array([[c, -q], [q, c]]) @ A
        else:
            a, b, g = r
            Rx = np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]])
            Ry = np.array([[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])
            Rz = np.array([[math.cos(g), -math.sin(g), 0], [math.sin(g), math.cos(g), 0], [0, 0, 1]])
            A = Rx @ Ry @ Rz @ A
    t = np.zeros(d) if s.get("translate") is None else np.asarray(s["translate"], float)
    return A, t


def local_inside(s, y):
    """Signed 'insideness' of the untransformed solid, from its definition:
    (exact signed distance or None, membership margin: >0 inside, <0 outside)."""
    k = s["kind"]
    y = np.asarray(y, float)
    if k in ("disk", "ball"):
        d = np.linalg.norm(y - np.asarray(s["x0"]), axis=1) - s["r"]
        return d, -d
    if k in ("rect", "cube"):
        b = np.asarray(s["bbox"]).reshape(-1, 2)
        m = np.minimum(y - b[:, 0], b[:, 1] - y).min(axis=1)
        return None, m
    if k == "torus":
        rho = np.hypot(y[:, 0], y[:, 2])
        d = np.hypot(rho - s["r1"], y[:, 1]) - s["r2"]
        return d, -d
    if k == "cyl":
        rho = np.hypot(y[:, 0], y[:, 2])
        a, c = rho - s["r"], np.abs(y[:, 1]) - s["h"] / 2.0
        d = np.where((a <= 0) & (c <= 0), np.maximum(a, c), np.hypot(np.maximum(a, 0), np.maximum(c, 0)))
        return d, -d
    if k == "prism":
        q = math.sqrt(3) / 2
        b, h = s["b"], s["h"]
        m = np.minimum.reduce([y[:, 1] + b / 2, b / 2 - (q * y[:, 0] + 0.5 * y[:, 1]),
                               b / 2 - (-q * y[:, 0] + 0.5 * y[:, 1]), h - np.abs(y[:, 2])])
        return None, m
    raise KeyError(k)


def support(s, u):
    """Point of the closed untransformed solid that is extreme in direction u."""
    k = s["kind"]
    u = np.asarray(u, float)
    n = np.linalg.norm(u)
    if k in ("disk", "ball"):
        return np.asarray(s["x0"]) + s["r"] * u / n
    if k in ("rect", "cube"):
        b = np.asarray(s["bbox"]).reshape(-1, 2)
        return np.where(u >= 0, b[:, 1], b[:, 0])
    if k == "torus":
        w = np.array([u[0], 0.0, u[2]])
        m = np.linalg.norm(w)
        w = w / m if m > 1e-12 else np.array([1.0, 0, 0])
        return s["r1"] * w + s["r2"] * u / n
    if k == "cyl":
        w = np.array([u[0], 0.0, u[2]])
        m = np.linalg.norm(w)
        w = w / m if m > 1e-12 else np.array([1.0, 0, 0])
        return s["r"] * w + np.array([0, math.copysign(s["h"] / 2, u[1]), 0])
    if k == "prism":
        b, h = s["b"], s["h"]
        best = None
        for x, y in ((0.0, b), (math.sqrt(3) / 2 * b, -b / 2), (-math.sqrt(3) / 2 * b, -b / 2)):
            p = np.array([x, y, math.copysign(h, u[2])])
            if best is None or p @ u > best @ u:
                best = p
        return best
    raise KeyError(k)


def local_center(s):
    k = s["kind"]
    if k in ("disk", "ball"):
        return np.asarray(s["x0"], float)
    if k in ("rect", "cube"):
        return np.asarray(s["bbox"], float).reshape(-1, 2).mean(axis=1)
    if k == "torus":
        return np.array([s["r1"], 0.0, 0.0])
    return np.zeros(3)


def size_of(s):
    k = s["kind"]
    if k in ("disk", "ball"):
        return s["r"]
    if k in ("rect", "cube"):
        return float(np.max(np.diff(np.asarray(s["bbox"]).reshape(-1, 2), axis=1)))
    if k == "torus":
        return s["r1"] + s["r2"]
    if k == "prism":
        return max(s["b"], s["h"])
    return max(s["h"], s["r"])


def box_corners(b):
    b = np.asarray(b, float).reshape(-1, 2)
    d = len(b)
    return np.array([[b[i, (m >> i) & 1] for i in range(d)] for m in range(2 ** d)])


def measure(s):
    """Area/volume of a primitive under its transformation."""
    k = s["kind"]
    if k == "disk":
        m = math.pi * s["r"] ** 2
    elif k == "ball":
        m = 4 / 3 * math.pi * s["r"] ** 3
    elif k in ("rect", "cube"):
        m = float(np.prod(np.diff(np.asarray(s["bbox"]).reshape(-1, 2), axis=1)))
    elif k == "torus":
        m = 2 * math.pi ** 2 * s["r1"] * s["r2"] ** 2  # ring torus only
    elif k == "prism":
        m = (3 * math.sqrt(3) / 4) * s["b"] ** 2 * 2 * s["h"]
    else:
        m = math.pi * s["r"] ** 2 * s["h"]
    if s.get("stretch") is not None:
        m *= float(np.linalg.norm(s["stretch"]))
    return m
