"""Generated 2D/3D meshes (valid by construction) and independent oracles."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf.shapes import fl


@st.composite
def mesh(draw, dims=(2, 3), kinds2=("rand", "grid", "ring", "clusters"), kinds3=("rand", "grid", "clusters"), drop=True, nmax=40, good=False):
    d = draw(st.sampled_from(dims))
    m = {"d": d, "kind": draw(st.sampled_from(kinds2 if d == 2 else kinds3)), "n": draw(st.integers(1, nmax)), "seed": draw(st.integers(0, 10 ** 6)),
         "drop": draw(st.sampled_from(["none", "none", "some", "hole", "many"])) if drop else "none",
         "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 250.0, 1e4])), "off": [draw(st.sampled_from([0.0, 0.0, -1.0, 3.0, 50.0])) for _ in range(d)]}
    return m


def vol(p, t):
    d = p.shape[1]
    e = p[t[:, 1:]] - p[t[:, :1]]
    return np.linalg.det(e) / (2.0 if d == 2 else 6.0)


def build(m):
    """Positively oriented conforming mesh; vertices may be unused if cells were dropped."""
    from scipy.spatial import Delaunay

    g = np.random.RandomState(m["seed"])
    d, n = m["d"], m["n"]
    k = m["kind"]
    if k == "rand":
        p = g.uniform(0, 1, (n + d + 1, d))
    elif k == "grid":
        nx = max(2, int(round(n ** (1.0 / d))) + 1)
        ax = np.meshgrid(*[np.arange(nx + g.randint(2)) for _ in range(d)], indexing="ij")
        p = np.column_stack([a.ravel() for a in ax]).astype(float)
        p += g.uniform(-0.2, 0.2, p.shape)
        p /= nx
    elif k == "ring":
        q = max(6, n)
        a = np.linspace(0, 2 * np.pi, q, endpoint=False)
        p = np.vstack([np.column_stack([r * np.cos(a + s), r * np.sin(a + s)]) for r, s in ((1.0, 0.0), (0.75, 0.1), (0.5, 0.2))])
        p += g.uniform(-1e-3, 1e-3, p.shape)
    else:  # clusters: several components after dropping the long cells
        c = g.uniform(0, 10, (3, d))
        p = np.vstack([x + g.uniform(-0.5, 0.5, (max(d + 1, n // 3), d)) for x in c])
    t = Delaunay(p).simplices.astype(int)
    ext = np.ptp(p, axis=0).max()
    if k == "ring":
        c = p[t].mean(axis=1)
        t = t[np.hypot(c[:, 0], c[:, 1]) > 0.5 * np.cos(np.pi / max(6, n))]
    if k == "clusters":
        e = p[t]
        L = np.linalg.norm(e[:, :, None] - e[:, None], axis=3).max(axis=(1, 2))
        t = t[L < 1.6 * np.sqrt(d)]
    t = t[np.abs(vol(p, t)) > 1e-7 * ext ** d]
    if m["drop"] == "some":
        t = t[g.uniform(size=len(t)) > 0.15]
    elif m["drop"] == "many":
        t = t[g.uniform(size=len(t)) > 0.6]
    elif m["drop"] == "hole":
        c = p[t].mean(axis=1)
        t = t[np.linalg.norm(c - p.mean(axis=0), axis=1) > 0.2 * ext]
    if len(t) == 0:
        p = np.vstack([np.zeros(d), np.eye(d)])
        t = np.arange(d + 1)[None]
    v = vol(p, t)
    t[v < 0] = t[v < 0][:, [1, 0] + list(range(2, d + 1))]
    p = p * m["scale"] + np.asarray(m["off"]) * m["scale"] * max(ext, 1.0)
    return p, t


def used_only(p, t):
    u, inv = np.unique(t, return_inverse=True)
    return p[u], inv.reshape(t.shape)


def renumber(p, t, g):
    """Same mesh under another vertex and cell numbering (orientation kept)."""
    n = len(p)
    perm = g.permutation(n)  # new position of old vertex
    q = np.empty_like(p)
    q[perm] = p
    s = perm[t]
    s = s[g.permutation(len(s))]
    d = p.shape[1]
    r = g.randint(0, 3, len(s))
    out = s.copy()
    for k in range(3):  # even permutations: cyclic over the first three
        idx = [(i + k) % 3 for i in range(3)] + list(range(3, d + 1))
        out[r == k] = s[r == k][:, idx]
    return q, out


def cells_as_points(p, t):
    """Canonical form of the set of cells as sets of coordinates."""
    p = p + 0.0
    rows = [tuple(sorted(tuple(float(x) for x in p[i]) for i in c)) for c in t]
    return sorted(rows)


def facet_count(t):
    d = t.shape[1] - 1
    c = {}
    for i, cell in enumerate(t):
        for f in itertools.combinations(sorted(int(x) for x in cell), d):
            c.setdefault(f, []).append(i)
    return c


def quality(p, t):
    """2 r/R of triangles."""
    a = np.linalg.norm(p[t[:, 1]] - p[t[:, 0]], axis=1)
    b = np.linalg.norm(p[t[:, 2]] - p[t[:, 0]], axis=1)
    c = np.linalg.norm(p[t[:, 2]] - p[t[:, 1]], axis=1)
    A = np.abs(vol(p, t)) if p.shape[1] == 2 else 0.5 * np.linalg.norm(np.cross(p[t[:, 1]] - p[t[:, 0]], p[t[:, 2]] - p[t[:, 0]]), axis=1)
    s = (a + b + c) / 2
    return 2 * (A / s) / (a * b * c / (4 * A))
