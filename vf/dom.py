"""Meshing cases: domains resolved by the edge length, sizings, options, and
independent geometry to judge the returned mesh (C04-C10)."""
import math

import numpy as np
from hypothesis import strategies as st

from . import shapes as sh
from .core import call, quiet
from .shapes import fl

# ------------------------------------------------------------ reference field


def _local(s, y):
    """Signed field of the untransformed solid (exact sign, never above the
    distance)."""
    k = s["kind"]
    d, m = sh.local_inside(s, y)
    return -m if d is None else d


def _smin(a, b, k):
    h = np.clip(0.5 + 0.5 * (b - a) / k, 0.0, 1.0)
    return b * (1 - h) + a * h - k * h * (1 - h)


def field(s):
    """x -> reference signed field of the domain specification."""
    k = s["kind"]
    if k == "repeat":
        g, P, b = field(s["ops"][0]), np.asarray(s["period"], float), np.asarray(s["bbox"], float).reshape(-1, 2)
        return lambda x: np.maximum(g(np.asarray(x, float) - P * np.round(np.asarray(x, float) / P)), np.maximum(b[:, 0] - x, x - b[:, 1]).max(axis=1))
    if k in ("union", "inter", "diff"):
        fs = [field(o) for o in s["ops"]]
        r = s.get("k")

        def f(x):
            v = [g(x) for g in fs]
            out = v[0]
            for w in v[1:]:
                if k == "union":
                    out = _smin(out, w, r) if r else np.minimum(out, w)
                elif k == "inter":
                    out = -_smin(-out, -w, r) if r else np.maximum(out, w)
                else:
                    out = -_smin(-out, w, r) if r else np.maximum(out, -w)
            return out

        return f
    A, t = sh.forward(s)
    B = np.linalg.inv(A)
    return lambda x: _local(s, (np.asarray(x, float) - t) @ B.T)


def box(s):
    """A box (d x 2) containing the domain, from the specification alone."""
    k = s["kind"]
    if k == "repeat":
        return np.asarray(s["bbox"], float).reshape(-1, 2)
    if k in ("union", "inter", "diff"):
        bs = [box(o) for o in s["ops"]]
        if k == "diff":
            return bs[0]
        lo = np.array([b[:, 0] for b in bs])
        hi = np.array([b[:, 1] for b in bs])
        if k == "union":
            p = 0.25 * (s.get("k") or 0.0) * len(bs)
            return np.column_stack([lo.min(0) - p, hi.max(0) + p])
        return np.column_stack([lo.max(0), hi.min(0)])
    A, t = sh.forward(s)
    d = len(t)
    out = np.empty((d, 2))
    for i in range(d):
        for j, sg in ((0, -1.0), (1, 1.0)):
            out[i, j] = (A @ sh.support(s, sg * A[i]) + t)[i]
    return out


def gradmax(s):
    """Largest |gradient| of the field (stretches compress distances)."""
    if "ops" in s:
        return max(gradmax(o) for o in s["ops"])
    A, _ = sh.forward(s)
    sv = np.linalg.svd(A, compute_uv=False)
    return 1.0 / sv.min()


# ------------------------------------------------------------------ strategies


@st.composite
def prim(draw, dim, transform=True, kinds=None, mild=True):
    kinds = kinds or (sh.PRIMS2 if dim == 2 else sh.PRIMS3)
    k = draw(st.sampled_from(kinds))
    s = {"kind": k}
    if k in ("disk", "ball"):
        s["x0"] = [draw(fl(-0.5, 0.5)) for _ in range(dim)]
        s["r"] = draw(fl(0.5, 1.0))
    elif k in ("rect", "cube"):
        b = []
        for _ in range(dim):
            a = draw(fl(-1.0, -0.35))
            b += [a, draw(fl(0.35, 1.0))]
        s["bbox"] = b
    elif k == "torus":
        s["r1"] = draw(fl(0.8, 1.2))
        s["r2"] = draw(fl(0.35, 0.6))
    elif k == "prism":
        s["b"], s["h"] = draw(fl(0.8, 1.5)), draw(fl(0.4, 1.0))
    else:
        s["h"], s["r"] = draw(fl(0.8, 2.0)), draw(fl(0.5, 1.0))
    if transform:
        if draw(st.booleans()):
            s["rotate"] = [draw(fl(-3.2, 3.2)) for _ in range(3)] if dim == 3 else [draw(fl(-3.2, 3.2)), 0.0, 0.0]
        if draw(st.integers(0, 3)) == 0:
            v = [draw(fl(-1.0, 1.0)) for _ in range(dim)]
            n = math.sqrt(sum(c * c for c in v))
            if n > 0.3:
                al = draw(fl(0.7, 1.6))
                s["stretch"] = [c / n * al for c in v]
        if draw(st.booleans()):
            s["translate"] = [draw(st.one_of(fl(-0.4, 0.4), fl(-6.0, 6.0))) for _ in range(dim)]
    return s


def _centre(s):
    A, t = sh.forward(s)
    return A @ sh.local_center(s) + t


def _move(s, to):
    """Translate a primitive so that its centre is at `to`."""
    s = dict(s)
    s.pop("translate", None)
    c = _centre(s)
    s["translate"] = [round(float(v), 9) for v in np.asarray(to) - c]
    return s


@st.composite
def domain(draw, dim, composite=True, kinds=None, smooth=True):
    k = draw(st.sampled_from(["prim", "prim", "prim", "union", "diff", "inter"] if composite else ["prim"]))
    if k == "prim":
        return draw(prim(dim, kinds=kinds))
    n = draw(st.integers(2, 3))
    ops = [draw(prim(dim, kinds=tuple(q for q in (kinds or (sh.PRIMS2 if dim == 2 else sh.PRIMS3)) if q != "torus"))) for _ in range(n)]
    c0 = _centre(ops[0])
    for i in range(1, n):
        o = [draw(fl(-1.0, 1.0)) for _ in range(dim)]
        m = math.sqrt(sum(v * v for v in o)) or 1.0
        if k == "union":
            r = draw(fl(0.3, 0.9))
        elif k == "inter":
            r = draw(fl(0.0, 0.4))
        else:
            r = draw(fl(0.6, 1.6))
        ops[i] = _move(ops[i], [c0[j] + r * o[j] / m for j in range(dim)])
    s = {"kind": k, "ops": ops}
    if smooth and draw(st.integers(0, 3)) == 0:
        s["k"] = draw(fl(0.05, 0.3))
    return s


@st.composite
def sizing(draw, dim):
    k = draw(st.sampled_from(["const", "const", "linear", "radial"]))
    z = {"kind": k}
    if k == "linear":
        z["n"] = [draw(fl(-1.0, 1.0)) for _ in range(dim)]
        z["a"] = draw(fl(0.02, 0.25))
    elif k == "radial":
        z["c"] = [draw(fl(-1.0, 1.0)) for _ in range(dim)]
        z["a"] = draw(fl(0.02, 0.25))
    return z


def size_fn(z, h, bx):
    """(what to pass as edge_length, reference callable, options it needs)."""
    if z["kind"] == "const":
        return h, (lambda x: np.full(len(x), h)), {}
    c = bx.mean(axis=1)
    if z["kind"] == "linear":
        n = np.asarray(z["n"], float)
        m = np.linalg.norm(n)
        n = n / m if m > 1e-3 else np.eye(len(n))[0]
        lo = min(float(n @ (q - c)) for q in sh.box_corners(bx.ravel()))

        def ref(x):
            return h + z["a"] * (((np.asarray(x) - c) @ n) - lo)
    else:
        o = c + np.asarray(z["c"]) * np.ptp(bx, axis=1) / 2

        def ref(x):
            return h + z["a"] * np.sqrt(((np.asarray(x) - o) ** 2).sum(axis=1))

    return (lambda x: ref(x)), ref, {"h0": h}


@st.composite
def case(draw, dims=(2, 3), iters=(10, 20, 30, 50), res2=(5.0, 22.0), res3=(3.5, 7.0), composite=True, smooth=True, var=True, kinds=None, scales=(1.0, 1.0, 1.0, 1e-2, 1e3)):
    d = draw(st.sampled_from(dims))
    c = {"dim": d, "dom": draw(domain(d, composite=composite, smooth=smooth, kinds=kinds)), "res": draw(fl(*(res2 if d == 2 else res3))),
         "size": draw(sizing(d)) if var else {"kind": "const"}, "iters": draw(st.sampled_from(iters)), "seed": draw(st.integers(0, 2 ** 31)),
         "scale": draw(st.sampled_from(scales)), "how": draw(st.sampled_from(["shape", "shape", "shape", "callable"]))}
    if draw(st.booleans()):
        c["mesh_improvement"] = draw(st.booleans())
    return c


def scaled(s, q):
    """The same domain, q times as large (about the origin)."""
    if q == 1.0:
        return s
    s = dict(s)
    if "ops" in s:
        s["ops"] = [scaled(o, q) for o in s["ops"]]
        if s.get("k"):
            s["k"] = s["k"] * q
        for n in ("bbox", "period"):
            if n in s:
                s[n] = [v * q for v in s[n]]
        return s
    for n in ("r", "r1", "r2", "b", "h"):
        if n in s:
            s[n] = s[n] * q
    for n in ("x0", "bbox", "translate"):
        if n in s:
            s[n] = [v * q for v in s[n]]
    return s


class Problem:
    """A meshing case made concrete."""

    def __init__(self, c):
        self.c = c
        self.dim = c["dim"]
        self.spec = scaled(c["dom"], c.get("scale", 1.0))
        self.f = field(self.spec)
        self.box = box(self.spec)
        self.L = float(np.ptp(self.box, axis=1).max())
        self.h = float(self.L / c["res"])
        self.edge, self.ref, self.opts = size_fn(c["size"], self.h, self.box)
        self.opts.update(max_iter=c["iters"], seed=c["seed"], verbose=0)
        for n in ("mesh_improvement", "perform_checks", "r0m_is_h0", "delta_t"):
            if n in c:
                self.opts[n] = c[n]
        self.shape = sh.build(self.spec)
        if c.get("how") == "callable":
            self.domain = self.shape.eval
            self.opts["bbox"] = tuple(float(v) for v in self.box.ravel())
        else:
            self.domain = self.shape

    def mesh(self, **kw):
        import SeismicMesh as S

        o = dict(self.opts, **kw)
        with quiet():
            p, t = call(S.generate_mesh, self.domain, self.edge, what="generate_mesh", **o)
        return np.asarray(p), np.asarray(t)

    def resolved(self, thin=None):
        """Is every part of the domain (and every gap) wider than about two
        (3D: three) local edge lengths?  Decided on a sample grid, from the
        reference field."""
        from scipy import ndimage

        if thin is None:
            thin = 1.0 if self.dim == 2 else 1.4

        hm = self.h
        n = [int(min(160 if self.dim == 2 else 48, math.ceil(3.0 * w / hm) + 9)) for w in np.ptp(self.box, axis=1)]
        ax = [np.linspace(b[0] - hm, b[1] + hm, k) for b, k in zip(self.box, n)]
        x = np.column_stack([g.ravel() for g in np.meshgrid(*ax, indexing="ij")])
        sp = [a[1] - a[0] for a in ax]
        inside = (self.f(x) < 0).reshape(n)
        if inside.sum() < 20:
            return False
        h = self.ref(x).reshape(n)
        # with varying size, initial points are drawn at random: too few may be
        if self.c["size"]["kind"] != "const" and (np.prod(sp) / (0.87 * h[inside] ** self.dim)).sum() < 20:
            return False
        hi = h[inside].max()
        dep = ndimage.distance_transform_edt(inside, sampling=sp)
        core = dep >= thin * h
        if not core.any():
            return False
        near = ndimage.distance_transform_edt(~core, sampling=sp)
        if (near[inside] > (1.9 if self.dim == 2 else 2.1) * thin * h[inside]).any():
            return False
        out = ~np.pad(inside, 2)
        odep = ndimage.distance_transform_edt(out, sampling=sp)
        ocore = odep >= 0.6 * thin * hi
        ocore[0] = ocore[-1] = True
        for a in range(1, self.dim):
            sl = [slice(None)] * self.dim
            for e in (0, -1):
                sl[a] = e
                ocore[tuple(sl)] = True
        onear = ndimage.distance_transform_edt(~ocore, sampling=sp)
        return not (onear[out] > 1.9 * thin * hi).any()


# ------------------------------------------------------------------- judging


def containing(p, t, x, tol=0.0, count=False):
    """For every x the number of cells containing it (margin tol, relative)."""
    d = p.shape[1]
    out = np.zeros(len(x), int)
    if len(t) == 0:
        return out
    q = p[t]
    lo, hi = q.min(axis=1), q.max(axis=1)
    E = q[:, 1:] - q[:, :1]
    with np.errstate(all="ignore"):
        ok = np.abs(np.linalg.det(E)) > 0
    inv = np.zeros_like(E)
    inv[ok] = np.linalg.inv(E[ok])
    pad = tol * (hi - lo).max()
    for i in range(0, len(x), 256):
        y = x[i:i + 256]
        m = np.ones((len(y), len(t)), bool)
        for a in range(d):
            m &= (y[:, a, None] >= lo[None, :, a] - pad) & (y[:, a, None] <= hi[None, :, a] + pad)
        m[:, ~ok] = False
        a, b = np.nonzero(m)
        w = np.einsum("ni,nij->nj", y[a] - q[b, 0], inv[b])
        ins = (w >= -tol).all(axis=1) & (w.sum(axis=1) <= 1 + tol)
        np.add.at(out, i + a[ins], 1)
    return out


def overlaps(p, t, eps=1e-7):
    """Pairs of triangles whose interiors overlap by more than eps * size
    (separating axes, exact for convex cells up to the margin)."""
    q = p[t]
    lo, hi = q.min(axis=1), q.max(axis=1)
    L = (hi - lo).max(axis=1)
    order = np.argsort(lo[:, 0], kind="stable")
    ls = lo[order, 0]
    ends = np.searchsorted(ls, hi[order, 0], side="left")
    ia = np.repeat(np.arange(len(t)), np.maximum(ends - np.arange(len(t)) - 1, 0))
    if len(ia) == 0:
        return np.zeros((0, 2), int)
    st0 = np.concatenate([[0], np.cumsum(np.maximum(ends - np.arange(len(t)) - 1, 0))[:-1]])
    ib = np.arange(len(ia)) - np.repeat(st0, np.maximum(ends - np.arange(len(t)) - 1, 0)) + ia + 1
    a, b = order[ia], order[ib]
    m = (lo[a, 1] < hi[b, 1]) & (lo[b, 1] < hi[a, 1])
    a, b = a[m], b[m]
    sep = np.zeros(len(a), bool)
    tol = eps * np.minimum(L[a], L[b])
    for src in (a, b):
        for k in range(3):
            e = q[src][:, (k + 1) % 3] - q[src][:, k]
            n = np.column_stack([-e[:, 1], e[:, 0]])
            ln = np.linalg.norm(n, axis=1)
            n = n / np.where(ln == 0, 1, ln)[:, None]
            A = np.einsum("nij,nj->ni", q[a], n)
            B = np.einsum("nij,nj->ni", q[b], n)
            dep = np.minimum(A.max(axis=1), B.max(axis=1)) - np.maximum(A.min(axis=1), B.min(axis=1))
            sep |= (dep <= tol) | (ln == 0)
    return np.column_stack([a[~sep], b[~sep]])


def facets(t):
    """(unique facets, how many cells each belongs to)."""
    d = t.shape[1] - 1
    f = np.vstack([np.delete(t, k, axis=1) for k in range(d + 1)])
    f = np.sort(f, axis=1)
    return np.unique(f, axis=0, return_counts=True)


def boundary_vertices(t):
    f, n = facets(t)
    return np.unique(f[n == 1])


def edges(t):
    d = t.shape[1] - 1
    e = np.vstack([t[:, [i, j]] for i in range(d + 1) for j in range(i)])
    return np.unique(np.sort(e, axis=1), axis=0)
