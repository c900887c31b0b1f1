import itertools

import numpy as np
from hypothesis import strategies as st

from vf import meshes as ms
from vf.core import Sub, call, require
from vf.shapes import fl

RULE = ("A case is a batch of generated simplices (random, near regular, needle, flat to within 1e-2..1e-6, exactly flat, collinear or coincident), translated and scaled; every metric of the batch is compared "
        "with its definition evaluated by an independent formula in extended precision, and with the value after a rotation, scaling, translation or relabelling of the batch. "
        "Non-trivial: at least one simplex of the batch is not degenerate (flat sub-check: at least one degenerate one).")
ASSUMPTIONS = ["the circumsphere gradient is that of the squared circumradius with respect to the first vertex",
               "the volume gradient of (p1,p2,p3) is the one of the volume with respect to the opposite vertex, positive for the unit simplex of the axes",
               "dihedral angles of collinear or coincident cells are only required to be finite and within [0, pi]"]

LD = np.longdouble


@st.composite
def batch(draw, d, degenerate=False, nmin=0):
    kinds = ["rand", "regular", "needle", "flat"] + (["exactflat", "collinear", "coincident", "planar"] if degenerate else [])
    return {"d": d, "cells": draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 10 ** 6), st.sampled_from([1.0, 1e-2, 1e-4, 1e-6])), min_size=nmin, max_size=7)),
            "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 30.0, 5e3])), "off": [draw(st.sampled_from([0.0, 0.0, 1.0, -7.0])) for _ in range(d)],
            "share": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}


def make(b):
    d = b["d"]
    P = []
    for kind, seed, eps in b["cells"]:
        g = np.random.RandomState(seed)
        if kind == "regular":
            x = np.array([[0, 0], [1, 0], [0.5, np.sqrt(0.75)]]) if d == 2 else np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]) / 2.0
            x = x + g.uniform(-0.05, 0.05, x.shape)
        else:
            x = g.uniform(-1, 1, (d + 1, d))
        if kind == "needle":
            x[:, 0] *= max(eps, 1e-3)
        if kind == "flat":
            x[:, -1] *= max(eps, 1e-4)
        if kind == "exactflat":
            w = g.dirichlet(np.ones(d))
            x[-1] = w @ x[:d]
        if kind == "planar":
            x[:, g.randint(d)] = 0.0
            x = np.round(x * 8) / 8
        if kind == "collinear":
            q = g.uniform(-1, 1, d + 1)
            x = q[:, None] * g.uniform(-1, 1, d)[None]
        if kind == "coincident":
            x[1] = x[0]
        if kind != "planar":
            x = x @ (rotation(g, d).T)
        P.append(x[g.permutation(d + 1)])
    n = len(P)
    p = np.vstack(P) if n else np.zeros((0, d))
    t = np.arange(n * (d + 1)).reshape(n, d + 1)
    if n and b["share"]:
        g = np.random.RandomState(b["seed"])
        perm = g.permutation(len(p))
        q = np.empty_like(p)
        q[perm] = p
        p, t = q, perm[t]
    p = (p + np.asarray(b["off"])) * b["scale"]
    return p, t


def rotation(g, d):
    q, r = np.linalg.qr(g.normal(size=(d, d)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def det(m):
    """Determinant along the last two axes by permutation expansion (extended precision)."""
    n = m.shape[-1]
    out = np.zeros(m.shape[:-2], dtype=m.dtype)
    for perm in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if perm[j] > perm[i]:
                    s = -s
        term = np.full(m.shape[:-2], s, dtype=m.dtype)
        for i, j in enumerate(perm):
            term = term * m[..., i, j]
        out = out + term
    return out


def volume(p, t):
    e = p[t[:, 1:]].astype(LD) - p[t[:, :1]].astype(LD)
    d = p.shape[1]
    return det(e) / (2 if d == 2 else 6)


def edge_lengths(p, t):
    x = p.astype(LD)
    return np.column_stack([np.sqrt(((x[t[:, i]] - x[t[:, j]]) ** 2).sum(1)) for i, j in itertools.combinations(range(t.shape[1]), 2)]) if len(t) else np.zeros((0, 3))


def circum(p, t):
    """Circumcentre and squared radius (Cramer's rule in extended precision)."""
    d = p.shape[1]
    x = p[t].astype(LD)
    a = x[:, 1:] - x[:, :1]
    b = (a ** 2).sum(2) / 2
    D = det(a)
    u = np.zeros((len(t), d), dtype=LD)
    for k in range(d):
        m = a.copy()
        m[:, :, k] = b
        u[:, k] = det(m) / D
    return u + x[:, 0], (u ** 2).sum(1)


def relvol(p, t):
    L = edge_lengths(p, t).max(axis=1)
    return np.abs(volume(p, t)) / L ** p.shape[1]


def close(a, b, tol, what, key):
    a, b, tol = np.asarray(a, dtype=LD), np.asarray(b, dtype=LD), np.asarray(tol, dtype=LD)
    require(a.shape == b.shape, lambda: f"{what}: shape {a.shape}, expected {b.shape}", key)
    bad = ~(np.abs(a - b) <= tol)
    require(not bad.any(), lambda: f"{what}: {float(a[bad].ravel()[0])!r}, expected {float(b[bad].ravel()[0])!r}", key)


def mag(p):
    return max(1e-300, np.abs(p).max()) if len(p) else 1.0


def chk_metrics(b, rec):
    from SeismicMesh import geometry as geo
    import _delaunay as cd

    p, t = make(b)
    d = b["d"]
    M = mag(p)
    L = edge_lengths(p, t)
    n = len(t)
    p0, t0 = p.copy(), t.copy()
    # signed volume
    v = call(geo.simp_vol, p, t)
    V = volume(p, t)
    Lm = L.max(axis=1) if n else np.zeros(0)
    close(v, V, 1e-13 * M * Lm ** (d - 1) * 8, "signed volume", "volume")
    close(call(geo.get_centroids, p, t, dim=d), p[t].astype(LD).mean(axis=1) if n else np.zeros((0, d)), 1e-14 * M * 4, "centroid", "centroid")
    rv = relvol(p, t) if n else np.zeros(0)
    ok = rv > 1e-5
    # relative rounding error of differences of coordinates
    err = 1e-14 * M / np.where(Lm > 0, Lm, 1)
    if d == 2 and n:
        q = call(geo.simp_qual, p, t)
        a, bb, c = L[:, 0], L[:, 1], L[:, 2]
        A = np.abs(V)
        Q = 2 * (2 * A / (a + bb + c)) / (a * bb * c / (4 * A))
        close(q[ok], Q[ok], (err / rv ** 2 * 100)[ok].astype(float) + 1e-12, "quality 2r/R", "quality")
        require(np.all(q[ok] <= 1 + 1e-9) and np.all(q[ok] >= 0), "quality outside [0,1]", "quality")
    flatp = p[t.ravel()]
    cb = call(cd._circumballs2 if d == 2 else cd._circumballs3, flatp)
    require(cb.shape == (n, d + 1), f"circumballs of shape {cb.shape} for {n} cells", "circumball")
    C, R2 = circum(p, t) if n else (np.zeros((0, d)), np.zeros(0))
    R = np.sqrt(R2)
    tolR = (R + Lm) * err / rv ** 2 * 300 + 1e-12 * (R + M) if n else np.zeros(0)
    close(cb[ok, :d], C[ok], tolR[ok][:, None], "circumcentre", "circumball")
    close(cb[ok, d], R2[ok], (tolR * (2 * R + tolR))[ok], "squared circumradius", "circumball")
    if n:
        re = call(geo.calc_re_ratios, p, t, dim=d)
        mL = L.min(axis=1)
        close(re[ok], (R / mL)[ok], (tolR / mL * 2 + R / mL * err * Lm / mL * 10)[ok] + 1e-12, "radius-to-edge ratio", "re_ratio")
    require(np.array_equal(p, p0) and np.array_equal(t, t0), "the arguments were modified", "mutated")

    if n:
        # invariance: rotate, scale, translate, relabel
        g = np.random.RandomState(b["seed"])
        Q = rotation(g, d)
        s = float(np.exp(g.uniform(-1, 1)))
        c = g.uniform(-1, 1, d) * M
        p2 = s * p @ Q.T + c
        close(call(geo.simp_vol, p2, t), v * s ** d, 1e-12 * (1 + s) ** d * M * Lm ** (d - 1) * 20, "volume after a similarity", "volume")
        perm = g.permutation(d + 1)
        sgn = round(float(np.linalg.det(np.eye(d + 1)[perm])))
        close(call(geo.simp_vol, p, t[:, perm]), v * sgn, 1e-13 * M * Lm ** (d - 1) * 20, "volume after relabelling", "volume")
        re2 = call(geo.calc_re_ratios, p2, t[:, perm], dim=d)
        close(re2[ok], re[ok], (tolR / mL * 6 + R / mL * err * Lm / mL * 60)[ok] * (1 + s) / min(s, 1) + 1e-11, "radius-to-edge ratio after a similarity and relabelling", "re_ratio")
        if d == 2:
            q2 = call(geo.simp_qual, p2, t[:, perm])
            close(q2[ok], q[ok], (err / rv ** 2 * 1000 * (1 + s) / min(s, 1))[ok].astype(float) + 1e-11, "quality after a similarity and relabelling", "quality")
    rec.nt(bool(n and ok.any()))
    rec.label(f"{d}D", f"n={min(n, 3)}", *{k for k, _, _ in b["cells"]})


def dihedrals(p, t):
    """Interior dihedral angles: {edge (i,j) of the cell} from the face normals."""
    x = p[t].astype(LD)
    out = {}
    for i, j in itertools.combinations(range(4), 2):
        k, l = [m for m in range(4) if m not in (i, j)]
        e = x[:, j] - x[:, i]
        e2 = (e ** 2).sum(1)
        u = x[:, k] - x[:, i]
        w = x[:, l] - x[:, i]
        u = u - e * ((u * e).sum(1) / e2)[:, None]
        w = w - e * ((w * e).sum(1) / e2)[:, None]
        cr = np.cross(u.astype(LD), w.astype(LD))
        out[(i, j)] = np.arctan2(np.sqrt((cr ** 2).sum(1)), (u * w).sum(1))
    return out


def chk_dihedral(b, rec):
    from SeismicMesh import geometry as geo

    p, t = make(b)
    n = len(t)
    p0, t0 = p.copy(), t.copy()
    a = call(geo.calc_dihedral_angles, p, t)
    require(a.shape == (6 * n, 1), f"shape {a.shape} for {n} cells", "shape")
    require(np.array_equal(p, p0) and np.array_equal(t, t0), "the arguments were modified", "mutated")
    require(np.all(np.isfinite(a)) and np.all(a >= 0) and np.all(a <= np.pi + 1e-15), lambda: f"an angle of {a[~np.isfinite(a) | (a < 0) | (a > np.pi)][:1]}", "range")
    a = a.reshape(n, 6)
    rec.nt(bool(n))
    for kind, _, _ in b["cells"]:
        rec.label(kind)
    if n:
        # faces must be proper for the angles to be defined
        x = p[t].astype(LD)
        L = edge_lengths(p, t)
        area = np.min([np.sqrt((np.cross(x[:, f[1]] - x[:, f[0]], x[:, f[2]] - x[:, f[0]]) ** 2).sum(1)) for f in itertools.combinations(range(4), 3)], axis=0)
        ra = area / np.maximum(L.max(axis=1), 1e-300) ** 2
        ok = ra > 1e-3
        want = dihedrals(p, t)
        for c in np.where(ok)[0]:
            w = np.sort(np.array([want[k][c] for k in want], dtype=float))
            # the cosine is the accurate quantity (the angle near 0 and pi is its arccos)
            err = 1e-12 * (1 + mag(p) / float(L.max(axis=1)[c])) / float(ra[c]) ** 2
            # as multisets: cosines sorted decreasingly are angles sorted increasingly
            got = np.sort(a[c])
            dif = np.abs(np.cos(got) - np.cos(w)).max()
            require(dif <= err, lambda: f"dihedral angles (deg) {np.degrees(got)}, expected {np.degrees(w)}", "angles")
        # same angles in every cell order and numbering of the batch
        if n > 1:
            r = call(geo.calc_dihedral_angles, p, t[::-1]).reshape(n, 6)[::-1]
            require(np.array_equal(r, a), "the angles of a cell depend on its place in the batch", "batch")


def chk_grads(b, rec):
    from SeismicMesh import geometry as geo

    p, t = make(b)
    n = len(t)
    X = [np.ascontiguousarray(p[t[:, k]]) for k in range(4)] if n else [np.zeros((0, 3))] * 4
    keep = [x.copy() for x in X]
    vg = call(geo.calc_volume_grad, X[1], X[2], X[3])
    cg = call(geo.calc_circumsphere_grad, *X)
    require(all(np.array_equal(a, k) for a, k in zip(X, keep)), "the arguments were modified", "mutated")
    require(vg.shape == (n, 3) and cg.shape == (n, 3), f"shapes {vg.shape}, {cg.shape} for {n} cells", "shape")
    if n:
        M = mag(p)
        x = [a.astype(LD) for a in X]
        want = np.cross(x[2] - x[1], x[3] - x[1]) / 6
        L = edge_lengths(p, t).max(axis=1)
        close(vg, want, 1e-13 * M * M * 4 + 0 * L[:, None], "gradient of the volume", "volgrad")
        # consistency with the signed volume: |dV| for a small displacement of the first vertex
        rv = relvol(p, t)
        ok = rv > 1e-4
        A = np.stack([x[0] - x[3], x[1] - x[3], x[2] - x[3]], axis=1)
        D = det(A)
        bq = (A ** 2).sum(2) / 2
        u = np.zeros((n, 3), dtype=LD)
        for k in range(3):
            m = A.copy()
            m[:, :, k] = bq
            u[:, k] = det(m) / D
        # A^-1 e0: solves A y = e0
        y = np.zeros((n, 3), dtype=LD)
        for k in range(3):
            m = A.copy()
            m[:, :, k] = np.array([1, 0, 0], dtype=LD)
            y[:, k] = det(m) / D
        G = 2 * (u * y).sum(1)[:, None] * (x[0] - x[3] - u)
        size = np.sqrt((G ** 2).sum(1)) + L
        # the terms of the quotient rule cancel: their size is R^2/relative volume
        R = np.sqrt((u ** 2).sum(1))
        term = (R / L + 1) ** 2 * L / rv
        tol = (size + term) * 1e-12 * (1 + M / L) / rv ** 2
        close(cg[ok], G[ok], tol[ok][:, None], "gradient of the squared circumradius", "circumgrad")
        if n > 1:
            r = call(geo.calc_circumsphere_grad, *[np.ascontiguousarray(a[::-1]) for a in X])[::-1]
            require(np.array_equal(r, cg), "a gradient depends on the place in the batch", "batch")
            r = call(geo.calc_volume_grad, *[np.ascontiguousarray(a[::-1]) for a in X[1:]])[::-1]
            require(np.array_equal(r, vg), "a gradient depends on the place in the batch", "batch")
        rec.nt(bool(ok.any()))
    rec.label(f"n={min(n, 3)}")


@st.composite
def det_case(draw):
    n = draw(st.sampled_from([3, 4]))
    kind = draw(st.sampled_from(["int", "real", "ones", "singular"]))
    return {"n": n, "kind": kind, "m": [[draw(st.integers(-9, 9)) if kind in ("int", "singular") else draw(fl(-50, 50)) for _ in range(n)] for _ in range(n)]}


def chk_det(c, rec):
    from SeismicMesh import geometry as geo

    A = np.array(c["m"], dtype=float)
    n = c["n"]
    if c["kind"] == "ones":
        A[:, -1] = 1.0
    if c["kind"] == "singular":
        A[-1] = A[0] + A[1]
    f = geo.calc_3x3determinant if n == 3 else geo.calc_4x4determinant
    keep = A.copy()
    got = call(f, A)
    require(np.array_equal(A, keep), "the matrix was modified", "mutated")
    want = det(A[None].astype(LD))[0]
    scale = np.prod(np.abs(A).sum(axis=1))
    require(abs(got - want) <= 1e-13 * scale, lambda: f"determinant {got}, expected {want}", "det")
    require(call(f, A.T) is not None and abs(call(f, A.T) - want) <= 1e-13 * scale, "determinant of the transpose differs", "det")
    rec.nt(abs(want) > 1e-6 * scale)
    rec.label(f"{n}x{n}", c["kind"])


@st.composite
def box_case(draw):
    d = draw(st.sampled_from([2, 3]))
    lo = [draw(fl(-5, 5)) for _ in range(d)]
    w = [draw(st.sampled_from([0.0, 0.5, 1.0, 7.0])) for _ in range(d)]
    n = draw(st.integers(0, 30))
    return {"d": d, "lo": lo, "w": w, "n": n, "seed": draw(st.integers(0, 10 ** 6)), "lattice": draw(st.booleans()), "m": draw(ms.mesh(dims=(d,), nmax=15)), "cut": draw(fl(0, 1))}


def chk_box(c, rec):
    from SeismicMesh import geometry as geo

    d = c["d"]
    g = np.random.RandomState(c["seed"])
    lo = np.array(c["lo"])
    hi = lo + np.array(c["w"])
    p = g.uniform(lo - 3, hi + 3, (c["n"], d))
    if c["lattice"] and c["n"]:
        p[::2] = np.where(g.uniform(size=p[::2].shape) < 0.5, lo, hi)
    args = [v for k in range(d) for v in (lo[k], hi[k])]
    plain, fast = (geo.drectangle, geo.drectangle_fast) if d == 2 else (geo.dblock, geo.dblock_fast)
    want = np.max(np.concatenate([lo - p, p - hi], axis=1), axis=1) if c["n"] else np.zeros(0)
    a = call(plain, p, *args)
    b = call(fast, p, *args)
    require(a.shape == (c["n"],) and b.shape == (c["n"],), f"shapes {a.shape} {b.shape}", "shape")
    require(np.array_equal(a, want), "box distance differs from its definition", "box")
    require(np.array_equal(a, b), "compiled box distance differs from the plain one", "fast")
    # removal of cells outside a block: all their vertices are outside
    q, t = ms.build(c["m"])
    l, h = q.min(0), q.max(0)
    g2 = np.random.RandomState(c["seed"] + 1)
    e0 = l + (h - l) * g2.uniform(-0.2, 0.6, d)
    e1 = e0 + (h - l) * c["cut"]
    if c["lattice"]:
        # faces through vertices: these are not outside
        e0, e1 = np.sort(np.stack([q[g2.randint(len(q))], q[g2.randint(len(q))]]), axis=0)
    ext = np.concatenate([e0, e1])
    keepq, keept = q.copy(), t.copy()
    vv, tt, jx = call(geo.remove_external_entities, q, t, ext, dim=d)
    inside = np.all((q >= e0) & (q <= e1), axis=1)
    sel = inside[t].any(axis=1)
    require(np.array_equal(vv, keepq) and np.array_equal(q, keepq) and np.array_equal(t, keept), "vertices changed", "external")
    require(np.array_equal(tt, keept[sel]), lambda: f"{len(tt)} cells kept, expected {sel.sum()} of {len(t)}", "external")
    require(np.array_equal(jx, np.arange(len(q))), "index map", "external")
    rec.nt(c["n"] > 0 and bool(sel.any()) and not bool(sel.all()))
    rec.label(f"{d}D", "lattice" if c["lattice"] else "generic")


SUBS = [
    Sub("metrics2", lambda: batch(2), chk_metrics, 700, 20000, shards=3),
    Sub("metrics3", lambda: batch(3), chk_metrics, 700, 20000, shards=3),
    Sub("dihedral", lambda: batch(3, degenerate=True), chk_dihedral, 800, 20000, shards=3),
    Sub("gradients", lambda: batch(3), chk_grads, 800, 20000, shards=2),
    Sub("det", det_case, chk_det, 600, 10000, shards=1),
    Sub("box", box_case, chk_box, 500, 10000, shards=2),
]
