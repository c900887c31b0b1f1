import numpy as np
from hypothesis import strategies as st

from vf import meshes as ms
from vf.core import Sub, call, quiet, require

RULE = ("A case is a valid generated 2D mesh (grids, random clouds, rings with holes, several components; no unused vertex), optional fixed points at or near vertices and an iteration count or tolerance. "
        "The result is compared with the exact solution of the averaging equations (direct sparse solve) or with the iteration computed independently, and with the result after a translation and scaling. "
        "Non-trivial: the mesh has at least one interior vertex that is free to move.")
ASSUMPTIONS = ["the one-shot variant solves by algebraic multigrid to a relative residual of 1e-5; its tolerance here is 2e-3 of the mesh extent (vertices on the boundary are exact to rounding of the mesh extent)",
               "a fixed point selects the vertex closest to it"]


@st.composite
def case(draw):
    return {"m": draw(ms.mesh(dims=(2,), kinds2=("grid", "grid", "rand", "ring", "clusters"), nmax=60)), "nfix": draw(st.integers(0, 4)), "near": draw(st.booleans()),
            "interior": draw(st.booleans()), "iters": draw(st.sampled_from([0, 1, 2, 5, 20, 60])), "tol": draw(st.sampled_from([0.01, 0.0, 0.2, 1e-6])), "seed": draw(st.integers(0, 10 ** 6)),
            "verbose": draw(st.sampled_from([0, 1])), "lst": draw(st.booleans())}


def setup(c):
    p, t = ms.build(c["m"])
    p, t = ms.used_only(p, t)
    g = np.random.RandomState(c["seed"])
    fc = ms.facet_count(t)
    b = sorted({v for f, cells in fc.items() if len(cells) == 1 for v in f})
    onb = np.zeros(len(p), bool)
    onb[b] = True
    ext = np.ptp(p, axis=0).max()
    hold = onb.copy()
    fix = []
    pool = np.where(~onb)[0] if c["interior"] and (~onb).any() else np.arange(len(p))
    for _ in range(c["nfix"]):
        i = int(pool[g.randint(len(pool))])
        x = p[i].copy()
        if c["near"]:
            dist = np.sort(((p - x) ** 2).sum(1))
            x = x + g.uniform(-0.25, 0.25, 2) * np.sqrt(dist[1] if len(dist) > 1 else 1.0)
        fix.append(x)
        hold[int(np.argmin(((p - x) ** 2).sum(1)))] = True
    fix = np.array(fix) if fix else None
    if fix is not None and c["lst"]:
        fix = fix.tolist()
    return p, t, onb, hold, fix, ext, g


def neighbours(t, n):
    nb = [set() for _ in range(n)]
    for a, b, c in t:
        nb[a] |= {b, c}
        nb[b] |= {a, c}
        nb[c] |= {a, b}
    return [sorted(x) for x in nb]


def average_solution(p, t, hold):
    import scipy.sparse as sp
    from scipy.sparse.linalg import spsolve

    n = len(p)
    nb = neighbours(t, n)
    free = np.where(~hold)[0]
    if len(free) == 0:
        return p.copy()
    pos = -np.ones(n, int)
    pos[free] = np.arange(len(free))
    c0 = p.mean(axis=0)
    x = p - c0
    I, J, S = [], [], []
    rhs = np.zeros((len(free), 2))
    for k, v in enumerate(free):
        I.append(k); J.append(k); S.append(len(nb[v]))
        for w in nb[v]:
            if hold[w]:
                rhs[k] += x[w]
            else:
                I.append(k); J.append(pos[w]); S.append(-1)
    A = sp.csc_matrix((S, (I, J)), shape=(len(free), len(free)), dtype=float)
    sol = spsolve(A, rhs)
    out = p.copy()
    out[free] = np.reshape(sol, (-1, 2)) + c0
    return out


def chk_oneshot(c, rec):
    from SeismicMesh import geometry as geo

    p, t, onb, hold, fix, ext, g = setup(c)
    p0, t0 = p.copy(), t.copy()
    f0 = None if fix is None else np.array(fix).copy()
    kw = {} if fix is None else {"pfix": fix}
    q, s = call(geo.laplacian2_fixed_point, p, t, **kw)
    require(np.array_equal(p, p0) and np.array_equal(t, t0) and (fix is None or np.array_equal(fix, f0)), "the arguments were modified", "mutated")
    require(np.array_equal(s, t0), "the connectivity changed", "cells")
    require(q.shape == p.shape and np.all(np.isfinite(q)), "non-finite or missing vertices", "finite")
    M = np.abs(p).max()
    move = np.abs(q - p)[hold].max() if hold.any() else 0.0
    require(move <= 1e-12 * (M + ext), lambda: f"a boundary or fixed vertex moved by {move} (extent {ext})", "held")
    want = average_solution(p, t, hold)
    err = np.abs(q - want).max()
    require(err <= 2e-3 * ext, lambda: f"a vertex is {err} away from the average of its neighbours (extent {ext})", "average")
    lo, hi = p[hold].min(0), p[hold].max(0)
    require(np.all(q >= lo - 2e-3 * ext) and np.all(q <= hi + 2e-3 * ext), "a vertex left the range of the boundary", "range")
    # similarity
    k = float(2.0 ** g.randint(-8, 9))
    sh = g.uniform(-20, 20, 2) * ext
    kw2 = {} if fix is None else {"pfix": (np.array(fix) + sh) * k}
    q2, _ = call(geo.laplacian2_fixed_point, (p + sh) * k, t, **kw2)
    err = np.abs(q2 / k - sh - q).max()
    require(err <= 4e-3 * ext, lambda: f"translating and scaling the mesh changes the smoothed mesh by {err / ext} of its extent", "similarity")
    moved = np.abs(want - p).max() / ext
    rec.nt(bool((~hold).any()) and moved > 1e-3)
    rec.label(c["m"]["kind"], f"fix={bool(fix is not None)}", f"free={min(3, int((~hold).sum()))}")


def chk_iter(c, rec):
    from SeismicMesh import geometry as geo

    p, t, onb, hold, fix, ext, g = setup(c)
    p0, t0 = p.copy(), t.copy()
    kw = {} if fix is None else {"pfix": fix}
    with quiet() as buf:
        q, s = call(geo.laplacian2, p, t, max_iter=c["iters"], tol=c["tol"], verbose=c["verbose"], **kw)
    require(np.array_equal(p, p0) and np.array_equal(t, t0), "the arguments were modified", "mutated")
    require(np.array_equal(s, t0), "the connectivity changed", "cells")
    require(type(q) is np.ndarray and q.shape == p.shape and np.all(np.isfinite(q)), "non-finite or missing vertices", "finite")
    if not c["verbose"]:
        require(buf.getvalue() == "", "output at verbosity 0", "verbose")
    require(np.array_equal(q[hold], p[hold]), "a boundary or fixed vertex moved", "held")
    # every vertex stays in the convex hull of all of them
    require(np.all(q >= p.min(0) - 1e-12 * ext) and np.all(q <= p.max(0) + 1e-12 * ext), "a vertex left the range of the mesh", "range")
    # the result is the k-th iterate for some k <= max_iter; if fewer, the edges had stopped growing
    nb = None
    import scipy.sparse as sp

    n = len(p)
    I = np.repeat(t, 2, axis=1).ravel()
    J = t[:, [1, 2, 0, 2, 0, 1]].ravel()
    S = sp.coo_matrix((np.ones(len(I)), (I, J)), shape=(n, n)).tocsr()  # inner edges count twice, as documented by 'connected'
    W = np.asarray(S.sum(axis=1)).ravel()
    B = (S > 0).astype(float)
    Wb = np.asarray(B.sum(axis=1)).ravel()
    M = np.abs(p).max()
    free = bool((~hold).any())
    seq = [p.copy()]
    for k in range(c["iters"] + 1 if free else 1):
        y = (B @ seq[-1]) / Wb[:, None]
        y[hold] = p[hold]
        seq.append(y)
    # (several iterates can agree to rounding: any of them may be the one it stopped at)
    found = [k for k in range(c["iters"] + 1 if free else 1) if np.abs(seq[k] - q).max() <= 1e-11 * (M + ext)]
    require(found, lambda: f"not an iterate of neighbour averaging within {c['iters']} iterations", "iterate")
    if free and found[-1] < c["iters"]:
        # converged: no edge grew by more than the tolerance in the last sweep (one step back or forward)
        def done(k):
            if np.abs(seq[k + 1] - seq[k]).max() < 1e-11 * (M + ext):
                return True
            return growth(seq[0], seq[1], t) < c["tol"] + 1e-6 if k == 0 else growth(seq[k - 1], seq[k], t) < c["tol"] + 1e-9

        require(any(done(k) for k in found), lambda: f"stopped after {found} iterations while edges grew by {growth(seq[max(found[-1] - 1, 0)], seq[max(found[-1], 1)], t)} (tolerance {c['tol']})", "early")
    k = float(2.0 ** g.randint(-6, 7))
    kw2 = {} if fix is None else {"pfix": np.array(fix) * k}
    with quiet():
        q2, _ = call(geo.laplacian2, p * k, t, max_iter=c["iters"], tol=c["tol"], verbose=0, **kw2)
    require(np.abs(q2 / k - q).max() <= 1e-11 * (M + ext), "scaling the mesh changes the smoothed mesh", "similarity")
    sh = g.uniform(-2, 2, 2) * ext
    kw2 = {} if fix is None else {"pfix": np.array(fix) + sh}
    if c["tol"] == 0.0 and c["iters"] <= 5:
        pass
    with quiet():
        q3, _ = call(geo.laplacian2, p + sh, t, max_iter=min(c["iters"], 2), tol=-1.0, verbose=0, **kw2)
        q4, _ = call(geo.laplacian2, p, t, max_iter=min(c["iters"], 2), tol=-1.0, verbose=0, **kw)
    require(np.abs(q3 - sh - q4).max() <= 1e-11 * (M + 4 * ext), "translating the mesh changes the smoothed mesh", "similarity")
    rec.nt(bool((~hold).any()) and c["iters"] > 0)
    rec.label(c["m"]["kind"], f"fix={bool(fix is not None)}", "stopped early" if found[-1] < c["iters"] else "all iterations")


def growth(a, b, t):
    e = np.vstack([t[:, [0, 1]], t[:, [1, 2]], t[:, [0, 2]]])
    la = np.maximum(np.linalg.norm(a[e[:, 0]] - a[e[:, 1]], axis=1), 2.3e-16)
    lb = np.maximum(np.linalg.norm(b[e[:, 0]] - b[e[:, 1]], axis=1), 2.3e-16)
    return ((lb - la) / lb).max()


def chk_refuse(c, rec):
    """A mesh with an unused vertex is handed back by the iterative variant as it is."""
    from SeismicMesh import geometry as geo

    p, t, onb, hold, fix, ext, g = setup(c)
    k = g.randint(len(p) + 1)
    p2 = np.insert(p, k, g.uniform(p.min(0), p.max(0)), axis=0)
    t2 = np.where(t >= k, t + 1, t)
    q, s = call(geo.laplacian2, p2, t2, max_iter=c["iters"])
    require(np.array_equal(q, p2) and np.array_equal(s, t2), "a mesh with unused vertices was changed", "unused")
    rec.nt()


SUBS = [
    Sub("oneshot", case, chk_oneshot, 700, 20000, shards=3),
    Sub("iterative", case, chk_iter, 700, 20000, shards=3),
    Sub("disjoint", case, chk_refuse, 60, 1000, shards=1),
]
