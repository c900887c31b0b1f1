import re

import numpy as np
from hypothesis import strategies as st

from vf import dom, meshes as ms
from vf.core import Sub, call, quiet, require
from vf.props import c04
from vf.shapes import fl

RULE = ("A case is a call of sliver removal on a point set in a 3D domain (vertices of a generated mesh, possibly jittered or with flattened cells planted; jittered or exact grids), with generated bounds, iteration limit, step control, projection and linting options. "
        "The messages are parsed; the returned mesh is checked for validity, its dihedral angles are recomputed from face normals and must lie within the requested bounds if success was announced; failure must come after exactly the allowed number of iterations; "
        "random sample points well inside the domain must lie in exactly one cell and no cell centroid outside, the volume may not shrink below 80% (40% without success); a point set without slivers must come back unchanged. Non-trivial: the input had slivers.")
ASSUMPTIONS = ["the input points have the density that the edge length asks for",
               "coverage is asserted for sample points deeper than the reach the sliver's vertices may have moved (observed up to 1.1 edge lengths after many failing iterations; 0.9 are allowed up to five iterations on generated meshes, 2.0 otherwise; 5% of the points may be lost)"]


@st.composite
def case(draw):
    src = draw(st.sampled_from(["mesh", "mesh", "mesh", "cloud", "planted"]))
    c = {"src": src, "dom": draw(dom.domain(3, composite=draw(st.booleans()), smooth=False)), "res": draw(fl(4.0, 8.0)), "giter": draw(st.sampled_from([2, 5, 15, 30])), "jit": draw(st.sampled_from([0.0, 0.0, 0.02, 0.1, 0.25])),
         "it": draw(st.sampled_from([1, 2, 3, 5, 10, 30, 50])), "min": draw(st.sampled_from([None, None, 1.0, 5.0, 12.0, 15.0])), "max": draw(st.sampled_from([None, None, None, 178.0, 170.0, 165.0])),
         "preserve": draw(st.booleans()), "checks": draw(st.booleans()), "gamma": draw(st.sampled_from([None, 0.8, 0.95, 1.0])), "scale": draw(st.sampled_from([1.0, 1.0, 1e-2, 1e3])),
         "var": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6)), "verbose": draw(st.sampled_from([1, None, 2]))}
    return c


def angles(p, t):
    """(smallest, largest) interior dihedral angle of every cell, in degrees."""
    q = p[t]
    lo, hi = np.full(len(t), np.inf), np.full(len(t), -np.inf)
    for i in range(4):
        for j in range(i):
            k, m = [x for x in range(4) if x not in (i, j)]
            e = q[:, j] - q[:, i]
            e = e / np.linalg.norm(e, axis=1)[:, None]
            a, b = q[:, k] - q[:, i], q[:, m] - q[:, i]
            a = a - (a * e).sum(1)[:, None] * e
            b = b - (b * e).sum(1)[:, None] * e
            w = np.degrees(np.arctan2(np.linalg.norm(np.cross(a, b), axis=1), (a * b).sum(1)))
            lo, hi = np.minimum(lo, w), np.maximum(hi, w)
    return lo, hi


def chk(c, rec):
    import SeismicMesh as S
    from scipy.spatial import Delaunay

    P = dom.Problem({"dim": 3, "dom": c["dom"], "res": c["res"], "size": {"kind": "const"}, "iters": c["giter"], "seed": c["seed"] % 1000, "scale": c["scale"]})
    if not P.resolved():
        rec.excluded = True
        return
    g = np.random.RandomState(c["seed"])
    h = P.h
    if c["src"] == "cloud":
        x = c04.cloud(P, g, c["jit"])
    else:
        x, t0 = P.mesh()
        if c["src"] == "planted":
            # quadruples of points on a common circle: flat cells
            for _ in range(1 + g.randint(3)):
                j = g.randint(len(x))
                u, v = np.linalg.qr(g.normal(size=(3, 2)))[0].T
                th = np.arange(4) * np.pi / 2 + g.uniform(-0.05, 0.05, 4)
                y = x[j] + 0.5 * h * (np.cos(th)[:, None] * u + np.sin(th)[:, None] * v)
                x = np.vstack([x[np.linalg.norm(x - x[j], axis=1) > 0.55 * h], y[P.f(y) < -0.2 * h]])
        x = x + g.uniform(-1, 1, x.shape) * c["jit"] * h
    if len(x) < 12:
        rec.excluded = True
        return
    kw = {"max_iter": c["it"], "preserve": c["preserve"], "perform_checks": c["checks"], "verbose": c["verbose"]}
    if c["verbose"] is None:  # (1 is the default; 50 iterations are)
        del kw["verbose"]
    if c["it"] == 50:
        del kw["max_iter"]
    for n, k in (("min", "min_dh_angle_bound"), ("max", "max_dh_angle_bound"), ("gamma", "gamma")):
        if c[n] is not None:
            kw[k] = c[n]
    size = (lambda y: np.full(len(y), h)) if c["var"] else h
    if c["var"]:
        kw["h0"] = h
    x0 = x.copy()
    with quiet() as out:
        p, t = call(S.sliver_removal, x, P.domain, size, what="sliver_removal", **kw)
    text = out.getvalue()
    p, t = np.asarray(p), np.asarray(t)
    require(np.array_equal(x, x0), "the caller's points were modified", "mutated")
    require(not np.shares_memory(p, x), "the result shares memory with the caller's points", "aliased")
    ok, bad = re.findall(r"Termination reached in (\d+) iterations", text), re.findall(r"FAILURE: Termination", text)
    n = [int(v) for v in re.findall(r"There are (\d+) slivers", text)]
    require(len(ok) + len(bad) == 1, lambda: f"{len(ok)} messages of success and {len(bad)} of failure", "messages")
    lo, hi = (c["min"] or 10.0), (c["max"] or 180.0)
    # the triangulation of the input
    tri = Delaunay(x, qhull_options="Qbb Qc Q12 Qt").simplices
    fc = P.shape.eval(x[tri].mean(axis=1))
    tri = tri[fc < -0.1 * h]
    a, b = angles(x, tri)
    with np.errstate(all="ignore"):
        sliver0 = int(((a < lo) | (b > hi) | np.isnan(a)).sum())
    close = int(((np.abs(a - lo) < 1e-3) | (np.abs(b - hi) < 1e-3)).sum()) + int((np.abs(fc + 0.1 * h) < 1e-6 * h).sum())
    if ok:
        k = int(ok[0])
        require(k < c["it"] - 1 or c["it"] == 1, lambda: f"success after {k} iterations, {c['it']} allowed", "count")
        require(len(n) == k + 1 and n[-1] == 0, lambda: f"success after {k} iterations, but the numbers of slivers were {n}", "count")
        a, b = angles(p, t)
        require((a >= lo - 1e-6).all() and (b <= hi + 1e-6).all(), lambda: f"success announced, but dihedral angles go from {a.min():.6g} to {b.max():.6g}, bounds {lo} and {hi}", "angles")
        if k == 0:
            require(len(p) <= len(x) and (np.isin(np.ascontiguousarray(p + 0.0).view("V24"), np.ascontiguousarray(x + 0.0).view("V24"))).all(), "no sliver, but the points have been changed", "untouched")
    else:
        require(len(n) == c["it"] - 1 and 0 not in n, lambda: f"failure with {c['it']} iterations allowed, but the numbers of slivers were {n}", "count")
    if n and c["src"] != "cloud" and c["jit"] > 0 and not close:
        require(n[0] == sliver0 , lambda: f"{n[0]} slivers announced in the input, there are {sliver0}", "initial")
    if len(t) == 0:
        require(len(tri) == 0, "no cells", "empty")
        rec.excluded = True
        return
    c04.check_valid(p, t, 3)
    v = ms.vol(p, t)
    require((v >= -1e-12 * h ** 3).all(), lambda: f"{(v < 0).sum()} cells of negative volume", "volume")
    require((P.f(p[t].mean(axis=1)) < 0).all(), "a cell has its centroid outside the domain", "outside")
    y = g.uniform(P.box[:, 0], P.box[:, 1], (1200, 3))
    fy = P.f(y)
    y = y[fy < -(0.9 if c["src"] != "cloud" and c["it"] <= 5 else 2.0) * h]
    n_in, n_out = dom.containing(x, tri, y), dom.containing(p, t, y, tol=1e-9)
    lost = (n_out[n_in > 0] == 0).sum()
    require(lost <= max(3, 0.05 * len(n_in)), lambda: f"{lost} of {len(n_in)} sample points well inside the domain are in no cell any more", "covered")
    require((dom.containing(p, t, y, tol=-1e-9) <= 1).all(), "cells overlap", "overlap")
    q = v.sum() / np.abs(ms.vol(x, tri)).sum()
    require(q > (0.8 if ok and c["src"] != "cloud" else 0.4), lambda: f"the volume shrank to {q:.3g} of the input mesh's", "shrunk")
    if c["preserve"] and ok and int(ok[0]) >= 1:
        # NB: a vertex that was not on the boundary before may be
        d = np.abs(P.shape.eval(p[dom.boundary_vertices(t)])) / h
        require((d > 0.05).mean() < 0.15, lambda: f"{(d > 0.05).sum()} of {len(d)} boundary vertices are off the boundary, although they are to be preserved", "preserve")
    rec.label("success" if ok else "failure", c["src"], "preserve" if c["preserve"] else "free")
    rec.nt(sliver0 > 0)
    return P, x, tri, p, t, ok


@st.composite
def steps_case(draw):
    return {"dom": draw(dom.prim(3, kinds=("ball", "cyl", "torus"), transform=False)), "res": draw(fl(4.0, 7.0)), "giter": draw(st.sampled_from([3, 10, 30])), "jit": draw(st.sampled_from([0.0, 0.02, 0.08])),
            "k": draw(st.integers(1, 5)), "min": draw(st.sampled_from([10.0, 12.0, 15.0])), "gamma": draw(st.sampled_from([0.8, 1.0])), "preserve": draw(st.sampled_from([True, True, False])), "seed": draw(st.integers(0, 10 ** 6))}


def chk_steps(c, rec):
    """One more step of the iteration: what moved, and where to. (Domains with an exact distance, for projections to land.)"""
    import SeismicMesh as S
    from scipy.spatial import cKDTree

    P = dom.Problem({"dim": 3, "dom": c["dom"], "res": c["res"], "size": {"kind": "const"}, "iters": c["giter"], "seed": c["seed"] % 1000})
    if not P.resolved():
        rec.excluded = True
        return
    g = np.random.RandomState(c["seed"])
    h = P.h
    x, _ = P.mesh()
    x = x + g.uniform(-1, 1, x.shape) * c["jit"] * h
    kw = {"preserve": c["preserve"], "min_dh_angle_bound": c["min"], "gamma": c["gamma"]}
    out = []
    for k in (c["k"], c["k"] + 1):
        with quiet() as buf:
            p, t = call(S.sliver_removal, x, P.domain, h, what="sliver_removal", max_iter=k, **kw)
        r = re.findall(r"Termination reached in (\d+) iterations", buf.getvalue())
        out.append((np.asarray(p), np.asarray(t), int(r[0]) if r else k - 1))
    (p, t, k0), (q, s, k1) = out
    ok = k1 == k0  # no more steps taken
    if len(t) == 0 or len(s) == 0:
        rec.excluded = True
        return
    lo, hi = angles(p, t)
    with np.errstate(all="ignore"):
        bad = (lo < c["min"] + 1e-3) | (hi > 180 - 1e-3) | np.isnan(lo)
    onb = np.zeros(len(p), bool)
    onb[dom.boundary_vertices(t)] = True
    dist, near = cKDTree(q).query(p)
    # one that left the mesh has another vertex in its place
    own = dist < 0.3 * cKDTree(p).query(p, k=2)[0][:, 1]
    d = np.abs(P.shape.eval(q[near])) / h
    moved = 0
    if c["preserve"] and not ok:
        w = onb & own
        moved = int((dist[w] > 1e-9 * h).sum())
        i = np.flatnonzero(w)[np.argmax(d[w])] if w.any() else None
        require(i is None or d[i] < 0.02, lambda: f"step {c['k']}: the boundary vertex {p[i].tolist()} is {d[i]:.3g} edge lengths off the boundary afterwards, although the boundary is to be preserved", "preserve")
    still = np.ones(len(p), bool)
    still[t[bad]] = False
    if c["preserve"]:
        still &= ~onb
    # (vertices whose cells all lie outside are dropped)
    still &= P.shape.eval(p) < -0.6 * h
    require((dist[still] <= 1e-12 * (1 + np.abs(p).max())).all(), lambda: f"step {c['k']}: {(dist[still] > 1e-12 * (1 + np.abs(p).max())).sum()} vertices of no sliver were moved", "moved")
    rec.nt(bool(bad.any()) and (moved > 0 or not c["preserve"]))
    rec.label("preserve" if c["preserve"] else "free", "converged" if ok else "running", f"boundary moved={min(moved, 3)}")


SUBS = [Sub("slivers", case, lambda c, rec: chk(c, rec) and None, 480, 14000, shards=8),
        Sub("steps", steps_case, chk_steps, 800, 8000, shards=4)]
