import numpy as np
from hypothesis import strategies as st

from vf import dom, shapes as sh, sz
from vf.core import Sub, call, quiet, require
from vf.props import c04
from vf.shapes import fl

RULE = ("A case is a serial 2D or 3D mesh generation (transformed and combined domains, constant and varying sizes, 2 to 50 iterations, all options, subdomains, velocity-model sizing with padding) with fixed points drawn in the interior, near the boundary, on it (found by bisection) and on its corners, "
        "two edge lengths or more apart; in Fortran order, as lists or tuples. Every fixed point and every corner (of rectangles of any size function and cubes of constant size, computed from the specification) must be a vertex of the returned mesh within a millionth of the domain size. Non-trivial: there is a fixed point that is not a corner, or a transformed corner.")


ASSUMPTIONS = ["fixed points near or on the boundary and corners are asserted from ten (3D: twenty) iterations on: the cells of the unrelaxed grid may be too flat to be kept there",
               "fixed points keep a distance of two local edge lengths from each other and from the corners (closer ones squeeze free vertices against them), and at least 0.8 edge lengths from the boundary unless they are on it",
               "fixed points on the boundary lie where it is flat as far as two edge lengths; in 3D, corners are asserted if the cube is not stretched and no other fixed point is closer than four edge lengths (free vertices squeezed in between may cover a corner: observed in about one of a thousand coarse cubes)",
               "a corner or fixed point on the boundary counts as lost if it is missing after the given number of iterations and after 13 and 29 more (free vertices may cover it for some iterations: observed in about one of a thousand meshes)",
               "the domain is resolved by the edge length (as in C04)"]


def on_boundary(P, g, n):
    """Points on the boundary, by bisection between a point inside and one outside."""
    w = np.ptp(P.box, axis=1)
    x = g.uniform(P.box[:, 0] - 0.1 * w, P.box[:, 1] + 0.1 * w, (6000, P.dim))
    v = P.f(x)
    a, b = x[v < -1e-3 * P.h], x[v > 1e-3 * P.h]
    if not len(a) or not len(b):
        return np.zeros((0, P.dim))
    a, b = a[g.randint(len(a), size=n)], b[g.randint(len(b), size=n)]
    for _ in range(70):
        m = 0.5 * (a + b)
        i = P.f(m) < 0
        a[i] = m[i]
        b[~i] = m[~i]
    return a


def corners(s):
    """Corners of a (transformed) rectangle or cube, from the specification."""
    A, t = sh.forward(s)
    return sh.box_corners(s["bbox"]) @ A.T + t


def flat(P, q, r, g):
    """Is the boundary around q nearly flat, as far as r?"""
    u = g.normal(size=(400, P.dim))
    u *= (g.uniform(size=400) ** (1.0 / P.dim) / np.linalg.norm(u, axis=1))[:, None]
    return 0.38 < (P.f(q + r * u) < 0).mean() < 0.62


def missing(p, x, tol):
    """Distance of every x to the closest vertex, where above the tolerance."""
    r = np.sqrt(((p[None] - x[:, None]) ** 2).sum(axis=2)).min(axis=1)
    return np.where(r > tol)[0], r


@st.composite
def case(draw, dims=(2, 2, 3)):
    box = draw(st.booleans())
    d = draw(st.sampled_from(dims))
    kinds = (("rect",) if d == 2 else ("cube",)) if box else None
    c = draw(dom.case(dims=(d,), iters=(2, 3, 5, 10, 20, 30, 50), res2=(5.0, 18.0), res3=(4.0, 7.0), kinds=kinds, composite=not box))
    c.update(draw(c04.options(c["dim"])))
    c["pf"] = {k: draw(st.integers(0, 3)) for k in ("in", "near", "on")}
    if box and draw(st.booleans()):
        c["pf"] = {k: 0 for k in c["pf"]}
    c["pf"]["corner"] = draw(st.booleans())
    c["form"] = draw(st.sampled_from(["array", "array", "list", "tuples", "fortran"]))
    c["gap"] = draw(fl(2.0, 4.0))
    c["sub"] = draw(st.integers(0, 3)) == 0
    c["eseed"] = draw(st.integers(0, 10 ** 6))
    return c


def chk(c, rec):
    import SeismicMesh as S

    P = dom.Problem(c)
    if not P.resolved():
        rec.excluded = True
        return
    g = np.random.RandomState(c["eseed"])
    d, h = P.dim, P.h
    k = P.spec["kind"]
    is_box = k in ("rect", "cube")
    cor = corners(P.spec) if is_box else np.zeros((0, d))
    x = g.uniform(P.box[:, 0], P.box[:, 1], (4000, d))
    v, r = P.f(x), P.ref(x)
    pools = {"in": x[v < -1.2 * r], "near": x[(v < -0.8 * r) & (v >= -1.2 * r)], "on": on_boundary(P, g, 300), "corner": cor[:1 + g.randint(4)] if c["pf"]["corner"] else cor[:0]}
    keep, src = [], []
    for n in ("corner", "on", "in", "near"):
        m = len(pools[n]) if n == "corner" else c["pf"][n]
        for q in pools[n]:
            if not m:
                break
            if n == "on" and not flat(P, q, 2.0 * P.ref(q[None])[0], g):
                continue
            rq = c["gap"] * P.ref(q[None])[0]
            others = np.array(keep + ([] if n == "corner" else list(cor))).reshape(-1, d)
            if len(others) == 0 or np.linalg.norm(others - q, axis=1).min() >= rq:
                keep.append(q)
                src.append(n)
                m -= 1
    kw = {}
    if keep:
        o = g.permutation(len(keep))
        keep, src = [keep[i] for i in o], [src[i] for i in o]
        f = np.array(keep)
        kw["pfix"] = {"array": f, "list": f.tolist(), "tuples": [tuple(q) for q in f.tolist()], "fortran": np.asfortranarray(f)}[c["form"]]
    if c["sub"] and len(x):
        j = np.argmin(v)
        if -v[j] > 3 * h:
            kw["subdomains"] = [S.Disk(list(x[j]), 0.55 * -v[j]) if d == 2 else S.Ball(list(x[j]), 0.55 * -v[j])]
    tol = 1e-6 * (h + P.L)  # the prism uses rounded constants
    relaxed = c["iters"] >= (10 if d == 2 else 20)
    want = is_box and (d == 2 or c["size"]["kind"] == "const") and c.get("how") == "shape" and relaxed
    if want and d == 3:
        u = np.array([q for q, n in zip(keep, src) if n != "corner"]).reshape(-1, 3)
        cor = np.array([q for q in cor if "stretch" not in P.spec and (len(u) == 0 or np.linalg.norm(u - q, axis=1).min() > 4 * h)]).reshape(-1, 3)
        want = len(cor) > 0
    # NB: a free vertex may cover a fixed one on the boundary for some
    # iterations: such a point has to be missing later, too
    targets = [(q, n) for q, n in zip(keep, src) if n == "in" or (relaxed and (d == 2 or "stretch" not in P.spec))] + ([(q, "corner of the domain") for q in cor] if want else [])
    for more in (0, 13, 29):
        if more and (not targets or bad[1] == "in"):
            break
        p, t = P.mesh(**kw, max_iter=c["iters"] + more)
        if targets:
            i, e = missing(p, np.array([q for q, _ in targets]), tol)
            targets = [targets[j] for j in i]
            if targets:
                bad = (*min(targets, key=lambda x: x[1] != "in"), e[i].max() / h)
    require(not targets, lambda: f"fixed point {bad[0].tolist()} ({bad[1]}) is not a vertex, the closest is {bad[2]:.3g} edge lengths away", "fixed")
    rec.nt(any(s != "corner" for s in src) or (want and any(n in P.spec for n in ("rotate", "stretch"))))
    rec.label(f"{d}D", k, *["fixed_" + s for s in set(src)], *(["corners"] if want else []), *(["subdomain"] if "subdomains" in kw else []))


@st.composite
def case_seis(draw):
    c = draw(c04.case_seis(dims=(2,), iters=(2, 5, 10, 30)))
    c["npf"] = draw(st.integers(0, 3))
    c["eseed"] = draw(st.integers(0, 10 ** 6))
    return c


def chk_seis(c, rec):
    import SeismicMesh as S

    domain, sf, b, hmin, kw = c04.seis_problem(c)
    B = np.asarray(sf.bbox, float).reshape(-1, 2)
    if np.ptp(B, axis=1).min() < 3.5 * kw["hmax"]:
        rec.excluded = True
        return
    g = np.random.RandomState(c["eseed"])
    H = kw["hmax"]
    keep = []
    x = g.uniform(B[:, 0] + 1.3 * H, B[:, 1] - 1.3 * H, (60, 2))
    for q in x:
        if len(keep) < c["npf"] and all(np.linalg.norm(q - o) > 1.3 * H for o in keep):
            keep.append(q)
    o = {"pfix": np.array(keep)} if keep else {}
    with quiet():
        p, t = call(S.generate_mesh, domain, sf, what="generate_mesh", max_iter=c["iters"], seed=c["seed"], verbose=0, **o)
    if keep:
        bad, e = missing(p, np.array(keep), 1e-6 * hmin)
        require(len(bad) == 0, lambda: f"fixed point {keep[bad[0]].tolist()} is not a vertex, the closest is {e[bad[0]] / hmin:.3g} edge lengths away", "fixed")
    rec.label("pad" if c["pad"] else "nopad")
    rec.nt(bool(keep) or (not c["pad"] and c["iters"] >= 5))
    if not c["pad"] and c["iters"] >= 5:
        cor = sh.box_corners(B.ravel())
        bad, e = missing(p, cor, 1e-6 * hmin)
        require(len(bad) == 0, lambda: f"corner {cor[bad[0]].tolist()} is not a vertex", "corner")


SUBS = [
    Sub("mesh", case, chk, 900, 30000, shards=6),
    Sub("velocity_model", case_seis, chk_seis, 200, 6000, shards=2),
]
