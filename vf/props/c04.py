import numpy as np
from hypothesis import strategies as st

from vf import dom, meshes as ms, shapes as sh
from vf import sz
from vf.core import Sub, call, quiet, require
from vf.shapes import fl

RULE = ("A case is a whole call of mesh generation: a 2D or 3D domain (transformed primitives, sharp or smooth unions, intersections and differences, also given as a plain function), a constant, linear, radial or grid-based edge length "
        "that resolves it, 1 to 60 iterations, and any combination of options (seed, improvement, linting, fixed points, subdomains, initial points, time step, r0m_is_h0) at several scales. The returned mesh is checked completely: shapes, ranges, "
        "finite values, duplicates, unused vertices, facet multiplicities, orientation and, after twenty or more iterations in 2D, pairwise overlaps. Non-trivial: the domain is resolved and the mesh has at least 20 cells.")
ASSUMPTIONS = ["a 3D mesh that is linted after fewer than ten iterations is not asked for conformity (known finding: linting removes flat cells of the still regular grid, the holes' vertices are then dragged to the boundary)",
               "a domain is resolved if every part of it and every gap is wider than about two local edge lengths (decided on a sample grid from an independent field); unresolved draws are counted as excluded",
               "with few iterations the points have not relaxed and the final projection to the boundary may fold cells over each other, so overlaps (and the absence of cells of exactly zero area) are asserted from twenty iterations on",
               "in combined 2D domains overlaps are asserted if necks and gaps are wider than about three local edge lengths (two after fifty iterations); with blending only after fifty iterations",
               "user-supplied initial points have the density the edge length asks for"]


def check_valid(p, t, d, overlap=True, positive=True, conform=True):
    require(p.ndim == 2 and p.shape[1] == d, lambda: f"vertices of shape {p.shape} in {d}D", "shape")
    require(t.ndim == 2 and t.shape[1] == d + 1 and t.dtype.kind in "iu", lambda: f"cells of shape {t.shape}, {t.dtype}", "shape")
    require(len(t) > 0, "no cells", "empty")
    require(np.isfinite(p).all(), "vertices are not finite", "finite")
    require(t.min() >= 0 and t.max() < len(p), lambda: f"cells refer to vertices {t.min()}..{t.max()} of {len(p)}", "range")
    require(not conform or (np.diff(np.sort(t, axis=1), axis=1) > 0).all(), "a cell repeats a vertex", "cellvertex")
    require(len(np.unique(t)) == len(p), lambda: f"{len(p) - len(np.unique(t))} vertices belong to no cell", "unused")
    require(len(np.unique(p + 0.0, axis=0)) == len(p), "duplicated vertices", "dupvertex")
    require(len(np.unique(np.sort(t, axis=1), axis=0)) == len(t), "duplicated cells", "dupcell")
    f, n = dom.facets(t)
    require(not conform or n.max() <= 2, lambda: f"a {'edge' if d == 2 else 'facet'} belongs to {n.max()} cells", "facets")
    v = ms.vol(p, t)
    if d == 2 and positive:
        # NB: smoothing an unrelaxed mesh may flatten a cell to zero area
        bad = v <= 0 if overlap else v < -1e-10 * np.abs(v).max()
        require(not bad.any(), lambda: f"{bad.sum()} cells of {'non-positive' if overlap else 'negative'} area", "area")
    if d == 2 and overlap:
        o = dom.overlaps(p, t)
        require(len(o) == 0, lambda: f"{len(o)} pairs of cells overlap, e.g. {p[t[o[0, 0]]].tolist()} and {p[t[o[0, 1]]].tolist()}", "overlap")


@st.composite
def options(draw, dim):
    o = {}
    if draw(st.booleans()):
        o["perform_checks"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        o["r0m_is_h0"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        o["delta_t"] = draw(fl(0.1, 0.35))
    return o


ITERS = (2, 3, 5, 7, 10, 12, 20, 30, 50, 60)


@st.composite
def case_main(draw, dims=(2, 3)):
    c = draw(dom.case(dims=dims, iters=ITERS, res2=(5.0, 25.0), res3=(4.0, 8.0)))
    c.update(draw(options(c["dim"])))
    c["extra"] = draw(st.sampled_from(["none", "none", "none", "pfix", "points", "sub"]))
    c["eseed"] = draw(st.integers(0, 10 ** 6))
    return c


def cloud(P, g, jitter=0.25):
    """Points of the density the edge length asks for: a jittered staggered grid, thinned."""
    d, h = P.dim, P.h
    ax = [np.arange(b[0], b[1] + h, h) for b in P.box]
    x = np.meshgrid(*ax, indexing="ij")
    x[1][1::2] += h / 2
    x = np.column_stack([q.ravel() for q in x]) + g.uniform(-jitter, jitter, (x[0].size, d)) * h
    x = x[P.f(x) < 0.05 * h]
    r = P.ref(x)
    return x[g.uniform(size=len(x)) < (r.min() / r) ** d]


def extras(P, c):
    g = np.random.RandomState(c["eseed"])
    kw = {}
    d, h = P.dim, P.h
    if c["extra"] == "none":
        return kw
    x = g.uniform(P.box[:, 0], P.box[:, 1], (4000, d))
    x = x[P.f(x) < 0]
    if c["extra"] == "pfix":
        keep = []
        for q in x[:200]:
            if P.f(q[None])[0] < -1.2 * P.ref(q[None])[0] and all(np.linalg.norm(q - k) > 2 * P.ref(q[None])[0] for k in keep):
                keep.append(q)
            if len(keep) == 4:
                break
        if keep:
            kw["pfix"] = np.array(keep)
    elif c["extra"] == "points":
        q = cloud(P, g)
        if g.randint(2):
            q = np.vstack([q, q[:3]])  # repeated points
        kw["points"] = q
    elif c["extra"] == "sub" and len(x):
        j = np.argmin(P.f(x))
        r = -P.f(x[j:j + 1])[0]
        if r > 3 * h:
            import SeismicMesh as S

            kw["subdomains"] = [S.Disk(list(x[j]), 0.55 * r) if d == 2 else S.Ball(list(x[j]), 0.55 * r)]
    return kw


def chk_main(c, rec):
    P = dom.Problem(c)
    ok = P.resolved()
    if not ok:
        rec.excluded = True
        rec.label("unresolved")
        return
    kw = extras(P, c)
    p, t = P.mesh(**kw)
    # known finding: see known_findings.json (its replay sets "strict")
    conform = not (P.dim == 3 and c.get("perform_checks") and c["iters"] < 10) or c.get("strict", False)
    # combined domains: necks and blends a bit wider still
    relaxed = c["iters"] >= 20 and (P.dim == 3 or "ops" not in P.spec or (P.resolved(1.0 if c["iters"] >= 50 else 1.5) and (c["iters"] >= 50 or not P.spec.get("k"))))
    check_valid(p, t, P.dim, overlap=relaxed, conform=conform)
    rec.nt(len(t) >= 20)
    rec.label(f"{P.dim}D", c["dom"]["kind"], c["size"]["kind"], "with_" + (list(kw)[0] if kw else "none"), "iters>=20" if c["iters"] >= 20 else "iters<20")
    if P.spec.get("k"):
        rec.label("smooth")


# ------------------------------------------------------- velocity-model sizing


@st.composite
def case_seis(draw, dims=(2, 2, 2, 3), maxratio=3.0, iters=(5, 10, 20, 30, 50)):
    m = draw(sz.model(dims=dims, nmax2=12, nmax3=6, iso=True, extent=(800.0, 8000.0)))
    d = len(m["shape"])
    return {"m": m, "iters": draw(st.sampled_from(iters)), "seed": draw(st.integers(0, 2 ** 31)), "res": draw(fl(8, 22) if d == 2 else fl(4, 8)), "ratio": draw(fl(1.0, maxratio)), "grade": draw(st.sampled_from([0.0, 0.1, 0.2, 0.35])),
            "pad": draw(st.sampled_from([None, None, "edge", "linear_ramp", "constant"])), "padw": draw(fl(0.1, 0.5)), "mode": draw(st.sampled_from(["wl", "grad", "const"]))}


def seis_problem(c):
    import SeismicMesh as S

    m = c["m"]
    b = np.asarray(m["bbox"], float).reshape(-1, 2)
    L = np.ptp(b, axis=1).max()
    hmin = float(L / c["res"])
    vp = sz.velocity(m)
    kw = {"hmin": hmin, "hmax": hmin * c["ratio"]}
    if c["mode"] == "wl":
        kw.update(wl=5, freq=float(vp.min() / (5 * hmin)))
    elif c["mode"] == "grad":
        kw.update(grad=float(0.5 * hmin * (0.1 + 1)))
    if c["grade"]:
        kw["grade"] = c["grade"]
    if c["pad"]:
        kw["domain_pad"] = float(c["padw"] * np.ptp(b, axis=1).min())
        kw["pad_style"] = c["pad"]
    with quiet():
        sf = sz.sizing(m, vp, **kw)
        cls = S.Rectangle if len(b) == 2 else S.Cube
        domain = call(cls, tuple(float(v) for v in b.ravel()), what="Rectangle")
    return domain, sf, b, hmin, kw


def chk_seis(c, rec):
    import SeismicMesh as S

    domain, sf, b, hmin, kw = seis_problem(c)
    ext = np.ptp(np.asarray(sf.bbox).reshape(-1, 2), axis=1)
    if ext.min() < 3.5 * kw["hmax"]:
        rec.excluded = True
        return
    with quiet():
        p, t = call(S.generate_mesh, domain, sf, what="generate_mesh", max_iter=c["iters"], seed=c["seed"], verbose=0)
    p, t = np.asarray(p), np.asarray(t)
    check_valid(p, t, len(b), overlap=c["iters"] >= 20)
    rec.nt(len(t) >= 20)
    rec.label(f"{len(b)}D", "pad" if c["pad"] else "nopad", c["mode"])


SUBS = [
    Sub("mesh2", lambda: case_main(dims=(2,)), chk_main, 1600, 40000, shards=4),
    Sub("mesh3", lambda: case_main(dims=(3,)), chk_main, 400, 10000, shards=4),
    Sub("velocity_model", case_seis, chk_seis, 400, 10000, shards=2),
]
