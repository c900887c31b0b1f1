import numpy as np
from hypothesis import strategies as st

from vf import shapes as sh
from vf.core import Sub, Violation, call, require

RULE = ("A case is one primitive shape with parameters, optional rotation/stretch/translation and query points drawn "
        "by Hypothesis (points near the shape, on its boundary and far away). Non-trivial: the points include both "
        "inside and outside ones, and for the 'transformed' check at least one of rotation/stretch/translation is not the identity.")


@st.composite
def pts(draw, s, nmin=1, nmax=12):
    """Local (pulled-back) query points: uniform in an enlarged box around the
    solid, and points along rays from the centre to the boundary."""
    d = sh.pdim(s)
    out = []
    for _ in range(draw(st.integers(nmin, nmax))):
        out.append([draw(sh.fl(-1.6, 1.6)) for _ in range(d)])
    return out


@st.composite
def case_transformed(draw):
    s = draw(sh.prim())
    return {"s": s, "u": draw(pts(s))}


def local_points(s, u):
    u = np.asarray(u, float)
    c, z = sh.local_center(s), sh.size_of(s)
    pts = [c + z * row for row in u]
    for row in u:  # support points are on the boundary
        if np.linalg.norm(row) > 1e-3:
            b = sh.support(s, row)
            pts += [b, c + 0.9 * (b - c), c + 1.1 * (b - c)]
    return np.array(pts)


def chk_transformed(case, rec):
    s = case["s"]
    dom = sh.build(s)
    base = sh.build(sh.bare(s))
    y = local_points(s, case["u"])
    A, t = sh.forward(s)
    x = y @ A.T + t
    x_in = x.copy()
    f = np.asarray(call(dom.eval, x, what="eval"))
    require(np.array_equal(x, x_in), "eval modified the query points", "mutated")
    require(f.shape == (len(x),), f"eval returned shape {f.shape} for {len(x)} points", "shape")
    require(np.all(np.isfinite(f)), "eval returned a non-finite value", "nan")
    scale = 1.0 + np.abs(y).max() + np.abs(x).max()
    f0 = np.asarray(call(base.eval, y, what="eval"))
    bad = np.abs(f - f0) > 1e-9 * scale
    require(not bad.any(), lambda: f"transformed field at {x[bad][0].tolist()} is {f[bad][0]!r}, untransformed field at the pulled-back point is {f0[bad][0]!r}", "pullback")
    _, m = sh.local_inside(s, y)
    tol = 2e-6 * scale
    bad = ((m > tol) & (f >= 0)) | ((m < -tol) & (f <= 0)) | ((np.abs(m) < 1e-12 * scale) & (np.abs(f) > tol))
    require(not bad.any(), lambda: f"wrong sign: margin {m[bad][0]!r} (positive inside) but field {f[bad][0]!r} at {x[bad][0].tolist()}", "sign")
    nontriv = (m > tol).any() and (m < -tol).any()
    rec.nt(nontriv and any(s.get(k) is not None for k in ("rotate", "stretch", "translate")))
    rec.label(s["kind"], *[k for k in ("rotate", "stretch", "translate") if s.get(k) is not None])
    if s.get("rotate") and sum(1 for a in s["rotate"] if a) > 1:
        rec.label("multi-axis")


@st.composite
def case_base(draw):
    s = draw(sh.prim(transform=False))
    return {"s": s, "u": draw(pts(s))}


def chk_base(case, rec):
    s = case["s"]
    dom = sh.build(s)
    y = local_points(s, case["u"])
    f = np.asarray(call(dom.eval, y, what="eval"))
    scale = 1.0 + np.abs(y).max()
    d, m = sh.local_inside(s, y)
    if d is not None:
        bad = np.abs(f - d) > 1e-9 * scale
        require(not bad.any(), lambda: f"field {f[bad][0]!r} but signed distance {d[bad][0]!r} at {y[bad][0].tolist()}", "distance")
    tol = 2e-6 * scale
    bad = ((m > tol) & (f >= 0)) | ((m < -tol) & (f <= 0)) | ((np.abs(m) < 1e-12 * scale) & (np.abs(f) > tol))
    require(not bad.any(), lambda: f"wrong sign at {y[bad][0].tolist()}: field {f[bad][0]!r}, inside margin {m[bad][0]!r}", "sign")
    # never overstates the distance to the boundary: boundary points at known distance
    c = sh.local_center(s)
    bpts = []
    for row in np.asarray(case["u"]):
        if np.linalg.norm(row) > 1e-3:
            bpts.append(sh.support(s, row))
    if bpts:
        bpts = np.array(bpts)
        dist = np.linalg.norm(y[:, None] - bpts[None], axis=2).min(axis=1)
        bad = np.abs(f) > dist + tol
        require(not bad.any(), lambda: f"|field| {abs(f[bad][0])!r} exceeds the distance {dist[bad][0]!r} to the boundary at {y[bad][0].tolist()}", "overstate")
    rec.nt((m > tol).any() and (m < -tol).any())
    rec.label(s["kind"])


@st.composite
def case_lip(draw):
    s = draw(sh.prim())
    s.pop("stretch", None)
    d = sh.pdim(s)
    n = draw(st.integers(2, 8))
    return {"s": s, "u": [[draw(sh.fl(-2.5, 2.5)) for _ in range(d)] for _ in range(n)],
            "h": [draw(sh.fl(-1, 1)) for _ in range(d)], "e": draw(st.sampled_from([1e-3, 1e-2, 0.1, 1.0]))}


def chk_lip(case, rec):
    s = case["s"]
    dom = sh.build(s)
    A, t = sh.forward(s)
    y = sh.local_center(s) + sh.size_of(s) * np.asarray(case["u"])
    x = y @ A.T + t
    x2 = np.vstack([x, x + case["e"] * np.asarray(case["h"])])
    f = np.asarray(call(dom.eval, x2, what="eval"))
    D = np.linalg.norm(x2[:, None] - x2[None], axis=2)
    V = np.abs(f[:, None] - f[None])
    tol = 1e-6 * D + 1e-9 * (1 + np.abs(x2).max())
    bad = V > D + tol
    require(not bad.any(), lambda: f"field changes by {V[bad][0]!r} over a distance {D[bad][0]!r}", "lipschitz")
    rec.nt(np.any((V > 0.3 * D) & (D > 1e-6)))
    rec.label(s["kind"])


def case_batch():
    # evaluation of many points at once equals evaluation one by one (and any layout)
    @st.composite
    def c(draw):
        s = draw(sh.prim())
        return {"s": s, "n": draw(st.integers(0, 200)), "seed": draw(st.integers(0, 2 ** 20)),
                "layout": draw(st.sampled_from(["C", "F", "strided", "list", "f32"]))}
    return c()


def chk_batch(case, rec):
    s = case["s"]
    d = sh.pdim(s)
    dom = sh.build(s)
    g = np.random.RandomState(case["seed"])
    A, t = sh.forward(s)
    y = sh.local_center(s) + sh.size_of(s) * g.uniform(-1.5, 1.5, (case["n"], d))
    x = np.ascontiguousarray(y @ A.T + t)
    if case["n"] == 0:
        f = np.asarray(call(dom.eval, x.reshape(0, d), what="eval"))
        require(f.size == 0, "eval of no points returned values", "empty")
        return
    ref = np.array([np.asarray(call(dom.eval, x[i:i + 1].copy(), what="eval")).ravel()[0] for i in range(min(case["n"], 25))])
    lay = case["layout"]
    tol = 1e-9 * (1 + np.abs(x).max())
    if lay == "F":
        z = np.asfortranarray(x)
    elif lay == "strided":
        big = np.zeros((2 * len(x), d + 1))
        big[::2, :d] = x
        z = big[::2, :d]
    elif lay == "f32":
        z = x.astype(np.float32)
        tol = 1e-4 * (1 + np.abs(x).max())
    else:
        z = x
    f = np.asarray(call(dom.eval, z, what="eval"))
    require(f.shape == (len(x),), f"shape {f.shape}", "shape")
    k = len(ref)
    bad = np.abs(f[:k] - ref) > tol
    require(not bad.any(), lambda: f"value depends on the batch or layout ({lay}): {f[:k][bad][0]!r} vs {ref[bad][0]!r}", "batch")
    rec.nt(case["n"] > 1)
    rec.label(lay)


SUBS = [
    Sub("transformed", case_transformed, chk_transformed, 2400, 60000, shards=3),
    Sub("base", case_base, chk_base, 1200, 30000, shards=2),
    Sub("lipschitz", case_lip, chk_lip, 1000, 30000, shards=2),
    Sub("batch", case_batch, chk_batch, 400, 8000, shards=1),
]
