import numpy as np
from hypothesis import strategies as st

from vf import shapes as sh
from vf.core import Sub, call, require

RULE = ("A case is a primitive shape or a nested set operation over primitives, with random rotations, stretches and translations. "
        "Its exact support points along the box axes and 60 interior points of every primitive, mapped through the transformation, "
        "are compared with the reported box and corners. Non-trivial: some transformation is present or there are at least two operands.")


def interior_points(s, n, g):
    """Points of the closed transformed primitive, including the extreme ones."""
    d = sh.pdim(s)
    A, t = sh.forward(s)
    c = sh.local_center(s)
    ys = []
    for i in range(d):
        for sg in (1.0, -1.0):
            e = np.zeros(d)
            e[i] = sg
            ys.append(sh.support(s, A.T @ e))
    for _ in range(n):
        b = sh.support(s, g.normal(size=d))
        ys.append(c + (b - c) * g.uniform(0, 1) if s["kind"] != "torus" else b)
    return np.array(ys) @ A.T + t


def in_box(x, bbox):
    b = np.asarray(bbox, float).reshape(-1, 2)
    return np.maximum(b[:, 0] - x, x - b[:, 1]).max(axis=1)


def case_prim():
    @st.composite
    def c(draw):
        return {"s": draw(sh.prim()), "seed": draw(st.integers(0, 10 ** 6))}
    return c()


def chk_prim(case, rec):
    s = case["s"]
    d = sh.pdim(s)
    dom = sh.build(s)
    require(len(dom.bbox) == 2 * d and isinstance(dom.bbox, tuple), f"bbox {dom.bbox!r} is not a tuple of {2 * d} numbers", "form")
    b = np.asarray(dom.bbox, float).reshape(-1, 2)
    require(np.all(np.isfinite(b)) and np.all(b[:, 0] < b[:, 1]), f"degenerate box {dom.bbox!r}", "form")
    x = interior_points(s, 60, np.random.RandomState(case["seed"]))
    scale = 1 + np.abs(x).max()
    out = in_box(x, dom.bbox)
    k = int(np.argmax(out))
    require(out[k] <= 1e-6 * scale, lambda: f"point {x[k].tolist()} of the shape lies {out[k]:.3g} outside its bounding box {tuple(map(float, dom.bbox))}", "bbox")
    tr = [k for k in ("rotate", "stretch", "translate") if s.get(k) is not None]
    rec.nt(bool(tr))
    rec.label(s["kind"], *tr)
    if s.get("rotate") and sum(1 for a in s["rotate"] if a) > 1:
        rec.label("multi-axis")


def case_corners():
    @st.composite
    def c(draw):
        return {"s": draw(sh.prim(kinds=("rect", "cube")))}
    return c()


def match_sets(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    D = np.linalg.norm(a[:, None] - b[None], axis=2)
    return bool(np.all(D.min(axis=1) <= tol) and np.all(D.min(axis=0) <= tol))


def chk_corners(case, rec):
    s = case["s"]
    dom = sh.build(s)
    A, t = sh.forward(s)
    want = sh.box_corners(s["bbox"]) @ A.T + t
    got = dom.corners
    require(got is not None, "no corners reported", "corners")
    scale = 1 + np.abs(want).max()
    require(match_sets(got, want, 1e-8 * scale), lambda: f"corners {np.asarray(got).tolist()} but the transformed corners are {want.tolist()}", "corners")
    f = np.asarray(call(dom.eval, np.asarray(got, float), what="eval"))
    require(np.all(np.abs(f) <= 1e-8 * scale), lambda: f"corners are off the boundary by {np.abs(f).max():.3g}", "off-boundary")
    tr = [k for k in ("rotate", "stretch", "translate") if s.get(k) is not None]
    rec.nt(bool(tr))
    rec.label(s["kind"], *tr)


@st.composite
def tree(draw, dim, depth=2):
    if depth == 0 or draw(st.integers(0, 2)) == 0:
        return draw(sh.prim(dim=dim))
    n = draw(st.integers(1, 4)) if depth > 1 else draw(st.integers(1, 3))
    t = {"kind": draw(st.sampled_from(["union", "inter", "diff"])), "ops": [draw(tree(dim, depth - 1)) for _ in range(n)]}
    if draw(st.integers(0, 2)) == 0:
        t["k"] = draw(sh.fl(0.01, 1.0))
    return t


def case_tree():
    @st.composite
    def c(draw):
        return {"s": draw(st.sampled_from([2, 3]).flatmap(lambda d: tree(d))), "seed": draw(st.integers(0, 10 ** 6))}
    return c()


def leaves(s):
    if "ops" in s:
        return [x for o in s["ops"] for x in leaves(o)]
    return [s]


def chk_tree(case, rec):
    s = case["s"]
    dom = sh.build(s)
    d = sh.pdim(s)
    g = np.random.RandomState(case["seed"])
    lv = leaves(s)
    require(isinstance(dom.bbox, tuple) and len(dom.bbox) == 2 * d, f"bbox {dom.bbox!r}", "form")
    x = np.vstack([interior_points(q, 40, g) for q in lv])
    # and points anywhere in a box well beyond everything
    lo, hi = x.min(0) - 2, x.max(0) + 2
    x = np.vstack([x, g.uniform(lo, hi, (200, d))])
    f = np.asarray(call(dom.eval, x, what="eval"))
    scale = 1 + np.abs(x).max()
    ksum = _ksum(s)
    out = in_box(x, dom.bbox)
    # a smooth union may bulge out of the operands' boxes by up to k/4 per blend
    bad = (f < -1e-7 * scale - ksum) & (out > 1e-6 * scale)
    require(not bad.any(), lambda: f"point {x[bad][0].tolist()} has field {f[bad][0]:.4g} < 0 but lies {out[bad][0]:.3g} outside the bounding box {tuple(map(float, dom.bbox))}", "bbox")
    rec.nt(len(lv) >= 2 and (f < 0).any())
    rec.label(s["kind"], f"leaves{min(len(lv), 5)}", "smooth" if ksum else "sharp")
    if "ops" in s:
        # corners are those of the operands
        want = [np.asarray(o.corners) for o in dom.domains if o.corners is not None]
        if want:
            require(dom.corners is not None and match_sets_multi(dom.corners, np.concatenate(want)),
                    "corners of the set operation are not those of its operands", "corners")
        else:
            require(dom.corners is None or len(dom.corners) == 0, "corners out of nothing", "corners")


def match_sets_multi(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a[np.lexsort(a.T)], b[np.lexsort(b.T)])


def _ksum(s):
    if "ops" not in s:
        return 0.0
    own = s.get("k", 0.0) / 4 * max(len(s["ops"]) - 1, 0) if s["kind"] == "union" else s.get("k", 0.0) / 4 * max(len(s["ops"]) - 1, 0)
    return own + max(_ksum(o) for o in s["ops"])


def case_repeat():
    @st.composite
    def c(draw):
        b = []
        for _ in range(3):
            a = draw(sh.fl(-6, 0))
            b += [a, a + draw(sh.fl(1, 8))]
        return {"s": {"kind": "repeat", "bbox": b, "ops": [draw(sh.prim(dim=3, size=(0.2, 1.0)))],
                      "period": [draw(sh.fl(0.5, 4)) for _ in range(3)]}, "seed": draw(st.integers(0, 10 ** 6))}
    return c()


def chk_repeat(case, rec):
    s = case["s"]
    dom = sh.build(s)
    g = np.random.RandomState(case["seed"])
    b = np.asarray(s["bbox"]).reshape(-1, 2)
    x = g.uniform(b[:, 0] - 2, b[:, 1] + 2, (400, 3))
    f = np.asarray(call(dom.eval, x, what="eval"))
    out = in_box(x, dom.bbox)
    bad = (f < -1e-9) & (out > 1e-6)
    require(not bad.any(), "a point of the repeated shape lies outside its box", "bbox")
    rec.nt((f < 0).any())


SUBS = [
    Sub("prim_bbox", case_prim, chk_prim, 1600, 40000, shards=3),
    Sub("box_corners", case_corners, chk_corners, 800, 20000, shards=1),
    Sub("tree", case_tree, chk_tree, 700, 15000, shards=3),
    Sub("repeat", case_repeat, chk_repeat, 200, 4000, shards=1),
]
