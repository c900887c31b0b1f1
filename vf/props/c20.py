import numpy as np
from hypothesis import strategies as st

from vf import meshes as ms
from vf.core import Sub, call, require
from vf.shapes import fl

RULE = ("A case is a valid generated 2D or 3D mesh that is then damaged: vertices duplicated (exactly, with flipped signs of zero, or displaced below an explicit tolerance), "
        "cells repeated with permuted vertices, cells inverted, unused vertices added, everything renumbered. The cleaned mesh must have the original cells as point sets. "
        "Non-trivial: at least one kind of damage was applied.")
ASSUMPTIONS = ["'coincide within tolerance' means equal after rounding to multiples of the tolerance times the mesh's extent",
               "the returned index map is a vertex map only when unused vertices are kept"]


@st.composite
def case(draw):
    return {"m": draw(ms.mesh()), "dup": draw(st.integers(0, 6)), "rep": draw(st.integers(0, 5)), "col": draw(st.sampled_from([0, 0, 0, 1, 3])), "inv": draw(st.booleans()), "unused": draw(st.integers(0, 4)),
            "zero": draw(st.booleans()), "snap": draw(st.booleans()), "far": draw(st.sampled_from([0, 0, 2 ** 20, 2 ** 30])), "del": draw(st.booleans()), "orient": draw(st.sampled_from([True, True, True, False])), "seed": draw(st.integers(0, 10 ** 6))}


def damage(c):
    p, t = ms.build(c["m"])
    p, t = ms.used_only(p, t)
    g = np.random.RandomState(c["seed"])
    d = p.shape[1]
    ptol = None
    if c["snap"]:
        # coordinates well inside the rounding cells of a coarse tolerance
        ext = np.ptp(p, axis=0).max()
        unit = ext / 2 ** 16
        q = np.round((p - p.min(0)) / unit)
        if len(np.unique(q, axis=0)) == len(q) and np.all(ms.vol(q, t) > 0.5):
            p = q * unit
            if c.get("far"):
                # far from the origin (integers, so that rounding cells are where they were)
                unit, p = 1.0, q + float(c["far"]) * g.choice([-1, 1], d)
            ptol = unit / np.ptp(p, axis=0).max()
    if c["zero"] and ptol is None:
        # move a vertex's coordinate to the origin so that +-0 occur
        k = t[g.randint(len(t))][0]
        p = p - p[k]
    base_p, base_t = p.copy(), t.copy()
    n = len(p)
    extra = []
    t = t.copy()
    for _ in range(c["dup"]):
        i = g.randint(n)
        v = p[i].copy()
        if c["zero"]:
            v = np.where(v == 0, np.copysign(0.0, g.choice([-1, 1], d)), v)
        if ptol is not None:
            v = v + g.uniform(-0.2, 0.2, d) * ptol * np.ptp(p, axis=0).max()
            v = np.clip(v, p.min(0), p.max(0))  # (the extent is the unit of the tolerance)
        extra.append(v)
        hit = np.argwhere(t == i)
        for r, q in hit:
            if g.uniform() < 0.5:
                t[r, q] = n + len(extra) - 1
    p2 = np.vstack([p] + [e[None] for e in extra])
    if c["zero"]:
        z = p2 == 0
        p2[z] = np.copysign(0.0, g.choice([-1, 1], z.sum()))
    nd = len(p2)
    if c["unused"]:
        lo, hi = p.min(0), p.max(0)
        u = g.uniform(lo, hi, (c["unused"], d))
        if ptol is not None:
            unit = ptol * np.ptp(p, axis=0).max()
            u = np.round(u / unit) * unit
        p2 = np.vstack([p2, u])
    for _ in range(c["rep"]):
        r = t[g.randint(len(t))]
        # a copy under another vertex order
        t = np.vstack([t, r[g.permutation(d + 1)][None]])
    for _ in range(c.get("col", 0)):
        # a cell that merging its coinciding vertices collapses
        if nd > n:
            j = n + g.randint(nd - n)
            i = int(np.argmin(((p2[:n] - p2[j]) ** 2).sum(1)))
            o = g.choice([k for k in range(n) if k != i], d - 1, replace=False)
            t = np.vstack([t, np.concatenate([[i, j], o])[None]])
    if c["inv"]:
        f = g.uniform(size=len(t)) < 0.4
        t[f] = t[f][:, [1, 0] + list(range(2, d + 1))]
    p2, t = ms.renumber(p2, t, g)
    return base_p, base_t, p2, t, ptol, g


def near_form(p, t, unit):
    """Cells as sets of points rounded to the tolerance."""
    q = np.round(p / unit) + 0.0
    return sorted(tuple(sorted(tuple(float(x) for x in q[i]) for i in c)) for c in t)


def chk(c, rec):
    from SeismicMesh.geometry import fix_mesh

    bp, bt, p, t, ptol, g = damage(c)
    d = p.shape[1]
    kw = {"dim": d, "delete_unused": c["del"]}
    if ptol is not None:
        kw["ptol"] = ptol
    if not c["orient"]:
        kw["fix_orientation"] = False
    p0, t0 = p.copy(), t.copy()
    q, s, jx = call(fix_mesh, p, t, **kw)
    require(np.array_equal(p, p0) and np.array_equal(t, t0) and np.array_equal(np.signbit(p), np.signbit(p0)), "the arguments were modified", "mutated")
    ext = np.ptp(bp, axis=0).max()
    unit = (ptol or 2e-13) * ext
    form = (lambda a, b: ms.cells_as_points(a, b)) if ptol is None else (lambda a, b: near_form(a, b, unit))
    require(s.ndim == 2 and s.shape[1] == d + 1 and (len(s) == 0 or (s.min() >= 0 and s.max() < len(q))), "connectivity out of range", "index")
    want = form(bp, bt)
    got = form(q, s)
    require(got == want, lambda: f"cells changed: {len(got)} cells, expected {len(want)}; first difference "
            f"{next((a for a in got if a not in set(want)), None)} / {next((b for b in want if b not in set(got)), None)}", "cells")
    # distinct vertices
    key = {tuple(np.round(x / unit) + 0.0) for x in q}
    require(len(key) == len(q), f"{len(q) - len(key)} duplicated vertices remain", "duplicates")
    rows = {tuple(x) for x in (p + 0.0).tolist()}
    require(all(tuple(x) in rows for x in (q + 0.0).tolist()), "a vertex that was not in the mesh", "invented")
    if c["del"]:
        require(len(np.unique(s)) == len(q), "unused vertices remain", "unused")
    else:
        allk = {tuple(np.round(x / unit) + 0.0) for x in p}
        require(allk == key, "a vertex was lost or merged with a different one", "merged")
        jx = np.asarray(jx).ravel()
        require(len(jx) == len(p) and jx.min() >= 0 and jx.max() < len(q), f"index map of {len(jx)} entries for {len(p)} vertices", "map")
        require(np.all(np.abs(q[jx] - p) <= unit), "the index map does not take a vertex to its position", "map")
    if c["orient"]:
        require(np.all(ms.vol(q, s) > 0), "a cell is not positively oriented", "orientation")
    # applying it again changes nothing but order
    q2, s2, _ = call(fix_mesh, q, s, **kw)
    require(len(q2) == len(q) and form(q2, s2) == want, "cleaning twice is not cleaning once", "idempotent")
    # numbering does not matter
    p3, t3 = ms.renumber(p, t, g)
    q3, s3, _ = call(fix_mesh, p3, t3, **kw)
    require(len(q3) == len(q) and form(q3, s3) == want, "the result depends on the numbering", "numbering")
    rec.nt(bool(c["dup"] or c["rep"] or c["inv"] or c["unused"]))
    rec.label(f"{d}D", c["m"]["kind"], "tolerance" if ptol else "exact", *[k for k in ("dup", "rep", "inv", "unused", "zero", "del") if c[k]])


@st.composite
def rows_case(draw):
    nc = draw(st.integers(1, 4))
    return {"rows": draw(st.lists(st.lists(st.integers(-3, 3), min_size=nc, max_size=nc), min_size=1, max_size=25)), "dtype": draw(st.sampled_from(["int64", "int32", "float64"])),
            "order": draw(st.sampled_from(["C", "F"]))}


def chk_rows(case, rec):
    from SeismicMesh.geometry import unique_rows

    A = np.array(case["rows"], dtype=case["dtype"], order=case["order"])
    B, i, j = call(unique_rows, A, True, True)
    want = sorted({tuple(r) for r in A.tolist()})
    require(sorted(map(tuple, B.tolist())) == want and B.dtype == A.dtype, "not the distinct rows", "rows")
    i, j = np.asarray(i).ravel(), np.asarray(j).ravel()
    require(np.array_equal(A[i], B) and len(j) == len(A) and np.array_equal(B[j], A), "I and J do not relate rows and distinct rows", "maps")
    require(np.array_equal(call(unique_rows, A), B), "the result depends on the requested maps", "maps")
    B2, i2 = call(unique_rows, A, True)
    B3, j3 = call(unique_rows, A, False, True)
    require(np.array_equal(B2, B) and np.array_equal(np.ravel(i2), i) and np.array_equal(B3, B) and np.array_equal(np.ravel(j3), j), "the result depends on the requested maps", "maps")
    rec.nt(len(want) < len(A))


SUBS = [
    Sub("fix_mesh", case, chk, 1500, 40000, shards=5),
    Sub("unique_rows", rows_case, chk_rows, 600, 10000, shards=1),
]
