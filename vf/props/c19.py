import itertools

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, call, require

RULE = ("A case is a history of insertions, moves and removals (1 to 9 operations, integer lattices of different fineness so that duplicate, collinear, "
        "cocircular and cospherical points are common) on the 2D or 3D triangulation object, or one point set for the one-shot functions. After every operation "
        "the triangulation is compared with a set model and checked with exact integer arithmetic. Non-trivial: at least two operations of which one moves or "
        "removes, ending with at least one cell (histories), or at least one cell (one-shot).")
ASSUMPTIONS = ["indices in one move or removal are distinct and in range", "get_finite_vertices is called before get_finite_cells, as the class requires"]

SC = 2.0 ** -12  # lattice unit; coordinates are exact doubles


def det3(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


def orient(pts):
    d = len(pts[0])
    r = [[int(a - b) for a, b in zip(p, pts[0])] for p in pts[1:]]
    if d == 2:
        return r[0][0] * r[1][1] - r[0][1] * r[1][0]
    return det3(*r)


def in_ball(pts, q):
    """> 0 iff q is strictly inside the circumball of the positively oriented cell."""
    r = [[int(a - b) for a, b in zip(p, q)] for p in pts]
    if len(q) == 2:
        m = [x + [x[0] ** 2 + x[1] ** 2] for x in r]
        return det3(*m)
    m = [x + [x[0] ** 2 + x[1] ** 2 + x[2] ** 2] for x in r]
    # 4x4 determinant along the last column
    s = 0
    for i in range(4):
        o = [m[j][:3] for j in range(4) if j != i]
        s += (-1) ** (i + 3) * m[i][3] * det3(*o)
    return -s


def check_cells(ipts, cells, d, what):
    """Exact check that the cells are a Delaunay triangulation of the points."""
    n = len(ipts)
    if len(cells) == 0:
        # only if all points lie in a lower dimensional space
        if n > d:
            base = [ipts[0]]
            a = np.array(ipts, object) - np.array(ipts[0], object)
            require(np.linalg.matrix_rank(np.array(a, float)) < d, f"{what}: no cells for points that span the space", "empty")
        return 0
    used = set()
    facets = {}
    vol = 0
    for c in cells:
        require(len(set(c)) == d + 1 and min(c) >= 0 and max(c) < n, lambda: f"{what}: cell {c} does not index the {n} vertices", "index")
        p = [ipts[i] for i in c]
        o = orient(p)
        require(o > 0, lambda: f"{what}: cell {c} is not positively oriented", "orientation")
        vol += o
        used.update(c)
        for i, q in enumerate(ipts):
            if i not in c and q not in p:
                require(in_ball(p, q) <= 0, lambda: f"{what}: vertex {q} lies inside the circumball of cell {p}", "delaunay")
        for k in range(d + 1):
            facets.setdefault(frozenset(c[:k] + c[k + 1:]), []).append((c, k))
    for f, l in facets.items():
        require(len(l) <= 2, f"{what}: a facet belongs to {len(l)} cells", "conform")
        if len(l) == 1:
            # a hull facet: every vertex on the side of its cell
            c, k = l[0]
            for q in ipts:
                p = [ipts[i] for i in c]
                p[k] = q
                require(orient(p) >= 0, f"{what}: the cells do not cover the convex hull", "hull")
    return vol


def latt(d):
    """(fineness, integer coordinates)"""
    return st.sampled_from([2, 3, 5, 64, 4096]).flatmap(
        lambda m: st.lists(st.lists(st.integers(-m, m), min_size=d, max_size=d), min_size=0, max_size=14))


@st.composite
def hist(draw):
    d = draw(st.sampled_from([2, 2, 3]))
    ops = []
    shift = [draw(st.sampled_from([0, 0, 1000, -30000])) for _ in range(d)]
    for k in range(draw(st.integers(1, 9))):
        op = "insert" if k == 0 else draw(st.sampled_from(["insert", "move", "move", "remove"]))
        if op == "insert":
            ops.append([op, draw(latt(d))])
        else:
            sel = draw(st.lists(st.integers(0, 60), min_size=0, max_size=6))
            if op == "remove":
                ops.append([op, sel])
            else:
                how = draw(st.sampled_from(["new", "onto", "nudge"]))
                tgt = draw(st.lists(st.lists(st.integers(-5, 5), min_size=d, max_size=d), min_size=len(sel), max_size=len(sel)))
                ops.append([op, sel, how, tgt, draw(st.integers(0, 60))])
    return {"d": d, "ops": ops, "shift": shift, "mask": draw(st.integers(0, 2 ** 20))}


def to_int(v):
    a = np.rint(np.asarray(v, float) / SC)
    return [tuple(int(x) for x in r) for r in a]


def chk_hist(case, rec):
    from SeismicMesh.generation import DelaunayTriangulation, DelaunayTriangulation3

    d = case["d"]
    dt = (DelaunayTriangulation if d == 2 else DelaunayTriangulation3)()
    model = set()
    verts = []
    kinds = set()
    ncells = 0
    for k, op in enumerate(case["ops"]):
        what = f"operation {k} ({op[0]})"
        if op[0] == "insert":
            pts = [tuple(int(a) + s for a, s in zip(p, case["shift"])) for p in op[1]]
            ret = call(dt.insert, [x * SC for p in pts for x in p], what="insert")
            require(ret == len(set(pts) - model), f"{what}: insert reported {ret} new vertices, expected {len(set(pts) - model)}", "count")
            model |= set(pts)
        else:
            if not verts:
                continue
            sel = list(dict.fromkeys(i % len(verts) for i in op[1]))
            if op[0] == "remove":
                res = call(dt.remove, sel, what="remove")
                model -= {verts[i] for i in sel}
            else:
                tgt = []
                for j, i in enumerate(sel):
                    if op[2] == "onto":
                        tgt.append(verts[(op[4] + j) % len(verts)])
                    elif op[2] == "nudge":
                        tgt.append(tuple(a + b for a, b in zip(verts[i], op[3][j])))
                    else:
                        tgt.append(tuple(a * 7 + s for a, s in zip(op[3][j], case["shift"])))
                res = call(dt.move, sel, [x * SC for p in tgt for x in p], what="move")
                cur = {i: verts[i] for i in range(len(verts))}
                for i, p in zip(sel, tgt):  # one after the other; moving onto an occupied position merges
                    hit = [j for j, q in cur.items() if q == p and j != i]
                    if hit:
                        del cur[i]
                    else:
                        cur[i] = p
                model = set(cur.values())
            kinds.add(op[0])
            other = to_int(call(res.get_finite_vertices, what="get_finite_vertices"))
            require(set(other) == model and len(other) == len(model), f"{what}: the returned triangulation does not hold the current points", "returned")
        v = np.asarray(call(dt.get_finite_vertices, what="get_finite_vertices"))
        t = np.asarray(call(dt.get_finite_cells, what="get_finite_cells"))
        require(v.ndim == 2 and v.shape[1] == d and t.ndim == 2 and t.shape[1] == d + 1, f"{what}: shapes {v.shape}, {t.shape}", "shape")
        verts = to_int(v)
        require(np.array_equal(np.asarray(verts, float).reshape(-1, d) * SC, v), f"{what}: vertex coordinates altered", "coords")
        require(len(verts) == len(model) and set(verts) == model, lambda: f"{what}: vertices {sorted(verts)}, expected {sorted(model)}", "vertices")
        nc = call(dt.number_of_faces if d == 2 else dt.number_of_cells, what="number_of_cells")
        require(call(dt.number_of_vertices, what="number_of_vertices") == len(verts) and nc == len(t), f"{what}: counts do not agree with the lists", "count")
        require(sum(1 for _ in dt.finite_vertices()) == len(verts), f"{what}: the vertex iterator disagrees with the list", "count")
        cells = [tuple(int(i) for i in c) for c in t]
        check_cells(verts, cells, d, what)
        ncells = len(cells)
        if ncells:
            mask = [(case["mask"] >> (i % 20)) & 1 for i in range(ncells)]
            e = np.asarray(call(dt.get_edges, mask, what="get_edges"))
            got = sorted(tuple(sorted(map(int, q))) for q in e)
            want = sorted({tuple(sorted(q)) for c, m in zip(cells, mask) if m for q in itertools.combinations(c, 2)})
            require(got == want, lambda: f"{what}: edges of the selected cells are {got}, expected {want}", "edges")
    rec.nt(len(case["ops"]) >= 2 and bool(kinds) and ncells > 0)
    rec.label(f"{d}D", *kinds, "flat" if not ncells else "solid", f"ops{len(case['ops'])}")


@st.composite
def oneshot(draw):
    d = draw(st.sampled_from([2, 3]))
    a, b = draw(latt(d)), draw(latt(d))
    return {"d": d, "pts": a + b, "layout": draw(st.sampled_from(["C", "slice", "list"]))}


def chk_oneshot(case, rec):
    from SeismicMesh.generation import _delaunay2, _delaunay3

    d, pts = case["d"], [tuple(p) for p in case["pts"]]
    a = np.asarray(pts, float).reshape(-1, d) * SC
    cols = [np.ascontiguousarray(a[:, i]) if case["layout"] == "C" else a[:, i] if case["layout"] == "slice" else a[:, i].tolist() for i in range(d)]
    t = np.asarray(call(_delaunay2 if d == 2 else _delaunay3, *cols, what="one-shot Delaunay"))
    cells = [tuple(int(i) for i in c) for c in t.reshape(-1, d + 1)]
    n = len(pts)
    # duplicates: canonical index = first occurrence
    first = {}
    for i, p in enumerate(pts):
        first.setdefault(p, i)
    uniq = sorted(first.values())
    pos = {pts[i]: k for k, i in enumerate(uniq)}
    for c in cells:
        require(min(c) >= 0 and max(c) < n, lambda: f"cell {c} does not index the {n} points", "index")
    check_cells([pts[i] for i in uniq], [tuple(pos[pts[i]] for i in c) for c in cells], d, "one-shot")
    require(len({i for c in cells for i in c}) == len(uniq) or not cells, "a point is not a vertex of the triangulation", "unused")
    rec.nt(len(cells) > 0)
    rec.label(f"{d}D", case["layout"], "dups" if len(uniq) < n else "distinct")


SUBS = [
    Sub("history", hist, chk_hist, 1400, 40000, shards=6),
    Sub("oneshot", oneshot, chk_oneshot, 500, 12000, shards=2),
]
