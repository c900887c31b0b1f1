import itertools

import numpy as np
from hypothesis import strategies as st

from vf import meshes as ms
from vf.core import Sub, call, require

RULE = ("A case is a generated 2D or 3D mesh (random, grid, ring, clusters; cells dropped at random or to form a hole; unused vertices; any numbering) on which every "
        "topology query is compared with its brute-force definition. Non-trivial: at least two cells and the mesh has interior facets.")


@st.composite
def case(draw):
    return {"m": draw(ms.mesh()), "seed": draw(st.integers(0, 10 ** 6)), "unused": draw(st.booleans()), "dtype": draw(st.sampled_from(["int64", "int32"]))}


def make(c):
    p, t = ms.build(c["m"])
    if not c["unused"]:
        p, t = ms.used_only(p, t)
    p, t = ms.renumber(p, t, np.random.RandomState(c["seed"]))
    return p, t.astype(c["dtype"])


def pairs(a):
    return sorted(tuple(sorted(map(int, e))) for e in a)


def chk(c, rec):
    from SeismicMesh import geometry as G

    p, t = make(c)
    d = p.shape[1]
    t0 = t.copy()
    fc = ms.facet_count(t)
    bnd = sorted(f for f, l in fc.items() if len(l) == 1)
    if d == 2:
        got = call(G.get_boundary_edges, t, what="get_boundary_edges")
        require(pairs(got) == bnd, lambda: f"boundary edges {pairs(got)[:6]}.. expected {bnd[:6]}..", "boundary-edges")
    else:
        got = call(G.get_boundary_facets, t, what="get_boundary_facets")
        require(pairs(got) == bnd, lambda: f"{len(got)} boundary facets, expected {len(bnd)}", "boundary-facets")
        f = call(G.get_facets, t, what="get_facets")
        want = sorted(x for x, l in fc.items() for _ in l)
        require(pairs(f) == want, "get_facets does not give every facet of every cell once", "facets")
    bv = sorted({i for f in bnd for i in f})
    gv = call(G.get_boundary_vertices, t, d, what="get_boundary_vertices")
    require([int(x) for x in gv] == bv, "boundary vertices", "boundary-vertices")
    sb = set(bv)
    be = [i for i, cell in enumerate(t) if any(int(v) in sb for v in cell)]
    ge = call(G.get_boundary_entities, p, t, dim=d, what="get_boundary_entities")
    require(sorted(int(x) for x in ge) == be, lambda: f"boundary cells {sorted(map(int, ge))[:8]}.., expected {be[:8]}..", "boundary-cells")
    # edges
    alle = sorted(tuple(sorted(map(int, e))) for cell in t for e in itertools.combinations(cell, 2))
    e = call(G.get_edges, t, dim=d, what="get_edges")
    require(pairs(e) == alle, "get_edges does not give every edge of every cell once", "edges")
    ue = call(G.unique_edges, np.asarray(e), what="unique_edges")
    require(pairs(ue) == sorted(set(alle)), "unique_edges does not give every distinct edge once", "unique-edges")
    # vertex to cells
    vt, ptr = call(G.vertex_to_entities, p, t, dim=d, what="vertex_to_entities")
    require(len(ptr) == len(p) + 1, f"{len(ptr)} pointers for {len(p)} vertices", "vtoe")
    inc = [[] for _ in p]
    for i, cell in enumerate(t):
        for v in cell:
            inc[int(v)].append(i)
    for v in range(len(p)):
        require(sorted(int(x) for x in vt[ptr[v]:ptr[v + 1]]) == inc[v], lambda: f"cells of vertex {v}: {sorted(map(int, vt[ptr[v]:ptr[v + 1]]))}, expected {inc[v]}", "vtoe")
    require(np.array_equal(t, t0), "the connectivity was modified", "mutated")
    interior = any(len(l) == 2 for l in fc.values())
    rec.nt(len(t) >= 2 and interior)
    rec.label(f"{d}D", c["m"]["kind"], "drop-" + c["m"]["drop"], "unused" if len(np.unique(t)) < len(p) else "all used")


@st.composite
def wind_case(draw):
    return {"m": draw(ms.mesh(dims=(2,))), "seed": draw(st.integers(0, 10 ** 6)), "unused": False, "dtype": "int64"}


def chk_wind(c, rec):
    from SeismicMesh import geometry as G

    p, t = make(c)
    fc = ms.facet_count(t)
    bnd = sorted(f for f, l in fc.items() if len(l) == 1)
    w = call(G.get_winded_boundary_edges, t, what="get_winded_boundary_edges")
    w = [tuple(map(int, e)) for e in w]
    require(pairs(w) == bnd, lambda: f"{len(w)} ordered boundary edges, the boundary has {len(bnd)}", "permutation")
    # parse into closed trails
    i, loops = 0, 0
    while i < len(w):
        loops += 1
        a, b = w[i]
        if i + 1 < len(w) and b not in w[i + 1] and a in w[i + 1]:
            a, b = b, a
        start, end = a, b
        i += 1
        while i < len(w) and end in w[i]:
            x, y = w[i]
            end = y if x == end else x
            i += 1
        require(end == start, lambda: f"the ordered boundary breaks off at edge {i} before its loop is closed", "order")
    # manifold: every boundary vertex lies on two boundary edges
    from collections import Counter

    from SeismicMesh.geometry import utils as gu
    from vf.core import quiet

    many = [v for v, k in Counter(v for e in bnd for v in e).items() if k != 2]
    with quiet():
        mf = call(gu.is_manifold, p, t, what="is_manifold")
    require(bool(mf) == (not many), lambda: f"is_manifold says {mf}, " + (f"vertex {many[0]} lies on several pairs of boundary edges" if many else "every boundary vertex lies on two boundary edges"), "manifold")
    rec.label("pinched" if many else "manifold")
    # connected components of the boundary
    comp = {}

    def find(x):
        while comp.setdefault(x, x) != x:
            x = comp[x]
        return x
    for a, b in bnd:
        comp[find(a)] = find(b)
    nc = len({find(x) for e in bnd for x in e})
    rec.nt(len(t) >= 2)
    rec.label("loops%d" % min(nc, 4), c["m"]["kind"], "drop-" + c["m"]["drop"])


SUBS = [
    Sub("queries", case, chk, 1200, 30000, shards=5),
    Sub("winding", wind_case, chk_wind, 600, 15000, shards=2),
]
