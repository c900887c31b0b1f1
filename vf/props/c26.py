import ctypes

import numpy as np
from hypothesis import strategies as st

from vf import meshes as ms
from vf.core import Sub, Violation, call, require
from vf.shapes import fl

RULE = ("A case is one compiled kernel with valid generated arguments of any size from empty to some hundred entries. 'bounds' runs the kernels built with AddressSanitizer and libstdc++ container assertions; 'poison' runs them twice "
        "with different bytes in fresh heap memory and compares; 'layout' passes the same values in C and Fortran order, strided, reversed, as other integer and floating point widths, byte-swapped, read-only and as nested lists. "
        "Non-trivial: the kernel was given at least one cell, point or edge.")
ASSUMPTIONS = ["coordinates are exactly representable in single precision so that every floating point width denotes the same values", "sanitizers see the extension modules and the heap, not numpy's own code"]

KERNELS = ["unique_edges", "dihedral", "det3", "det4", "volgrad", "circumgrad", "drect", "dblock", "ext2", "ext3", "cc2", "cc3", "del2", "del3", "where2", "where3", "limgrad2", "limgrad3"]


@st.composite
def case(draw, kernels=tuple(KERNELS)):
    return {"k": draw(st.sampled_from(kernels)), "seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.sampled_from([0, 1, 1, 2, 3, 5, 8, 20, 60, 200])),
            "m2": draw(ms.mesh(dims=(2,), nmax=40)), "m3": draw(ms.mesh(dims=(3,), nmax=25)), "cells": draw(st.sampled_from(["all", "all", "one", "none"])), "wide": draw(st.booleans()),
            "shape": [draw(st.integers(1, 9)) for _ in range(3)], "lay": draw(st.integers(0, 10 ** 6))}


def f32(a):
    return np.asarray(a, dtype=np.float32).astype(float)


def mesh_of(c, d):
    p, t = ms.build(c["m%d" % d])
    p = f32(p)
    if c["cells"] == "one":
        t = t[:1]
    elif c["cells"] == "none":
        t = t[:0]
    return p, t


def arguments(c):
    """-> (function, [arrays], [trailing scalars], non-trivial)"""
    import _FastHJ as hj
    import _cpputils as cu
    import _delaunay as dl
    import _fast_geometry as fg

    g = np.random.RandomState(c["seed"])
    k, n = c["k"], c["n"]
    if k == "unique_edges":
        return fg.unique_edges, [g.randint(0, max(2, n // 2), (n, 2))], [], n > 0
    if k == "dihedral":
        p, t = mesh_of(c, 3)
        return fg.calc_dihedral_angles, [p, t], [], len(t) > 0
    if k in ("det3", "det4"):
        m = int(k[-1])
        return getattr(fg, f"calc_{m}x{m}determinant"), [f32(g.uniform(-5, 5, (m, m)))], [], True
    if k == "volgrad":
        return fg.calc_volume_grad, [f32(g.uniform(-5, 5, (n, 3))) for _ in range(3)], [], n > 0
    if k == "circumgrad":
        return fg.calc_circumsphere_grad, [f32(g.uniform(-5, 5, (n, 3))) for _ in range(4)], [], n > 0
    if k in ("drect", "dblock"):
        d = 2 if k == "drect" else 3
        lo, hi = f32(g.uniform(-3, 0, d)), f32(g.uniform(0, 3, d))
        return (fg.drectangle_fast if d == 2 else fg.dblock_fast), [f32(g.uniform(-5, 5, (n, d)))], [float(x) for i in range(d) for x in (lo[i], hi[i])], n > 0
    if k in ("ext2", "ext3"):
        d = int(k[-1])
        p, t = mesh_of(c, d)
        lo, hi = p.min(0), p.min(0) + np.ptp(p, axis=0) * g.uniform(0, 1)
        return getattr(fg, f"remove_external_entities{d}"), [p, t], [float(x) for i in range(d) for x in (lo[i], hi[i])], len(t) > 0
    if k in ("cc2", "cc3"):
        d = int(k[-1])
        p, t = mesh_of(c, d)
        return getattr(dl, f"_circumballs{d}"), [p[t.ravel()]], [], len(t) > 0
    if k in ("del2", "del3"):
        d = int(k[-1])
        q = f32(g.randint(-4, 5, (n, d)) if c["wide"] else g.uniform(-4, 5, (n, d)))
        return getattr(dl, f"_delaunay{d}"), [q[:, i].copy() for i in range(d)], [], n > d
    if k in ("where2", "where3"):
        d = int(k[-1])
        p, t = mesh_of(c, d)
        lo, hi = p.min(0), p.max(0)
        e = hi - lo
        if c["wide"]:  # every vertex goes both ways
            le, re = [lo - e, lo - e], [hi + e, hi + e]
        else:
            le = [lo - e, lo + e * g.uniform(0, 1)]
            re = [lo + e * g.uniform(0, 1), hi + e]
        if g.uniform() < 0.3:
            j = g.randint(2)
            le[j], re[j] = np.full(d, -999999999.0), np.full(d, -999999998.0)
        return getattr(cu, f"where_to{d}"), [p, t, f32(np.array(le)), f32(np.array(re))], [0], len(t) > 0
    d = int(k[-1])
    shp = c["shape"][:d] + [1] * (3 - d)
    f = f32(g.uniform(1, 100, shp[0] * shp[1] * shp[2]))
    el = f32(g.uniform(0.5, 30, d))
    return hj.limgrad, [np.array(shp), el, f], None, True


def run(fn, args, tail):
    if tail is None:  # limgrad(dims, elen, dfdx, imax, ffun)
        return call(fn, args[0], args[1], 0.25, 10000, args[2])
    return call(fn, *args, *tail)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def chk_bounds(c, rec):
    fn, args, tail, nt = arguments(c)
    keep = [a.copy() for a in args]
    # give the arguments blocks of their own so that reading past the end is seen
    r = run(fn, args, tail)
    np.array(r).sum()
    require(all(np.array_equal(a, k) for a, k in zip(args, keep)), "an argument was modified", "mutated")
    rec.nt(nt)
    rec.label(c["k"])


def chk_poison(c, rec):
    fn, args, tail, nt = arguments(c)
    libc = ctypes.CDLL(None)
    out = []
    try:
        for byte in (0x00, 0x5A, 0xA5):
            libc.mallopt(-6, byte)
            # use up blocks of the sizes that may be recycled
            junk = [np.full(s, byte, dtype=np.uint8) for s in (64, 256, 1024, 4096) for _ in range(3)]
            del junk
            out.append(np.array(run(fn, args, tail)))
    finally:
        libc.mallopt(-6, 0)
    require(same(out[0], out[1]) and same(out[0], out[2]), f"{c['k']}: the result depends on the contents of fresh memory", "uninitialised")
    rec.nt(nt)
    rec.label(c["k"])


def variant(a, g):
    """The same values in another layout."""
    kind = g.choice(["F", "strided", "reversed", "list", "width", "swapped", "readonly", "offset"])
    if kind == "F":
        return kind, np.asfortranarray(a)
    if kind == "strided":
        big = np.full([2 * s + 1 for s in a.shape], -7 if a.dtype.kind == "i" else np.nan, dtype=a.dtype)
        v = big[tuple(slice(1, None, 2) if s else slice(0, 0) for s in a.shape)]
        v[...] = a
        return kind, v
    if kind == "reversed":
        r = tuple(slice(None, None, -1) for _ in a.shape)
        return kind, np.ascontiguousarray(a[r])[r]
    if kind == "list":
        return kind, (a.tolist() if a.size else a)
    if kind == "width":
        return kind, a.astype(g.choice([np.int32, np.int16, np.int64, np.uint32]) if a.dtype.kind in "iu" else g.choice([np.float32, np.longdouble]))
    if kind == "swapped":
        return kind, a.astype(a.dtype.newbyteorder())
    if kind == "readonly":
        b = a.copy()
        b.setflags(write=False)
        return kind, b
    raw = np.zeros(a.nbytes + 9, dtype=np.uint8)
    v = raw[1:1 + a.nbytes].view(a.dtype).reshape(a.shape) if a.size else a.copy()
    v[...] = a
    return kind, v


def chk_layout(c, rec):
    fn, args, tail, nt = arguments(c)
    g = np.random.RandomState(c["lay"])
    base = run(fn, [np.ascontiguousarray(a) for a in args], tail)
    for _ in range(3):
        kinds, vs = zip(*[variant(a, g) for a in args])
        r = run(fn, list(vs), tail)
        require(same(base, r), lambda: f"{c['k']}: the result depends on the layout of the arguments ({', '.join(kinds)})", "layout")
        rec.label(*kinds)
    for a in args:
        require(type(a) is np.ndarray, "harness", "harness")
    rec.nt(nt)
    rec.label(c["k"])


PYFUN = {
    2: ["fix_mesh", "simp_vol", "simp_qual", "calc_re_ratios", "vertex_to_entities", "get_edges", "get_boundary_edges", "get_winded_boundary_edges", "get_boundary_vertices", "get_boundary_entities", "get_centroids",
        "laplacian2_fixed_point", "laplacian2", "delete_boundary_entities", "remove_external_entities"],
    3: ["fix_mesh", "simp_vol", "calc_re_ratios", "vertex_to_entities", "get_edges", "get_facets", "get_boundary_facets", "get_boundary_vertices", "get_boundary_entities", "get_centroids", "calc_dihedral_angles", "remove_external_entities"],
}
TONLY = {"get_edges", "get_boundary_edges", "get_winded_boundary_edges", "get_boundary_vertices", "get_facets", "get_boundary_facets"}


@st.composite
def mesh_case(draw):
    d = draw(st.sampled_from([2, 3]))
    return {"d": d, "fn": draw(st.sampled_from(PYFUN[d])), "m": draw(ms.mesh(dims=(d,), nmax=25)), "lay": draw(st.integers(0, 10 ** 6))}


def mvariant(a, g):
    kind = g.choice(["F", "strided", "reversed", "readonly", "int32"])
    if kind == "F":
        return kind, np.asfortranarray(a)
    if kind == "strided":
        big = np.full([2 * s + 1 for s in a.shape], -7, dtype=a.dtype)
        v = big[tuple(slice(1, None, 2) for s in a.shape)]
        v[...] = a
        return kind, v
    if kind == "reversed":
        r = tuple(slice(None, None, -1) for _ in a.shape)
        return kind, np.ascontiguousarray(a[r])[r]
    if kind == "int32" and a.dtype.kind == "i":
        return kind, a.astype(np.int32)
    b = a.copy()
    b.setflags(write=False)
    return "readonly", b


def canonical(x):
    if isinstance(x, tuple):
        return tuple(canonical(y) for y in x)
    return np.asarray(x)


def chk_mesh(c, rec):
    """The mesh functions: what they return as sets must not depend on the layout either."""
    from SeismicMesh import geometry as geo

    d = c["d"]
    p, t = ms.build(c["m"])
    p, t = ms.used_only(p, t)
    g = np.random.RandomState(c["lay"])
    fn = getattr(geo, c["fn"])

    def go(p, t):
        n = c["fn"]
        if n in ("get_winded_boundary_edges", "get_facets", "get_boundary_facets"):
            r = call(fn, t)
        elif n == "get_boundary_edges":
            r = call(fn, t)
        elif n in TONLY:
            r = call(fn, t, dim=d)
        elif n in ("simp_vol", "simp_qual", "laplacian2_fixed_point", "calc_dihedral_angles"):
            r = call(fn, p, t)
        elif n == "laplacian2":
            r = call(fn, p, t, verbose=0)
        elif n == "delete_boundary_entities":
            r = call(fn, p, t, dim=d, min_qual=0.0, verbose=0)
        elif n == "remove_external_entities":
            lo, hi = np.min(p, axis=0), np.max(p, axis=0)
            r = call(fn, p, t, np.concatenate([lo, lo + 0.4 * (hi - lo)]), dim=d)
        else:
            r = call(fn, p, t, dim=d)
        return r

    def form(r):
        n = c["fn"]
        if n in ("fix_mesh", "delete_boundary_entities", "remove_external_entities"):
            return ms.cells_as_points(np.asarray(r[0]), np.asarray(r[1]))
        if n in ("laplacian2_fixed_point", "laplacian2"):
            return np.asarray(r[0]).tolist(), np.asarray(r[1]).tolist()
        if n == "vertex_to_entities":
            v, q = r
            return [sorted(int(x) for x in v[q[i]:q[i + 1]]) for i in range(len(q) - 1)]
        if n in ("get_edges", "get_boundary_edges", "get_winded_boundary_edges", "get_facets", "get_boundary_facets"):
            return sorted(tuple(sorted(int(x) for x in e)) for e in r)
        return np.asarray(r).tolist()

    base = form(go(np.ascontiguousarray(p), np.ascontiguousarray(t)))
    for _ in range(2):
        kp, pv = mvariant(p, g)
        kt, tv = mvariant(t, g)
        got = form(go(pv, tv))
        require(_eq(got, base), lambda: f"{c['fn']} ({d}D): the result depends on the layout of the arguments ({kp}, {kt})", "layout")
        rec.label(kp, kt)
    rec.nt(True)
    rec.label(c["fn"])


def _eq(a, b):
    """Equal up to the rounding of sums taken in another order."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return a == b


@st.composite
def history(draw):
    return {"d": draw(st.sampled_from([2, 3])), "seed": draw(st.integers(0, 10 ** 6)), "ops": draw(st.lists(st.sampled_from(["insert", "insert", "move", "remove", "edges", "query"]), min_size=1, max_size=8)), "lat": draw(st.booleans())}


def chk_history(c, rec):
    from _delaunay_class import DelaunayTriangulation as D2
    from _delaunay_class3 import DelaunayTriangulation3 as D3

    g = np.random.RandomState(c["seed"])
    d = c["d"]
    dt = (D2 if d == 2 else D3)()

    def pts(n):
        q = g.randint(0, 6, (n, d)) if c["lat"] else g.uniform(0, 6, (n, d))
        return q.astype(float)

    dt.insert(pts(g.randint(d + 2, 25)).ravel().tolist())
    for op in c["ops"]:
        p = np.array(dt.get_finite_vertices())
        t = np.array(dt.get_finite_cells())
        if op == "insert":
            dt.insert(pts(g.randint(0, 12)).ravel().tolist())
        elif op == "move" and len(p):
            k = g.permutation(len(p))[: g.randint(0, len(p) + 1)]
            dt.move(k.tolist(), pts(len(k)).ravel().tolist())
        elif op == "remove" and len(p) > d + 3:
            k = g.permutation(len(p))[: g.randint(0, len(p) - d - 2)]
            dt.remove(k.tolist())
        elif op == "edges" and len(t):
            e = np.array(dt.get_edges([int(x) for x in g.randint(0, 2, len(t))]))
            require(e.size == 0 or (e.min() >= 0 and e.max() < len(p)), "edges index outside the vertices", "index")
        require(len(t) == 0 or (t.min() >= 0 and t.max() < len(p)), "cells index outside the vertices", "index")
    rec.nt(any(o in ("move", "remove") for o in c["ops"]))
    rec.label(f"{d}D")


SUBS = [
    Sub("bounds", case, chk_bounds, 1600, 30000, shards=4, mode="asan", cpu_limit=120),
    Sub("bounds_history", history, chk_history, 150, 4000, shards=2, mode="asan", cpu_limit=120),
    Sub("poison", case, chk_poison, 900, 20000, shards=2),
    Sub("layout", case, chk_layout, 1000, 20000, shards=2),
    Sub("layout_mesh", mesh_case, chk_mesh, 400, 8000, shards=2),
]
