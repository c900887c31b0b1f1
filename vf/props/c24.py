import itertools

import numpy as np
from hypothesis import strategies as st

from vf import meshes as ms
from vf.core import Sub, call, quiet, require
from vf.shapes import fl

RULE = ("A case is a valid generated mesh, or one damaged by adding overlapping cells, collapsing vertices or folding, with exact (rational) point location as the oracle; "
        "points at cells for the point-in-tetrahedron test (inside, outside, on faces). Linting is compared with a reference that removes the worse cell of every overlapping pair and then the poor boundary cells. "
        "Non-trivial: an overlap or a poor boundary cell is present (valid-mesh cases: at least two cells sharing a vertex).")
ASSUMPTIONS = ["pairs whose point location is decided by rounding (barycentric coordinate within 1e-9 of 0) and cells whose quality is within 1e-9 of the threshold are not generated or are skipped",
               "the quality of a cell is 2r/R of its first three vertices' triangle in the dimension the library evaluates (2D)"]


def pairs(p, t):
    """Reference: (set of certain pairs, set of undecided pairs)."""
    d = p.shape[1]
    yes, maybe = set(), set()
    v2c = {}
    for i, c in enumerate(t):
        for v in c:
            v2c.setdefault(int(v), set()).add(i)
    V = np.abs(ms.vol(p, t))
    ext = np.ptp(p, axis=0).max()
    prs = [(i, j) for i, c in enumerate(t) for j in set().union(*[v2c[int(v)] for v in c]) - {i}]
    good = [q for q in prs if V[q[1]] > 1e-12 * ext ** d]
    maybe |= set(prs) - set(good)
    if good:
        I, J = np.array(good).T
        x = p[t[I]].mean(axis=1)
        c0 = p[t[J]]
        A = np.swapaxes(c0[:, 1:] - c0[:, :1], 1, 2)
        w = np.linalg.solve(A, (x - c0[:, 0])[:, :, None])[:, :, 0]
        m = np.minimum(w.min(axis=1), 1 - w.sum(axis=1))
        for k in np.where(np.abs(m) < 1e-9)[0]:
            maybe.add(good[k])
        for k in np.where(m >= 1e-9)[0]:
            yes.add(good[k])
    return yes, maybe


@st.composite
def case(draw, dims=(2, 3)):
    return {"m": draw(ms.mesh(dims=dims, nmax=25)), "bad": draw(st.sampled_from(["none", "dup", "extra", "fold", "extra", "fold"])), "k": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 10 ** 6)),
            "mq": draw(st.sampled_from([0.1, 0.1, 0.3, 0.6, 0.0]))}


def setup(c):
    p, t = ms.build(c["m"])
    p, t = ms.used_only(p, t)
    g = np.random.RandomState(c["seed"])
    d = p.shape[1]
    ext = np.ptp(p, axis=0).max()
    if c["bad"] == "dup":
        t = np.vstack([t, t[g.randint(len(t), size=c["k"])]])
    elif c["bad"] == "extra":
        for _ in range(c["k"]):
            # an additional cell on vertices of a neighbourhood
            a = t[g.randint(len(t))]
            near = np.argsort(((p - p[a[0]]) ** 2).sum(1))[: d + 6]
            for _try in range(5):
                new = g.choice(near, d + 1, replace=False) if len(near) > d else None
                if new is None:
                    break
                if abs(ms.vol(p, new[None])[0]) > 1e-6 * ext ** d:
                    v = ms.vol(p, new[None])[0]
                    if v < 0:
                        new[[0, 1]] = new[[1, 0]]
                    t = np.vstack([t, new[None]])
                    break
    elif c["bad"] == "fold":
        p = p.copy()
        for _ in range(c["k"]):
            i = g.randint(len(p))
            nb = np.unique(t[(t == i).any(axis=1)])
            p[i] = p[nb].mean(axis=0) + g.uniform(-1, 1, d) * np.ptp(p[nb], axis=0)
    if c["bad"] != "none":
        t = t[g.permutation(len(t))]
    V = np.abs(ms.vol(p, t))
    t = t[V > 1e-7 * ext ** d]
    p, t = ms.used_only(p, t)
    return p, t, g


def chk_overlap(c, rec):
    from SeismicMesh import geometry as geo

    p, t, g = setup(c)
    if len(t) == 0:
        rec.excluded = True
        return
    d = p.shape[1]
    p0, t0 = p.copy(), t.copy()
    yes, maybe = pairs(p, t)
    got = call(geo.do_any_overlap, p, t, dim=d)
    require(np.array_equal(p, p0) and np.array_equal(t, t0), "the arguments were modified", "mutated")
    got = {(int(a), int(b)) for a, b in got}
    require(yes <= got, lambda: f"overlapping pair {sorted(yes - got)[0]} is not reported", "missed")
    require(got <= yes | maybe, lambda: f"pair {sorted(got - yes - maybe)[0]} is reported but does not overlap", "invented")
    if c["bad"] == "none":
        require(not got, "a valid mesh is reported to overlap", "invented")
    sharing = any(len(v) > 1 for v in ([list(np.where((t == i).any(axis=1))[0]) for i in range(min(len(p), 5))]))
    rec.nt(bool(yes) if c["bad"] != "none" else sharing)
    rec.label(f"{d}D", c["bad"], "overlaps" if yes else "clean")


def boundary_cells(t):
    fc = ms.facet_count(t)
    b = {v for f, cells in fc.items() if len(cells) == 1 for v in f}
    return np.array([any(int(v) in b for v in c) for c in t], dtype=bool)


def canon(p, t):
    return ms.cells_as_points(p, t)


def chk_clean(c, rec):
    """delete_boundary_entities removes exactly the poor boundary cells."""
    from SeismicMesh import geometry as geo

    p, t, g = setup(c)
    if len(t) == 0:
        rec.excluded = True
        return
    if c["bad"] == "dup":
        t = np.unique(np.sort(t, axis=1), axis=0)
    t = t[np.unique(np.sort(t, axis=1), axis=0, return_index=True)[1]]
    d = 2
    q = ms.quality(p, t)
    mq = c["mq"]
    bnd = boundary_cells(t)
    if mq > 0 and len(q):
        # a threshold in the middle of the qualities of the boundary cells
        srt = np.sort(q[bnd]) if bnd.any() else np.sort(q)
        k = g.randint(0, len(srt))
        mq = float(srt[k] + (srt[k + 1] if k + 1 < len(srt) else 1.0)) / 2 if g.uniform() < 0.6 else mq
    if np.any(np.abs(q - mq) < 1e-9):
        rec.excluded = True
        return
    bad = bnd & (q < mq)
    if bad.all():
        rec.excluded = True
        return
    p0, t0 = p.copy(), t.copy()
    verbose = int(g.randint(2))
    with quiet() as buf:
        pp, tt = call(geo.delete_boundary_entities, p, t, dim=d, min_qual=mq, verbose=verbose)
    require(np.array_equal(p, p0) and np.array_equal(t, t0), "the arguments were modified", "mutated")
    require(verbose or buf.getvalue() == "", "output at verbosity 0", "verbose")
    got, want = canon(pp, tt), canon(p, t[~bad])
    require(got == want, lambda: f"{len(got)} cells remain, expected {len(want)} of {len(t)} (threshold {mq})", "cells")
    require(len(np.unique(tt)) == len(pp), "unused vertices remain", "unused")
    rec.nt(bool(bad.any()))
    rec.label(c["bad"], "interior poor cells" if (q[~bnd] < mq).any() else "-", "poor boundary cells" if bad.any() else "none poor")


def ref_lint(p, t, mq):
    q = ms.quality(p, t)
    yes, maybe = pairs(p, t)
    if maybe - yes:
        return None
    dele = set()
    for i, j in yes:
        if abs(q[i] - q[j]) < 1e-9:
            return None
        dele.add(i if q[i] < q[j] else j)
    keep = np.array([k not in dele for k in range(len(t))], dtype=bool)
    s = t[keep]
    if len(s) == 0:
        return None
    s = s[np.unique(np.sort(s, axis=1), axis=0, return_index=True)[1]]
    q = ms.quality(p, s)
    if np.any(np.abs(q - mq) < 1e-9):
        return None
    bad = boundary_cells(s) & (q < mq)
    if bad.all():
        return None
    return p, s[~bad], len(yes), int(bad.sum())


def chk_lint(c, rec):
    from SeismicMesh import geometry as geo

    p, t, g = setup(c)
    if len(t) == 0:
        rec.excluded = True
        return
    if c["bad"] == "dup":
        # repeated cells tie in quality: covered by the overlap check
        t = np.unique(np.sort(t, axis=1), axis=0)
    mq = c["mq"]
    r = ref_lint(p, t, mq)
    if r is None:
        rec.excluded = True
        return
    p0, t0 = p.copy(), t.copy()
    if mq == 0.1:
        pp, tt = call(geo.linter, p, t, dim=2)
    else:
        pp, tt = call(geo.linter, p, t, dim=2, min_qual=mq)
    require(np.array_equal(p, p0) and np.array_equal(t, t0), "the arguments were modified", "mutated")
    got, want = canon(pp, tt), canon(r[0], r[1])
    require(got == want, lambda: f"linting leaves {len(got)} cells, expected {len(want)} of {len(t)} ({r[2]} overlaps, {r[3]} poor boundary cells)", "cells")
    require(len(np.unique(tt)) == len(pp), "unused vertices remain", "unused")
    require(np.all(ms.vol(pp, tt) > 0), "a cell is not positively oriented", "orientation")
    if c["bad"] == "none":
        require(r[2] == 0, "reference finds overlaps in a valid mesh (harness)", "harness")
        if r[3] == 0:
            require(len(tt) == len(t), "a valid mesh of good quality was changed", "cells")
    rec.nt(r[2] + r[3] > 0)
    rec.label(c["bad"], "overlaps" if r[2] else "no overlap", "poor" if r[3] else "none poor")


def chk_lint3(c, rec):
    """3D: only overlapping cells are removed; a valid mesh is left alone."""
    from SeismicMesh import geometry as geo

    p, t, g = setup(c)
    if len(t) == 0:
        rec.excluded = True
        return
    yes, maybe = pairs(p, t)
    if maybe - yes:
        rec.excluded = True
        return
    p0, t0 = p.copy(), t.copy()
    t = t[np.unique(np.sort(t, axis=1), axis=0, return_index=True)[1]]
    yes, maybe = pairs(p, t)
    t0 = t.copy()
    pp, tt = call(geo.linter, p, t, dim=3)
    require(np.array_equal(p, p0) and np.array_equal(t, t0), "the arguments were modified", "mutated")
    got, want = canon(pp, tt), canon(p, t)
    gs, ws = set(got), set(want)
    require(gs <= ws, "linting invents a cell", "cells")
    require(len(got) == len(gs), "linting repeats a cell", "cells")
    inv = {i for pr in yes for i in pr}
    safe = {canon(p, t[i:i + 1])[0] for i in range(len(t)) if i not in inv}
    require(safe <= gs, "linting removes a cell that overlaps no other", "cells")
    if yes:
        y2, _ = pairs(pp, tt)
        for i, j in yes:
            a, b = canon(p, t[i:i + 1])[0], canon(p, t[j:j + 1])[0]
            require(not (a in gs and b in gs), "both cells of an overlapping pair remain", "cells")
    rec.nt(bool(yes) or len(t) > 1)
    rec.label(c["bad"], "overlaps" if yes else "clean")


@st.composite
def pit_case(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "kind": draw(st.sampled_from(["rand", "int", "flat"])), "w": [draw(st.sampled_from([-0.4, -0.01, 0.01, 0.2, 0.5, 1.3])) for _ in range(3)],
            "rev": draw(st.booleans()), "scale": draw(st.sampled_from([1.0, 1e-3, 1e3])), "face": draw(st.booleans())}


def chk_pit(c, rec):
    from fractions import Fraction

    from SeismicMesh import geometry as geo

    g = np.random.RandomState(c["seed"])
    if c["kind"] == "int":
        x = g.randint(-5, 6, (4, 3)).astype(float)
    else:
        x = g.uniform(-1, 1, (4, 3))
    if c["kind"] == "flat":
        x[:, 2] *= 1e-2
    if c["scale"] != 1.0 and c["kind"] != "int":
        x = x * c["scale"]
    L = np.ptp(x, axis=0).max()
    v = np.linalg.det(x[1:] - x[0]) if L > 0 else 0.0
    if abs(v) < 1e-5 * max(L, 1e-300) ** 3:
        rec.excluded = True
        return
    if c["rev"]:
        x = x[[1, 0, 2, 3]]
    w = np.array(c["w"] + [1 - sum(c["w"])])[g.permutation(4)]
    if c["face"] and c["kind"] == "int":
        w[g.randint(4)] = 0.0
        w = w / w.sum() if abs(w.sum()) > 1e-3 else np.array([1, 0, 0, 0.0])
    y = w @ x
    if c["face"] and c["kind"] == "int":
        # a point exactly on the plane of a face (integer coordinates)
        q = x[1] + (x[2] - x[1]) + (x[3] - x[2]) * g.randint(-2, 3)
        y = q if g.uniform() < 0.5 else np.round(y)
    F = [[Fraction(float(a)) for a in r] for r in x]
    Y = [Fraction(float(a)) for a in y]

    def dt(a, b, c_):
        return a[0] * (b[1] * c_[2] - b[2] * c_[1]) - a[1] * (b[0] * c_[2] - b[2] * c_[0]) + a[2] * (b[0] * c_[1] - b[1] * c_[0])

    def vv(T):
        return dt(*[[T[i][k] - T[0][k] for k in range(3)] for i in (1, 2, 3)])

    V = vv(F)
    b = [vv([Y if i == k else F[i] for i in range(4)]) / V for k in range(4)]
    m = min(b)
    exact = c["kind"] == "int" and all(float(a).is_integer() for a in y)
    if not exact and abs(float(m)) < 1e-9:
        rec.excluded = True
        return
    got = bool(call(geo.vertex_in_entity3, tuple(y), tuple(x.ravel())))
    if m == 0:
        # on a face: no claim which way, only that it is answered
        rec.label("on a face plane")
        rec.nt(False)
        return
    require(got == (m > 0), lambda: f"point with barycentric coordinates {[float(a) for a in b]} reported {'inside' if got else 'outside'}", "pit")
    perm = g.permutation(4)
    got2 = bool(call(geo.vertex_in_entity3, tuple(y), tuple(x[perm].ravel())))
    require(got2 == got, "the answer depends on the order of the cell's vertices", "pit")
    rec.nt(True)
    rec.label(c["kind"], "inside" if m > 0 else "outside")


def chk_tri(c, rec):
    from fractions import Fraction

    from SeismicMesh.geometry import utils as gu

    g = np.random.RandomState(c["seed"])
    x = g.randint(-5, 6, (3, 2)).astype(float) if c["kind"] == "int" else g.uniform(-1, 1, (3, 2))
    if c["kind"] == "flat":
        x[:, 1] *= 1e-2
    if c["scale"] != 1.0 and c["kind"] != "int":
        x = x * c["scale"]
    L = np.ptp(x, axis=0).max()
    if abs(np.linalg.det(x[1:] - x[0])) < 1e-5 * max(L, 1e-300) ** 2 or L == 0:
        rec.excluded = True
        return
    if c["rev"]:
        x = x[[1, 0, 2]]
    w = np.array(c["w"][:2] + [1 - sum(c["w"][:2])])[g.permutation(3)]
    y = w @ x
    if c["kind"] == "int":
        y = np.round(y)
    F = [[Fraction(float(a)) for a in r] for r in x]
    Y = [Fraction(float(a)) for a in y]

    def vv(T):
        return (T[1][0] - T[0][0]) * (T[2][1] - T[0][1]) - (T[1][1] - T[0][1]) * (T[2][0] - T[0][0])

    V = vv(F)
    b = [vv([Y if i == k else F[i] for i in range(3)]) / V for k in range(3)]
    m = min(b)
    if abs(float(m)) < 1e-9:
        # on an edge: rounding decides
        rec.excluded = m != 0
        rec.label("on an edge")
        return
    for o in (slice(None), g.permutation(3)):
        got = bool(call(gu.vertex_in_entity2, tuple(y), tuple(x[o].ravel()), what="vertex_in_entity2"))
        require(got == (m > 0), lambda: f"point with barycentric coordinates {[float(a) for a in b]} reported {'inside' if got else 'outside'}", "pit")
    rec.nt(True)
    rec.label(c["kind"], "inside" if m > 0 else "outside")


SUBS = [
    Sub("triangle", pit_case, chk_tri, 500, 12000, shards=1),
    Sub("overlap", case, chk_overlap, 400, 12000, shards=3),
    Sub("cleanup", lambda: case(dims=(2,)), chk_clean, 500, 12000, shards=2),
    Sub("lint", lambda: case(dims=(2,)), chk_lint, 500, 12000, shards=3),
    Sub("lint3", lambda: case(dims=(3,)), chk_lint3, 150, 3000, shards=2),
    Sub("tetrahedron", pit_case, chk_pit, 800, 20000, shards=2),
]
