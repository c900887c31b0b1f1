import numpy as np
from hypothesis import strategies as st

from vf import mpi
from vf.core import Sub, call, quiet, require
from vf.props.c13 import plan
from vf.shapes import fl

RULE = ("A case of the exchange is a set of export tables (zero to five points below and above for each of two to seven ranks, trailing filler rows) run under a generated schedule and generated send modes (buffered or waiting for the receiver, per message) on a deterministic communicator that detects deadlocks, mismatches and leftover messages; every rank must receive exactly its neighbours' rows. "
        "A case of the selection is a local mesh (Delaunay triangulation of random or gridded points, arbitrary cells, flat cells) with neighbouring boxes; a brute-force test of every cell's circumball and bounding box gives the vertices that must be selected. Non-trivial: exports in both directions on some rank, or a selection that is neither empty nor everything.")
ASSUMPTIONS = ["cells that are collinear or coplanar to rounding have no circumball and demand nothing", "a circumball that touches a box only to rounding demands nothing"]


@st.composite
def case_exchange(draw):
    c = draw(plan())
    c["dim"] = draw(st.sampled_from([2, 3]))
    c["counts"] = [[draw(st.sampled_from([0, 0, 1, 2, 5])) if r > 0 else 0, draw(st.sampled_from([0, 0, 1, 2, 5])) if r < c["size"] - 1 else 0] for r in range(c["size"])]
    c["filler"] = draw(st.integers(0, 3))
    c["seed"] = draw(st.integers(0, 10 ** 6))
    return c


def chk_exchange(c, rec):
    from SeismicMesh import migration

    d, n = c["dim"], c["size"]
    g = np.random.RandomState(c["seed"])
    tabs, below, above = [], [], []
    for b, a in c["counts"]:
        x = g.uniform(-1e3, 1e3, (b + a, d))
        t = np.full((1 + b + a + c["filler"], d + 1), -1.0)
        t[0] = 0.0
        t[0, :2] = b, a
        t[1:1 + b + a, :d] = x
        t[1:1 + b + a, d] = g.permutation(b + a)
        tabs.append(t)
        below.append(x[:b])
        above.append(x[b:])
    copies = [t.copy() for t in tabs]
    with quiet():
        res, w = mpi.run(n, lambda comm: migration.exchange(comm, comm.rank, comm.size, copies[comm.rank], dim=d), c["schedule"], c["sync"], "exchange")
    for r in range(n):
        want = ([below[r + 1]] if r < n - 1 else []) + ([above[r - 1]] if r else [])
        want = np.vstack(want) if want else np.zeros((0, d))
        got = np.asarray(res[r])
        require(got.ndim == 2 and got.shape[1] == d, lambda: f"rank {r} receives an array of shape {got.shape}", "shape")
        a, b = sorted(map(tuple, got)), sorted(map(tuple, want))
        require(a == b, lambda: f"rank {r} of {n} receives {len(a)} points, its neighbours exported {len(b)} to it (counts below/above per rank: {c['counts']})", "received")
        require(np.array_equal(copies[r], tabs[r]), "the export table was modified", "mutated")
    rec.nt(any(a and b for a, b in c["counts"]) or n > 2)
    rec.label(f"{n} ranks", f"{d}D", "sync" if any(c["sync"]) else "eager")


@st.composite
def case_select(draw):
    d = draw(st.sampled_from([2, 3]))
    n = draw(st.sampled_from([2, 3, 4, 5]))
    return {"dim": d, "size": n, "rank": draw(st.integers(0, n - 1)), "axis": draw(st.integers(0, d - 1)), "kind": draw(st.sampled_from(["random", "random", "grid", "jitter", "loose", "flat"])), "n": draw(st.integers(d + 2, 40)),
            "w": draw(fl(0.5, 3.0)), "over": draw(st.one_of(fl(-0.5, 0.0), fl(0.0, 0.8))), "thin": draw(st.sampled_from([1.0, 1.0, 0.3, 0.02])), "narrow": draw(st.sampled_from([1.0, 1.0, 1.0, 0.3, 0.05])),
            "scale": draw(st.sampled_from([1.0, 1.0, 1e4])), "off": draw(st.sampled_from([0.0, 0.0, 100.0])), "seed": draw(st.integers(0, 10 ** 6)), "form": draw(st.sampled_from(["list", "array"]))}


def mesh_of(c, g):
    from scipy.spatial import Delaunay

    d, n = c["dim"], c["n"]
    if c["kind"] in ("grid", "jitter"):
        k = max(2, int(round(n ** (1.0 / d))))
        x = np.stack(np.meshgrid(*[np.linspace(0, 1, k)] * d, indexing="ij"), -1).reshape(-1, d)
        if c["kind"] == "jitter":
            x = x + g.uniform(-0.3, 0.3, x.shape) / k
    else:
        x = g.uniform(0, 1, (n, d))
    if c["kind"] == "flat":
        # hull cells with huge circumballs
        x[:max(3, n // 2), c["axis"]] = 0.5 + 1e-3 * g.uniform(-1, 1, max(3, n // 2))
    w = np.ones(d)
    w[c["axis"]] = c["w"]
    x = x * w
    if c["kind"] == "loose":
        t = np.array([g.permutation(len(x))[:d + 1] for _ in range(1 + g.randint(2 * len(x)))])
    else:
        t = Delaunay(x, qhull_options="QJ Qbb Qc Q12").simplices
    return x, t


def circum(q):
    """(centre, radius, condition) of every cell."""
    a = q[:, :1]
    E = q[:, 1:] - a
    L = np.linalg.norm(E, axis=2).max(axis=1)
    det = np.linalg.det(E / L[:, None, None])
    ok = np.abs(det) > 1e-9
    c = np.full((len(q), q.shape[2]), np.nan)
    b = 0.5 * (E ** 2).sum(axis=2)
    c[ok] = np.linalg.solve(E[ok], b[ok][..., None])[..., 0]
    return c + a[:, 0], np.linalg.norm(c, axis=1), ok


def chk_select(c, rec):
    from SeismicMesh import migration

    d, r, n, ax = c["dim"], c["rank"], c["size"], c["axis"]
    g = np.random.RandomState(c["seed"])
    x, t = mesh_of(c, g)
    x = (x + c["off"]) * c["scale"]
    lo, hi = x.min(axis=0), x.max(axis=0)
    W = (hi - lo)[ax]
    ext = []
    for k in range(n):
        a, b = lo.copy(), hi.copy()
        if k < r:
            a[ax], b[ax] = lo[ax] - (r - k) * W * c["thin"], lo[ax] - (r - k - 1) * W * c["thin"] + c["over"] * W
        elif k > r:
            a[ax], b[ax] = hi[ax] + (k - r - 1) * W * c["thin"] - c["over"] * W, hi[ax] + (k - r) * W * c["thin"]
        a[ax], b[ax] = min(a[ax], b[ax]), max(a[ax], b[ax])
        for i in range(d):
            if i != ax and k != r:
                m, h = (a[i] + b[i]) / 2, (b[i] - a[i]) / 2 * c["narrow"]
                m = m + (c["narrow"] < 1) * g.uniform(-0.5, 0.5) * (hi - lo)[i]
                a[i], b[i] = m - h, m + h
        ext.append([*a, *b] if c["form"] == "list" else np.array([*a, *b]))
    x0, t0 = x.copy(), t.copy()
    e = call(migration.enqueue, ext, x, t, r, n, dim=d, what="enqueue")
    require(np.array_equal(x, x0) and np.array_equal(t, t0), "enqueue modified its arguments", "mutated")
    e = np.asarray(e)
    nb, na = int(e[0, 0]), int(e[0, 1])
    require(nb >= 0 and na >= 0 and 1 + nb + na <= len(e), lambda: f"{nb} + {na} exports announced in a table of {len(e)} rows", "counts")
    rows = {"below": e[1:1 + nb], "above": e[1 + nb:1 + nb + na]}
    cc, R, ok = circum(x[t])
    q = x[t]
    tol = 1e-6
    # (balls of nearly flat cells reach any place that stands for "no neighbour")
    tame = ok.all() and (R < 1e8).all()
    for nm, k in (("below", r - 1), ("above", r + 1)):
        y = rows[nm]
        if not 0 <= k < n:
            require(len(y) == 0 or not tame, lambda: f"{len(y)} points exported {nm} rank {r} of {n}", "nobody")
            continue
        ix = y[:, d]
        require((ix == np.round(ix)).all() and (ix >= 0).all() and (ix < len(x)).all(), lambda: f"exported vertex numbers {ix}", "number")
        ix = ix.astype(int)
        require(np.array_equal(x[ix], y[:, :d]), "exported coordinates are not those of the vertices", "coordinates")
        require(len(set(ix.tolist())) == len(ix), "a vertex is exported twice to the same rank", "twice")
        a, b = np.asarray(ext[k][:d]), np.asarray(ext[k][d:])
        near = ((q.min(axis=1) <= b) & (q.max(axis=1) >= a)).all(axis=1)
        dist = np.linalg.norm(np.maximum(0, np.maximum(a - cc, cc - b)), axis=1)
        with np.errstate(invalid="ignore"):
            need = near & ok & (dist < R * (1 - tol) - 1e-9 * c["scale"])
        req = set(np.unique(t[need]).tolist())
        miss = req - set(ix.tolist())
        require(not miss, lambda: f"{len(miss)} of {len(req)} vertices whose cells' circumballs and bounding boxes reach the box {nm} are not exported", "missing")
        if 0 < len(req) < len(x):
            rec.nt(True)
    rec.label(f"{d}D", c["kind"], f"{n} ranks")


SUBS = [
    Sub("exchange", case_exchange, chk_exchange, 3000, 80000, shards=3),
    Sub("select", case_select, chk_select, 6000, 150000, shards=4),
]
