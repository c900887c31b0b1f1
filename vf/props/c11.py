import numpy as np
from hypothesis import strategies as st

from vf import mpi
from vf.core import Sub, call, must_raise, quiet, require
from vf.props.c13 import plan
from vf.shapes import fl

RULE = ("A case of the partition is a point set (random, clustered, gridded with ties on the slab borders, duplicated points; 2D or 3D), a number of blocks and an axis, compared with a brute-force assignment to equal slabs; sets that leave a slab empty or have too few points must be rejected. "
        "The distribution runs it on two to seven simulated ranks under generated schedules; the localisation compares every rank's local sizing function with the global one at points of the rank's slab, within the interpolation error of a grid of spacing h0. "
        "Non-trivial: at least three blocks or points tied on a border; a sizing function that varies by more than the allowed error.")
ASSUMPTIONS = ["a point on a slab border (to rounding) may belong to either side", "a localised sizing function is queried within its slab, grown by up to 2 h0 (where neighbours' ghost points lie)"]


@st.composite
def pts(draw):
    d = draw(st.sampled_from([2, 3]))
    return {"dim": d, "n": draw(st.integers(2, 80)), "kind": draw(st.sampled_from(["random", "random", "grid", "cluster", "ties", "ints"])), "axis": draw(st.integers(0, d - 1)),
            "w": [draw(st.sampled_from([1.0, 1.0, 0.01, 100.0])) for _ in range(d)], "off": [draw(st.sampled_from([0.0, 0.0, -1.0, 1000.0])) for _ in range(d)], "pseed": draw(st.integers(0, 10 ** 6))}


def points(c, nb):
    g = np.random.RandomState(c["pseed"])
    d, n = c["dim"], c["n"]
    if c["kind"] == "grid":
        k = max(2, int(round(n ** (1.0 / d))))
        x = np.stack(np.meshgrid(*[np.linspace(0, 1, k)] * d, indexing="ij"), -1).reshape(-1, d)
    elif c["kind"] == "ties":
        x = g.uniform(0, 1, (n, d))
        i = g.rand(n) < 0.6
        x[i, c["axis"]] = g.randint(0, nb + 1, i.sum()) / nb
    elif c["kind"] == "cluster":
        x = g.uniform(0, 1, (n, d)) ** 3
    elif c["kind"] == "ints":
        x = g.randint(0, 12, (n, d)).astype(float)
    else:
        x = g.uniform(0, 1, (n, d))
    return x * c["w"] + c["off"]


@st.composite
def case_split(draw):
    c = draw(pts())
    c["nb"] = draw(st.integers(1, 9))
    c["rank"] = draw(st.integers(0, 8)) % c["nb"]
    return c


def slabs(x, nb, ax):
    """For every point the range of slabs it may belong to; slabs that must be
    occupied and slabs that cannot be."""
    v = x[:, ax]
    lo, hi = v.min(), v.max()
    w = (hi - lo) / nb
    tol = 1e-12 * max(abs(lo), abs(hi), hi - lo, 1e-300) * 10
    if w <= 10 * tol:
        return None
    a = np.clip(np.floor((v - tol - lo) / w), 0, nb - 1).astype(int)
    b = np.clip(np.floor((v + tol - lo) / w), 0, nb - 1).astype(int)
    return a, b


def rows(x):
    return sorted(map(tuple, np.asarray(x).tolist()))


def judge(x, nb, ax, blocks, ext, d):
    require(len(blocks) == nb and len(ext) == nb, lambda: f"{len(blocks)} blocks and {len(ext)} extents for {nb} ranks", "number")
    blocks = [np.asarray(b) for b in blocks]
    for k, b in enumerate(blocks):
        require(b.ndim == 2 and b.shape[1] == d and len(b) > 0, lambda: f"block {k} has shape {b.shape}", "shape")
    require(rows(np.vstack(blocks)) == rows(x), lambda: f"the blocks hold {sum(map(len, blocks))} points, not exactly the {len(x)} given ones", "partition")
    v = x[:, ax]
    lims = np.linspace(v.min(), v.max(), nb + 1)
    tol = 1e-12 * max(abs(lims[0]), abs(lims[-1]), lims[-1] - lims[0]) * 10
    for k, b in enumerate(blocks):
        y = b[:, ax]
        require(y.min() >= lims[k] - tol and y.max() <= lims[k + 1] + tol, lambda: f"block {k} of {nb} spans {y.min()}..{y.max()} along axis {ax}, its slab {lims[k]}..{lims[k + 1]}", "slab")
        e = np.asarray(ext[k], float).ravel()
        require(np.array_equal(e, np.concatenate([b.min(axis=0), b.max(axis=0)])), lambda: f"extent {e.tolist()} of block {k} is not the tight box of its points", "extent")
    for k in range(nb - 1):
        require(blocks[k][:, ax].max() <= blocks[k + 1][:, ax].min(), lambda: f"blocks {k} and {k + 1} overlap along axis {ax}", "interior")


def chk_split(c, rec):
    from SeismicMesh import decomp

    nb, ax = c["nb"], c["axis"]
    x = points(c, nb)
    if c["kind"] == "ints" and c["n"] % 3 == 0:
        x = np.vstack([x, x[: len(x) // 2]])
    keep = x.copy()
    s = slabs(x, nb, ax)
    if s is None:
        rec.excluded = True
        return
    a, b = s
    sure, maybe = set(a[a == b].tolist()), set(a.tolist()) | set(b.tolist())
    few = len(x) // nb <= 1
    rec.label(f"{c['dim']}D", c["kind"], f"axis{ax}")
    rec.nt(nb >= 3 or (a != b).any())
    if few or len(maybe) < nb:
        rec.label("rejected")
        must_raise(decomp.blocker, x, c["rank"], nb, axis=ax, what="blocker (a slab without points)" if not few else "blocker (too few points)")
        return
    if len(sure) < nb:
        # decided by rounding: either answer, but if accepted it must be right
        try:
            blocks, ext = decomp.blocker(x, c["rank"], nb, axis=ax)
        except (AssertionError, ValueError):
            rec.excluded = True
            return
    else:
        blocks, ext = call(decomp.blocker, x, c["rank"], nb, axis=ax, what="blocker")
    require(np.array_equal(x, keep), "blocker modified the points", "mutated")
    judge(x, nb, ax, blocks, ext, c["dim"])


@st.composite
def case_send(draw):
    c = draw(pts())
    c.update(draw(plan()))
    c["n"] = max(c["n"], 40)
    return c


def chk_send(c, rec):
    from SeismicMesh import decomp, migration

    n, ax, d = c["size"], c["axis"], c["dim"]
    x = points(c, n)
    s = slabs(x, n, ax)
    if s is None or len(x) // n <= 1 or len(set(s[0][s[0] == s[1]].tolist())) < n:
        rec.excluded = True
        return
    blocks, ext = call(decomp.blocker, x, 0, n, axis=ax, what="blocker")

    def fn(comm):
        if comm.rank == 0:
            return migration.localize_points([b.copy() for b in blocks], ext, comm, d)
        return migration.localize_points(None, None, comm, d)

    with quiet():
        res, w = mpi.run(n, fn, c["schedule"], c["sync"], "localize_points")
    for r in range(n):
        p, e = res[r]
        require(np.array_equal(np.asarray(p), np.asarray(blocks[r])), lambda: f"rank {r} of {n} does not receive its block", "block")
        require(np.array_equal(np.asarray(e, float), np.asarray(ext, float)), lambda: f"rank {r} of {n} does not receive the extents", "extents")
    judge(x, n, ax, [res[r][0] for r in range(n)], ext, d)
    rec.nt(n >= 3)
    rec.label(f"{d}D", f"{n} ranks", f"axis{ax}")


@st.composite
def case_size(draw):
    c = draw(plan(sizes=(2, 3, 4, 5)))
    d = draw(st.sampled_from([2, 2, 3]))
    c.update(dim=d, axis=draw(st.integers(0, d - 1)), res=draw(fl(4.0, 30.0 if d == 2 else 12.0)), asp=[draw(fl(0.4, 1.0)) for _ in range(d)], lo=[draw(st.sampled_from([0.0, -1.0, 500.0, -3.7])) for _ in range(d)],
             scale=draw(st.sampled_from([1.0, 1.0, 1000.0])), kind=draw(st.sampled_from(["linear", "wave", "wave", "const", "radial"])), k=[draw(fl(-3.0, 3.0)) for _ in range(d)], amp=draw(fl(0.1, 0.9)), seed=draw(st.integers(0, 10 ** 6)))
    return c


def chk_size(c, rec):
    from SeismicMesh import migration

    d, n, ax = c["dim"], c["size"], c["axis"]
    L = c["scale"]
    h0 = L / c["res"]
    lo = np.asarray(c["lo"][:d]) * L
    box = np.column_stack([lo, lo + np.asarray(c["asp"][:d]) * L])
    k = np.asarray(c["k"][:d]) / L
    if c["kind"] == "linear":
        fun = lambda *x: h0 * (2 + c["amp"] * sum(kk * (xx - l) for kk, xx, l in zip(k, x, lo)))
        curv = 0.0
    elif c["kind"] == "wave":
        fun = lambda *x: h0 * (2 + c["amp"] * np.sin(sum(kk * (xx - l) for kk, xx, l in zip(k, x, lo))))
        curv = h0 * c["amp"] * (k ** 2).sum()
    elif c["kind"] == "radial":
        mid = box.mean(axis=1)
        fun = lambda *x: h0 * (1 + c["amp"] * sum((xx - m) ** 2 for xx, m in zip(x, mid)) / L ** 2)
        curv = 2 * h0 * c["amp"] * d / L ** 2
    else:
        fun = lambda *x: 0 * x[0] + 1.5 * h0
        curv = 0.0
    fh = lambda x: fun(*x) if type(x) == tuple else fun(*np.asarray(x).T)
    boxes = [box.copy() for _ in range(n)]

    def fn(comm):
        return migration.localize_sizing_function(fh, h0, boxes[comm.rank], d, ax, comm)

    with quiet():
        res, w = mpi.run(n, fn, c["schedule"], c["sync"], "localize_sizing_function")
    g = np.random.RandomState(c["seed"])
    lims = np.linspace(box[ax, 0], box[ax, 1], n + 1)
    err = h0 ** 2 / 8 * curv * 1.05 + 1e-9 * h0
    vary = 0.0
    for r in range(n):
        require(np.array_equal(boxes[r], box), "the bounding box was modified", "mutated")
        a, b = box[:, 0].copy(), box[:, 1].copy()
        a[ax], b[ax] = lims[r], lims[r + 1]
        m = g.choice([0.0, 0.0, 2.0])
        x = np.vstack([g.uniform(a - m * h0, b + m * h0, (60, d)), a, b])
        got = np.asarray(call(res[r], x, what="the localised sizing function"), float)
        want = fh(x)
        e = np.abs(got - want).max()
        require(got.shape == want.shape and e <= err, lambda: f"on rank {r} of {n} the local sizing function differs from the global one by {e / h0:.3g} h0 in the rank's slab (interpolation explains {err / h0:.3g})", "size")
        vary = max(vary, np.ptp(want))
    rec.nt(vary > 3 * err and vary > 1e-3 * h0)
    rec.label(f"{d}D", f"{n} ranks", c["kind"], f"axis{ax}")


SUBS = [
    Sub("split", case_split, chk_split, 6000, 150000, shards=3),
    Sub("send", case_send, chk_send, 2000, 50000, shards=3),
    Sub("size", case_size, chk_size, 2000, 50000, shards=3),
]
