import numpy as np
from hypothesis import strategies as st

from vf import mpi
from vf.core import Sub, quiet, require
from vf.shapes import fl

RULE = ("A case is a set of one to seven local triangulations (2D or 3D, unequal sizes, none or many unused and duplicated vertices, arbitrary numbering and orientation) gathered under a generated schedule of the ranks and send modes. "
        "The cells of the result, as multisets of vertex coordinates, must be exactly the union of every rank's distinct cells, each once per owning rank; vertex numbers must be in range and used; other ranks return flags; no message may be left. Non-trivial: at least three ranks of unequal sizes.")


@st.composite
def plan(draw, sizes=(2, 3, 4, 5, 7)):
    return {"size": draw(st.sampled_from(sizes)), "schedule": draw(st.lists(st.integers(0, 11), min_size=1, max_size=12)), "sync": draw(st.lists(st.booleans(), min_size=1, max_size=6))}


@st.composite
def case(draw):
    c = draw(plan(sizes=(1, 2, 3, 4, 5, 7)))
    c["dim"] = draw(st.sampled_from([2, 3]))
    c["ranks"] = [{"n": draw(st.integers(4, 12)), "unused": draw(st.integers(0, 4)), "dup": draw(st.integers(0, 3)), "cells": draw(st.integers(1, 14)), "seed": draw(st.integers(0, 10 ** 6)), "shared": draw(st.booleans())} for _ in range(c["size"])]
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 1e3, 1e-3]))
    return c


def local(c, r):
    """Points and cells of one rank."""
    k, d = c["ranks"][r], c["dim"]
    g = np.random.RandomState(1 if k["shared"] else k["seed"])
    p = g.uniform(-1, 1, (k["n"], d)) * c["scale"]
    g = np.random.RandomState(k["seed"])
    t = np.array([g.permutation(k["n"])[:d + 1] for _ in range(k["cells"])])
    if k["dup"]:
        # duplicated vertices, used by some of the cells
        src = g.randint(k["n"], size=k["dup"])
        for j, s in enumerate(src):
            i = np.nonzero(t == s)
            if len(i[0]):
                q = g.randint(len(i[0]))
                t[i[0][q], i[1][q]] = k["n"] + j
        p = np.vstack([p, p[src]])
    if k["unused"]:
        # unused vertices anywhere in between
        n = len(p) + k["unused"]
        pos = np.sort(g.permutation(n)[:len(p)])
        q = g.uniform(-1, 1, (n, d)) * c["scale"]
        q[pos] = p
        p, t = q, pos[t]
    return p, t


def cells_of(p, t):
    """Every cell as a sorted tuple of vertex coordinates."""
    return [tuple(sorted(map(tuple, p[x] + 0.0))) for x in t]


def chk(c, rec):
    from collections import Counter

    from SeismicMesh import migration

    loc = [local(c, r) for r in range(c["size"])]
    want = Counter()
    for p, t in loc:
        want.update(set(cells_of(p, t)))
    copies = [(p.copy(), t.copy()) for p, t in loc]

    def fn(comm):
        p, t = copies[comm.rank]
        return migration.aggregate(p, t, comm, comm.size, comm.rank, dim=c["dim"])

    with quiet():
        res, w = mpi.run(c["size"], fn, c["schedule"], c["sync"], "aggregate")
    gp, gt = np.asarray(res[0][0]), np.asarray(res[0][1])
    for r in range(1, c["size"]):
        require(all(np.ndim(x) == 0 for x in res[r]) and len(res[r]) == 2, lambda: f"rank {r} returned a mesh", "others")
    require(gp.ndim == 2 and gp.shape[1] == c["dim"] and gt.ndim == 2 and gt.shape[1] == c["dim"] + 1, lambda: f"shapes {gp.shape} and {gt.shape}", "shape")
    require(gt.dtype.kind in "iu" and gt.min() >= 0 and gt.max() < len(gp), lambda: f"vertex numbers {gt.min()}..{gt.max()} of {len(gp)}", "range")
    got = Counter(cells_of(gp, gt))
    miss, extra = want - got, got - want
    require(not miss and not extra, lambda: f"{sum(miss.values())} cells are missing and {sum(extra.values())} are not any rank's, of {sum(want.values())} (local cells {[len(t) for _, t in loc]})", "cells")
    require(len(np.unique(gt)) == len(gp), "unused vertices were gathered", "unused")
    n = {len(np.unique(t)) for _, t in loc}
    rec.nt(c["size"] >= 3 and len(n) >= 2)
    rec.label(f"{c['size']} ranks", f"{c['dim']}D")


SUBS = [Sub("aggregate", case, chk, 4000, 120000, shards=4)]
