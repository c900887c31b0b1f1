import copy

import numpy as np
from hypothesis import strategies as st

from vf import dom, mpi, shapes as sh, sz
from vf.core import Sub, call, quiet, require
from vf.props import c04, c05
from vf.props.c13 import plan
from vf.shapes import fl

RULE = ("A case is a whole parallel call of mesh generation on two to five simulated ranks: a generated domain (2D or 3D; primitives, combined shapes, plain functions), sizing (scalar, SizeFunction object, plain function), decomposition axis, "
        "initial points generated or user-supplied, iterations, options, and a schedule of the ranks with send modes per message; deadlocks, mismatched collectives and messages nobody receives are detected exactly. "
        "Some cases immerse one to three subdomains, most of them cut by slab boundaries. Or every rank builds the sizing function from a velocity model (2D, padded or not) on the communicator and meshes its box; box, minimum and sizes must be those of a serial run. The gathered mesh is checked completely (validity, facet multiplicities, overlaps) and measured against the domain (coverage, boundary fit) with the tolerances of serial meshes. Non-trivial: the mesh has at least 40 cells and 3D, at least three ranks or a varying size.")
ASSUMPTIONS = ["every slab is at least eight edge lengths wide and contains points of the domain"]


@st.composite
def case(draw, d=2, simple=False):
    c = draw(plan(sizes=(2, 3, 3, 4, 5) if d == 2 else (2, 2, 3)))
    n = c["size"]
    k = draw(dom.case(dims=(d,), iters=(20, 5, 10, 30, 3) if d == 2 else (6, 10, 20), res2=(16.0, 16.0 + 9.0 * n), res3=(10.0, 14.0), composite=d == 2 and not simple, var=not simple, kinds=None if d == 2 else ("cube", "ball", "prism")))
    if d == 3:
        k["dom"].pop("rotate", None)
    k["slim"] = draw(fl(4.5, 7.0))
    k["axis"] = draw(st.integers(0, d - 1))
    k["width"] = draw(fl(8.5, 16.0) if d == 2 else fl(6.5, 8.0))
    k["sizing"] = draw(st.sampled_from(["plain", "plain", "object"]))
    k["source"] = draw(st.sampled_from(["generated", "generated", "user"]))
    k["pseed"] = draw(st.integers(0, 10 ** 6))
    if draw(st.integers(0, 2)) == 0:
        k["perform_checks"] = True
    # stretch the domain along the axis of the decomposition
    k["long"] = draw(fl(1.0, 1.0 + 0.8 * n))
    k["ranks"] = c
    return k


class Par(dom.Problem):
    def __init__(self, c):
        c = copy.deepcopy(c)
        if c["dim"] == 3:
            # long along the axis of the decomposition and slender across
            b = np.ptp(dom.box(c["dom"]), axis=1)
            q = c["ranks"]["size"] * c["width"] / c["slim"] * np.delete(b, c["axis"]).min() / b[c["axis"]]
            c["long"] = max(1.0, float(q))
        c["dom"] = lengthen(c["dom"], c["axis"], c["long"], c["dim"])
        # the wanted slab width (in largest edge lengths) gives the edge length
        # (of combined shapes: slabs of the union of the operands' boxes)
        b = dom.scaled(c["dom"], c.get("scale", 1.0))
        b = np.array(sh.build(b).bbox).reshape(-1, 2)
        self.outer = b
        top = np.ptp(b[c["axis"]]) / c["ranks"]["size"] / c["width"]
        if c["size"]["kind"] == "const":
            h = top
        else:
            D = np.linalg.norm(np.ptp(b, axis=1))
            c["size"]["a"] = min(c["size"]["a"], 0.5 * top / D)
            h = top - c["size"]["a"] * D
        c["res"] = float(np.ptp(dom.box(dom.scaled(c["dom"], c.get("scale", 1.0))), axis=1).max() / h)
        super().__init__(c)
        self.expect = np.prod(np.ptp(self.box, axis=1) / h)

    def args(self):
        """(domain, edge_length, options), nothing shared between calls."""
        import SeismicMesh as S

        c = self.c
        q = dom.Problem(c)
        o = dict(q.opts)
        e = q.edge
        if c["sizing"] == "object":
            f = q.ref
            # (the same box as the domain's, or the domain is replaced by the box)
            b = o["bbox"] if "bbox" in o else q.domain.bbox

            def ev(x):
                if type(x) == tuple:
                    s = np.shape(x[0])
                    return f(np.column_stack([np.ravel(v) for v in x])).reshape(s)
                return f(np.asarray(x))

            e = S.SizeFunction(b, ev, float(self.h))
            o.pop("h0", None)
        o["axis"] = c["axis"]
        if c["source"] == "user":
            o["points"] = c04.cloud(self, np.random.RandomState(c["pseed"]))
        return q.domain, e, o

    def parallel(self):
        import SeismicMesh as S

        r = self.c["ranks"]
        a = [self.args() for _ in range(r["size"])]

        def fn(comm):
            d, e, o = a[comm.rank]
            return S.generate_mesh(d, e, comm=comm, **o)

        with quiet():
            return mpi.run(r["size"], fn, r["schedule"], r["sync"], "generate_mesh")[0]


def lengthen(s, ax, q, d):
    s = copy.deepcopy(s)
    if q == 1.0:
        return s
    if "ops" in s:
        s["ops"] = [lengthen(o, ax, q, d) for o in s["ops"]]
        return s
    if s["kind"] in ("rect", "cube") and not any(k in s for k in ("rotate", "stretch")):
        b = s["bbox"]
        b[2 * ax + 1] = b[2 * ax] + q * (b[2 * ax + 1] - b[2 * ax])
    elif "rotate" not in s:
        k = list(s.get("stretch") or [1.0] * d)
        k[ax] *= min(q, 2.0 if d == 2 else 6.0)
        s["stretch"] = k
    return s


def slabs_ok(P, c):
    """Each slab several edge lengths wide, and with room for points."""
    ax, n = c["axis"], c["ranks"]["size"]
    x = np.random.RandomState(3).uniform(P.box[:, 0], P.box[:, 1], (4000, P.dim))
    x = x[P.f(x) < 0]
    if len(x) < 50:
        return False
    hi = P.ref(x).max()
    lims = [P.outer[ax]] if c["source"] == "generated" else [[x[:, ax].min(), x[:, ax].max()], P.outer[ax]]
    for lo, up in lims:
        l = np.linspace(lo, up, n + 1)
        if l[1] - l[0] < (8 if P.dim == 2 else 6) * hi:
            return False
        for a, b in zip(l[:-1], l[1:]):
            # points in the middle of each slab
            y = x[(x[:, ax] > a + 0.3 * (b - a)) & (x[:, ax] < b - 0.3 * (b - a))]
            if len(y) < 10:
                return False
    return True


def chk(c, rec):
    P = Par(c)
    if P.expect > (3500 if P.dim == 2 else 1200):
        rec.excluded = True
        rec.label("large")
        return
    if not P.resolved() or not slabs_ok(P, c):
        rec.excluded = True
        rec.label("unresolved" if not P.resolved() else "slabs")
        return
    if c["source"] == "user" and c["sizing"] == "plain" and c["size"]["kind"] != "const":
        rec.excluded = True
        return
    res = P.parallel()
    n = c["ranks"]["size"]
    for r in range(1, n):
        require(len(res[r]) == 2 and all(np.ndim(v) == 0 for v in res[r]), lambda: f"rank {r} returned a mesh", "others")
    p, t = np.asarray(res[0][0]), np.asarray(res[0][1])
    rec.label(f"{P.dim}D", f"{n} ranks", f"axis{c['axis']}", c["source"], c["sizing"], c["size"]["kind"])
    c04.check_valid(p, t, P.dim, overlap=c["iters"] >= 20, conform=not (P.dim == 3 and c.get("perform_checks") and c["iters"] < 10))
    rec.nt(len(t) >= 40 and (P.dim == 3 or n >= 3 or c["size"]["kind"] != "const"))
    if c["iters"] >= 5:
        m = c05.metrics(P, p, t, np.random.RandomState(7))
        c05.judge(m, P.dim, False, len(dom.boundary_vertices(t)))


# ----------------------------------------------------------------- subdomains


@st.composite
def case_sub(draw, d=2):
    c = draw(case(d, simple=True))
    c["iters"] = draw(st.sampled_from((30, 40)))
    c["how"], c["source"], c["sizing"] = "shape", "generated", "plain"
    c["slim"] = max(c["slim"], 9.0)
    k = draw(st.integers(1, 3))
    c["subs"] = [{"u": [draw(fl(-1.6, 1.6)) for _ in range(d)], "r": draw(fl(0.3, 0.8)), "kind": draw(st.sampled_from(["round", "round", "box", "callable"]))} for _ in range(k)]
    return c


def chk_sub(c, rec):
    import SeismicMesh as S

    P = Par(c)
    if P.expect > (3500 if P.dim == 2 else 1500) or not P.resolved() or not slabs_ok(P, c):
        rec.excluded = True
        return
    subs = c05.subdomains(P, c)
    if not subs:
        rec.excluded = True
        rec.label("no_room")
        return
    r = c["ranks"]
    a = [P.args() + ([o["shape"] if o["kind"] != "callable" else o["shape"].eval for o in c05.subdomains(P, c)],) for _ in range(r["size"])]
    box = {"bbox": tuple(float(v) for v in P.box.ravel())} if any(o["kind"] == "callable" for o in subs) else {}

    def fn(comm):
        d, e, o, q = a[comm.rank]
        return S.generate_mesh(d, e, comm=comm, subdomains=q, **dict(o, **box))

    with quiet():
        res = mpi.run(r["size"], fn, r["schedule"], r["sync"], "generate_mesh")[0]
    p, t = np.asarray(res[0][0]), np.asarray(res[0][1])
    c04.check_valid(p, t, P.dim, overlap=True)
    rec.nt(len(t) >= 40)
    l = np.linspace(*P.outer[c["axis"]], r["size"] + 1)[1:-1]
    cut = any((np.abs(l - o["c"][c["axis"]]) < o["R"]).any() for o in subs)
    rec.label(f"{P.dim}D", f"{r['size']} ranks", *[o["kind"] for o in subs], "cut" if cut else "inside a slab")
    c05.judge_sub(P, p, t, subs)


# ------------------------------- sizes from a velocity model, on a communicator


@st.composite
def case_survey(draw):
    r = draw(plan(sizes=(2, 2, 3, 4)))
    m = draw(sz.model(dims=(2,), nmax2=14, nmin=3, iso=True, extent=(500.0, 6000.0)))
    m["kind"] = draw(st.sampled_from(["layers", "linear", "blob", "step", "constant", "uniform"]))
    c = {"m": m, "ranks": r, "axis": draw(st.integers(0, 1)), "width": draw(fl(8.5, 13.0)), "ratio": draw(fl(1.0, 2.2)), "grade": draw(st.sampled_from([0.1, 0.2, 0.3])),
         "iters": draw(st.sampled_from([20, 5, 30])), "seed": draw(st.integers(0, 2 ** 31)), "r0m": draw(st.booleans()),
         "pad": draw(st.sampled_from([None, "edge", "linear_ramp", "constant"])), "padw": draw(fl(0.1, 0.5)), "dom": draw(st.sampled_from(["padded", "unpadded"]))}
    return c


def chk_survey(c, rec):
    import SeismicMesh as S

    m, n, ax = c["m"], c["ranks"]["size"], c["axis"]
    b = np.asarray(m["bbox"], float).reshape(-1, 2)
    pad = float(c["padw"] * np.ptp(b, axis=1).min()) if c["pad"] else 0.0
    e = b.copy()
    if c["pad"]:
        e += [[-pad, 0.0], [-pad, pad]]
    hmax = float(np.ptp(e[ax]) / n / c["width"])
    kw = {"hmin": hmax / c["ratio"], "hmax": hmax, "grade": c["grade"]}
    v = sz.velocity(m)
    kw.update(wl=5, freq=float(v.min() / (5 * kw["hmin"])))
    if c["pad"]:
        kw.update(domain_pad=pad, pad_style=c["pad"])
    if np.ptp(e, axis=1).min() < 7 * hmax or np.prod(np.ptp(e, axis=1)) / kw["hmin"] ** 2 > 5000:
        rec.excluded = True
        return
    with quiet():
        sf = sz.sizing(m, v, **kw)
    mine = [np.array(v) for _ in range(n)]
    got = [None] * n

    def fn(comm):
        s = S.get_sizing_function_from_segy("unused.segy", tuple(m["bbox"]), comm=comm, velocity_data=mine[comm.rank] if comm.rank == 0 or c["seed"] % 2 else None, **dict(sz.dims_kw(m["shape"]), **kw))
        got[comm.rank] = s
        return S.generate_mesh(S.Rectangle(s.bbox if c["dom"] == "padded" else tuple(b.ravel().tolist())), s, comm=comm, max_iter=c["iters"], seed=c["seed"], verbose=0, axis=ax, r0m_is_h0=c["r0m"])

    with quiet():
        res = mpi.run(n, fn, c["ranks"]["schedule"], c["ranks"]["sync"], "sizing and meshing")[0]
    for r in range(n):
        require(tuple(got[r].bbox) == tuple(sf.bbox), lambda: f"rank {r} of {n}: box {got[r].bbox} of the sizing function, {sf.bbox} in serial", "box")
        require(got[r].hmin == sf.hmin, lambda: f"rank {r} of {n}: minimum edge length {got[r].hmin}, {sf.hmin} in serial", "hmin")
    x = np.random.RandomState(5).uniform(e[:, 0], e[:, 1], (200, 2))
    require(np.allclose(got[0].eval(x), sf.eval(x), rtol=1e-12), "rank 0 evaluates other sizes than in serial", "sizes")
    for r in range(1, n):
        require(len(res[r]) == 2 and all(np.ndim(q) == 0 for q in res[r]), lambda: f"rank {r} returned a mesh", "others")
    p, t = np.asarray(res[0][0]), np.asarray(res[0][1])
    rec.label(f"{n} ranks", f"axis{ax}", c["pad"] or "nopad", c["dom"], m["kind"])
    c04.check_valid(p, t, 2, overlap=c["iters"] >= 20)
    rec.nt(len(t) >= 40 and n >= 2 and c["ratio"] > 1.2)
    if c["iters"] < 20:
        return
    from vf.props import c06

    q = lambda y: np.asarray(sf.eval(np.clip(y, e[:, 0], e[:, 1])))
    f = lambda y: np.maximum(e[:, 0] - y, y - e[:, 1]).max(axis=1)

    class P:
        dim, ref, h, box = 2, staticmethod(q), kw["hmin"], e
        spec = {"ops": 1}

    P.f = staticmethod(f)
    if c["iters"] >= 5:
        c05.judge(c05.metrics(P, p, t, np.random.RandomState(7)), 2, False, len(dom.boundary_vertices(t)))
    lo = q(np.random.RandomState(3).uniform(e[:, 0], e[:, 1], (20000, 2))).min()
    nrm = 1.0 if c["r0m"] else kw["hmin"] / lo
    if nrm >= 0.6 and c["iters"] >= 30:
        c06.judge(c06.stats(p, t, q, nrm), 2, "grid")


SUBS = [
    Sub("subdomains", case_sub, chk_sub, 80, 2500, shards=3),
    Sub("survey", case_survey, chk_survey, 150, 4000, shards=4),
    Sub("plane", lambda: case(2), chk, 600, 16000, shards=5),
    Sub("solid", lambda: case(3), chk, 90, 2500, shards=6),
]
