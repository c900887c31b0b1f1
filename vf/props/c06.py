import numpy as np
from hypothesis import strategies as st

from vf import dom, meshes as ms, shapes as sh
from vf.core import Sub, call, quiet, require
from vf.props import c04, c10
from vf.shapes import fl

RULE = ("A case meshes a resolved 2D or 3D domain (20 to 60 iterations) with a constant, linear, radial or velocity-grid edge length, given as number, function or sizing object, and compares every edge with the edge length asked for at its midpoint: mean, spread, extremes, the small-size against the large-size third of the domain, and the quality of 2D cells; or meshes "
        "related problems (half the edge length; everything scaled; everything moved; several ranks instead of one) and compares cell counts and edge statistics. Limits depend on the number of cells. Non-trivial: at least 64 cells.")
ASSUMPTIONS = ["limits are about half as far again as the largest deviation seen on the correct code over thousands of runs: the mesher controls lengths statistically",
               "unless r0m_is_h0 is set, the points are as dense as if the smallest edge length inside the domain were h0 (documented behaviour of the rejection method); lengths are judged relative to that"]


def stats(p, t, ref, norm=1.0):
    d = p.shape[1]
    e = dom.edges(t)
    L = np.linalg.norm(p[e[:, 0]] - p[e[:, 1]], axis=1)
    hm = ref(p[e].mean(axis=1)) * norm
    r = L / hm
    lo, hi = hm <= np.quantile(hm, 1 / 3), hm >= np.quantile(hm, 2 / 3)
    v = np.abs(ms.vol(p, t))
    return {"n": len(t), "mean": r.mean(), "std": r.std() / r.mean(), "min": r.min(), "max": r.max(), "q05": np.quantile(r, 0.05), "q95": np.quantile(r, 0.95),
            "lohi": r[hi].mean() / r[lo].mean() if hm.max() > 1.3 * hm.min() else 1.0, "vol": v.sum(), "q10": np.quantile(ms.quality(p, t), 0.1) if d == 2 else 1.0}


def limits(n, d, kind):
    """Bounds by number of cells."""
    k = 0 if n < 64 else 1 if n < 256 else 2
    const = kind == "const"
    if d == 2:
        o = {"mean": [(0.8, 1.85), (0.97 if const else 0.8, 1.42), (1.04, 1.24) if const else (0.94, 1.3)][k], "std": [0.4, 0.27, 0.2][k], "q10": [0.45, 0.55, 0.72][k],
             "q05": [(0.4, 1.7), (0.6, 1.22), (0.75, 1.12)][k], "q95": [(1, 2.8), (1.0, 2.0), (1.08, 1.6)][k], "max": [3.5, 3.2, 2.9][k], "lohi": [(0.6, 1.4), (0.76, 1.3), (0.84, 1.17)][k]}
    else:
        k = 0 if n < 100 else 1 if n < 400 else 2
        o = {"mean": [(1.1, 2.4), (1.06, 2.0), (1.15, 1.6)][k], "std": [0.55, 0.45, 0.32][k], "q10": 0, "q05": [(0.65, 1.6), (0.7, 1.4), (0.8, 1.25)][k], "q95": [(1.35, 4.5), (1.3, 3.8), (1.4, 2.5)][k],
             "max": [6.0, 6.5, 5.0][k], "lohi": [(0.6, 1.3), (0.65, 1.25), (0.8, 1.12)][k]}
    if kind == "grid":  # sizes vary from node to node of a coarse grid
        a, b = o["mean"]
        o["mean"] = (a * 0.88, b * 1.08)
        o["lohi"] = (o["lohi"][0] * 0.88, o["lohi"][1] * 1.12)
        o["q05"] = (o["q05"][0] * 0.85, o["q05"][1])
        o["q10"] *= 0.9
        o["std"] *= 1.2
    return o


def judge(s, d, kind):
    o = limits(s["n"], d, kind)
    for q in ("mean", "q05", "q95", "lohi"):
        require(o[q][0] <= s[q] <= o[q][1], lambda: f"{kind} edge length, {s['n']} cells: {q} of actual/asked length is {s[q]:.3f}, outside {o[q]}", q)
    for q in ("std", "max"):
        require(s[q] <= o[q], lambda: f"{kind} edge length, {s['n']} cells: {q} of actual/asked length is {s[q]:.3f} > {o[q]}", q)
    require(s["q10"] >= o["q10"], lambda: f"a tenth of the {s['n']} cells are of quality below {s['q10']:.3f}", "quality")


@st.composite
def case_size(draw, dims=(2,)):
    c = draw(dom.case(dims=dims, iters=(30, 40, 50, 60), res2=(7.0, 26.0), res3=(4.0, 9.0)))
    if c["size"]["kind"] != "const":
        c["r0m_is_h0"] = draw(st.booleans())
    return c


def norm_of(P):
    if P.c["size"]["kind"] == "const" or P.c.get("r0m_is_h0"):
        return 1.0
    g = np.random.RandomState(3)
    x = g.uniform(P.box[:, 0], P.box[:, 1], (20000, P.dim))
    x = x[P.f(x) < 0]
    return P.h / P.ref(x).min()


def chk_size(c, rec):
    P = dom.Problem(c)
    if not P.resolved():
        rec.excluded = True
        return
    nrm = norm_of(P)
    if nrm < 0.6:
        rec.excluded = True
        rec.label("overrefined")
        return
    p, t = P.mesh()
    require(len(t) > 0, "no cells", "empty")
    s = stats(p, t, P.ref, nrm)
    if s["n"] < 16:
        rec.excluded = True
        return
    rec.nt(s["n"] >= 64)
    rec.label(f"{P.dim}D", c["size"]["kind"], c["dom"]["kind"], "norm" if nrm < 1 else "abs")
    judge(s, P.dim, c["size"]["kind"])


# ------------------------------------------------- velocity-model (grid) sizing


def chk_grid(c, rec):
    import SeismicMesh as S

    domain, sf, b, hmin, kw = c04.seis_problem(c)
    d = len(b)
    e = np.asarray(sf.bbox, float).reshape(-1, 2)
    if np.ptp(e, axis=1).min() < (4 if d == 2 else 3.0) * kw["hmax"]:
        rec.excluded = True
        return
    ref = lambda x: np.asarray(sf.eval(np.clip(x, e[:, 0], e[:, 1])))
    g = np.random.RandomState(3)
    lo = ref(g.uniform(e[:, 0], e[:, 1], (20000, d))).min()
    nrm = 1.0 if c["r0m"] else hmin / lo
    if nrm < 0.6:
        rec.excluded = True
        return
    with quiet():
        p, t = call(S.generate_mesh, domain, sf, what="generate_mesh", max_iter=c["iters"], seed=c["seed"], verbose=0, r0m_is_h0=c["r0m"])
    p, t = np.asarray(p), np.asarray(t)
    s = stats(p, t, ref, nrm)
    if s["n"] < 16:
        rec.excluded = True
        return
    rec.nt(s["n"] >= 64 and kw["hmax"] > 1.2 * kw["hmin"])
    rec.label(f"{d}D", c["mode"], "pad" if c["pad"] else "nopad", "graded" if c["grade"] else "raw")
    judge(s, d, "grid")


@st.composite
def case_grid(draw, dims=(2, 2, 2, 3)):
    c = draw(c04.case_seis(dims=dims, iters=(30, 50, 60), maxratio=3.0 if dims[0] == 2 else 2.0))
    c["grade"] = draw(st.sampled_from([0.1, 0.2, 0.35]))
    c["mode"] = draw(st.sampled_from(["wl", "wl", "grad"]))
    c["r0m"] = draw(st.booleans())
    return c


# --------------------------------------------------------- related problems


@st.composite
def case_rel(draw, dims=(2, 2, 3)):
    d = draw(st.sampled_from(dims))
    c = draw(dom.case(dims=(d,), iters=(30, 50), res2=(7.0, 13.0), res3=(4.0, 5.0), composite=d == 2, smooth=False, scales=(1.0,)))
    if c["size"]["kind"] != "const":
        c["r0m_is_h0"] = True
    c["rel"] = draw(st.sampled_from(["half", "scale", "move", "scale2"]))
    c["q"] = draw(st.one_of(fl(1e-3, 0.1), fl(20.0, 5e3)))
    c["v"] = [draw(fl(-50.0, 50.0)) for _ in range(d)]
    return c


def moved(s, v):
    s = dict(s)
    if "ops" in s:
        s["ops"] = [moved(o, v) for o in s["ops"]]
    else:
        s["translate"] = [float(a + b) for a, b in zip(s.get("translate") or [0.0] * len(v), v)]
    return s


def chk_rel(c, rec):
    P = dom.Problem(c)
    if not P.resolved():
        rec.excluded = True
        return
    p, t = P.mesh()
    require(len(t) > 0, "no cells", "empty")
    a = stats(p, t, P.ref)
    d, rel = P.dim, c["rel"]
    if a["n"] < 30:
        rec.excluded = True
        return
    big = a["n"] >= 64
    rec.nt(big)
    rec.label(f"{d}D", rel, c["size"]["kind"])
    if rel == "half":
        ref, opts = P.ref, dict(P.opts)
        f2 = (lambda x: 0.5 * ref(x)) if c["size"]["kind"] != "const" else 0.5 * P.h
        if "h0" in opts:
            opts["h0"] = 0.5 * opts["h0"]
        Q = P
        Q.edge, Q.opts = f2, opts
        p2, t2 = Q.mesh()
        b = stats(p2, t2, lambda x: 0.5 * ref(x))
        r = b["n"] / a["n"]
        lo, hi = ((2.5, 6.5) if big else (2.4, 9.0)) if d == 2 else ((4.5, 22.0) if big else (4.0, 60.0))
        require(lo <= r <= hi, lambda: f"half the edge length gives {b['n']} instead of {a['n']} cells ({r:.2f} times as many)", "refine")
        judge(b, d, c["size"]["kind"])
        return
    c2 = dict(c)
    if rel == "move":
        c2["dom"] = moved(c["dom"], c["v"])
        fac = 1.0
    else:
        fac = 2.0 ** round(np.log2(c["q"])) if rel == "scale2" else c["q"]
        c2["scale"] = fac
    Q = dom.Problem(c2)
    p2, t2 = Q.mesh()
    b = stats(p2, t2, Q.ref)
    r = b["n"] / a["n"]
    k = 0 if a["n"] < 64 else 1 if a["n"] < 256 else 2
    tol = [(0.5, 0.25), (0.25, 0.12), (0.1, 0.05)][k] if d == 2 else [(0.8, 0.35), (0.4, 0.2), (0.25, 0.12)][k]
    require(abs(np.log(r)) <= tol[0], lambda: f"the {rel}d problem has {b['n']} instead of {a['n']} cells", "similar")
    require(abs(b["mean"] / a["mean"] - 1) <= tol[1], lambda: f"the {rel}d problem has a mean actual/asked length of {b['mean']:.3f} instead of {a['mean']:.3f}", "similar")
    vt = [0.15, 0.07, 0.04][k] * (1 if d == 2 else 2.5)
    require(abs(b["vol"] / (a["vol"] * fac ** d) - 1) <= vt, lambda: f"the {rel}d problem measures {b['vol'] / fac ** d} instead of {a['vol']}", "similar")


# ----------------------------------------------------------- parallel meshing


@st.composite
def case_par(draw, d=2):
    c = draw(c10.case(d))
    c["iters"] = draw(st.sampled_from((30, 40) if d == 2 else (20, 30)))
    c["source"] = "generated"
    c.pop("perform_checks", None)
    if c["size"]["kind"] != "const":
        c["r0m_is_h0"] = draw(st.booleans())
    return c


def chk_par(c, rec):
    import SeismicMesh as S

    P = c10.Par(c)
    if P.expect > (3500 if P.dim == 2 else 1200) or not P.resolved() or not c10.slabs_ok(P, c):
        rec.excluded = True
        return
    nrm = norm_of(P)
    if nrm < 0.6:
        rec.excluded = True
        return
    res = P.parallel()
    p, t = np.asarray(res[0][0]), np.asarray(res[0][1])
    require(len(t) > 0, "no cells", "empty")
    domain, e, o = c10.Par(c).args()
    with quiet():
        p2, t2 = call(S.generate_mesh, domain, e, what="generate_mesh", **o)
    a, b = stats(p, t, P.ref, nrm), stats(np.asarray(p2), np.asarray(t2), P.ref, nrm)
    rec.nt(a["n"] >= 256)
    rec.label(f"{P.dim}D", f"{c['ranks']['size']} ranks", c["size"]["kind"], c["sizing"])
    judge(a, P.dim, c["size"]["kind"])
    big = b["n"] >= 600
    require(abs(np.log(a["n"] / b["n"])) <= (0.12 if big else 0.25), lambda: f"{a['n']} cells on {c['ranks']['size']} ranks, {b['n']} in serial", "parallel")
    require(abs(np.log(a["mean"] / b["mean"])) <= (0.07 if big else 0.12), lambda: f"mean actual/asked length {a['mean']:.3f} on {c['ranks']['size']} ranks, {b['mean']:.3f} in serial", "parallel")


SUBS = [
    Sub("size2", lambda: case_size(dims=(2,)), chk_size, 500, 16000, shards=4),
    Sub("size3", lambda: case_size(dims=(3,)), chk_size, 160, 6000, shards=4),
    Sub("grid", lambda: case_grid(dims=(2,)), chk_grid, 200, 6000, shards=2),
    Sub("grid3", lambda: case_grid(dims=(3,)), chk_grid, 60, 2500, shards=2),
    Sub("related", case_rel, chk_rel, 220, 8000, shards=4),
    Sub("parallel", case_par, chk_par, 100, 3000, shards=3),
    Sub("parallel3", lambda: case_par(3), chk_par, 20, 800, shards=2),
]
