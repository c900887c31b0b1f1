import numpy as np
from hypothesis import strategies as st

from vf import dom, meshes as ms, shapes as sh
from vf.core import Sub, call, quiet, require
from vf.props import c04
from vf.shapes import fl


def metrics(P, p, t, g, nq=3000):
    """Everything in units of the local edge length."""
    m = {}
    d = P.dim
    h = P.ref(p)
    f = P.f(p) / h
    bv = dom.boundary_vertices(t)
    m["fmax"] = f.max()
    b = np.abs(f[bv])
    m["bmax"] = b.max()
    m["bfrac"] = (b > 0.02).mean()
    m["b90"] = np.quantile(b, 0.9)
    x = g.uniform(P.box[:, 0] - P.h, P.box[:, 1] + P.h, (nq, d))
    fx = P.f(x) / P.ref(x)
    n = dom.containing(p, t, x)
    m["unc"] = (-fx[n == 0]).max(initial=-9)
    m["out"] = fx[n > 0].max(initial=-9)
    m["multi"] = (n[np.abs(fx) > -1] > 1).sum()
    # the share of the domain's points (weighted by nothing) that is covered
    ins = fx < 0
    m["cov"] = (n[ins] > 0).mean() if ins.any() else 1.0
    v = ms.vol(p, t)
    vol = v.sum() if d == 2 else np.abs(v).sum()
    ref = measure(P)
    m["vol"] = vol / ref - 1
    m["cells"] = len(t)
    m["shell"] = (fx[ins] > -0.35).mean() if ins.any() else 1.0
    m["vrat"] = m["vol"] / max(m["shell"], 1e-9)
    return m


def measure(P):
    """Measure of the domain from the specification (exact for primitives)."""
    if "ops" not in P.spec:
        return sh.measure(P.spec)
    d = P.dim
    n = 700 if d == 2 else 110
    ax = [b[0] + (np.arange(n) + 0.5) * (b[1] - b[0]) / n for b in P.box]
    x = np.column_stack([q.ravel() for q in np.meshgrid(*ax, indexing="ij")])
    return (P.f(x) < 0).mean() * np.prod(np.ptp(P.box, axis=1))


# ------------------------------------------------------------------ subdomains


@st.composite
def case_sub(draw):
    d = draw(st.sampled_from([2, 2, 3]))
    c = draw(dom.case(dims=(d,), iters=(30, 50, 60), res2=(10.0, 24.0), res3=(6.0, 9.0), composite=False, var=False))
    c["how"] = "shape"
    n = draw(st.integers(1, 2))
    c["subs"] = [{"u": [draw(fl(-1, 1)) for _ in range(d)], "r": draw(fl(0.3, 0.8)), "kind": draw(st.sampled_from(["round", "round", "box", "callable"])), "a": draw(fl(-3.2, 3.2))} for _ in range(n)]
    return c


def subdomains(P, c):
    """Shapes well inside the domain and apart from each other, with their fields and measures."""
    import SeismicMesh as S

    d, h = P.dim, P.h
    g = np.random.RandomState(5)
    x = g.uniform(P.box[:, 0], P.box[:, 1], (20000, d))
    f = P.f(x) / dom.gradmax(P.spec)
    out = []
    for s in c["subs"]:
        # a free place near the wanted one, with room around it
        room = -f
        for o in out:
            room = np.minimum(room, np.linalg.norm(x - o["c"], axis=1) - o["R"])
        want = P.box.mean(axis=1) + 0.4 * np.asarray(s["u"]) * np.ptp(P.box, axis=1)
        ok = room > 4.2 * h if d == 2 else room > 3.4 * h
        if not ok.any():
            continue
        j = np.where(ok)[0][np.argmin(((x[ok] - want) ** 2).sum(1))]
        R = min(room[j] - 1.8 * h, s["r"] * room[j])
        if R < (2.0 if d == 2 else 1.6) * h:
            R = room[j] - 1.8 * h
        ctr = x[j]
        if s["kind"] == "box":
            e = R / np.sqrt(d)
            q = np.ravel(np.column_stack([ctr - e, ctr + e]))
            shp = (S.Rectangle if d == 2 else S.Cube)(tuple(float(v) for v in q))
            fld = lambda y, ctr=ctr, e=e: (np.abs(y - ctr) - e).max(axis=1)
            m = (2 * e) ** d
        else:
            shp = S.Disk([float(v) for v in ctr], float(R)) if d == 2 else S.Ball([float(v) for v in ctr], float(R))
            fld = lambda y, ctr=ctr, R=R: np.linalg.norm(y - ctr, axis=1) - R
            m = np.pi * R ** 2 if d == 2 else 4 / 3 * np.pi * R ** 3
        out.append({"c": ctr, "R": R, "f": fld, "m": m, "shape": shp, "kind": s["kind"]})
    return out


def sub_metrics(P, p, t, o):
    v = np.abs(ms.vol(p, t))
    mid = p[t].mean(axis=1)
    ins = o["f"](mid) < 0
    m = {"vol": v[ins].sum() / o["m"] - 1}
    q = o["f"](p)[t] / P.h
    # how far cells reach across the boundary (min of the two sides)
    m["across"] = np.minimum(q.max(axis=1), -q.min(axis=1)).max()
    m["afrac"] = v[np.minimum(q.max(axis=1), -q.min(axis=1)) > 0.1].sum() / o["m"]
    m["shell"] = (1 - (1 - 0.35 * P.h / o["R"]) ** P.dim)
    m["R"] = o["R"] / P.h
    return m


# -------------------------------------------------------------------- verdicts

LIM2 = dict(fmax=0.3, bmax=1.3, unc=1.0, out=0.7)
LIM3 = dict(fmax=0.9, bmax=1.2, unc=1.1, out=0.6)


def judge(m, d, prim, nb, tight=False, spiky=False):
    lim = dict(LIM2 if d == 2 else LIM3)
    if prim and d == 2:
        lim.update(fmax=0.03, out=0.02)
    if prim and d == 3 and not spiky:
        lim.update(fmax=0.3, out=0.35)
    u = "of the local edge length"
    require(m["fmax"] <= lim["fmax"], lambda: f"a vertex lies outside the domain by {m['fmax']:.3f} {u}", "outside")
    require(m["bmax"] <= lim["bmax"], lambda: f"a boundary vertex of the mesh is {m['bmax']:.3f} {u} away from the domain's boundary", "boundary")
    few = (0.05 if prim and not spiky else 0.3) + 3.0 / nb
    require(m["bfrac"] <= few, lambda: f"{m['bfrac']:.3f} of the boundary vertices are off the domain's boundary", "boundary")
    require(m["unc"] <= lim["unc"], lambda: f"a point {m['unc']:.3f} {u} inside the domain is covered by no cell", "uncovered")
    require(m["out"] <= lim["out"], lambda: f"a cell covers a point {m['out']:.3f} {u} outside the domain", "outside")
    require(d == 3 or m["multi"] <= 0, lambda: f"{m['multi']} points are covered by two cells", "multi")
    require(-(0.75 if m["cells"] >= 40 else 1.2) * m["shell"] - 0.01 <= m["vol"] <= 0.4 * m["shell"] + 0.01,
            lambda: f"the measure of the mesh is {1 + m['vol']:.3f} times the domain's (share of the domain near its boundary: {m['shell']:.3f})", "measure")


def chk_fit(c, rec):
    P = dom.Problem(c)
    if not P.resolved():
        rec.excluded = True
        rec.label("unresolved")
        return
    p, t = P.mesh()
    require(len(t) > 0, "no cells", "empty")
    m = metrics(P, p, t, np.random.RandomState(7))
    prim = "ops" not in P.spec
    judge(m, P.dim, prim, len(dom.boundary_vertices(t)), spiky=P.spec["kind"] in ("prism", "cube"))
    rec.nt(len(t) >= 20)
    rec.label(f"{P.dim}D", c["dom"]["kind"], c["size"]["kind"], c["how"])


def chk_sub(c, rec):
    P = dom.Problem(c)
    if not P.resolved():
        rec.excluded = True
        return
    subs = subdomains(P, c)
    if not subs:
        rec.excluded = True
        rec.label("no_room")
        return
    arg = [o["shape"] if o["kind"] != "callable" else o["shape"].eval for o in subs]
    kw = {"bbox": tuple(float(v) for v in P.box.ravel())} if any(o["kind"] == "callable" for o in subs) else {}
    p, t = P.mesh(subdomains=arg, **kw)
    rec.nt(True)
    rec.label(f"{P.dim}D", *[o["kind"] for o in subs], f"n{len(subs)}")
    judge_sub(P, p, t, subs)


def judge_sub(P, p, t, subs):
    m = metrics(P, p, t, np.random.RandomState(7))
    judge(m, P.dim, True, len(dom.boundary_vertices(t)), spiky=P.spec["kind"] in ("prism", "cube"))
    for o in subs:
        q = sub_metrics(P, p, t, o)
        box = o["kind"] == "box"
        require(q["afrac"] * q["R"] <= (2.7 if box else 1.05),
                lambda: f"cells of measure {q['afrac']:.3f} (of the subdomain's) reach across the boundary of the immersed {o['kind']} subdomain", "across")
        lo, hi = (-0.9, 0.6) if box else (-0.65, 0.15)
        require(lo * q["shell"] - 0.01 <= q["vol"] <= hi * q["shell"] + 0.01, lambda: f"the cells of the immersed {o['kind']} subdomain measure {1 + q['vol']:.3f} times the subdomain", "submeasure")


class BoxProblem:
    def __init__(self, b, ref, h):
        self.box, self.dim, self.h, self.ref = b, len(b), h, ref
        self.spec = {"kind": "rect" if len(b) == 2 else "cube", "bbox": b.ravel().tolist()}

    def f(self, x):
        return np.maximum(self.box[:, 0] - x, x - self.box[:, 1]).max(axis=1)


def chk_pad(c, rec):
    import SeismicMesh as S

    domain, sf, b, hmin, kw = c04.seis_problem(c)
    d = len(b)
    e = b.copy()
    if c["pad"]:
        w = kw["domain_pad"]
        e[0, 0] -= w
        e[1:, 0] -= w
        e[1:, 1] += w
    require(np.allclose(np.asarray(sf.bbox).reshape(-1, 2), e, rtol=1e-12, atol=1e-9 * np.ptp(e)), lambda: f"the sizing function's box is {sf.bbox}", "box")
    if np.ptp(e, axis=1).min() < (4 if d == 2 else 3.5) * kw["hmax"]:
        rec.excluded = True
        return
    with quiet():
        p, t = call(S.generate_mesh, domain, sf, what="generate_mesh", max_iter=c["iters"], seed=c["seed"], verbose=0)
    p, t = np.asarray(p), np.asarray(t)
    hm = kw["hmax"]
    P = BoxProblem(e, lambda x: np.full(len(x), hm), hm)
    m = metrics(P, p, t, np.random.RandomState(7))
    judge(m, d, True, len(dom.boundary_vertices(t)), spiky=d == 3)
    # every side of the box is reached
    for a in range(d):
        for k, side in ((0, p[:, a].min()), (1, p[:, a].max())):
            require(abs(side - e[a, k]) <= (0.02 if d == 2 else 0.35) * hm, lambda: f"the mesh ends at {side} in direction {a}, the box at {e[a, k]}", "side")
    rec.nt(bool(c["pad"]))
    rec.label(f"{d}D", "pad_" + str(c["pad"]), c["mode"])


RULE = ("A case meshes a resolved 2D or 3D domain (transformed primitive, sharp or smooth set operation, shape or plain function; constant or varying edge length; 10 to 60 iterations), a domain with immersed round, box or callable subdomains, or a rectangle/cube with a padded velocity-model sizing. "
        "The mesh is compared with an independent description of the domain: fields at all vertices and boundary vertices, covered and uncovered random points, total measure, and measure and straddling cells of each subdomain. Non-trivial: at least 20 cells; a subdomain; a padded sizing.")
ASSUMPTIONS = ["distances are judged in local edge lengths with limits about twice the largest value seen on the correct code over thousands of runs: the mesher promises fit up to discretisation only",
               "domains are resolved by the edge length (see C04)"]


# ------------------------------------------------------------ repeated shapes


@st.composite
def case_repeat(draw):
    P = [draw(fl(0.8, 1.6)) for _ in range(3)]
    m = min(P)
    k = draw(st.sampled_from(["ball", "cube", "cyl"]))
    if k == "ball":
        o = {"kind": "ball", "x0": [0.0, 0.0, 0.0], "r": draw(fl(0.28, 0.36)) * m}
    elif k == "cube":
        o = {"kind": "cube", "bbox": [q for p in P for q in (-draw(fl(0.27, 0.35)) * p, draw(fl(0.27, 0.35)) * p)]}
    else:
        o = {"kind": "cyl", "h": draw(fl(0.5, 0.65)) * m, "r": draw(fl(0.27, 0.35)) * m}
    n = [draw(st.sampled_from([1, 1, 2, 3])) for _ in range(3)]
    while n[0] * n[1] * n[2] > 4:
        n[n.index(max(n))] -= 1
    b = []
    for p, j in zip(P, n):
        a = draw(st.sampled_from([-1, 0, 0])) * p
        e = draw(st.sampled_from([0.0, 0.0, 0.5])) * p  # half a copy more
        b += [a - p / 2, a - p / 2 + j * p + (e if j < 3 else 0.0)]
    c = {"dim": 3, "dom": {"kind": "repeat", "bbox": b, "ops": [o], "period": P}, "size": {"kind": "const"}, "iters": draw(st.sampled_from([20, 30, 40])), "seed": draw(st.integers(0, 2 ** 31)),
         "scale": draw(st.sampled_from([1.0, 1e-2, 1e3])), "how": "shape"}
    w = max(b[1] - b[0], b[3] - b[2], b[5] - b[4])
    c["res"] = w / (m * draw(fl(0.09, 0.12)))
    return c


def chk_repeat(c, rec):
    P = dom.Problem(c)
    if not P.resolved() or np.prod(np.ptp(P.box, axis=1)) / P.h ** 3 > 12000:
        rec.excluded = True
        return
    p, t = P.mesh()
    require(len(t) > 0, "no cells", "empty")
    c04.check_valid(p, t, 3, overlap=True)
    judge(metrics(P, p, t, np.random.RandomState(7)), 3, False, len(dom.boundary_vertices(t)))
    rec.nt(len(t) >= 40)
    rec.label("repeated " + P.spec["ops"][0]["kind"])


SUBS = [
    Sub("repeated", case_repeat, chk_repeat, 40, 1500, shards=4),
    Sub("fit2", lambda: dom.case(dims=(2,)), chk_fit, 700, 20000, shards=4),
    Sub("fit3", lambda: dom.case(dims=(3,), res3=(4.0, 8.0)), chk_fit, 240, 8000, shards=4),
    Sub("subdomains", case_sub, chk_sub, 300, 8000, shards=4),
    Sub("padding", lambda: c04.case_seis(dims=(2,), iters=(10, 20, 30, 50)), chk_pad, 220, 8000, shards=2),
    Sub("padding3", lambda: c04.case_seis(dims=(3,), maxratio=1.3, iters=(10, 20, 30, 50)), chk_pad, 80, 3000, shards=2),
]
