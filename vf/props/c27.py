import contextlib
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import mpi, shapes as sh, sz
from vf.core import Sub, call, must_raise, quiet, require
from vf.props.c13 import plan
from vf.shapes import fl

RULE = ("A case shows a generated shape (any primitive, transformed, or a set operation or repetition) with a given or default number of samples, on screen or saved, or plots a sizing function built from a generated velocity model, in serial or on several ranks. What is drawn is taken from the figure at the moment it is shown or saved: "
        "each drawn point must lie within 0.01 of the zero level set, in the sampled box, be coloured by its signed distance, and their number and spread must agree (six standard deviations) with independent samples; each cell of the plot must have the size the sizing function has at its centre, and the plot must cover the box. "
        "Non-trivial: at least ten drawn points, or a plot of varying sizes.")
ASSUMPTIONS = ["plots are drawn with matplotlib (agg); the figure is read when it is shown or saved"]


@contextlib.contextmanager
def canvas(snap):
    """Collects what figures hold when they are shown or saved."""
    import matplotlib.figure as mf
    import matplotlib.pyplot as plt

    def take(fig, how):
        for ax in fig.axes:
            for q in ax.collections:
                a = q.get_array()
                e = {"how": how, "kind": type(q).__name__, "val": None if a is None else np.ma.filled(np.ma.asarray(a, float), np.nan).ravel().copy()}
                if hasattr(q, "_offsets3d"):
                    e["pts"] = np.column_stack([np.ma.filled(np.ma.asarray(v, float), np.nan) for v in q._offsets3d])
                elif hasattr(q, "get_coordinates"):
                    e["grid"] = np.array(q.get_coordinates(), float)
                e["colorbar"] = ax.get_label() == "<colorbar>"
                snap.append(e)

    show, save, fshow = plt.show, mf.Figure.savefig, mf.Figure.show

    def my_show(*a, **k):
        for i in plt.get_fignums():
            take(plt.figure(i), "show")

    def my_fshow(self, *a, **k):
        take(self, "show")

    def my_save(self, *a, **k):
        take(self, "save")
        return save(self, *a, **k)

    d = tempfile.mkdtemp(prefix="vf-plot-")
    plt.close("all")
    plt.show, mf.Figure.savefig, mf.Figure.show = my_show, my_save, my_fshow
    try:
        yield d
    finally:
        plt.show, mf.Figure.savefig, mf.Figure.show = show, save, fshow
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)


def picture(path):
    import matplotlib.image as mi

    require(os.path.exists(path) and os.path.getsize(path) > 0, lambda: f"no picture was saved as {os.path.basename(path)}", "file")
    if path.endswith(".png"):
        im = mi.imread(path)
        require(np.ptp(im[..., :3]) > 0, "the saved picture is blank", "file")


# ---------------------------------------------------------------------- shapes


@st.composite
def case_show(draw):
    k = draw(st.sampled_from(["prim", "prim", "set", "repeat"]))
    if k == "prim":
        s = draw(sh.prim(size=(0.2, 2.0)))
    elif k == "set":
        d = draw(st.sampled_from([2, 3]))
        s = {"kind": draw(st.sampled_from(["union", "inter", "diff"])), "ops": [draw(sh.prim(dim=d, size=(0.5, 2.0))) for _ in range(draw(st.integers(2, 3)))]}
        if draw(st.booleans()):
            s["k"] = draw(fl(0.05, 1.0))
    else:
        s = {"kind": "repeat", "bbox": [-2.0, 2.0, -1.0, 1.5, 0.0, 2.0], "ops": [draw(sh.prim(dim=3, transform=False, size=(0.2, 0.6), kinds=("cube", "torus", "cyl", "prism")))], "period": [draw(fl(0.8, 2)) for _ in range(3)]}
    return {"s": s, "n": draw(st.sampled_from([None, 20000, 3000, 500, 1, 4000.0])), "save": draw(st.sampled_from([None, None, "png", "pdf"])), "seed": draw(st.integers(0, 10 ** 6))}


def chk_show(c, rec):
    import random

    dom = sh.build(c["s"])
    random.seed(c["seed"])
    np.random.seed(c["seed"])
    n = 10000 if c["n"] is None else int(c["n"])
    kw = {} if c["n"] is None else {"samples": c["n"]}
    box0 = tuple(dom.bbox)
    snap = []
    with canvas(snap) as d, quiet():
        if c["save"]:
            f = os.path.join(d, "shape." + c["save"])
            call(dom.show, filename=f, what="show", **kw)
            picture(f)
        else:
            call(dom.show, what="show", **kw)
        require(c["save"] or os.listdir(d) == [], "a picture was saved without a file name", "file")
    require(tuple(dom.bbox) == box0, "show changed the bounding box", "mutated")
    require(bool(snap), "nothing was " + ("saved" if c["save"] else "shown"), "nothing")
    if c["save"]:
        require(any(q["how"] == "save" for q in snap), "nothing was saved", "nothing")
    how = "save" if c["save"] else "show"
    got = [q for q in snap if q["how"] == how and "pts" in q and not q["colorbar"]]
    require(len(got) == 1, f"{len(got)} sets of points are drawn", "nothing")
    p, v = got[0]["pts"], got[0]["val"]
    dim = dom.dim
    if dim == 2:
        require(np.all(p[:, 2] == 0), "points of a 2D shape are drawn off the plane", "plane")
        p = p[:, :2]
    b = np.asarray(box0, float).reshape(-1, 2) + [-0.01, 0.01]
    # expectation from independent samples
    g = np.random.RandomState(c["seed"] + 1)
    m = 60000
    y = g.uniform(b[:, 0], b[:, 1], (m, dim))
    near = np.abs(np.asarray(call(dom.eval, y, what="eval"))) < 0.01

    def agree(a, k, what):
        q = (a + k + 1.0) / (n + m + 2.0)
        s = np.sqrt(q * (1 - q) * (1.0 / n + 1.0 / m))
        require(abs(a / n - k / m) <= 6 * s + 5.0 / n, lambda: f"{a} of {n} samples are drawn{what}, expected {n * k / m:.1f}", "count")

    agree(len(p), near.sum(), "")
    if len(p):
        require(len(v) == len(p), "not every point is coloured", "colour")
        f = np.asarray(call(dom.eval, p.copy(), what="eval"))
        s = 1e-9 * (1 + np.abs(b).max())
        bad = ~(np.abs(f) < 0.01 + s)
        require(not bad.any(), lambda: f"a drawn point has signed distance {f[bad][0]!r}: {p[bad][0].tolist()}", "level")
        require(np.all((p >= b[:, 0] - s) & (p <= b[:, 1] + s)), "a drawn point lies outside the bounding box", "box")
        require(np.abs(v - f).max() <= s, "points are not coloured by their signed distance", "colour")
        require(len(np.unique(p, axis=0)) == len(p), "a point is drawn twice", "twice")
        for i in range(dim):
            h = b[i].mean()
            agree((p[:, i] < h).sum(), (near & (y[:, i] < h)).sum(), f" in the lower half of axis {i}")
    rec.nt(len(p) >= 10)
    rec.label(c["s"]["kind"], c["save"] or "screen", f"n{c['n']}")


# --------------------------------------------------------------------- sizing


@st.composite
def case_plot(draw):
    c = {"m": draw(sz.model(dims=(2,), nmax2=12, nmin=2, extent=(120.0, 6000.0))), "stride": draw(st.sampled_from([None, 1, 2, 3, 7])), "save": draw(st.sampled_from([None, None, None, "png"])),
         "pad": draw(st.sampled_from([None, None, "edge", "constant"])), "padw": draw(fl(50, 900)), "par": draw(st.integers(0, 3)) == 0}
    c.update(draw(plan(sizes=(2, 3, 4))))
    return c


def chk_plot(c, rec):
    from SeismicMesh import plot_sizing_function

    m = c["m"]
    kw = {"wl": 5, "freq": 2.0, "hmin": 10.0, "hmax": 5000.0}
    if c["pad"]:
        kw.update(domain_pad=c["padw"], pad_style=c["pad"])
    sf = sz.sizing(m, sz.velocity(m), **kw)
    k = {} if c["stride"] is None else {"stride": c["stride"]}
    s = c["stride"] or 1
    snap = []
    with canvas(snap) as d, quiet():
        f = os.path.join(d, "sizes.png")
        if c["save"]:
            k["filename"] = f
        if c["par"]:
            res = mpi.run(c["size"], lambda comm: plot_sizing_function(sf, comm=comm, **k), c["schedule"], c["sync"], "plot_sizing_function")[0]
            require(res[0] is not None and all(r is None for r in res[1:]), "not the first rank alone returns the plot", "ranks")
        else:
            call(plot_sizing_function, sf, what="plot_sizing_function", **k)
        if c["save"]:
            picture(f)
        else:
            require(os.listdir(d) == [], "a picture was saved without a file name", "file")
    how = "save" if c["save"] else "show"
    got = [q for q in snap if q["how"] == how and "grid" in q and not q["colorbar"]]
    require(len(got) == 1, lambda: f"{len(got)} plots {how}n instead of one", "nothing")
    G, v = got[0]["grid"], got[0]["val"]
    if G.shape[0] * G.shape[1] == len(v):
        x = G.reshape(-1, 2)  # one value per corner
    else:
        require((G.shape[0] - 1) * (G.shape[1] - 1) == len(v), "values and cells of the plot do not match", "grid")
        x = (G[1:, 1:] + G[:-1, 1:] + G[1:, :-1] + G[:-1, :-1]).reshape(-1, 2) / 4
    b = np.asarray(sf.bbox, float).reshape(-1, 2)
    zx = x[:, ::-1]  # depth is plotted upwards, x to the right
    L = np.ptp(b, axis=1)
    tol = 1e-6 * L.max()
    require(np.all((zx >= b[:, 0] - tol) & (zx <= b[:, 1] + tol)), lambda: f"the plot shows {zx.min(axis=0).tolist()} to {zx.max(axis=0).tolist()}, the box is {b.tolist()}", "box")
    require(np.all(zx.min(axis=0) <= b[:, 0] + tol), "the plot does not start at the box's lower corner", "box")
    top = zx.max(axis=0)
    require(top[1] >= b[1, 1] - 50.0 - tol and top[0] >= b[0, 1] - 50.0 * s - tol, lambda: f"the plot ends at {top.tolist()}, the box at {b[:, 1].tolist()}", "box")
    want = np.asarray(call(sf.eval, zx, what="SizeFunction.eval"), float)
    w = want.ptp() if hasattr(want, "ptp") else np.ptp(want)
    bad = ~(np.abs(v - want) <= 1e-6 * np.abs(want) + 1e-5 * w)
    require(not bad.any(), lambda: "the plot shows a size of %.9g at (z, x) = %s, the sizing function has %.9g there" % (v[bad][0], zx[bad][0].tolist(), want[bad][0]), "sizes")
    n = [len(np.arange(b[0, 0], b[0, 1], 50.0)), len(np.arange(b[1, 0], b[1, 1], 50.0))]
    require(len(v) >= (n[0] // s) * n[1], "cells are missing in the plot", "cells")
    require(s == 1 or n[0] < 2 * s or len(v) <= 0.75 * n[0] * n[1], "`stride` does not reduce the number of plotted points", "stride")
    rec.nt(w > 0 and len(v) > 8)
    rec.label(f"stride{c['stride']}", how, "par" if c["par"] else "serial", c["pad"] or "nopad")


@st.composite
def case_bad(draw):
    return {"m": draw(sz.model(dims=(3,))), "what": draw(st.sampled_from(["3d", "callable", "number", "none"]))}


def chk_bad(c, rec):
    from SeismicMesh import plot_sizing_function

    a = {"callable": lambda x: 0 * x[:, 0] + 1, "number": 50.0, "none": None}.get(c["what"])
    if c["what"] == "3d":
        a = sz.sizing(c["m"], sz.velocity(c["m"]), wl=5, freq=2.0)
    snap = []
    with canvas(snap), quiet():
        e = must_raise(plot_sizing_function, a, what=f"plot_sizing_function of {c['what']}")
        require(isinstance(e, ValueError), lambda: f"plot_sizing_function of {c['what']} fails with {type(e).__name__} instead of a ValueError", "kind")
    rec.nt(True)


SUBS = [
    Sub("show", case_show, chk_show, 500, 12000, shards=4),
    Sub("sizing", case_plot, chk_plot, 300, 8000, shards=3),
    Sub("rejected", case_bad, chk_bad, 30, 300, shards=1),
]
