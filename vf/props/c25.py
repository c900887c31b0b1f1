import itertools

import numpy as np
from hypothesis import strategies as st

from vf import sz
from vf.core import Sub, Violation, call, must_raise, quiet, require
from vf.shapes import fl

RULE = ("A case is a valid call of mesh generation, sliver removal or the sizing function (domain, edge length, options all generated) with exactly one fault injected (misspelled or foreign option, bad verbosity, iteration count, "
        "edge length, h0, box, domain, sizing or physical parameter): it must raise without having done an iteration. Fault-free calls with any combination of options must return after exactly the requested number of iterations. "
        "Non-trivial: a fault was injected into a call that succeeds without it (acceptance: at least three options given).")
ASSUMPTIONS = ["an iteration count is a number; a count that is not whole is rounded up", "iterations are observed through the progress messages of verbosity 2",
               "options that only matter in combination (e.g. frequency without a wavelength count) are only required to be rejected when they would be used"]

GOPTS = ["verbose", "max_iter", "seed", "perform_checks", "pfix", "axis", "points", "bbox", "delta_t", "h0", "geps_mult", "subdomains", "mesh_improvement", "r0m_is_h0", "gamma", "preserve", "min_dh_angle_bound", "max_dh_angle_bound"]


@st.composite
def wrong_name(draw, names):
    n = draw(st.sampled_from(names))
    kind = draw(st.sampled_from(["drop", "swap", "case", "suffix", "new", "dash", "space", "foreign"]))
    if kind == "drop":
        k = draw(st.integers(0, len(n) - 1))
        w = n[:k] + n[k + 1:]
    elif kind == "swap":
        k = draw(st.integers(0, len(n) - 2))
        w = n[:k] + n[k + 1] + n[k] + n[k + 2:]
    elif kind == "case":
        w = n.capitalize()
    elif kind == "suffix":
        w = n + draw(st.sampled_from(["s", "_", "0"]))
    elif kind == "dash":
        w = n.replace("_", "") if "_" in n else "_" + n
    elif kind == "space":
        w = n + " "
    elif kind == "foreign":
        w = draw(st.sampled_from([x for x in GOPTS + SZ_NAMES + ["comm_size", "filename", "min_qual", "ptol", "dim", "method", "tol", "workers"] if x not in names]))
    else:
        w = draw(st.text(alphabet="abcdefghijklmnopqrstuvwxyz_", min_size=1, max_size=9))
    return w


# what an unknown option may be set to
UNKNOWN = [1, 1, None, False, True, 0, 0.0, "", "x", [], [0.1], 3.5]


@st.composite
def gen_base(draw):
    d = draw(st.sampled_from([2, 2, 2, 3]))
    return {"d": d, "dom": draw(st.sampled_from(["shape", "shape", "callable"])), "size": draw(st.sampled_from(["scalar", "scalar", "callable", "sizing"])),
            "h": draw(st.sampled_from([0.2, 0.25, 0.3] if d == 2 else [0.35, 0.45])), "off": draw(st.sampled_from([0.0, 2.0])),
            "opts": {k: v for k, v in {
                "verbose": draw(st.sampled_from([None, 0, 1, 2, 3])), "seed": draw(st.sampled_from([None, 0, 7])), "perform_checks": draw(st.sampled_from([None, False, True])),
                "axis": draw(st.sampled_from([None, 0, 1])), "delta_t": draw(st.sampled_from([None, 0.1, 0.3])), "geps_mult": draw(st.sampled_from([None, 0.05, 0.2])),
                "mesh_improvement": draw(st.sampled_from([None, True, False])), "r0m_is_h0": draw(st.sampled_from([None, False, True])),
            }.items() if v is not None},
            "max_iter": draw(st.sampled_from([1, 2, 3, 4, 7, 12])), "fmt": draw(st.sampled_from(["int", "int", "float", "numpy"])),
            "pfix": draw(st.booleans()), "sub": draw(st.booleans()), "points": draw(st.sampled_from([False, False, True]))}


def realise(b):
    """-> (domain, edge_length, kwargs) of a call that must succeed."""
    import SeismicMesh as sm

    d, o = b["d"], b["off"]
    box = tuple(x for _ in range(d) for x in (o, o + 1.0))
    kw = dict(b["opts"])
    kw["max_iter"] = {"int": int, "float": float, "numpy": np.int64}[b["fmt"]](b["max_iter"])
    if b["dom"] == "shape":
        dom = sm.Rectangle(box) if d == 2 else sm.Cube(box)
    else:
        def dom(p):
            return np.max(np.concatenate([o - p, p - o - 1.0], axis=1), axis=1)

        kw["bbox"] = box
    h = b["h"]
    if b["size"] == "scalar":
        size = h
    elif b["size"] == "callable":
        def size(p):
            return np.full(len(p), h) if not isinstance(p, tuple) else np.zeros_like(p[0]) + h

        kw["h0"] = h
    else:
        def sz_(p):
            return np.full(len(p), h) if not isinstance(p, tuple) else np.zeros_like(p[0]) + h

        size = sm.SizeFunction(box, sz_, h)
    if b["pfix"]:
        kw["pfix"] = [[o + 0.5] * d]
    if b["sub"]:
        kw["subdomains"] = [sm.Disk([o + 0.5, o + 0.5], 0.25) if d == 2 else sm.Ball([o + 0.5] * 3, 0.25)]
    if b["points"]:
        g = np.random.RandomState(5)
        c = np.array(list(itertools.product([o, o + 1.0], repeat=d)))
        kw["points"] = np.vstack([c, g.uniform(o, o + 1, (int(1.0 / h ** d) + 4, d))])
    return dom, size, kw


def iterations(text):
    return [int(line.split("#")[1].split(",")[0]) for line in text.splitlines() if line.startswith("Iteration #")]


GEN_FAULTS = {
    "name": None,
    "verbose": [-1, -3, 0.5, "loud", None],
    "max_iter": [0, -1, -50, -0.5, float("nan"), "many", None],
    "edge": [0.0, -0.1, 0, -3, float("nan"), "list", "none", "str", "array"],
    "h0": [0.0, -0.2, 0, None, "missing", "x"],
    "bbox": ["list", "ints", "odd", "reversed", "array", "missing", "none", "empty", "nan", "oneint"],
    "domain": ["int", "none", "str", "list", "dict", "array"],
    "subdomains": ["int", "str"],
    "seed": [-1, 2 ** 32, "x"],
}


@st.composite
def reject_gen_case(draw, fault=None):
    b = draw(gen_base())
    f = fault or draw(st.sampled_from(sorted(GEN_FAULTS)))
    if f == "name":
        v = draw(wrong_name(GOPTS))
    else:
        v = draw(st.sampled_from([repr(x) if isinstance(x, float) and x != x else x for x in GEN_FAULTS[f]]))
    return {"b": b, "fault": f, "v": v, "val": draw(st.sampled_from(UNKNOWN))}


def chk_reject_gen(c, rec):
    import SeismicMesh as sm

    b = dict(c["b"])
    f, v = c["fault"], c["v"]
    if v == "nan" and f != "bbox":
        v = float("nan")
    if f == "bbox":
        b["dom"] = "callable"
        b["size"] = "scalar" if b["size"] == "sizing" else b["size"]
    if f == "h0":
        b["size"] = "callable"
    if f == "seed" and b["points"]:
        b["points"] = False
    dom, size, kw = realise(b)
    kw["verbose"] = 2
    d = b["d"]
    if f == "name":
        from inspect import signature

        if v in GOPTS or v in ("domain", "edge_length", "comm", ""):
            rec.excluded = True
            return
        kw[v] = c.get("val", 1)
    elif f in ("verbose", "max_iter", "seed"):
        kw[f] = v
    elif f == "edge":
        size = {"list": [0.2], "none": None, "str": "0.2", "array": np.array([0.2, 0.2])}.get(v, v)
        kw.pop("h0", None)
    elif f == "h0":
        if v == "missing":
            kw.pop("h0")
        else:
            kw["h0"] = v
    elif f == "bbox":
        box = kw["bbox"]
        if v == "missing":
            kw.pop("bbox")
        else:
            kw["bbox"] = {"list": list(box), "ints": tuple(int(x) for x in box), "odd": box[:-1], "reversed": (box[1], box[0]) + box[2:], "array": np.array(box), "none": None,
                          "empty": (), "nan": box[:-1] + (float("nan"),), "oneint": box[:-1] + (int(box[-1]),)}[v]
        if b["points"] and v in ("reversed", "nan"):
            kw.pop("points")
    elif f == "domain":
        dom = {"int": 3, "none": None, "str": "Rectangle", "list": [dom], "dict": {"domain": 1}, "array": np.zeros(3)}[v]
        if b["dom"] == "shape":
            kw["bbox"] = tuple(x for _ in range(d) for x in (0.0, 1.0))
    elif f == "subdomains":
        kw["subdomains"] = [{"int": 3, "str": "Disk"}[v]]
    with quiet() as buf:
        must_raise(sm.generate_mesh, dom, size, what=f"generate_mesh with {f}={v!r}", **kw)
    require(not iterations(buf.getvalue()), f"generate_mesh with {f}={v!r} meshed before it raised", "late")
    rec.nt()
    rec.label(f, f"{d}D")


def chk_accept_gen(c, rec):
    import SeismicMesh as sm

    dom, size, kw = realise(c)
    kw["verbose"] = 2
    m = c["max_iter"]
    with quiet() as buf:
        r = call(sm.generate_mesh, dom, size, allow=(), **kw)
    its = iterations(buf.getvalue())
    require(its == list(range(1, m)), lambda: f"{len(its) + 1} iterations instead of {m}", "iterations")
    require(isinstance(r, tuple) and len(r) == 2, "does not return vertices and cells", "return")
    p, t = r
    d = c["d"]
    require(isinstance(p, np.ndarray) and isinstance(t, np.ndarray) and p.ndim == 2 and p.shape[1] == d and t.ndim == 2 and t.shape[1] == d + 1, "does not return vertices and cells", "return")
    require(len(t) > 0 and t.min() >= 0 and t.max() < len(p) and np.all(np.isfinite(p)), "empty or inconsistent mesh", "return")
    rec.nt(len(kw) >= 5)
    rec.label(f"{d}D", c["dom"], c["size"], f"iters={min(m, 4)}", *[k for k in ("pfix", "sub", "points") if c[k]])


SL_FAULTS = {"name": None, "verbose": [-1, 0.5, "loud"], "max_iter": [0, -1, -50, "nan", "many"], "edge": [0.0, -0.1, -3, "list", "none", "str"], "h0": [0.0, -0.2, "missing", "x"],
             "domain": ["int", "none", "str", "list"], "bbox": ["list", "ints", "missing"], "dim": [2]}


@st.composite
def sliver_case(draw, fault=None):
    f = fault or draw(st.sampled_from(sorted(SL_FAULTS)))
    v = draw(wrong_name(GOPTS)) if f == "name" else draw(st.sampled_from(SL_FAULTS[f]))
    return {"seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.integers(5, 40)), "dom": draw(st.sampled_from(["shape", "callable"])), "size": draw(st.sampled_from(["scalar", "callable"])),
            "max_iter": draw(st.sampled_from([1, 2, 5])), "fault": f, "v": v, "val": draw(st.sampled_from(UNKNOWN))}


def chk_reject_sliver(c, rec):
    import SeismicMesh as sm

    g = np.random.RandomState(c["seed"])
    p = np.vstack([np.array(list(itertools.product([0.0, 1.0], repeat=3))), g.uniform(0, 1, (c["n"], 3))])
    kw = {"max_iter": c["max_iter"], "verbose": 1}
    f, v = c["fault"], c["v"]
    dk = "callable" if f == "bbox" else c["dom"]
    sk = "callable" if f == "h0" else c["size"]
    if dk == "shape":
        dom = sm.Cube((0.0, 1.0, 0.0, 1.0, 0.0, 1.0))
    else:
        def dom(q):
            return np.max(np.concatenate([-q, q - 1.0], axis=1), axis=1)

        kw["bbox"] = (0.0, 1.0, 0.0, 1.0, 0.0, 1.0)
    if sk == "scalar":
        size = 0.3
    else:
        def size(q):
            return np.full(len(q), 0.3)

        kw["h0"] = 0.3
    if f == "name":
        if v in GOPTS or v in ("domain", "edge_length", "comm", ""):
            rec.excluded = True
            return
        kw[v] = c.get("val", 1)
    elif f in ("verbose", "max_iter"):
        kw[f] = float("nan") if v == "nan" else v
    elif f == "edge":
        size = {"list": [0.2], "none": None, "str": "0.2"}.get(v, v)
        kw.pop("h0", None)
    elif f == "h0":
        if v == "missing":
            kw.pop("h0")
        else:
            kw["h0"] = v
    elif f == "domain":
        dom = {"int": 3, "none": None, "str": "Cube", "list": [dom]}[v]
    elif f == "bbox":
        if v == "missing":
            kw.pop("bbox")
        else:
            kw["bbox"] = {"list": list(kw["bbox"]), "ints": (0, 1, 0, 1, 0, 1)}[v]
    elif f == "dim":
        p = p[:, :2].copy()
    with quiet() as buf:
        must_raise(sm.sliver_removal, p, dom, size, what=f"sliver_removal with {f}={v!r}", **kw)
    require("slivers" not in buf.getvalue(), f"sliver_removal with {f}={v!r} meshed before it raised", "late")
    rec.nt()
    rec.label(f)


SZ_NAMES = ["hmin", "hmax", "wl", "freq", "cr_max", "dt", "space_order", "grad", "grade", "stencil_size", "pad_style", "domain_pad", "units", "nz", "nx", "ny", "byte_order", "axes_order", "axes_order_sort",
            "dtype", "velocity_data", "vp_water"]
SZ_FAULTS = {"name": None, "wl": [-1, -0.5], "freq": [-1.0, -0.1], "grad": [-5.0, -0.1], "cr_max": [-1.0], "dt": [-0.1, -1e-4], "space_order": [-1, 0.5, -3], "grade": [-0.1, -1.0],
             "domain_pad": [-1.0, -500.0], "pad_style": ["Edge", "none", "ramp", "linear-ramp", ""], "bbox": ["three", "five", "list", "two", "eight"], "vp_water": [0.0, 1299.0, 1801.0, -1500.0, None, 1e5],
             "sizefn": ["list", "array", "none", "uncallable"], "plot": ["callable", "3d", "scalar"]}


@st.composite
def sizing_case(draw, fault=None):
    f = fault or draw(st.sampled_from(sorted(SZ_FAULTS)))
    v = draw(wrong_name(SZ_NAMES)) if f == "name" else draw(st.sampled_from(SZ_FAULTS[f]))
    return {"d": draw(st.sampled_from([2, 2, 3])), "seed": draw(st.integers(0, 10 ** 6)), "shape": [draw(st.integers(3, 9)) for _ in range(3)], "fault": f, "v": v, "val": draw(st.sampled_from(UNKNOWN)),
            "wl": draw(st.sampled_from([0, 3, 5.0])), "grade": draw(st.sampled_from([0.0, 0.2])), "pad": draw(st.sampled_from([0.0, 300.0])), "dt": draw(st.sampled_from([0.0, 0.001]))}


def chk_reject_sizing(c, rec):
    import SeismicMesh as sm

    d = c["d"]
    shp = tuple(c["shape"][:d])
    g = np.random.RandomState(c["seed"])
    vp = g.uniform(1500, 4500, shp)
    f, v = c["fault"], c["v"]
    bbox = (-1000.0, 0.0) + (0.0, 2000.0) * (d - 1)
    kw = dict(velocity_data=vp, nz=shp[0], nx=shp[1], hmin=50.0, hmax=400.0, wl=c["wl"], grade=c["grade"], domain_pad=c["pad"], dt=c["dt"], space_order=1, cr_max=0.5, freq=4.0)
    if d == 3:
        kw["ny"] = shp[2]
    with quiet():
        fn = call(sm.get_sizing_function_from_segy, "model.segy", bbox, what="get_sizing_function_from_segy (fault free)", **dict(kw, velocity_data=vp.copy()))
    if f == "sizefn":
        bad = {"list": (list(bbox), lambda x: x, 50.0), "array": (np.array(bbox), lambda x: x, 50.0), "none": (None, lambda x: x, 50.0), "uncallable": (bbox, 3.0, 50.0)}[v]
        must_raise(sm.SizeFunction, *bad, what=f"SizeFunction({v})")
        rec.nt()
        rec.label(f)
        return
    if f == "plot":
        if v == "3d" and d == 2:
            rec.excluded = True
            return
        must_raise(sm.plot_sizing_function, {"callable": fn.eval, "3d": fn, "scalar": 3.0}[v], what=f"plot_sizing_function({v})")
        rec.nt()
        rec.label(f)
        return
    if f == "name":
        if v in SZ_NAMES or v in ("comm", "bbox", "filename", ""):
            rec.excluded = True
            return
        kw[v] = c.get("val", 1)
    elif f == "bbox":
        if v == "list":
            kw["domain_pad"] = 0.0  # a padded box is a new tuple
        bbox = {"three": bbox[:3], "five": bbox[:4] + (1.0,), "list": list(bbox), "two": bbox[:2], "eight": (0.0, 1.0) * 4}[v]
    elif f == "freq":
        kw["wl"] = kw["wl"] or 3
        kw[f] = v
    elif f in ("cr_max", "dt", "space_order"):
        kw["dt"] = 0.001
        kw[f] = v
    elif f == "pad_style":
        kw["domain_pad"] = 300.0
        kw[f] = v
    elif f == "vp_water":
        vp = vp.copy()
        vp.ravel()[g.randint(vp.size)] = g.choice([0.0, -1.0])
        kw["velocity_data"] = vp
        kw[f] = v
    else:
        kw[f] = v
    with quiet():
        must_raise(sm.get_sizing_function_from_segy, "model.segy", bbox, what=f"get_sizing_function_from_segy with {f}={v!r}", **kw)
    rec.nt()
    rec.label(f, f"{d}D")


@st.composite
def whole_case(draw):
    return {"x": draw(st.sampled_from([0.2, 0.5, 1.0, 1.5, 2.25, 3.7])), "h": draw(st.sampled_from([0.25, 0.4])), "d": draw(st.sampled_from([2, 3]))}


def chk_whole(c, rec):
    """A count that is not whole still ends."""
    import math

    import SeismicMesh as sm

    d = c["d"]
    box = (0.0, 1.0) * d
    dom = sm.Rectangle(box) if d == 2 else sm.Cube(box)
    with quiet() as buf:
        try:
            sm.generate_mesh(dom, c["h"], max_iter=c["x"], verbose=2)
        except (ValueError, TypeError):
            rec.label("rejected")
            rec.nt(False)
            return
    n = len(iterations(buf.getvalue()))
    require(n <= math.ceil(c["x"]) - 1, lambda: f"{n + 1} iterations for max_iter={c['x']}", "iterations")
    rec.nt(c["x"] != int(c["x"]))


SUBS = [
    Sub("unknown_generate", lambda: reject_gen_case("name"), chk_reject_gen, 500, 8000, shards=1, cpu_limit=30),
    Sub("unknown_sliver", lambda: sliver_case("name"), chk_reject_sliver, 400, 5000, shards=1, cpu_limit=30),
    Sub("unknown_sizing", lambda: sizing_case("name"), chk_reject_sizing, 400, 6000, shards=1, cpu_limit=30),
    Sub("reject_generate", reject_gen_case, chk_reject_gen, 500, 8000, shards=3, cpu_limit=30),
    Sub("accept_generate", gen_base, chk_accept_gen, 240, 5000, shards=4, cpu_limit=90),
    Sub("reject_sliver", sliver_case, chk_reject_sliver, 250, 4000, shards=2, cpu_limit=30),
    Sub("reject_sizing", sizing_case, chk_reject_sizing, 400, 8000, shards=2, cpu_limit=30),
    Sub("whole", whole_case, chk_whole, 12, 60, shards=1, cpu_limit=20),
]
