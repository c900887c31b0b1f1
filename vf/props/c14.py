import numpy as np
from hypothesis import strategies as st

from vf import sz
from vf.core import Sub, call, must_raise, require
from vf.shapes import fl

RULE = ("A case is a 2D or 3D velocity model (uniform noise, layers, constant, ramp, blob, step or spikes; optional water cells; m/s, km/s or ft/s; "
        "array or list) with wavelength, frequency, gradient, stencil and bound settings. The size at every node and at 60 random points is compared "
        "with an independent evaluation of the documented formula. Non-trivial: the resulting sizes are not all equal, or the model has water or other units.")
ASSUMPTIONS = ["gradient sizes are compared for models whose variance is either zero or well above rounding",
               "velocity models are handed over as double precision arrays; files are the subject of C18"]

UNIT = {"m-s": 1.0, "km-s": 1000.0, "ft-s": 0.3048}


def case_sizes():
    @st.composite
    def c(draw):
        m = draw(sz.model(water=True))
        if draw(st.integers(0, 3)) == 0:  # slow rock, e.g. shear velocities
            m["v0"], m["dv"] = draw(fl(20.0, 1400.0)), draw(fl(10.0, 1500.0))
        o = {}
        mode = draw(st.sampled_from(["wl", "wl", "grad", "both", "none"]))
        if mode in ("wl", "both"):
            o["wl"] = draw(st.sampled_from([1, 2, 5, 10, 3.5]))
            if draw(st.booleans()):
                o["freq"] = draw(fl(0.5, 30))
        if mode in ("grad", "both"):
            o["grad"] = draw(fl(1.0, 500.0))
            s = draw(st.sampled_from(["default", "int", "tuple"]))
            if s == "int":
                o["stencil_size"] = draw(st.integers(1, 8))
            elif s == "tuple":
                o["stencil_size"] = [draw(st.integers(1, 8)) for _ in m["shape"]]
        if draw(st.booleans()):
            o["hmin"] = draw(fl(0.5, 400.0))
        if draw(st.booleans()):
            o["hmax"] = draw(fl(400.0, 5000.0))
        if draw(st.booleans()):
            o["vp_water"] = draw(fl(1310, 1790))
        u = draw(st.sampled_from([None, None, "m-s", "km-s", "ft-s"]))
        if u:
            o["units"] = u
        return {"m": m, "o": o, "layout": draw(st.sampled_from(["C", "F", "list", "view"])), "seed": draw(st.integers(0, 10 ** 6))}
    return c()


def lay(v, how):
    if how == "F":
        return np.asfortranarray(v)
    if how == "list":
        return v.tolist()
    if how == "view":
        big = np.zeros(tuple(2 * n for n in v.shape))
        w = big[tuple(slice(None, None, 2) for _ in v.shape)]
        w[...] = v
        return w
    return v.copy()


def chk_sizes(case, rec):
    m, o = case["m"], dict(case["o"])
    v = sz.velocity(m)
    fac = UNIT[o.get("units", "m-s")]
    given = lay(v / fac, case["layout"])
    keep = np.array(given, copy=True)
    if isinstance(o.get("stencil_size"), list):
        o["stencil_size"] = tuple(o["stencil_size"])
    sf = sz.sizing(m, given, **o)
    require(np.array_equal(np.array(given), keep), "the caller's velocity array was modified", "mutated")
    hmin, hmax = o.get("hmin", 150.0), o.get("hmax", 10000.0)
    require(tuple(sf.bbox) == tuple(float(x) for x in m["bbox"]) and sf.hmin == hmin, f"bbox {sf.bbox} / hmin {sf.hmin} differ from those given", "meta")
    vv = np.where(v < 1e-3, o.get("vp_water", 1500.0), (v / fac) * fac)
    h = np.full(vv.shape, np.inf)
    wl, freq, grad = o.get("wl", 0), o.get("freq", 2.0), o.get("grad", 0.0)
    tol = 0.0
    if wl:
        h = np.minimum(h, vv / (wl * freq))
    if grad:
        st_ = o.get("stencil_size", 10)
        var, mx, floor = sz.ref_gradient_size(vv, grad, st_)
        if 0 < mx < 1e3 * floor:
            if float(mx) > 1e-16 * float((vv ** 2).max()):
                rec.excluded = True
                return
            var, mx = var * 0, 0
        if mx > 0:
            nv = var / mx
            nv = nv - nv.min()
            # rounding of the variance: relative to mean square
            tol = grad * 100.0 * float(floor / mx) * 4
        else:
            nv = var
        h = np.minimum(h, np.asarray(grad / (nv + 0.10), float))
    if not wl and not grad:
        h = np.full(vv.shape, hmin)
    h = np.clip(h, hmin, hmax)
    got = sz.at_nodes(sf, m["bbox"], vv.shape)
    t = sz.node_tol(h, m["bbox"]) + tol
    require(np.all(np.isfinite(got)), "sizes are not finite", "nan")
    bad = np.abs(got - h) > t
    require(not bad.any(), lambda: "size at node %s is %.9g, expected %.9g" % (np.argwhere(bad)[0].tolist(), got[bad][0], h[bad][0]), "size")
    # multilinear in between, exact at the corners of the box
    g = np.random.RandomState(case["seed"])
    b = np.asarray(m["bbox"]).reshape(-1, 2)
    x = g.uniform(b[:, 0], b[:, 1], (60, len(b)))
    fx = np.asarray(call(sf.eval, x, what="SizeFunction.eval"))
    want = sz.multilinear(m["bbox"], h, x)
    require(np.all(np.abs(fx - want) <= t + 1e-9 * np.abs(want)), lambda: "size between nodes is %.9g, expected %.9g" % (
        fx[np.argmax(np.abs(fx - want))], want[np.argmax(np.abs(fx - want))]), "interp")
    ft = np.asarray(call(sf.eval, tuple(x.T), what="SizeFunction.eval of a tuple"))
    require(np.array_equal(ft, fx), "tuple and array queries disagree", "tuple")
    rec.nt(np.ptp(h) > 0 or bool(m["water"]) or o.get("units", "m-s") != "m-s")
    rec.label(m["kind"], f"{len(b)}D", "water:%s" % m["water"], o.get("units", "default"), case["layout"])
    rec.label(*[k for k in ("wl", "grad") if k in o])
    if np.ptp(h) > 0:
        rec.label("varying")


def case_scale():
    @st.composite
    def c(draw):
        return {"m": draw(sz.model()), "k": draw(st.integers(1, 4)), "wl": draw(st.integers(1, 8)), "freq": draw(fl(0.5, 10))}
    return c()


def chk_scale(case, rec):
    """Metamorphic: k times the frequency is k times the cells per wavelength,
    and 1/k of the velocity."""
    m, k = case["m"], case["k"]
    v = sz.velocity(m)
    kw = dict(hmin=0.01, hmax=99998.0)
    a = sz.at_nodes(sz.sizing(m, v, wl=case["wl"], freq=case["freq"] * k, **kw), m["bbox"], v.shape)
    b = sz.at_nodes(sz.sizing(m, v, wl=case["wl"] * k, freq=case["freq"], **kw), m["bbox"], v.shape)
    c = sz.at_nodes(sz.sizing(m, v / k, wl=case["wl"], freq=case["freq"], **kw), m["bbox"], v.shape)
    require(np.allclose(a, b, rtol=1e-9) and np.allclose(a, c, rtol=1e-9), "wavelength scaling broken", "scaling")
    # permuting the lateral axes permutes the sizes
    rec.nt(k > 1 and np.ptp(v) > 0)


def case_water():
    @st.composite
    def c(draw):
        m = draw(sz.model(water=True))
        if not m["water"]:
            m["water"] = "one"
        return {"m": m, "w": draw(st.sampled_from([None, 1299.0, 1801.0, 0.0, -1500.0, 1e6]))}
    return c()


def chk_water(case, rec):
    from SeismicMesh import get_sizing_function_from_segy

    m = case["m"]
    v = sz.velocity(m)
    must_raise(get_sizing_function_from_segy, "x.segy", tuple(m["bbox"]), velocity_data=v, wl=5, vp_water=case["w"],
               what=f"get_sizing_function_from_segy with water cells and vp_water={case['w']}", **sz.dims_kw(m["shape"]))
    rec.nt(True)
    rec.label(m["water"])


SUBS = [
    Sub("sizes", case_sizes, chk_sizes, 1800, 40000, shards=4),
    Sub("scaling", case_scale, chk_scale, 300, 6000, shards=1),
    Sub("bad_water", case_water, chk_water, 150, 2000, shards=1),
]
