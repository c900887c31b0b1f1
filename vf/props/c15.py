import numpy as np
from hypothesis import strategies as st

from vf import sz
from vf.core import Sub, must_raise, require
from vf.shapes import fl

RULE = ("A case is a velocity model with wavelength/gradient/bound settings plus a time step, a Courant limit and a polynomial order, the time step "
        "drawn around the critical one of the unconstrained sizes so that often some but not all nodes violate the limit. Sizes with and without the "
        "time step are compared node by node. Non-trivial: at least one node violated the limit before.")


def case_cfl():
    @st.composite
    def c(draw):
        o = {}
        if draw(st.integers(0, 3)):
            o["wl"] = draw(st.sampled_from([1, 3, 5, 10]))
            o["freq"] = draw(fl(1, 15))
        if draw(st.integers(0, 3)) == 0:
            o["grad"] = draw(fl(10, 400))
        o["hmin"] = draw(fl(1, 200))
        o["hmax"] = draw(fl(200, 4000))
        return {"m": draw(sz.model(water=draw(st.booleans()))), "o": o, "q": draw(fl(0.2, 3.0)), "which": draw(st.sampled_from(["min", "max", "mid"])),
                "cr": draw(st.one_of(st.just(None), fl(0.05, 2.0))), "so": draw(st.sampled_from([None, 1, 2, 3, 4, 5])),
                "units": draw(st.sampled_from(["m-s", "m-s", "km-s"]))}
    return c()


def chk_cfl(case, rec):
    m, o = case["m"], dict(case["o"])
    v = sz.velocity(m)
    given = v
    if case["units"] == "km-s":
        o["units"] = "km-s"
        given = v / 1000.0
    vv = np.where(v < 1e-3, 1500.0, (given * 1000.0 if case["units"] == "km-s" else v))
    h0 = sz.at_nodes(sz.sizing(m, given, **o), m["bbox"], v.shape)
    cr = 1.0 if case["cr"] is None else case["cr"]
    so = 1 if case["so"] is None else case["so"]
    crit = cr / so * h0 / vv
    dt = {"min": crit.min(), "max": crit.max(), "mid": float(np.median(crit))}[case["which"]] * case["q"]
    kw = dict(o, dt=float(dt))
    if case["cr"] is not None:
        kw["cr_max"] = case["cr"]
    if case["so"] is not None:
        kw["space_order"] = case["so"]
    h = sz.at_nodes(sz.sizing(m, given, **kw), m["bbox"], v.shape)
    t = sz.node_tol(np.maximum(h0, h), m["bbox"]) + sz.node_tol(h, m["bbox"])
    need = vv * dt * so / cr
    require(np.all(h >= need - t), lambda: "Courant number %.6g at node %s exceeds %.6g/%d" % (
        (vv * dt / h).max(), np.argwhere(h < need - t)[0].tolist(), cr, so), "cfl")
    want = np.maximum(h0, need)
    bad = np.abs(h - want) > t + 1e-9 * want
    require(not bad.any(), lambda: "node %s: size %.9g with the time step, %.9g without, smallest admissible %.9g" % (
        np.argwhere(bad)[0].tolist(), h[bad][0], h0[bad][0], need[bad][0]), "minimal")
    viol = (need > h0 * (1 + 1e-9))
    rec.nt(viol.any())
    rec.label("all" if viol.all() else "some" if viol.any() else "none", f"{v.ndim}D", f"order{so}")


def case_off():
    @st.composite
    def c(draw):
        return {"m": draw(sz.model()), "off": draw(st.sampled_from(["dt", "cr_max", "space_order"])), "dt": draw(fl(0.001, 1)),
                "wl": draw(st.sampled_from([0, 5])), "so": draw(st.integers(1, 4))}
    return c()


def chk_off(case, rec):
    m = case["m"]
    v = sz.velocity(m)
    base = sz.at_nodes(sz.sizing(m, v, wl=case["wl"]), m["bbox"], v.shape)
    kw = dict(dt=case["dt"], cr_max=1.0, space_order=case["so"])
    kw[case["off"]] = 0
    h = sz.at_nodes(sz.sizing(m, v, wl=case["wl"], **kw), m["bbox"], v.shape)
    require(np.array_equal(base, h), f"sizes change although {case['off']}=0 disables the time step", "disabled")
    rec.nt(True)
    rec.label(case["off"])


def case_bad():
    @st.composite
    def c(draw):
        kw = {"dt": 0.01, "cr_max": 0.5, "space_order": 2}
        k = draw(st.sampled_from(["dt", "cr_max", "space_order"]))
        kw[k] = draw(st.sampled_from([-1.0, -0.001, -3]))
        return {"m": draw(sz.model()), "kw": kw}
    return c()


def chk_bad(case, rec):
    from SeismicMesh import get_sizing_function_from_segy

    m = case["m"]
    must_raise(get_sizing_function_from_segy, "x.segy", tuple(m["bbox"]), velocity_data=sz.velocity(m), wl=5,
               what=f"get_sizing_function_from_segy with {case['kw']}", **sz.dims_kw(m["shape"]), **case["kw"])
    rec.nt(True)


SUBS = [
    Sub("cfl", case_cfl, chk_cfl, 1500, 40000, shards=4),
    Sub("disabled", case_off, chk_off, 300, 5000, shards=1),
    Sub("negative", case_bad, chk_bad, 100, 1000, shards=1),
]
