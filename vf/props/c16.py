import numpy as np
from hypothesis import strategies as st

from vf import sz
from vf.core import Sub, call, must_raise, require
from vf.shapes import fl

RULE = ("A case is a 2D or 3D size field (from velocity models through the sizing function, or raw fields straight into the gradient limiter, on square, thin "
        "and anisotropic grids up to 40 x 40) and a gradation rate. The result is compared node by node with an exact fixed-point reference and with the "
        "neighbour bound. Non-trivial: the limiter changed at least one node.")
ASSUMPTIONS = ["the grid spacing of an axis is its extent divided by its number of grid points, as everywhere in the sizing module"]

FTOL = np.sqrt(1e-9)  # the solver's stated tolerance, relative to the smallest size


def compare(h0, h, g, dx, slack, rec):
    # a node within the tolerance of its neighbours is left alone, so the error
    # accumulates along a path at most once per node
    t = slack + h0.min() * FTOL * (sum(h0.shape) + 2)
    require(np.all(np.isfinite(h)), "limited sizes are not finite", "nan")
    require(np.all(h <= h0 + slack), lambda: "limited size %.9g exceeds the original %.9g" % (h[h > h0 + slack][0], h0[h > h0 + slack][0]), "raised")
    for ax in range(h.ndim):
        if h.shape[ax] < 2:
            continue
        d = np.abs(np.diff(h, axis=ax)).max()
        require(d <= g * dx[ax] + 2 * slack + h0.min() * FTOL * 1.01, lambda: "neighbours along axis %d differ by %.9g, allowed %.9g x %.9g" % (ax, d, g, dx[ax]), "steep")
    ref = sz.grade_limit(h0, g, dx)
    k = np.unravel_index(np.argmax(np.abs(h - ref)), h.shape)
    require(np.abs(h[k] - ref[k]) <= t, lambda: "size at node %s is %.9g, largest admissible %.9g (unlimited %.9g)" % (list(map(int, k)), h[k], ref[k], h0[k]), "not-largest")
    require(abs(h.min() - h0.min()) <= slack, "the minimum size changed", "minimum")
    return ref


def case_sf():
    @st.composite
    def c(draw):
        o = {"wl": draw(st.sampled_from([1, 3, 5])), "freq": draw(fl(1, 10)), "hmin": draw(fl(1, 50)), "hmax": draw(fl(500, 5000))}
        if draw(st.integers(0, 3)) == 0:
            o = {"grad": draw(fl(10, 200)), "hmin": 1.0, "hmax": 9000.0}
        return {"m": draw(sz.model(nmin=1 if False else 2)), "o": o, "g": draw(st.sampled_from([0.01, 0.05, 0.15, 0.3, 0.5, 1.0, 2.0])),
                "dt": draw(st.sampled_from([0, 0, 0.002]))}
    return c()


def chk_sf(case, rec):
    m, o, g = case["m"], dict(case["o"]), case["g"]
    if case["dt"]:
        o["dt"] = case["dt"]
    v = long_velocity(m) if m["kind"] == "long" else sz.velocity(m)
    h0 = sz.at_nodes(sz.sizing(m, v, **o), m["bbox"], v.shape)
    h = sz.at_nodes(sz.sizing(m, v, grade=g, **o), m["bbox"], v.shape)
    b = np.asarray(m["bbox"]).reshape(-1, 2)
    dx = [(b[i, 1] - b[i, 0]) / n for i, n in enumerate(v.shape)]
    slack = sz.node_tol(h0, m["bbox"]) + sz.node_tol(h, m["bbox"])
    ref = compare(h0, h, g, dx, slack, rec)
    rec.nt(np.any(ref < h0 - slack))
    rec.label(f"{v.ndim}D", m["kind"], f"g{g}", "anisotropic" if max(dx) > 1.5 * min(dx) else "isotropic")


def case_long():
    @st.composite
    def c(draw):
        d = draw(st.sampled_from([2, 2, 3]))
        n = [draw(st.integers(2, 4)) for _ in range(d)]
        i = draw(st.integers(0, d - 1))
        n[i] = draw(st.integers(60, 400 if d == 2 else 120))
        L = draw(fl(5.0, 50.0))
        survey = d == 2 and draw(st.integers(0, 7)) == 0
        if survey:  # (as long as a survey)
            n = [2, 2]
            n[i] = draw(st.integers(9000, 14000))
            L = 2.0
        b = []
        for k in n:
            b += [0.0, L * k]
        m = {"shape": n, "bbox": b, "kind": "long", "axis": i, "slow": draw(st.lists(st.one_of(st.just(1.0), st.just(0.0), fl(0, 1)), min_size=1, max_size=3)), "v0": draw(fl(300, 900)), "dv": draw(fl(2000, 6000))}
        if survey:
            m["slow"] = m["slow"][:1]
            m["dv"] = 6000.0
            return {"m": m, "o": {"wl": 1, "freq": 1.0, "hmin": 1.0, "hmax": 1e6}, "g": 0.05, "dt": 0}
        return {"m": m, "o": {"wl": 1, "freq": draw(fl(1, 3)), "hmin": 1.0, "hmax": 1e6}, "g": draw(st.sampled_from([0.05, 0.1, 0.3])), "dt": 0}
    return c()


def long_velocity(m):
    """Fast, but for a few planes: small sizes have a long way to go."""
    v = np.full(m["shape"], m["v0"] + m["dv"])
    w = np.moveaxis(v, m["axis"], 0)
    for k, q in enumerate(m["slow"]):
        w[int(round(q * (len(w) - 1)))] = m["v0"] * (1 + 0.3 * k)
    return v


def case_raw():
    @st.composite
    def c(draw):
        d = draw(st.sampled_from([2, 3]))
        n = [draw(st.one_of(st.integers(1, 4), st.integers(1, 40 if d == 2 else 9))) for _ in range(d)]
        return {"shape": n, "kind": draw(st.sampled_from(["uniform", "spikes", "one", "two", "const", "ramp"])), "lo": draw(fl(0.1, 50)), "hi": draw(fl(0.1, 1000)),
                "g": draw(fl(0.001, 1.5)), "dx": [draw(fl(0.5, 100)) for _ in range(3)], "scalar": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}
    return c()


def field(case):
    g = np.random.RandomState(case["seed"])
    s = tuple(case["shape"])
    k = case["kind"]
    if k == "uniform":
        f = g.uniform(0, 1, s)
    elif k == "spikes":
        f = (g.uniform(0, 1, s) < 0.9) * g.uniform(0.5, 1, s)
    elif k == "one":
        f = np.ones(s)
        f[tuple(g.randint(q) for q in s)] = 0
    elif k == "two":
        f = np.ones(s)
        f.flat[0] = 0.0
        f.flat[-1] = 0.1
    elif k == "const":
        f = np.zeros(s)
    else:
        f = np.linspace(0, 1, int(np.prod(s))).reshape(s)
    return case["lo"] + (case["hi"]) * f


def chk_raw(case, rec):
    from _FastHJ import limgrad

    h0 = field(case)
    g = case["g"]
    s = list(case["shape"]) + [1] * (3 - h0.ndim)
    dx = [case["dx"][0]] * 3 if case["scalar"] else case["dx"]
    el = dx[0] if case["scalar"] else dx[:h0.ndim]
    flat = h0.flatten("F")
    keep = flat.copy()
    out = np.asarray(call(limgrad, s, el, g, 10000, flat, what="limgrad"))
    require(np.array_equal(flat, keep), "the limiter changed its input", "mutated")
    h = out.reshape(h0.shape, order="F")
    ref = compare(h0, h, g, dx, 1e-12 * h0.max(), rec)
    # idempotent
    again = np.asarray(call(limgrad, s, el, g, 10000, out, what="limgrad"))
    require(np.abs(again - out).max() <= h0.min() * FTOL * (sum(h0.shape) + 2), "limiting twice is not limiting once", "idempotent")
    # admissible values stay
    keepers = ref >= h0
    require(np.all(h[keepers] >= h0[keepers] - h0.min() * FTOL * (sum(h0.shape) + 2)), "an admissible size was changed", "kept")
    rec.nt(np.any(ref < h0 - 1e-9 * h0.max()))
    rec.label(f"{h0.ndim}D", case["kind"], "thin" if min(case["shape"]) == 1 else "thick", "scalar" if case["scalar"] else "per-axis")


def case_bad():
    @st.composite
    def c(draw):
        return {"m": draw(sz.model()), "g": draw(st.sampled_from([-0.1, -1.0, -1e-6])), "wl": draw(st.sampled_from([0, 3]))}
    return c()


def chk_bad(case, rec):
    from SeismicMesh import get_sizing_function_from_segy

    m = case["m"]
    must_raise(get_sizing_function_from_segy, "x.segy", tuple(m["bbox"]), velocity_data=sz.velocity(m), wl=case["wl"], grade=case["g"],
               what=f"get_sizing_function_from_segy with grade={case['g']}", **sz.dims_kw(m["shape"]))
    rec.nt(True)


SUBS = [
    Sub("sizing", case_sf, chk_sf, 900, 20000, shards=3),
    Sub("long", case_long, chk_sf, 60, 1500, shards=2),
    Sub("limiter", case_raw, chk_raw, 1500, 40000, shards=4),
    Sub("negative", case_bad, chk_bad, 60, 500, shards=1),
]
