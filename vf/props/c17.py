import numpy as np
from hypothesis import strategies as st

from vf import sz
from vf.core import Sub, call, must_raise, require
from vf.shapes import fl

RULE = ("A case is a velocity model with sizing options, a pad width between 0.2 and 3 grid cells up to the domain's width, and a style; points inside and around the box are "
        "queried on the padded and unpadded sizing functions. Non-trivial: the pad is at least one grid cell wide on every padded side and sizes vary.")


def case_pad():
    @st.composite
    def c(draw):
        m = draw(sz.model(nmax2=14, nmax3=7, nmin=2, iso=draw(st.integers(0, 3)) > 0))
        o = {"wl": draw(st.sampled_from([1, 3, 5])), "freq": draw(fl(1, 10)), "hmin": draw(fl(1, 50)), "hmax": draw(fl(500, 5000))}
        if draw(st.integers(0, 3)) == 0:
            o["grade"] = draw(fl(0.05, 0.5))
        return {"m": m, "o": o, "style": draw(st.sampled_from(["edge", "linear_ramp", "constant", None])), "rel": draw(fl(0.05, 2.5)),
                "unit": draw(st.sampled_from(["cell", "width"])), "seed": draw(st.integers(0, 10 ** 6))}
    return c()


def local_range(f, b, x, reach):
    """Range of the piecewise multilinear field over a box of +-reach cells."""
    d = f.ndim
    lo, hi = np.empty(len(x)), np.empty(len(x))
    u = np.column_stack([(x[:, i] - b[i, 0]) / (b[i, 1] - b[i, 0]) * (f.shape[i] - 1) for i in range(d)])
    for k in range(len(x)):
        sl = tuple(slice(max(0, int(np.floor(u[k, i] - reach))), min(f.shape[i] - 1, int(np.ceil(u[k, i] + reach))) + 1) for i in range(d))
        w = f[sl]
        lo[k], hi[k] = w.min(), w.max()
    return lo, hi


def chk_pad(case, rec):
    m, o = case["m"], case["o"]
    v = sz.velocity(m)
    d = v.ndim
    b = np.asarray(m["bbox"]).reshape(-1, 2)
    L = b[:, 1] - b[:, 0]
    cell = L / np.array(v.shape)
    gap = L / (np.array(v.shape) - 1)  # between nodes
    pad = float(case["rel"] * (2 * cell.max() if case["unit"] == "cell" else L.min()))
    nn = np.floor(pad / cell * (1 + 1e-12))
    if np.prod(np.array(v.shape) + 2 * nn) > 4e5:
        rec.excluded = True
        return
    kw = dict(o, domain_pad=pad)
    style = case["style"] or "edge"
    if case["style"]:
        kw["pad_style"] = case["style"]
    base = sz.sizing(m, v, **o)
    f = sz.at_nodes(base, m["bbox"], v.shape)
    sf = sz.sizing(m, v, **kw)
    want = []
    for i in range(d):
        want += [b[i, 0] - pad, b[i, 1] + (0 if i == 0 else pad)]
    require(isinstance(sf.bbox, tuple) and np.allclose(sf.bbox, want, rtol=1e-12, atol=1e-9 * L.max()), f"padded box {sf.bbox}, expected {want}", "bbox")
    B = np.asarray(want).reshape(-1, 2)
    g = np.random.RandomState(case["seed"])
    tol = 4 * sz.node_tol(f, m["bbox"]) + 1e-6 * np.ptp(f)
    x = np.vstack([g.uniform(b[:, 0], b[:, 1], (60, d)), sz.nodes(m["bbox"], v.shape)[:80]])
    fx = np.asarray(call(sf.eval, x, what="SizeFunction.eval"))
    lo, hi = local_range(f, b, x, 1.0 + 1e-6)
    bad = (fx < lo - tol) | (fx > hi + tol)
    # beside a side padded with another value, the outermost cell blends with it
    if style != "edge":
        near = np.zeros(len(x), bool)
        for i in range(d):
            near |= x[:, i] < b[i, 0] + gap[i] * 1.001
            if i > 0:
                near |= x[:, i] > b[i, 1] - gap[i] * 1.001
        bad &= ~(near & (fx >= lo - tol) & (fx <= f.max() + tol))
    require(not bad.any(), lambda: "size inside the box is %.9g at %s, unpadded sizes within a cell are %.9g to %.9g" % (
        fx[bad][0], x[bad][0].tolist(), lo[bad][0], hi[bad][0]), "interior")
    # outside
    y = g.uniform(B[:, 0], B[:, 1], (200, d))
    for i in range(d):  # faces, edges and corners of the extended box
        y[:40][g.uniform(size=40) < 0.5, i] = B[i, 0]
        y[40:80][g.uniform(size=40) < 0.5, i] = B[i, 1]
    y = y[np.any((y < b[:, 0]) | (y > b[:, 1]), axis=1)]
    fy = np.asarray(call(sf.eval, y, what="SizeFunction.eval"))
    require(np.all((fy >= f.min() - tol) & (fy <= f.max() + tol)), lambda: f"padded sizes {fy.min():.6g}..{fy.max():.6g} leave the range {f.min():.6g}..{f.max():.6g}", "range")
    full = np.all(nn >= 1)
    far = np.zeros(len(y), bool)  # beyond one (padded) cell from the original box
    for i in range(d):
        pc = (B[i, 1] - B[i, 0]) / max(v.shape[i] + nn[i] * (1 if i == 0 else 2) - 1, 1)
        far |= y[:, i] < b[i, 0] - 2.002 * pc
        if i > 0:
            far |= y[:, i] > b[i, 1] + 2.002 * pc
    if style == "edge":
        yc = np.clip(y, b[:, 0], b[:, 1])
        lo, hi = local_range(f, b, yc, 1.0 + 1e-6)
        bad = (fy < lo - tol) | (fy > hi + tol)
        require(not bad.any(), lambda: "edge padding is %.9g at %s, sizes at the edge are %.9g to %.9g" % (fy[bad][0], y[bad][0].tolist(), lo[bad][0], hi[bad][0]), "edge")
    elif style == "constant" and full:
        bad = far & (np.abs(fy - f.max()) > tol)
        require(not bad.any(), lambda: "constant padding is %.9g at %s, the maximum is %.9g" % (fy[bad][0], y[bad][0].tolist(), f.max()), "constant")
    elif style == "linear_ramp" and full:
        onb = np.any(np.abs(y - B[:, 0]) < 1e-9 * L, axis=1) | np.any(np.abs(y[:, 1:] - B[1:, 1]) < 1e-9 * L[1:], axis=1)
        bad = onb & (np.abs(fy - f.max()) > tol + 1e-5 * f.max())
        require(not bad.any(), lambda: "ramp ends at %.9g on the outer boundary, the maximum is %.9g" % (fy[bad][0], f.max()), "ramp-end")
        # rays going outwards through every padded side
        for _ in range(12):
            i = g.randint(d)
            side = 0 if i == 0 else g.randint(2)
            if np.any(gap * 2.1 > L):
                break
            p = g.uniform(b[:, 0] + 1.01 * gap, b[:, 1] - 1.01 * gap)
            n = 25
            ray = np.repeat(p[None], n, axis=0)
            a, z = (b[i, 0], B[i, 0]) if side == 0 else (b[i, 1], B[i, 1])
            ray[:, i] = np.linspace(a, z, n)
            fr = np.asarray(call(sf.eval, ray, what="SizeFunction.eval"))
            # within a cell of the original box the field may still be the interior's
            s = np.abs(ray[:, i] - a) >= 1.001 * gap[i]
            dfr = np.diff(fr[s])
            require(np.all(dfr >= -tol), "the ramp is not monotone", "monotone")
            if s.sum() > 3 and nn[i] >= 3:
                # linear, reaching the maximum at the end: quarter, half, three quarters
                t = np.abs(ray[s, i] - a) / abs(z - a)
                lo, hi = local_range(f, b, np.repeat(np.clip(ray[:1], b[:, 0], b[:, 1]), 1, axis=0), 1.0 + 1e-6)
                step = 1.5 / nn[i]
                up = lo[0] * 0 + hi[0] + (f.max() - hi[0]) * np.clip(t + step, 0, 1)
                dn = lo[0] + (f.max() - lo[0]) * np.clip(t - step, 0, 1)
                require(np.all(fr[s] <= up + tol) and np.all(fr[s] >= dn - tol), "the ramp is not linear from the edge to the maximum", "ramp")
    rec.nt(full and np.ptp(f) > 0)
    rec.label(f"{d}D", style, m["kind"], "full" if full else "thin", f"nn{int(min(nn.min(), 4))}")


def case_bad():
    @st.composite
    def c(draw):
        kw = draw(st.sampled_from([{"domain_pad": 100.0, "pad_style": "wrap"}, {"domain_pad": 100.0, "pad_style": "nope"}, {"domain_pad": 50.0, "pad_style": None},
                                   {"domain_pad": -1.0}, {"domain_pad": -1e-6, "pad_style": "constant"}]))
        return {"m": draw(sz.model()), "kw": kw}
    return c()


def chk_bad(case, rec):
    from SeismicMesh import get_sizing_function_from_segy

    m = case["m"]
    must_raise(get_sizing_function_from_segy, "x.segy", tuple(m["bbox"]), velocity_data=sz.velocity(m), wl=5,
               what=f"get_sizing_function_from_segy with {case['kw']}", **sz.dims_kw(m["shape"]), **case["kw"])
    rec.nt(True)


SUBS = [
    Sub("pad", case_pad, chk_pad, 1100, 25000, shards=4),
    Sub("rejected", case_bad, chk_bad, 60, 500, shards=1),
]
