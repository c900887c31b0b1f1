"""Velocity models, sizing functions and reference formulas for C14-C17, C11."""
import numpy as np
from hypothesis import strategies as st

from vf.core import call
from vf.shapes import fl

KINDS = ("uniform", "layers", "constant", "linear", "blob", "step", "spikes")


@st.composite
def model(draw, dims=(2, 3), water=False, nmax2=13, nmax3=7, nmin=2, extent=(50.0, 20000.0), iso=False):
    d = draw(st.sampled_from(dims))
    hi = nmax2 if d == 2 else nmax3
    shape = [draw(st.integers(nmin, hi)) for _ in range(d)]
    lo = [draw(st.sampled_from([0.0, 0.0, -1.0, 3.0, -7.5])) for _ in range(d)]
    b = []
    L0 = draw(fl(*extent)) if iso else None
    for i in range(d):
        L = L0 * draw(fl(0.5, 2.0)) if iso else draw(fl(*extent))
        b += [lo[i] * L, lo[i] * L + L]
    m = {"shape": shape, "bbox": b, "kind": draw(st.sampled_from(KINDS)), "seed": draw(st.integers(0, 10 ** 6)),
         "v0": draw(fl(1400, 3000)), "dv": draw(fl(10, 3500))}
    if water:
        m["water"] = draw(st.sampled_from([None, None, "top", "first", "last", "one", "first_row_one", "col", "all"]))
    return m


def velocity(m):
    """The model's velocities in m/s; water cells are <= 0."""
    g = np.random.RandomState(m["seed"])
    s = tuple(m["shape"])
    n = len(s)
    ax = np.meshgrid(*[np.linspace(0, 1, k) for k in s], indexing="ij")
    k = m["kind"]
    if k == "uniform":
        f = g.uniform(0, 1, s)
    elif k == "layers":
        f = np.floor(4 * ax[g.randint(n)]) / 4
    elif k == "constant":
        f = np.zeros(s)
    elif k == "linear":
        w = g.uniform(0, 1, n)
        f = sum(a * q for a, q in zip(ax, w)) / w.sum()
    elif k == "blob":
        c = g.uniform(0, 1, n)
        f = np.exp(-20 * sum((a - q) ** 2 for a, q in zip(ax, c)))
    elif k == "step":
        i = g.randint(n)
        f = (ax[i] > g.uniform(0, 1)) * 1.0
    else:
        f = (g.uniform(0, 1, s) > 0.85) * 1.0
    v = m["v0"] + m["dv"] * f
    w = m.get("water")
    if w == "top":
        v[-1] = 0.0
    elif w == "first":
        v[0] = 0.0
    elif w == "last":
        v.flat[-1] = 0.0
    elif w == "first_row_one":
        v[(0,) + tuple(g.randint(q) for q in s[1:])] = 0.0
    elif w == "one":
        v[tuple(g.randint(q) for q in s)] = -1.0
    elif w == "col":
        v[:, 0] = 0.0
    elif w == "all":
        v[...] = 0.0
    return v


def dims_kw(shape):
    kw = {"nz": int(shape[0]), "nx": int(shape[1])}
    if len(shape) == 3:
        kw["ny"] = int(shape[2])
    return kw


def sizing(m, vp, **kw):
    from SeismicMesh import get_sizing_function_from_segy

    kw = dict(dims_kw(m["shape"]), **kw)
    return call(get_sizing_function_from_segy, "unused.segy", tuple(float(x) for x in m["bbox"]),
                what="get_sizing_function_from_segy", velocity_data=vp, **kw)


def axes(bbox, shape):
    b = np.asarray(bbox, float).reshape(-1, 2)
    return [np.linspace(b[i, 0], b[i, 1], n) for i, n in enumerate(shape)]


def nodes(bbox, shape):
    g = np.meshgrid(*axes(bbox, shape), indexing="ij")
    return np.column_stack([a.ravel() for a in g])


def at_nodes(sf, bbox, shape):
    f = call(sf.eval, nodes(bbox, shape), what="SizeFunction.eval")
    return np.asarray(f, float).reshape(shape)


def node_tol(f, bbox, rel=1e-9):
    """Tolerance for values at nodes whose coordinates are single precision."""
    b = np.asarray(bbox, float).reshape(-1, 2)
    t = rel * np.abs(f).max() + 1e-12
    for i in range(f.ndim):
        if f.shape[i] > 1:
            dx = (b[i, 1] - b[i, 0]) / (f.shape[i] - 1)
            t += np.abs(np.diff(f, axis=i)).max() * 3e-7 * np.abs(b[i]).max() / dx
    return t


def multilinear(bbox, f, x):
    """Reference interpolation of node values f at points x inside the box."""
    b = np.asarray(bbox, float).reshape(-1, 2)
    d = f.ndim
    idx, w = [], []
    for i in range(d):
        u = (x[:, i] - b[i, 0]) / (b[i, 1] - b[i, 0]) * (f.shape[i] - 1)
        k = np.clip(np.floor(u).astype(int), 0, f.shape[i] - 2)
        idx.append(k)
        w.append(u - k)
    out = np.zeros(len(x))
    for c in range(2 ** d):
        wt = np.ones(len(x))
        ii = []
        for i in range(d):
            hi = (c >> i) & 1
            wt = wt * (w[i] if hi else 1 - w[i])
            ii.append(idx[i] + hi)
        out += wt * f[tuple(ii)]
    return out


def reflect_index(i, n):
    """Half-sample symmetric extension (d c b a | a b c d | d c b a)."""
    i = i % (2 * n)
    return i if i < n else 2 * n - 1 - i


def window_mean(v, sizes):
    """Mean over a window of the given number of grid points per axis (centred,
    even sizes reach one further back), symmetric extension at the edges."""
    out = np.asarray(v, np.longdouble)
    for ax, s in enumerate(sizes):
        s = int(s)
        n = out.shape[ax]
        acc = 0
        for o in range(s):
            sel = [reflect_index(i - s // 2 + o, n) for i in range(n)]
            acc = acc + np.take(out, sel, axis=ax)
        out = acc / s
    return out


def ref_gradient_size(v, grad, stencil):
    sizes = [stencil] * v.ndim if np.isscalar(stencil) else stencil
    m = window_mean(v, sizes)
    var = window_mean((v - np.longdouble(v.mean())) ** 2, sizes) - (m - np.longdouble(v.mean())) ** 2
    var = np.maximum(var, 0)
    mx = var.max()
    # relative to the square of the velocity only rounding is left
    floor = 1e-11 * float((m ** 2).max())
    return var, mx, floor


def grade_limit(f, g, dx):
    """Largest field below f that grows by at most g*dx[axis] between neighbours."""
    f = f.copy()
    while True:
        old = f.copy()
        for ax in range(f.ndim):
            n = f.shape[ax]
            for rng in (range(1, n), range(n - 2, -1, -1)):
                prev = None
                for i in rng:
                    j = i - 1 if rng.step == 1 else i + 1
                    a = [slice(None)] * f.ndim
                    a[ax] = i
                    c = list(a)
                    c[ax] = j
                    f[tuple(a)] = np.minimum(f[tuple(a)], f[tuple(c)] + g * dx[ax])
        if np.array_equal(old, f):
            return f
