import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import mpi, sz
from vf.core import Sub, call, must_raise, quiet, require
from vf.props.c13 import plan
from vf.shapes import fl

RULE = ("A case is a random grid of velocities written by the harness to a binary file (any axis permutation, byte order, sample type, storage order) or a SEG-Y "
        "file (any sample and trace count), read back through the public reader, through the sizing function, and through the HDF5 writer with or without padding. "
        "Non-trivial: the grid has at least two different axis lengths or a permuted axis order.")
ASSUMPTIONS = ["SEG-Y files are written with segyio in IEEE format"]


def grid(case):
    g = np.random.RandomState(case["seed"])
    v = g.uniform(1000, 6000, case["shape"])
    return v.astype(case.get("dtype", "float32"))


@st.composite
def bin_case(draw):
    return {"shape": [draw(st.integers(1, 7)) for _ in range(3)], "seed": draw(st.integers(0, 10 ** 6)), "axes": draw(st.permutations([0, 1, 2])),
            "sort": draw(st.sampled_from(["F", "C"])), "byte": draw(st.sampled_from(["little", "big"])), "dtype": draw(st.sampled_from(["float32", "float64"]))}


def write_bin(case, d):
    v = grid(case)  # [z, x, y], z = 0 is the first depth sample in the file
    f = v.transpose(np.argsort(case["axes"]))  # z, x, y run along the file axes axes[0], axes[1], axes[2]
    raw = f.ravel(order=case["sort"]).astype(np.dtype(case["dtype"]).newbyteorder("<" if case["byte"] == "little" else ">"))
    p = os.path.join(d, "m.bin")
    raw.tofile(p)
    return p, v


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c18-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def kw_of(case):
    n = case["shape"]
    return dict(nz=n[0], nx=n[1], ny=n[2], byte_order=case["byte"], axes_order=tuple(case["axes"]), axes_order_sort=case["sort"], dtype=case["dtype"])


def chk_bin(case, rec):
    from SeismicMesh import read_velocity_model

    with scratch() as d:
        p, v = write_bin(case, d)
        before = open(p, "rb").read()
        got, nz, nx, ny = call(read_velocity_model, p, **kw_of(case))
        require((nz, nx, ny) == tuple(case["shape"]), f"dimensions {(nz, nx, ny)} for {case['shape']}", "dims")
        require(got.shape == v.shape, f"shape {got.shape} for a model of {v.shape}", "shape")
        require(np.array_equal(np.asarray(got), v[::-1]), "samples are not at their (z, x, y) position with the depth axis flipped", "samples")
        require(open(p, "rb").read() == before, "the file was modified", "mutated")
    s = case["shape"]
    rec.nt(len(set(s)) > 1 and case["axes"] != [0, 1, 2])
    rec.label("".join(map(str, case["axes"])), case["sort"], case["byte"], case["dtype"])


def chk_bin_sizing(case, rec):
    """A sizing function built from the file agrees with the one built from the array."""
    from SeismicMesh import get_sizing_function_from_segy

    case = dict(case, shape=[max(2, n) for n in case["shape"]])
    bbox = (-1000.0, 0.0, 0.0, 2000.0, 500.0, 1500.0)
    with scratch() as d:
        p, v = write_bin(case, d)
        sf = call(get_sizing_function_from_segy, p, bbox, hmin=1.0, wl=5, freq=3.0, what="get_sizing_function_from_segy", **kw_of(case))
        h = sz.at_nodes(sf, bbox, v.shape)
    want = v[::-1].astype(float) / 15.0
    require(np.allclose(h, want, rtol=1e-4, atol=sz.node_tol(want, bbox)), "sizes from the file differ from those of its samples", "sizing")
    rec.nt(len(set(case["shape"])) > 1)


@st.composite
def segy_case(draw):
    return {"shape": [draw(st.integers(1, 12)), draw(st.integers(1, 9))], "seed": draw(st.integers(0, 10 ** 6)), "neg": draw(st.booleans())}


def write_segy(p, v):
    import segyio

    spec = segyio.spec()
    spec.format = 5
    spec.samples = np.arange(v.shape[0]) * 4.0
    spec.tracecount = v.shape[1]
    spec.sorting = None
    with segyio.create(p, spec) as f:
        for j in range(v.shape[1]):
            f.header[j] = {segyio.su.tracl: j + 1}
            f.trace[j] = np.ascontiguousarray(v[:, j], dtype=np.float32)


def chk_segy(case, rec):
    from SeismicMesh import get_sizing_function_from_segy, read_velocity_model, write_velocity_model
    import h5py

    v = grid(case)
    if case["neg"]:
        v.flat[0] = -1.5
    with scratch() as d:
        p = os.path.join(d, "m.segy")
        write_segy(p, v)
        got, nz, nx, ny = call(read_velocity_model, p)
        require((nz, nx) == v.shape, f"dimensions {(nz, nx)} for {v.shape}", "dims")
        require(np.array_equal(np.asarray(got, np.float32), v[::-1]), "SEG-Y samples are not at their position with the depth axis flipped", "samples")
        if min(v.shape) >= 2 and not case["neg"]:
            bbox = (-900.0, 0.0, 100.0, 4000.0)
            sf = call(get_sizing_function_from_segy, p, bbox, hmin=1.0, wl=5, freq=2.0, what="get_sizing_function_from_segy")
            h = sz.at_nodes(sf, bbox, v.shape)
            want = v[::-1].astype(float) / 10.0
            require(np.allclose(h, want, rtol=1e-4, atol=sz.node_tol(want, bbox)), "sizes from the SEG-Y file differ from those of its samples", "sizing")
        call(write_velocity_model, p, ofname=os.path.join(d, "o"))
        with h5py.File(os.path.join(d, "o.hdf5"), "r") as f:
            h5 = f["velocity_model"][...]
            shp = tuple(f.attrs["shape"])
        require(shp == v.shape and np.array_equal(h5, v[::-1]), "the HDF5 file does not hold the SEG-Y samples", "hdf5")
    rec.nt(v.shape[0] != v.shape[1] and min(v.shape) > 1)


@st.composite
def h5_case(draw):
    c = draw(bin_case())
    c["pad"] = draw(st.sampled_from([0.0, 0.0, 1.0, 2.0, 3.0]))
    c["style"] = draw(st.sampled_from(["edge", "constant", "linear_ramp"]))
    c["named"] = draw(st.integers(0, 3)) > 0
    if draw(st.integers(0, 3)) == 0:
        c.update(draw(plan(sizes=(2, 3, 4))))
    return c


def chk_h5(case, rec):
    from SeismicMesh import write_velocity_model
    import h5py

    s = case["shape"]
    with scratch() as d:
        p, v = write_bin(case, d)
        kw = kw_of(case)
        if case["pad"]:
            # cells of 100 m: the pad is a whole number of them (and a bit)
            kw.update(domain_pad=100.0 * case["pad"] + 20.0, pad_style=case["style"], bbox=(-100.0 * s[0], 0.0, 0.0, 100.0 * s[1], 50.0, 50.0 + 100.0 * s[2]))
        o = os.path.join(d, "out")
        if case["named"]:
            call(write_velocity_model, p, ofname=o, **kw)
        else:
            o = p
            call(write_velocity_model, p, **kw)
        with h5py.File(o + ".hdf5", "r") as f:
            h5 = f["velocity_model"][...]
            shp = tuple(int(q) for q in f.attrs["shape"])
        if case.get("size", 1) > 1:
            # on a communicator: one file, the same
            q = os.path.join(d, "par")
            with quiet():
                mpi.run(case["size"], lambda comm: write_velocity_model(p, ofname=q, comm=comm, **kw), case["schedule"], case["sync"], "write_velocity_model")
            with h5py.File(q + ".hdf5", "r") as f:
                require(np.array_equal(f["velocity_model"][...], h5) and tuple(int(x) for x in f.attrs["shape"]) == shp, lambda: f"the file written on {case['size']} ranks differs from the one written in serial", "ranks")
        w = v[::-1].astype(np.float32)
        n = int(case["pad"])
        if n == 0:
            want = w
            require(h5.shape == w.shape and np.array_equal(h5, w), "the HDF5 file does not hold the model's values", "hdf5")
        else:
            want = np.empty((s[0] + n, s[1] + 2 * n, s[2] + 2 * n))
            require(h5.shape == want.shape, f"padded model has shape {h5.shape}, expected {want.shape}", "pad-shape")
            core = h5[n:, n:-n, n:-n]
            require(np.array_equal(core, w), "padding changed the model's own values", "pad-core")
            mx = float(v.max())
            i, j, k = np.meshgrid(*[np.arange(q) for q in want.shape], indexing="ij")
            ci, cj, ck = np.clip(i - n, 0, s[0] - 1), np.clip(j - n, 0, s[1] - 1), np.clip(k - n, 0, s[2] - 1)
            outside = (ci != i - n) | (cj != j - n) | (ck != k - n)
            if case["style"] == "edge":
                require(np.array_equal(h5, w[ci, cj, ck]), "edge padding does not repeat the edge values", "pad")
            elif case["style"] == "constant":
                require(np.allclose(h5[outside], mx, rtol=1e-6), "constant padding is not the maximum", "pad")
            else:
                # sequential ramps: one factor per axis
                e = w[ci, cj, ck].astype(float)
                for a, c in ((i, ci), (j, cj), (k, ck)):
                    t = np.abs(a - n - c) / n
                    e = e + (mx - e) * t
                require(np.allclose(h5, e, rtol=1e-5), "linear ramp padding is wrong", "pad")
        require(shp == h5.shape, f"shape attribute {shp} for {h5.shape}", "attr")
    rec.nt(len(set(s)) > 1)
    rec.label("pad%d" % n, case["style"] if n else "nopad")


@st.composite
def bad_case(draw):
    c = draw(bin_case())
    c["bad"] = draw(st.sampled_from(["nz", "nx", "ny", "byte_order", "byte_order2"]))
    return c


def chk_bad(case, rec):
    from SeismicMesh import read_velocity_model, write_velocity_model

    with scratch() as d:
        p, _ = write_bin(case, d)
        kw = kw_of(case)
        if case["bad"] == "byte_order":
            kw["byte_order"] = "middle"
        elif case["bad"] == "byte_order2":
            kw["byte_order"] = None
        else:
            kw[case["bad"]] = None
        must_raise(read_velocity_model, p, what=f"read_velocity_model with bad {case['bad']}", **kw)
        must_raise(write_velocity_model, p, ofname=os.path.join(d, "o"), what=f"write_velocity_model with bad {case['bad']}", **kw)
    rec.nt(True)
    rec.label(case["bad"])


SUBS = [
    Sub("binary", bin_case, chk_bin, 1200, 30000, shards=2),
    Sub("binary_sizing", bin_case, chk_bin_sizing, 300, 5000, shards=1),
    Sub("segy", segy_case, chk_segy, 400, 8000, shards=2),
    Sub("hdf5", h5_case, chk_h5, 500, 10000, shards=2),
    Sub("rejected", bad_case, chk_bad, 200, 2000, shards=1),
]
