import numpy as np
from hypothesis import strategies as st

from vf import shapes as sh
from vf.core import Sub, call, require

RULE = ("A case is a union/intersection/difference of 1-5 random transformed primitives (2D or 3D), sharp or with a smoothness radius, "
        "or a repeated shape, with query points near the operands. The operands' own fields are the reference. Non-trivial: at least "
        "two operands and query points where different operands decide the value (sharp), or where a blend is active (smooth).")


@st.composite
def case_op(draw, smooth):
    dim = draw(st.sampled_from([2, 3]))
    n = draw(st.integers(1, 5)) if not smooth else draw(st.integers(2, 5))
    ops = []
    for _ in range(n):
        s = draw(sh.prim(dim=dim, size=(0.3, 2.0)))
        s.pop("stretch", None)
        ops.append(s)
    c = {"op": draw(st.sampled_from(["union", "inter", "diff"])), "ops": ops, "seed": draw(st.integers(0, 10 ** 6))}
    if smooth:
        c["k"] = draw(st.one_of(sh.fl(0.01, 3.0), st.sampled_from([0.1, 0.5, 1.0])))
    return c


def points(ops, g, d, n=120):
    x = []
    for s in ops:
        A, t = sh.forward(s)
        c = A @ sh.local_center(s) + t
        x.append(c + sh.size_of(s) * g.uniform(-1.8, 1.8, (n // len(ops), d)))
    # midpoints between shapes, where blends are active
    x = np.vstack(x)
    y = 0.5 * (x + x[g.permutation(len(x))])
    return np.vstack([x, y])


def setup(case):
    d = sh.pdim(case["ops"][0])
    doms = [sh.build(s) for s in case["ops"]]
    x = points(case["ops"], np.random.RandomState(case["seed"]), d)
    F = np.array([np.asarray(call(o.eval, x, what="eval")) for o in doms])
    return doms, x, F


def cls(op):
    import SeismicMesh as S
    return {"union": S.Union, "inter": S.Intersection, "diff": S.Difference}[op]


def chk_sharp(case, rec):
    doms, x, F = setup(case)
    op = case["op"]
    n = len(doms)
    C = call(cls(op), doms, what=op)
    f = np.asarray(call(C.eval, x, what=op + ".eval"))
    if op == "union":
        want = F.min(axis=0)
        who = F.argmin(axis=0)
    elif op == "inter":
        want = F.max(axis=0)
        who = F.argmax(axis=0)
    else:
        G = np.vstack([F[:1], -F[1:]])
        want = G.max(axis=0)
        who = G.argmax(axis=0)
    bad = f != want
    bad &= np.abs(f - want) > 1e-12 * (1 + np.abs(want))
    require(not bad.any(), lambda: f"{op} of {n} shapes is {f[bad][0]!r}, expected {want[bad][0]!r} from operand fields {F[:, bad][:, 0].tolist()}", "algebra")
    rec.nt(n >= 2 and len(np.unique(who)) >= 2)
    rec.label(op, f"n{n}", f"{C.dim}d")
    require(C.dim == sh.pdim(case["ops"][0]), "wrong dimension reported", "dim")
    # laws: order of the operands (after the first, for a difference) is irrelevant
    g = np.random.RandomState(case["seed"] + 1)
    perm = list(g.permutation(n)) if op != "diff" else [0] + list(1 + g.permutation(n - 1))
    f2 = np.asarray(call(call(cls(op), [doms[i] for i in perm], what=op).eval, x, what="eval"))
    require(np.array_equal(f, f2), f"{op} depends on the order of its operands", "order")
    # nesting equals flattening
    if n >= 3:
        a = call(cls(op), doms[:2], what=op)
        f3 = np.asarray(call(call(cls(op), [a] + doms[2:], what=op).eval, x, what="eval"))
        require(np.allclose(f3, f, rtol=0, atol=1e-12 * (1 + np.abs(f).max())), f"nested {op} differs from the flat one", "nest")


def chk_smooth(case, rec):
    doms, x, F = setup(case)
    op, k, n = case["op"], case["k"], len(doms)
    C = call(cls(op), doms, smoothness=k, what=op)
    f = np.asarray(call(C.eval, x, what=op + ".eval"))
    if op == "union":
        G, sgn = F, 1.0
    elif op == "inter":
        G, sgn = -F, -1.0
    else:
        G, sgn = np.vstack([-F[:1], F[1:]]), -1.0
    # in every case: sgn*f is a smooth minimum of the rows of G
    v = sgn * f
    m = G.min(axis=0)
    tol = 1e-9 * (1 + np.abs(G).max() + k)
    bad = (v > m + tol) | (v < m - (n - 1) * k / 4 - tol) | ~np.isfinite(v)
    require(not bad.any(), lambda: f"smooth {op} (k={k}) of {n} shapes is {f[bad][0]!r}; the sharp value is {(sgn * m)[bad][0]!r} and may move by at most {(n - 1) * k / 4:.4g} in the rounding direction; fields {F[:, bad][:, 0].tolist()}", "bound")
    # exact where the closest other field is far enough away
    S = np.sort(G, axis=0)
    far = (S[1] - S[0]) >= k
    bad = far & (np.abs(v - m) > tol)
    if n > 2:
        # blends among the others can lower them by up to (n-2)k/4 before they meet the smallest
        far2 = (S[1] - S[0]) >= k + (n - 2) * k / 4
        bad = far2 & (np.abs(v - m) > tol)
    require(not bad.any(), lambda: f"smooth {op} (k={k}) moved the value although the blended fields differ by {(S[1] - S[0])[bad][0]!r}", "exact")
    act = (S[1] - S[0]) < k
    if n == 2:
        # the blend itself: full k/4 where equal, decreasing to nothing, and symmetric
        d01 = S[1] - S[0]
        order = np.argsort(d01)
        drop = (m - v)[order]
        require(np.all(np.diff(drop) <= tol + 1e-9), f"blend of {op} is not monotone in the difference of the fields", "mono")
        # differentiable blend: at d=0 it must have dropped by k/4; interpolate bounds by Lipschitz 1/2
        lo = k / 4 - d01 / 2 - tol
        bad = (m - v) < lo
        require(not bad.any(), lambda: f"smooth {op}: rounding of {(m - v)[bad][0]!r} where the fields differ by {d01[bad][0]!r} (k={k}) is less than the radius demands", "weak")
        if op != "diff":
            f2 = np.asarray(call(call(cls(op), doms[::-1], smoothness=k, what=op).eval, x, what="eval"))
            require(np.allclose(f, f2, rtol=0, atol=tol), f"smooth {op} of two shapes depends on their order", "order")
    rec.nt(act.any())
    rec.label(op, f"n{n}", "active" if act.any() else "inactive")
    # k -> 0 continuity: smoothness 0 is the sharp operation
    f0 = np.asarray(call(call(cls(op), doms, smoothness=0.0, what=op).eval, x, what="eval"))
    require(np.allclose(f0, sgn * m, rtol=0, atol=tol), "smoothness 0 is not the sharp operation", "zero")


def case_repeat():
    @st.composite
    def c(draw):
        b = []
        for _ in range(3):
            a = draw(sh.fl(-6, 0))
            b += [a, a + draw(sh.fl(1, 10))]
        return {"bbox": b, "s": draw(sh.prim(dim=3, size=(0.2, 1.0))), "period": [draw(sh.fl(0.5, 4)) for _ in range(3)],
                "seed": draw(st.integers(0, 10 ** 6)), "shift": [draw(st.integers(-2, 2)) for _ in range(3)]}
    return c()


def chk_repeat(case, rec):
    import SeismicMesh as S
    dom = sh.build(case["s"])
    P = np.asarray(case["period"])
    R = call(S.Repeat, tuple(case["bbox"]), dom, list(case["period"]), what="Repeat")
    g = np.random.RandomState(case["seed"])
    b = np.asarray(case["bbox"]).reshape(-1, 2)
    x = g.uniform(b[:, 0] - 1, b[:, 1] + 1, (150, 3))
    f = np.asarray(call(R.eval, x, what="Repeat.eval"))
    box = np.maximum(b[:, 0] - x, x - b[:, 1]).max(axis=1)
    q = x - P * np.floor(x / P + 0.5)
    # stay off the seams of the periodic cell, where the field may jump
    seam = np.abs(np.abs(q) - P / 2).min(axis=1) < 1e-7
    want = np.maximum(np.asarray(call(dom.eval, q, what="eval")), box)
    bad = ~seam & (np.abs(f - want) > 1e-8 * (1 + np.abs(want)))
    require(not bad.any(), lambda: f"repeated field at {x[bad][0].tolist()} is {f[bad][0]!r}, expected {want[bad][0]!r}", "repeat")
    y = x + P * np.asarray(case["shift"])
    box2 = np.maximum(b[:, 0] - y, y - b[:, 1]).max(axis=1)
    f2 = np.asarray(call(R.eval, y, what="Repeat.eval"))
    both = ~seam & (f > box + 1e-9) & (f2 > box2 + 1e-9)
    require(np.all(np.abs(f - f2)[both] < 1e-7 * (1 + np.abs(f[both]))), "not periodic", "periodic")
    rec.nt((f < 0).any() and (f > box + 1e-9).any())


SUBS = [
    Sub("sharp", lambda: case_op(False), chk_sharp, 900, 25000, shards=2),
    Sub("smooth", lambda: case_op(True), chk_smooth, 1400, 40000, shards=3),
    Sub("repeat", case_repeat, chk_repeat, 400, 8000, shards=1),
]
