import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vf import dom, sz
from vf.core import Sub, call, quiet, require
from vf.props import c04
from vf.shapes import fl

RULE = ("A case is a history of two to five calls of mesh generation or sliver removal over one to three problems (domain, sizing, options, seed; objects shared or built afresh), with random draws from the global generators, other seeds and changing verbosity in between; or three problems solved in this process and in a second one; or a problem with variable sizing solved with four to six different seeds (all meshes must differ); or a problem solved without and with some options spelled out at their documented defaults. "
        "Every repetition of a problem must return bit-identical arrays; all arguments are compared with deep snapshots; the output at verbosity 0 must be empty; with variable sizing another seed must give another mesh. Non-trivial: a problem is repeated with something different in between.")


def snapshot(o, depth=0):
    """A deep, comparable copy of an argument."""
    if isinstance(o, np.ndarray):
        return ("a", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, (int, float, str, bool, bytes, type(None))):
        return ("s", repr(o))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snapshot(x, depth + 1) for x in o))
    if isinstance(o, dict):
        return ("d", tuple((k, snapshot(o[k], depth + 1)) for k in sorted(o)))
    if depth < 6 and hasattr(o, "__dict__") and type(o).__module__.startswith("SeismicMesh"):
        return (type(o).__name__, snapshot(vars(o), depth + 1))
    if depth < 6 and type(o).__name__ == "RegularGridInterpolator":
        return ("i", snapshot([np.asarray(o.values), *[np.asarray(g) for g in o.grid], o.fill_value, o.bounds_error], depth + 1))
    return ("o", type(o).__name__)


@st.composite
def problem(draw):
    kind = draw(st.sampled_from(["dom", "dom", "dom", "seis", "sliver"]))
    if kind == "seis":
        return {"kind": kind, "c": draw(c04.case_seis(dims=(2,), iters=(2, 5, 10, 20)))}
    if kind == "sliver":
        return {"kind": kind, "dom": draw(dom.domain(3, composite=False, smooth=False)), "res": draw(fl(3.5, 6.0)), "it": draw(st.sampled_from([2, 5, 20])), "jit": draw(fl(0.0, 0.25)), "seed": draw(st.integers(0, 999)),
                "preserve": draw(st.booleans()), "checks": draw(st.booleans()), "gamma": draw(fl(0.8, 1.0))}
    d = draw(st.sampled_from([2, 2, 3]))
    c = draw(dom.case(dims=(d,), iters=(1, 2, 3, 5, 10, 20), res2=(5.0, 14.0), res3=(3.5, 5.0)))
    c.update(draw(c04.options(d)))
    c["extra"] = draw(st.sampled_from(["none", "none", "pfix", "points", "sub"]))
    c["eseed"] = draw(st.integers(0, 10 ** 6))
    return {"kind": kind, "c": c}


@st.composite
def case(draw):
    n = draw(st.integers(1, 3))
    ps = [draw(problem()) for _ in range(n)]
    k = draw(st.integers(2, 5))
    calls = [{"i": draw(st.integers(0, n - 1)), "verbose": draw(st.sampled_from([0, 0, 1, 2])), "draws": draw(st.integers(0, 5)), "fresh": draw(st.booleans()), "seed": draw(st.sampled_from([None, None, None, 1, 12345]))} for _ in range(k)]
    calls.append({"i": calls[0]["i"], "verbose": draw(st.sampled_from([0, 1, 2])), "draws": draw(st.integers(0, 5)), "fresh": draw(st.booleans()), "seed": calls[0]["seed"]})
    return {"ps": ps, "calls": calls}


class Unusable(Exception):
    pass


def prepare(p):
    """(function, args, kwargs, has a seed, variable)."""
    import SeismicMesh as S

    if p["kind"] == "seis":
        domain, sf, b, hmin, kw = c04.seis_problem(p["c"])
        return S.generate_mesh, (domain, sf), {"max_iter": p["c"]["iters"], "seed": p["c"]["seed"]}, True, False
    if p["kind"] == "sliver":
        P = dom.Problem({"dim": 3, "dom": p["dom"], "res": p["res"], "size": {"kind": "const"}, "iters": 5, "seed": 0})
        g = np.random.RandomState(p["seed"])
        x = c04.cloud(P, g, p["jit"] + 1e-3)
        if len(x) < 8:
            raise Unusable
        return S.sliver_removal, (x, P.shape, P.h), {"max_iter": p["it"], "preserve": p["preserve"], "perform_checks": p["checks"], "gamma": p["gamma"]}, False, False
    P = dom.Problem(p["c"])
    if not P.resolved():
        raise Unusable
    kw = dict(P.opts)
    kw.pop("verbose")
    kw.update(c04.extras(P, p["c"]))
    var = p["c"]["size"]["kind"] != "const" and p["c"]["extra"] != "points"
    return S.generate_mesh, (P.domain, P.edge), kw, True, var


def chk(c, rec):
    built, results = {}, {}
    nt = False
    seeds = {}
    for j, k in enumerate(c["calls"]):
        i = k["i"]
        p = c["ps"][i]
        try:
            if i not in built or k["fresh"]:
                with quiet():
                    built[i] = prepare(p)
        except Unusable:
            rec.excluded = True
            return
        fn, args, kw, seeded, var = built[i]
        kw = dict(kw)
        if seeded and k["seed"] is not None:
            kw["seed"] = k["seed"]
        kw["verbose"] = k["verbose"]
        for _ in range(k["draws"]):
            np.random.rand(3)
            random.random()
        before = snapshot([list(args), kw])
        with quiet() as out:
            try:
                r = call(fn, *args, what=fn.__name__, allow=(ValueError, IndexError) if p["kind"] == "sliver" else (), **kw)
            except (ValueError, IndexError):
                # a point set without any cell of good shape inside
                rec.excluded = True
                return
        text = out.getvalue()
        q, t = np.asarray(r[0]), np.asarray(r[1])
        require(snapshot([list(args), kw]) == before, lambda: f"{fn.__name__} modified its arguments", "mutated")
        if k["verbose"] == 0:
            require(text == "", lambda: f"{fn.__name__} printed {text[:80]!r} at verbosity 0", "printed")
        elif p["kind"] != "sliver":
            require(text != "", "nothing is printed at verbosity 1 or 2", "silent")
        require(not any(np.shares_memory(q, a) for a in args if isinstance(a, np.ndarray)), "the result shares memory with an argument", "aliased")
        key = (i, kw.get("seed"))
        sig = (q.dtype.str, q.shape, q.tobytes(), t.dtype.str, t.shape, t.tobytes())
        if key in results:
            nt = True
            a = results[key]
            require(a[1] == sig[1] and a[4] == sig[4], lambda: f"a repeated {p['kind']} problem has {sig[1][0]} vertices and {sig[4][0]} cells, before {a[1][0]} and {a[4][0]}", "differs")
            require(a == sig, f"a repeated {p['kind']} problem returned different values", "differs")
        results[key] = sig
        if var and p["c"]["iters"] <= 10 and len(q) >= 60:
            seeds.setdefault(i, {})[kw["seed"]] = sig
    for i, v in seeds.items():
        if len(v) > 1:
            rec.label("two_seeds")
            require(len(set(v.values())) == len(v), f"seeds {sorted(v)} give the same mesh", "seed")
    rec.nt(nt)
    rec.label(*[p["kind"] for p in c["ps"]], f"calls{len(c['calls'])}")


@st.composite
def case_process(draw):
    return {"ps": [draw(problem()) for _ in range(3)], "hash": draw(st.integers(1, 1000))}


def digests(c):
    """Digest of the result of every problem (None where it cannot be solved)."""
    r = []
    for p in c["ps"]:
        with quiet():
            try:
                fn, args, kw, _, _ = prepare(p)
                q, t = fn(*args, verbose=0, **kw)
                r.append([list(q.shape), list(t.shape), hashlib.sha1(np.ascontiguousarray(q).tobytes() + np.ascontiguousarray(t).tobytes()).hexdigest()])
            except (Unusable, ValueError, IndexError):
                r.append(None)
    return r


def chk_process(c, rec):
    """Another process (other memory layout, other hash seed) gets the same meshes."""
    a = digests(c)
    code = "import sys, json; sys.path[:] = json.loads(sys.argv[1]); from vf.props import c07; r = c07.digests(json.load(sys.stdin)); print('DIGESTS' + json.dumps(r))"
    e = dict(os.environ, PYTHONHASHSEED=str(c["hash"]))
    o = subprocess.run([sys.executable, "-W", "ignore", "-c", code, json.dumps(sys.path)], input=json.dumps(c), env=e, capture_output=True, text=True, timeout=140)
    i = o.stdout.rfind("DIGESTS")
    require(o.returncode == 0 and i >= 0, lambda: f"another process fails on the same problems: {o.stderr[-300:]}", "process")
    b = json.loads(o.stdout[i + 7:])
    for p, x, y in zip(c["ps"], a, b):
        require(x == y, lambda: f"two processes return different {p['kind']} meshes: {x} and {y}", "process")
    rec.nt(any(x is not None for x in a))
    rec.label(*[p["kind"] for p, x in zip(c["ps"], a) if x])


MESH_DEFAULTS = {"max_iter": 50, "seed": 0, "perform_checks": False, "pfix": None, "axis": 1, "delta_t": 0.30, "geps_mult": 0.1, "mesh_improvement": True, "r0m_is_h0": False, "verbose": 1}
SLIVER_DEFAULTS = {"max_iter": 50, "perform_checks": False, "pfix": None, "axis": 1, "min_dh_angle_bound": 10.0, "geps_mult": 0.1, "verbose": 1}


@st.composite
def case_default(draw):
    if draw(st.integers(0, 3)) == 0:
        return {"kind": "sliver", "dom": draw(dom.domain(3, composite=False, smooth=False)), "res": draw(fl(3.5, 6.0)), "jit": draw(fl(0.0, 0.25)), "seed": draw(st.integers(0, 999)),
                "keys": draw(st.lists(st.sampled_from(sorted(SLIVER_DEFAULTS)), min_size=1, unique=True)), "own": {}}
    d = draw(st.sampled_from([2, 2, 2, 3]))
    c = draw(dom.case(dims=(d,), res2=(4.0, 9.0), res3=(3.5, 4.5)))
    own = {}
    for k, v in (("max_iter", st.integers(2, 12)), ("seed", st.integers(1, 9)), ("delta_t", fl(0.1, 0.4)), ("mesh_improvement", st.just(False)), ("perform_checks", st.just(True)), ("r0m_is_h0", st.just(True))):
        if draw(st.integers(0, 2 if k != "max_iter" else 1)) == 0:
            own[k] = draw(v)
    return {"kind": "dom", "c": c, "own": own, "keys": draw(st.lists(st.sampled_from(sorted(MESH_DEFAULTS)), min_size=1, unique=True))}


def chk_default(c, rec):
    """A keyword set to its documented default changes nothing."""
    import SeismicMesh as S

    if c["kind"] == "sliver":
        P = dom.Problem({"dim": 3, "dom": c["dom"], "res": c["res"], "size": {"kind": "const"}, "iters": 5, "seed": 0})
        x = c04.cloud(P, np.random.RandomState(c["seed"]), c["jit"] + 1e-3)
        fn, args, kw, D, allow = S.sliver_removal, (x, P.shape, P.h), {}, SLIVER_DEFAULTS, (ValueError, IndexError)
        if len(x) < 8:
            rec.excluded = True
            return
    else:
        P = dom.Problem(c["c"])
        kw = {k: P.opts[k] for k in ("bbox", "h0") if k in P.opts}
        fn, args, D, allow = S.generate_mesh, (P.domain, P.edge), MESH_DEFAULTS, ()
        if not P.resolved():
            rec.excluded = True
            return
    kw.update(c["own"])
    extra = {k: D[k] for k in c["keys"] if k not in kw}
    if not extra:
        rec.excluded = True
        return
    res = []
    for o in (kw, dict(kw, **extra)):
        with quiet() as out:
            try:
                r = call(fn, *args, what=fn.__name__, allow=allow, **o)
                res.append((np.asarray(r[0]), np.asarray(r[1]), out.getvalue().count("\n")))
            except (ValueError, IndexError):
                if not allow:
                    raise
                res.append(None)
    a, b = res
    rec.label(c["kind"], *extra)
    if a is None or b is None:
        require(a is b, lambda: f"{fn.__name__} fails only with or only without {extra}", "default")
        rec.excluded = True
        return
    require(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), lambda: f"{fn.__name__} gives another mesh ({b[0].shape[0]} instead of {a[0].shape[0]} vertices) when the documented defaults {extra} are given", "default")
    require(a[2] == b[2], lambda: f"{fn.__name__} prints {b[2]} instead of {a[2]} lines when the documented defaults {extra} are given", "default")
    rec.nt(bool(set(extra) - {"pfix", "axis"}))


@st.composite
def case_seeds(draw):
    d = draw(st.sampled_from([2, 2, 2, 3]))
    c = draw(dom.case(dims=(d,), iters=(1, 2, 3), res2=(10.0, 16.0), res3=(5.0, 7.0), composite=False))
    if c["size"]["kind"] == "const":
        c["size"] = {"kind": "linear", "n": [1.0] + [draw(fl(-1.0, 1.0)) for _ in range(d - 1)]}
    c["size"]["a"] = draw(fl(0.15, 0.25))
    s = draw(st.one_of(st.integers(0, 20), st.integers(0, 2 ** 31 - 1)))
    k = [draw(st.one_of(st.integers(0, 20), st.integers(0, 2 ** 32 - 1))) if q == 0 else (s + q) % 2 ** 32 if q > 0 else s // 2 if q == -1 else (s ^ 2 ** 31)
         for q in draw(st.lists(st.sampled_from([0, 0, 1, 2, 3, 4, 8, 10, 16, 32, 100, 128, 256, 1000, 1024, 65536, 2 ** 24, -1, -2]), min_size=3, max_size=5))]
    return {"c": c, "seeds": sorted(set([s] + k))}


def chk_seeds(c, rec):
    P = dom.Problem(c["c"])
    if not P.resolved():
        rec.excluded = True
        return
    r = {}
    for s in c["seeds"]:
        p, t = P.mesh(seed=s)
        if len(p) < 40:
            rec.excluded = True
            return
        r.setdefault(p.tobytes(), []).append(s)
    rec.nt(len(c["seeds"]) > 2)
    rec.label(f"{P.dim}D", c["c"]["size"]["kind"])
    same = [v for v in r.values() if len(v) > 1]
    require(not same, lambda: f"seeds {same[0]} give the same mesh of {len(p)} vertices", "seed")


SUBS = [Sub("histories", case, chk, 360, 14000, shards=8),
        Sub("process", case_process, chk_process, 24, 1200, shards=4),
        Sub("seeds", case_seeds, chk_seeds, 240, 4000, shards=2),
        Sub("defaults", case_default, chk_default, 240, 5000, shards=4)]
