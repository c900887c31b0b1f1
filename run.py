#!/usr/bin/env python3
"""Run the check of one property:  run.py C01 [--tier quick|thorough]
                                   run.py C01 --replay FILE
Exit 0: held on everything explored.  1: VIOLATION line.  2: harness error."""
import argparse
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
from vf import build as B  # noqa: E402
from vf.core import derive_seed  # noqa: E402

PY = "/opt/venv/bin/python"
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


def worker_env(scratch, extdir, asan):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        PYTHONPATH=os.pathsep.join([extdir, B.REPO, HERE]),
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_btl="self",
        OMPI_MCA_ess_singleton_isolated="1",  # (no daemon is started)
        OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_rmaps_base_oversubscribe="1",
        HOME=scratch, TMPDIR=scratch, MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        VERIF_EXTDIR=extdir, LC_ALL="C.UTF-8",
    )
    hyp = hypothesis_dir(scratch)
    if hyp:
        e["VERIF_HYPOTHESIS"] = hyp
    if asan:
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        cxx = subprocess.run(["gcc", "-print-file-name=libstdc++.so.6"], capture_output=True, text=True).stdout.strip()
        e["LD_PRELOAD"] = lib + ":" + cxx
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=0:allocator_may_return_null=1:log_path=" + os.path.join(scratch, "asan")
    return e


def hypothesis_dir(scratch):
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if os.path.isdir(os.path.join(vt, "hypothesis")):
        return vt
    dest = os.path.join(scratch, "hyp")
    subprocess.run([PY, "-m", "pip", "install", "-q", "--no-index", "--find-links",
                    "/opt/veriftools/wheels", "--target", dest, "hypothesis"], check=False)
    return dest


def list_subs(env, prop):
    code = ("import sys,json;sys.path.append(%r)\n"
            "import importlib\nm=importlib.import_module('vf.props.%s')\n"
            "print('SUBS'+json.dumps({'subs':[[s.name,s.quick,s.thorough,s.shards,s.mode,s.cpu_limit] for s in m.SUBS],"
            "'rule':m.RULE,'assumptions':getattr(m,'ASSUMPTIONS',[])}))" % (
                env.get("VERIF_HYPOTHESIS", ""), prop.lower()))
    for k in range(6):
        r = subprocess.run([PY, "-c", code], env=env, capture_output=True, text=True)
        for line in r.stdout.splitlines():
            if line.startswith("SUBS"):
                return json.loads(line[4:])
        time.sleep(k)
    raise RuntimeError("cannot import the property module or the code under test:\n" + r.stderr[-4000:])


def cpu_of(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            v = f.read().rsplit(")", 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


class Pool:
    """Runs tasks over worker processes; survives crashes of the workers."""

    def __init__(self, prop, tasks, env, scratch, deadline, hard_deadline, shrink_budget, limits):
        self.prop, self.env, self.scratch = prop, env, scratch
        self.deadline, self.hard, self.shrink = deadline, hard_deadline, shrink_budget
        self.limits = limits
        self.tasks = tasks
        self.lock = threading.Lock()
        self.crashes = []
        self.procs = set()
        self.abort = False
        self.n = 0

    def run(self, nproc):
        # longest first, round robin over workers would be static: use a queue
        ths = [threading.Thread(target=self._loop, daemon=True) for _ in range(min(nproc, len(self.tasks)))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    def _take(self, k=1):
        with self.lock:
            if self.abort or not self.tasks:
                return []
            out = self.tasks[:k]
            del self.tasks[:k]
            return out

    def _loop(self):
        while True:
            ts = self._take(1)
            if not ts:
                return
            # cheap tasks are batched to save interpreter start-ups
            self._run_tasks(ts)

    def _run_tasks(self, ts):
        with self.lock:
            self.n += 1
            wid = self.n
        inflight = os.path.join(self.scratch, f"inflight-{wid}.json")
        jobf = os.path.join(self.scratch, f"job-{wid}.json")
        with open(jobf, "w") as f:
            json.dump(dict(prop=self.prop, tasks=ts, dir=self.scratch, inflight=inflight,
                           deadline=self.deadline, shrink_budget=self.shrink), f)
        errf = open(os.path.join(self.scratch, f"err-{wid}.txt"), "wb")
        p = subprocess.Popen([PY, "-m", "vf.worker", jobf], env=self.env, cwd=self.scratch,
                             stdout=errf, stderr=errf, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        killed = None
        last_sig, cpu0 = None, 0.0
        while True:
            try:
                p.wait(timeout=1.0)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                sig = os.stat(inflight).st_mtime_ns
            except OSError:
                sig = None
            if sig != last_sig:
                last_sig, cpu0 = sig, cpu_of(p.pid)
            elif sig is not None and cpu_of(p.pid) - cpu0 > self.limits.get(ts[0]["sub"], 150) + 60:
                killed = "hang"
            if time.time() > self.hard:
                killed = killed or "hard"
            if killed or self.abort:
                with _suppress():
                    os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
        errf.close()
        with self.lock:
            self.procs.discard(p)
        missing = [t for t in ts if not os.path.exists(os.path.join(self.scratch, f"res-{t['sub']}-{t['shard']}.json"))]
        if missing and not self.abort:
            with open(os.path.join(self.scratch, f"err-{wid}.txt"), "rb") as f:
                err = f.read()[-4000:].decode(errors="replace")
            case = None
            if os.path.exists(inflight):
                with _suppress():
                    case = json.load(open(inflight))
            if case is None and not killed and all(t.get("tries", 0) < 4 for t in missing):
                # it died before its first case (MPI start-up): once more
                time.sleep(2.0 * max(t.get("tries", 0) for t in missing))
                with self.lock:
                    self.tasks[:0] = [dict(t, tries=t.get("tries", 0) + 1) for t in missing]
                return
            with self.lock:
                self.crashes.append(dict(tasks=missing, rc=p.returncode, killed=killed, inflight=case, err=err))
        else:
            for t in ts:
                with _suppress():
                    res = json.load(open(os.path.join(self.scratch, f"res-{t['sub']}-{t['shard']}.json")))
                    if res["status"] == "violation":
                        # one confirmed failure decides: stop handing out work
                        with self.lock:
                            self.tasks.clear()


class _suppress:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return a[0] is None or issubclass(a[0], Exception)


def run_replay(prop, sub, cases, env, scratch, tag, limit=400):
    d = os.path.join(scratch, "replay-" + tag)
    os.makedirs(d, exist_ok=True)
    pool = Pool(prop, [dict(sub=sub, shard=0, replay=cases)], env, d, time.time() + limit, time.time() + limit, 0, {})
    pool.run(1)
    f = os.path.join(d, f"res-{sub}-0.json")
    if os.path.exists(f):
        return json.load(open(f)), None
    return None, pool.crashes[0] if pool.crashes else dict(rc=None, killed="?", err="")


# cheap checks with exact oracles: more cases in a quick run
MORE = dict({f"C{i:02d}": 4 for i in (1, 2, 3, *range(14, 24), 25)}, C11=2, C12=2, C13=2, C24=2, C27=2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub", help="only this sub-check (development)")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply case counts (development)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vf-")
    try:
        return _main(a, prop, tier, seed, t0, scratch)
    except B.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    except RuntimeError as e:
        print("ERROR", e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load_findings(prop):
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "known"]
    except FileNotFoundError:
        return []


def violation_exit(prop, sub, case, msg, key, scratch):
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, f"{prop}-{sub}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, sub=sub, case=case, msg=msg, key=key), f, indent=1)
    print(f"{prop}/{sub}: {msg}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1


def _main(a, prop, tier, seed, t0, scratch):
    log = (lambda s: print(s, flush=True)) if a.v else (lambda s: None)
    extdir = os.path.join(scratch, "ext")
    how = B.build(extdir, log=log)
    env = worker_env(scratch, extdir, False)
    info = list_subs(env, prop)
    subs = info["subs"]
    if a.sub:
        subs = [s for s in subs if s[0] == a.sub]
    env_of = {}
    if any(s[4] == "asan" for s in subs):
        asandir = os.path.join(scratch, "ext-asan")
        B.build(asandir, sanitize=True, log=log)
        env_asan = worker_env(scratch, asandir, True)
    for s in subs:
        env_of[s[0]] = env_asan if s[4] == "asan" else env
    t_built = time.time()

    if a.replay:
        rp = json.load(open(a.replay))
        res, crash = run_replay(prop, rp["sub"], [rp["case"]], env_of[rp["sub"]], scratch, "r")
        if res is None:
            return violation_exit(prop, rp["sub"], rp["case"], f"crash rc={crash['rc']} {crash['err'][-800:]}", "crash", scratch)
        if res["status"] == "violation":
            return violation_exit(prop, rp["sub"], rp["case"], res["msg"], res["key"], scratch)
        print("replay:", res["status"], res.get("msg", ""))
        return 0 if res["status"] == "ok" else 2

    # known findings: replay each on the current tree
    known_ids = []
    for i, k in enumerate(load_findings(prop)):
        if a.sub and k["sub"] != a.sub:
            continue
        res, crash = run_replay(prop, k["sub"], [k["case"]], env_of[k["sub"]], scratch, f"k{i}")
        if res is None or res["status"] == "violation":
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
            known_ids.append(k["what"])

    budget = 420 if tier == "quick" else 7200
    hard = 780 if tier == "quick" else 9000
    jobs = {}
    for name, q, th, shards, mode, cpu in subs:
        n = q * MORE.get(prop, 1) if tier == "quick" else th
        n = max(1, int(n * a.scale))
        sh = min(shards if tier == "quick" else max(shards, 8), n)
        for k in range(sh):
            m = n // sh + (1 if k < n % sh else 0)
            jobs.setdefault(mode, []).append(dict(sub=name, shard=k, n=m, seed=derive_seed(seed, prop, name, k)))
    limits = {s[0]: s[5] for s in subs}
    results, crashes = [], []
    for mode, tasks in jobs.items():
        # interleave subs so that every kind of case starts early
        tasks.sort(key=lambda t: (t["shard"],))
        pool = Pool(prop, tasks, env_of[tasks[0]["sub"]], scratch, t0 + budget, t0 + hard, 45 if tier == "quick" else 300, limits)
        pool.run(NPROC)
        crashes += pool.crashes
    for f in sorted(glob.glob(os.path.join(scratch, "res-*.json"))):
        results.append(json.load(open(f)))

    viol = [r for r in results if r["status"] == "violation"]
    errs = [r for r in results if r["status"] == "error"]
    # a worker that died: confirm with a fresh process
    unexplained = []
    for c in crashes:
        if c["killed"] == "hard" or c["inflight"] is None:
            unexplained.append(c)
            continue
        sub = c["inflight"]["sub"]
        res, crash = run_replay(prop, sub, [c["inflight"]["case"]], env_of[sub], scratch, "c%d" % len(viol))
        if res is not None and res["status"] == "ok":
            unexplained.append(c)
            continue
        asan = "".join(open(g, errors="replace").read()[:3000] for g in glob.glob(os.path.join(scratch, "asan.*"))[:1])
        msg = ("no result: worker had to be killed" if c["killed"] == "hang"
               else f"the process died with code {c['rc']}: {asan or c['err'][-1500:]}")
        viol.append(dict(sub=sub, case=c["inflight"]["case"], msg=msg, key="crash", status="violation"))

    nviol = len(viol)
    ev = sum(r["evals"] for r in results)
    hs = set()
    labels, per_sub, samples = {}, {}, []
    for r in results:
        hs.update((r["sub"], h) for h in r["hashes"])
        d = per_sub.setdefault(r["sub"], dict(evaluations=0, distinct_nontrivial=0, excluded=0, max_case_cpu_s=0.0))
        d["evaluations"] += r["evals"]
        d["excluded"] += r["excluded"]
        d["max_case_cpu_s"] = round(max(d["max_case_cpu_s"], r["max_cpu"]), 2)
        d["cut_short"] = d.get("cut_short", False) or r["stopped"]
        for k, v in r["labels"].items():
            labels[r["sub"] + "/" + k] = labels.get(r["sub"] + "/" + k, 0) + v
    for sname, _h in hs:
        per_sub[sname]["distinct_nontrivial"] += 1
    seen = {}
    for r in results:
        for s in r["samples"]:
            if seen.get(r["sub"], 0) < 2:
                seen[r["sub"]] = seen.get(r["sub"], 0) + 1
                t = json.dumps(s)
                samples.append(dict(sub=r["sub"], case=s if len(t) < 1500 else t[:1500] + "..."))
    evid = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=ev, distinct_nontrivial=len(hs), rule=info["rule"],
                      samples=samples, per_sub=per_sub, classes=dict(sorted(labels.items())),
                      extensions=how),
        assumptions=info["assumptions"], wall_s=round(time.time() - t0, 2), violations=nviol,
    )
    if known_ids:
        evid["coverage"]["known_findings_reproduced"] = known_ids
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(evid, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))
    if a.v:
        for k, d in per_sub.items():
            print(" ", k, d)
        for k, v in sorted(labels.items()):
            print("    ", k, v)
        slow = sorted(results, key=lambda r: -r["wall"])[:6]
        print("  slowest shards:", [(r["sub"], r["shard"], round(r["wall"], 1)) for r in slow], "build %.1f" % (t_built - t0))

    if viol:
        v = min(viol, key=lambda r: (len(json.dumps(r["case"])), r["sub"]))
        return violation_exit(prop, v["sub"], v["case"], v["msg"], v["key"], scratch)
    if errs or unexplained:
        for r in errs:
            print(f"ERROR in {prop}/{r['sub']}: {r['msg']}")
        for c in unexplained:
            print(f"ERROR worker died: rc={c['rc']} killed={c['killed']} {c['err'][-1500:]}")
        return 2
    cut = [s for s, d in per_sub.items() if d.get("cut_short")]
    print(f"{prop} {tier}: held on {ev} cases ({len(hs)} distinct non-trivial), seed {seed}, "
          f"{time.time() - t0:.1f} s" + (f"; cut short by the time budget: {cut}" if cut else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
