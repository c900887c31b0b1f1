"""Worker process: runs a list of (sub, shard) tasks of one property.

Reads a JSON job from argv[1]; writes one JSON result per task into the
scratch directory.  The case being evaluated is always on disk in
`inflight-<worker>.json`, so that the master can turn a crash of the compiled
code into a replayable case.
"""
import faulthandler
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _find_hypothesis():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    extra = os.environ.get("VERIF_HYPOTHESIS", VT)
    sys.path.append(extra)
    import hypothesis  # noqa: F401


def main():
    job = json.load(open(sys.argv[1]))
    faulthandler.enable()
    warnings.simplefilter("ignore")
    _find_hypothesis()
    sys.setrecursionlimit(10000)
    import numpy as np

    np.seterr(all="ignore")
    from vf import core

    mod = importlib.import_module("vf.props." + job["prop"].lower())
    subs = {s.name: s for s in mod.SUBS}
    for task in job["tasks"]:
        run_task(job, task, subs[task["sub"]], core, mod)


def _on_cpu_limit(signum, frame):
    from vf.core import CaseTimeout

    raise CaseTimeout()


class Runner:
    def __init__(self, sub, core, inflight, findings):
        self.sub = sub
        self.core = core
        self.inflight = inflight
        self.findings = findings
        self.evals = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.excluded = 0
        self.max_cpu = 0.0
        self.last_fail = None

    def one(self, case):
        core = self.core
        self.evals += 1
        with open(self.inflight, "w") as f:
            json.dump({"sub": self.sub.name, "case": case}, f)
        rec = core.Rec()
        t0 = time.process_time()
        signal.setitimer(signal.ITIMER_PROF, self.sub.cpu_limit)
        try:
            with core.quiet():
                self.sub.check(case, rec)
        except core.CaseTimeout:
            raise core.Violation(
                f"no result after {self.sub.cpu_limit} s of CPU time (usual: under {max(self.max_cpu, 0.1):.1f} s)", key="hang")
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            self.max_cpu = max(self.max_cpu, time.process_time() - t0)
        for lb in rec.labels:
            self.labels[lb] = self.labels.get(lb, 0) + 1
        if rec.excluded:
            self.excluded += 1
        elif rec.nontrivial:
            h = core.case_hash(case)
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 2 or (len(self.samples) < 3 and self.evals > 20):
                    self.samples.append(case)


def run_task(job, task, sub, core, mod):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, seed, settings

    signal.signal(signal.SIGPROF, _on_cpu_limit)
    out = {"sub": sub.name, "shard": task["shard"], "status": "ok"}
    respath = os.path.join(job["dir"], f"res-{sub.name}-{task['shard']}.json")
    r = Runner(sub, core, job["inflight"], None)
    t_start = time.time()
    deadline = job["deadline"]
    shrink_budget = job.get("shrink_budget", 60)
    state = {"fail": None, "t_fail": None, "stopped": False}

    def attempt(case):
        if state["fail"] is None and time.time() > deadline:
            state["stopped"] = True
            return
        if state["t_fail"] is not None and time.time() - state["t_fail"] > shrink_budget:
            # shrinking has had its time: only the best failure keeps failing
            if core.case_hash(case) == core.case_hash(state["fail"]["case"]):
                raise core.Violation(state["fail"]["msg"], state["fail"]["key"])
            return
        try:
            r.one(case)
        except core.Violation as v:
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
            state["fail"] = {"case": case, "msg": str(v), "key": v.key}
            raise

    try:
        if task.get("replay") is not None:
            cases = task["replay"]
            for c in cases:
                attempt(c)
        else:
            if task["shard"] == 0:
                for c in sub.examples:
                    attempt(c)

            @seed(task["seed"])
            @settings(max_examples=task["n"], deadline=None, database=None,
                      phases=(Phase.generate, Phase.target, Phase.shrink),
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      print_blob=False, derandomize=False)
            @given(sub.strategy())
            def prop(case):
                attempt(case)

            prop()
    except core.Violation as v:
        out["status"] = "violation"
        f = state["fail"] or {"case": None, "msg": str(v), "key": v.key}
        out.update(case=f["case"], msg=f["msg"], key=f["key"])
    except hypothesis.errors.Flaky as e:
        f = state["fail"]
        if f is None:
            out["status"] = "error"
            out["msg"] = traceback.format_exc()[-3000:]
        else:
            out["status"] = "violation"
            out.update(case=f["case"], msg=f["msg"] + " (not on every repetition)", key=f["key"])
    except BaseException:  # noqa: BLE001
        out["status"] = "error"
        out["msg"] = traceback.format_exc()[-4000:]
    out.update(evals=r.evals, nontrivial=len(r.hashes), hashes=sorted(r.hashes), labels=r.labels,
               samples=r.samples, excluded=r.excluded, max_cpu=r.max_cpu, wall=time.time() - t_start,
               stopped=state["stopped"])
    tmp = respath + ".tmp"
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.replace(tmp, respath)


if __name__ == "__main__":
    main()
