"""Builds the compiled extensions of /repo's *current* working tree into a
scratch directory (never inside /repo).

An extension that /repo already holds is reused only if the build stamp left
by the build (sha256 of the source it was compiled from, plus a hash of the
build files and headers) equals the hash of what is in the tree now; anything
else is compiled here, from source.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def _ext_table():
    code = (
        "import runpy,sys;ns=runpy.run_path(sys.argv[1]+'/setup.py',run_name='vp')\n"
        "for e in ns['ext_modules']: print(e.name, *e.sources)\n"
    )
    out = subprocess.run(
        [PY, "-c", code, REPO], cwd=REPO, capture_output=True, text=True,
        env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"),
    )
    if out.returncode:
        raise BuildError("setup.py cannot be read: " + out.stderr[-2000:])
    tab = []
    for line in out.stdout.splitlines():
        name, *srcs = line.split()
        tab.append((name, srcs))
    return tab


def _common_hash():
    cmd = (
        "cat setup.py setup.cfg pyproject.toml $(find . -path ./build -prune -o "
        "-path ./.git -prune -o \\( -name '*.h' -o -name '*.hpp' -o -name '*.hh' \\) "
        "-type f -print | LC_ALL=C sort) 2>/dev/null | sha256sum"
    )
    return subprocess.run(["bash", "-c", cmd], cwd=REPO, capture_output=True, text=True).stdout.strip()


def build(dest, sanitize=False, log=lambda s: None):
    """Put all extensions into `dest`; returns {name: 'reused'|'compiled'}."""
    os.makedirs(dest, exist_ok=True)
    tab = _ext_table()
    stamps = os.path.join(REPO, "build", "vp-stamps")
    common_ok = False
    try:
        with open(os.path.join(stamps, "common")) as f:
            common_ok = f.read().strip() == _common_hash()
    except OSError:
        pass
    inc = subprocess.run(
        [PY, "-c", "import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
        capture_output=True, text=True).stdout.split()
    suffix = inc[2]
    res = {}
    jobs = []
    for name, srcs in tab:
        h = hashlib.sha256()
        for s in srcs:
            with open(os.path.join(REPO, s), "rb") as f:
                h.update(f.read())
        so = glob.glob(os.path.join(REPO, name + ".*.so"))
        stamp = ""
        try:
            with open(os.path.join(stamps, name)) as f:
                stamp = f.read().strip()
        except OSError:
            pass
        if not sanitize and common_ok and so and stamp == h.hexdigest() and os.path.basename(so[0]) == name + suffix:
            shutil.copy(so[0], dest)
            res[name] = "reused"
        else:
            jobs.append((name, srcs))
            res[name] = "compiled"

    def comp(job):
        name, srcs = job
        opt = ["-O2", "-DNDEBUG", "-g0"]
        if sanitize:
            opt = ["-O1", "-DNDEBUG", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address", "-fno-omit-frame-pointer"]
        cmd = (["g++", "-std=c++17", "-w", "-fPIC", "-shared", "-fvisibility=hidden", "-fno-strict-overflow"]
               + opt + ["-I" + inc[0], "-I" + inc[1]]
               + [os.path.join(REPO, s) for s in srcs]
               + ["-o", os.path.join(dest, name + suffix), "-lgmp", "-lmpfr"])
        r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"{name} does not compile:\n{r.stderr[-3000:]}")

    if jobs:
        log("compiling " + " ".join(j[0] for j in jobs))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, jobs))
    return res


if __name__ == "__main__":
    print(build(sys.argv[1], sanitize=len(sys.argv) > 2))
