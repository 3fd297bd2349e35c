"""Make sure compiled Cython extensions matching /repo's current working tree exist.

The extensions built in place by /opt/vp/build.sh are used when their recorded source
hashes match the current sources; otherwise the stale ones are compiled here, into a
scratch directory keyed by content, never into /repo.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("XSIM_REPO", "/repo")
ROOT = os.path.join(REPO, "python")
CACHE = os.environ.get("XSIM_BUILD", "/verif/.build")
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")


def _digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _sources(ext):
    return sorted(
        os.path.relpath(p, ROOT)
        for p in glob.glob(os.path.join(ROOT, "xoscar/**/*" + ext), recursive=True)
    )


def ensure_built(verbose=True):
    """Returns {dotted module name: path of a .so built from the current sources}."""
    pyx = {p: _digest(os.path.join(ROOT, p)) for p in _sources(".pyx")}
    shared = {p: _digest(os.path.join(ROOT, p)) for p in _sources(".pxd") + ["setup.py"]}
    try:
        with open(os.path.join(ROOT, "build", "vp-cython.json")) as f:
            stamp = json.load(f)
    except (OSError, ValueError):
        stamp = {"pyx": {}, "shared": None}
    out, todo = {}, []
    for p, h in pyx.items():
        mod = p[: -len(".pyx")].replace("/", ".")
        so = os.path.join(ROOT, p[: -len(".pyx")] + SUFFIX)
        if stamp["shared"] == shared and stamp["pyx"].get(p) == h and os.path.exists(so):
            out[mod] = so
            continue
        key = hashlib.sha256(
            json.dumps([p, h, shared, sys.version]).encode()
        ).hexdigest()[:24]
        cached = os.path.join(CACHE, key, os.path.basename(so))
        out[mod] = cached
        if not os.path.exists(cached):
            todo.append((p, mod, cached))
    if todo:
        if verbose:
            print("building", ", ".join(m for _, m, _ in todo), flush=True)
        _build(todo)
    return out


def _build(todo):
    work = tempfile.mkdtemp(prefix="xsim-build-")
    try:
        shutil.copytree(
            os.path.join(ROOT, "xoscar"),
            os.path.join(work, "xoscar"),
            ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.c", "*.cpp", "collective"),
        )
        import numpy

        inc = [sysconfig.get_path("include"), numpy.get_include()]
        procs = []
        for p, mod, cached in todo:
            with open(os.path.join(work, p)) as f:
                cpp = "distutils: language = c++" in f.read()
            csrc = p[: -len(".pyx")] + (".cpp" if cpp else ".c")
            so = os.path.join(work, p[: -len(".pyx")] + SUFFIX)
            cy = [sys.executable, "-m", "cython", "-3", p, "-o", csrc]
            if cpp:
                cy.append("--cplus")
            cc = (
                ["g++" if cpp else "gcc", "-O1", "-fPIC", "-shared", "-w"]
                + (["-std=c++11"] if cpp else [])
                + ["-DCYTHON_FAST_THREAD_STATE=0"]
                + ["-I" + i for i in inc]
                + [csrc, "-o", so]
            )
            script = " ".join(map(_q, cy)) + " && " + " ".join(map(_q, cc))
            procs.append(
                (mod, so, cached, subprocess.Popen(["bash", "-c", script], cwd=work,
                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
            )
        for mod, so, cached, pr in procs:
            log, _ = pr.communicate()
            if pr.returncode:
                raise RuntimeError(f"building {mod} failed:\n{log.decode()[-4000:]}")
            os.makedirs(os.path.dirname(cached), exist_ok=True)
            tmp = cached + f".{os.getpid()}"
            shutil.copy(so, tmp)
            os.replace(tmp, cached)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _q(s):
    import shlex

    return shlex.quote(s)


if __name__ == "__main__":
    for k, v in ensure_built().items():
        print(k, v)
