"""
Builds the code under test from /repo's *current working tree*.

The tree is copied (riptide/, setup.py, pyproject.toml, ...) into a content
addressed directory below /verif/.cache (git-ignored) and its C++ extension is
compiled there, by the repository's own setup.py, so /repo is never written to.
Variants:
  normal : exactly the flags of setup.py
  asan   : address + undefined behaviour sanitizers, reports are fatal
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("RV_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, ".cache")
PY = "/opt/venv/bin/python"
KEEP = 6

SAN_FLAGS = (
    "-O1 -g -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS "
    "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize=vptr "
    "-fno-sanitize-recover=all"
)


class BuildError(Exception):
    pass


def _files():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "riptide")):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith((".pyc", ".so")) or ".so." in f:
                continue
            out.append(os.path.join(root, f))
    for f in ("setup.py", "pyproject.toml", "setup.cfg", "MANIFEST.in", "README.md", "LICENSE"):
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            out.append(p)
    return out


def tree_hash(variant):
    h = hashlib.sha256()
    h.update(variant.encode())
    h.update(SAN_FLAGS.encode())
    for p in _files():
        if p.endswith("_version.py"):
            continue
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def so_hash(variant):
    """What the compiled extension depends on."""
    h = hashlib.sha256()
    h.update((variant + SAN_FLAGS).encode())
    for p in _files():
        r = os.path.relpath(p, REPO)
        if r.startswith(os.path.join("riptide", "cpp")) or os.sep not in r and not r.endswith(".md"):
            h.update(r.encode() + b"\0")
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def build(variant="normal"):
    """Returns the path of a directory to put on sys.path."""
    os.makedirs(CACHE, exist_ok=True)
    key = f"{variant}-{tree_hash(variant)}"
    dest = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, f"lock-{variant}"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, ".ok")):
            os.utime(dest)
            return dest
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        os.makedirs(dest)
        for p in _files():
            q = os.path.join(dest, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copyfile(p, q)
        # an extension already compiled from exactly the same C++ sources and build files
        sodir = os.path.join(CACHE, f"so-{variant}-{so_hash(variant)}")
        old = [f for f in os.listdir(sodir)] if os.path.exists(os.path.join(sodir, ".ok")) else []
        old = [f for f in old if f.startswith("libcpp") and f.endswith(".so")]
        if old:
            os.utime(sodir)
            for f in old:
                shutil.copy2(os.path.join(sodir, f), os.path.join(dest, "riptide", f))
            _finish(variant, dest)
            return dest
        env = dict(os.environ)
        env.update(SETUPTOOLS_SCM_PRETEND_VERSION="0.2.5", PYTHONDONTWRITEBYTECODE="1", HOME=dest)
        env.pop("LD_PRELOAD", None)
        if variant == "asan":
            env["CFLAGS"] = SAN_FLAGS
            env["CXXFLAGS"] = SAN_FLAGS
            env["LDFLAGS"] = "-fsanitize=address,undefined"
        if variant == "asan":
            # setup.py's -O3 comes after CFLAGS: compile with a reduced copy
            # of its argument list so that the reports keep useful stacks.
            p = os.path.join(dest, "setup.py")
            with open(p) as f:
                s = f.read()
            s = s.replace("'-O3'", "'-O1'").replace("'-march=native'", "'-g'")
            with open(p, "w") as f:
                f.write(s)
        r = subprocess.run(
            [PY, "setup.py", "-q", "build_ext", "--inplace", "--force"],
            cwd=dest, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        so = [f for f in os.listdir(os.path.join(dest, "riptide")) if f.startswith("libcpp") and f.endswith(".so")]
        if r.returncode or not so:
            tail = r.stdout.decode(errors="replace")[-3000:]
            shutil.rmtree(dest, ignore_errors=True)
            raise BuildError(tail)
        shutil.rmtree(os.path.join(dest, "build"), ignore_errors=True)
        shutil.rmtree(sodir, ignore_errors=True)
        os.makedirs(sodir)
        for f in so:
            shutil.copy2(os.path.join(dest, "riptide", f), os.path.join(sodir, f))
        with open(os.path.join(sodir, ".ok"), "w") as f:
            f.write(time.ctime())
        _finish(variant, dest)
        _prune("so-" + variant, keep=sodir)
    return dest


def _finish(variant, dest):
    v = os.path.join(dest, "riptide", "_version.py")
    if not os.path.exists(v):
        with open(v, "w") as f:
            f.write("version = '0.2.5'\n__version__ = version\n")
    with open(os.path.join(dest, ".ok"), "w") as f:
        f.write(time.ctime())
    _prune(variant, keep=dest)


def _prune(prefix, keep):
    ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith(prefix + "-")]
    ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime, reverse=True)
    for d in ds[KEEP:]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    for v in (sys.argv[1:] or ["normal", "asan"]):
        t = time.time()
        print(v, build(v), f"{time.time() - t:.1f}s")
