"""
Plants bugs: applies an edit to a scratch copy of /repo, builds it, runs the stable tests and the demonstration on it and
on the unchanged tree, and keeps the change under /verif/seeded/<id> when all of that is as required.
Usage: seedbugs.py [id ...]       (no argument: those not yet kept)
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import textwrap

REPO = "/repo"
OUT = os.environ.get("SEED_OUT", "/verif/seeded")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", SETUPTOOLS_SCM_PRETEND_VERSION="0.2.5", PIP_NO_INDEX="1", MPLBACKEND="Agg",
           PYTHONHASHSEED="0")
BUGS = []

DEMO_SH = """#!/bin/bash
# run with cwd = the repository, after its build
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
"""

HEAD = """import sys, os, tempfile, warnings
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
import numpy as np


def check(ok, msg):
    if not ok:
        print("BROKEN:", msg)
        sys.stdout.flush()
        os._exit(1)


"""


def bug(id, prop, edits, demo, needs, breaks):
    assert id not in [b["id"] for b in BUGS], id
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=HEAD + textwrap.dedent(demo).lstrip("\n") + "\nprint('OK')\n", needs=needs, breaks=breaks))


def run(cmd, cwd, timeout=300):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as err:
        return subprocess.CompletedProcess(cmd, 124, f"timed out: {err}")


def plant(b):
    work = f"/tmp/sb/{b['id']}"
    subprocess.run(["rm", "-rf", work])
    os.makedirs("/tmp/sb", exist_ok=True)
    subprocess.run(["cp", "-a", REPO, work], check=True)
    try:
        base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=work, capture_output=True, text=True).stdout.strip()
        for f, old, new in b["edits"]:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"edit matches {s.count(old)} times in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], work).stdout
        # the change must touch original lines
        removed = 0
        blame_bad = []
        for f in {e[0] for e in b["edits"]}:
            bl = subprocess.run(["git", "blame", "-s", "-l", "HEAD", "--", f], cwd=work, capture_output=True, text=True).stdout.splitlines()
            hunk = subprocess.run(["git", "diff", "-U0", "--", f], cwd=work, capture_output=True, text=True).stdout
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunk, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + n):
                    removed += 1
                    if not bl[i - 1].lstrip("^").startswith(base[:39]):
                        blame_bad.append(bl[i - 1])
        if blame_bad:
            return b["id"], "touches lines of a fix: " + str(blame_bad[:3])
        if not removed:
            return b["id"], "pure insertion"
        if any(f.endswith((".hpp", ".cpp")) for f, _, _ in b["edits"]):
            r = run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"], work)
            if r.returncode:
                return b["id"], "build failed\n" + r.stdout[-1500:]
        demo = f"/tmp/sb/{b['id']}.demo"
        subprocess.run(["rm", "-rf", demo])
        os.makedirs(demo)
        open(demo + "/demo.py", "w").write(b["demo"])
        open(demo + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(demo + "/demo.sh", 0o755)
        r = run(["bash", demo + "/demo.sh"], REPO)
        if r.returncode:
            return b["id"], "demo fails on the unchanged tree\n" + r.stdout[-1500:]
        r = run(["bash", demo + "/demo.sh"], work)
        if not r.returncode:
            return b["id"], "demo passes with the change\n" + r.stdout[-1500:]
        demo_out = r.stdout.strip().splitlines()[-1:] + [f"rc={r.returncode}"]
        r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=250", "riptide/tests"], work)
        if r.returncode:
            return b["id"], "tests fail\n" + r.stdout[-1200:]
        d = f"{OUT}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(f"{demo}/{n}", f"{d}/{n}")
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        return b["id"], "kept " + str(demo_out)
    finally:
        subprocess.run(["rm", "-rf", work])
        subprocess.run(["rm", "-rf", f"/tmp/sb/{b['id']}.demo"])


def main():
    want = sys.argv[1:]
    todo = [b for b in BUGS if (b["id"] in want if want else not os.path.isfile(f"{OUT}/{b['id']}/patch.diff"))]
    with cf.ThreadPoolExecutor(6) as ex:
        for id, msg in ex.map(plant, todo):
            print(f"{id}: {msg}", flush=True)
