"""detect.py [seed ids]: runs each planted bug's own check (or those given by CHECKS=C01,C02) against a scratch copy."""
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import time

V = os.environ.get("VERIF", "/verif")


def one(id):
    meta = json.load(open(f"{os.environ.get('SEEDED', V + '/seeded')}/{id}/meta.json"))
    props = os.environ.get("CHECKS", meta["property"]).split(",")
    work = f"/tmp/det/{id}"
    os.makedirs("/tmp/det", exist_ok=True)
    subprocess.run(["rm", "-rf", work])
    subprocess.run(["cp", "-a", "/repo", work], check=True)
    out = []
    try:
        r = subprocess.run(["git", "apply", f"{os.environ.get('SEEDED', V + '/seeded')}/{id}/patch.diff"], cwd=work, capture_output=True, text=True)
        if r.returncode:
            return id, [("apply failed", r.stderr)]
        for p in props:
            env = dict(os.environ, RV_REPO=work, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick"))
            t = time.time()
            r = subprocess.run([f"{V}/check.py", p], cwd=V, env=env, capture_output=True, text=True)
            line = next((x for x in r.stdout.splitlines() if x.startswith("VIOLATION")), "")
            out.append((p, r.returncode, "CAUGHT" if r.returncode == 1 and line else "missed", f"{time.time() - t:.0f}s", line[:150]))
            if r.returncode not in (0, 1):
                out.append(("stderr", (r.stdout + r.stderr)[-800:]))
    finally:
        subprocess.run(["rm", "-rf", work])
    return id, out


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(os.environ.get("SEEDED", V + "/seeded")))
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for id, out in ex.map(one, ids):
            print(id, *out, sep="\n    " if len(out) > 1 else " ", flush=True)
