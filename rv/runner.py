"""
Parent of a check: builds, spawns shards, watches them, merges results,
writes evidence, prints verdict lines.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import treebuild

HERE = treebuild.HERE
PY = treebuild.PY
CASE_LIMIT = 150.0   # wall seconds without finishing a case that normally takes < 5 s
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL}


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=C08 key=<key> <what fails>
                parts = line[len("known: "):].split(None, 2)
                if parts[0] == f"property={prop}":
                    out[parts[1].split("=", 1)[1]] = parts[2]
    return out


def shard_env(mod, tree, variant, scratch, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTEST", "LD_PRELOAD"))}
    env.update(
        PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        PYTHONPATH=HERE, HOME=scratch, MPLCONFIGDIR=scratch, XDG_CACHE_HOME=scratch, XDG_CONFIG_HOME=scratch,
        RV_SCRATCH=scratch, TMPDIR=scratch, RV_TREE=tree)
    if variant == "asan":
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        ub = subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
        env.update(
            LD_PRELOAD=f"{os.path.realpath(lib)} {os.path.realpath(ub)}",
            PYTHONMALLOC="malloc",
            ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:"
                         "detect_stack_use_after_return=1:handle_segv=1:strict_string_checks=1",
            UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1")
    env.update(getattr(mod, "ENV", {}) or {})
    env.update(extra or {})
    return env


class Shard:
    def __init__(self, cmd, env, outdir, k):
        self.k, self.cmd, self.env, self.outdir = k, cmd, env, outdir
        self.restarts = 0
        self.done = False
        self.seen = False
        self.proc = None
        self.start(0)

    def start(self, start):
        self.err = open(os.path.join(self.outdir, f"err-{self.k}-{self.restarts}.txt"), "wb")
        env = dict(self.env)
        env["RV_START"] = str(start)
        try:
            os.remove(os.path.join(self.outdir, f"cur-{self.k}.json"))     # of the process before
        except OSError:
            pass
        self.proc = subprocess.Popen(self.cmd, env=env, cwd=HERE, stdout=self.err, stderr=self.err,
                                     start_new_session=True)
        self.t0 = time.time()

    def current(self):
        try:
            with open(os.path.join(self.outdir, f"cur-{self.k}.json")) as f:
                cur = json.load(f)
            self.seen = True
            return cur
        except (OSError, ValueError):
            return None

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.proc.wait(20)
        except subprocess.TimeoutExpired:
            pass

    def errtail(self, n=2500):
        self.err.flush()
        with open(self.err.name, "rb") as f:
            s = f.read().decode(errors="replace")
        # keep the sanitizer report head if there is one
        for mark in ("ERROR: AddressSanitizer", "runtime error:"):
            i = s.find(mark)
            if i >= 0:
                return s[max(0, i - 120):i + n]
        return s[-n:]


def crash_key(sig, text):
    for mark, name in (("heap-buffer-overflow", "heap-buffer-overflow"), ("stack-buffer-overflow", "stack-buffer-overflow"),
                       ("stack-overflow", "stack-overflow"), ("heap-use-after-free", "heap-use-after-free"),
                       ("dynamic-stack-buffer-overflow", "dynamic-stack-buffer-overflow"),
                       ("runtime error:", "ubsan"), ("AddressSanitizer", "asan")):
        if mark in text:
            return f"sanitizer:{name}"
    return f"crash:{signal.Signals(sig).name}"


def run_one(prop, mod, tier, seed, tree, variant, fam, index, limit, extra=None):
    """Run a single case in its own process. Returns (status, result, text)."""
    outdir = tempfile.mkdtemp(prefix="rv-one-")
    try:
        scratch = os.path.join(outdir, "s")
        os.makedirs(scratch)
        env = shard_env(mod, tree, variant, scratch, extra)
        cmd = [PY, "-m", "rv.core", prop, tier, str(seed), "0", "1", tree, outdir, fam, str(index)]
        s = Shard(cmd, env, outdir, 0)
        try:
            s.proc.wait(limit + 60)
        except subprocess.TimeoutExpired:
            s.kill()
            return "hang", None, s.errtail()
        text = s.errtail()
        res = None
        p = os.path.join(outdir, "res-0.jsonl")
        if os.path.exists(p):
            for line in open(p):
                d = json.loads(line)
                if "family" in d:
                    res = d
        s.kill()
        if res is not None:
            return "ok", res, text
        rc = s.proc.returncode
        if rc is not None and rc < 0 and signal.Signals(-rc) in CRASH_SIGNALS:
            return "crash", {"sig": -rc}, text
        return "dead", {"rc": rc}, text
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def main(prop, replay=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, HERE)
    from . import core
    mod = core.load_props(prop)
    variant = getattr(mod, "VARIANT", "normal")
    known = known_findings(prop)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    repdir = os.path.join(HERE, "replays")
    os.makedirs(repdir, exist_ok=True)
    try:
        tree = treebuild.build(variant)
    except treebuild.BuildError as e:
        print("build failed:\n" + str(e))
        return 2
    tbuild = time.time() - t0

    if replay:
        with open(replay) as f:
            r = json.load(f)
        seed, tier = r["seed"], r["tier"]
        st, res, text = run_one(prop, mod, tier, seed, tree, variant, r["family"], r["index"], CASE_LIMIT)
        print(json.dumps({"status": st, "result": res, "stderr": text}, indent=1))
        bad = st in ("crash", "hang") or (res and [v for v in res.get("viol", []) if v["key"] not in known])
        if bad:
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        return 0

    nshards = int(os.environ.get("RV_SHARDS", getattr(mod, "SHARDS", 8)))
    soft = float(getattr(mod, "SOFT", 480 if tier == "quick" else 3 * 3600))
    outdir = tempfile.mkdtemp(prefix=f"rv-{prop}-")
    scratch = os.path.join(outdir, "scratch")
    os.makedirs(scratch)
    viols, errors, notes = [], [], []
    try:
        env = shard_env(mod, tree, variant, scratch, {"RV_DEADLINE": repr(time.time() + soft)})
        shards = []
        for k in range(nshards):
            e = dict(env)
            if getattr(mod, "shard_env", None):
                e.update(mod.shard_env(k))
            cmd = [PY, "-m", "rv.core", prop, tier, str(seed), str(k), str(nshards), tree, outdir]
            shards.append(Shard(cmd, e, outdir, k))
        limit_of = {f.name: (f.timeout or CASE_LIMIT) for f in mod.family.families.values()}
        hard_stop = time.time() + soft + 200
        while any(not s.done for s in shards):
            time.sleep(0.05)
            for s in shards:
                if s.done:
                    continue
                rc = s.proc.poll()
                cur = s.current()
                if rc is not None:
                    if rc == 0:
                        s.done = True
                        s.kill()
                        continue
                    text = s.errtail()
                    s.kill()
                    sig = -rc if rc < 0 else None
                    if sig and signal.Signals(sig) in CRASH_SIGNALS and cur:
                        viols.append({"family": cur["family"], "index": cur["index"], "key": crash_key(sig, text),
                                      "msg": f"native code died with {signal.Signals(sig).name}", "witness": {"report": text}})
                        s.restarts += 1
                        if s.restarts > 3 or len(viols) > 6:
                            s.done = True
                        else:
                            s.start(cur["k"] + 1)
                    elif cur and s.restarts < 3:
                        notes.append(f"shard {s.k} ended with {rc} in {cur}: {text[-600:]}")
                        s.restarts += 1
                        if sig == signal.SIGKILL and "retry" not in cur:
                            s.start(cur["k"])
                        else:
                            errors.append(notes[-1])
                            s.start(cur["k"] + 1)
                    else:
                        errors.append(f"shard {s.k} ended with {rc}: {text[-1500:]}")
                        s.done = True
                elif cur and time.time() - cur["t"] > limit_of.get(cur["family"], CASE_LIMIT):
                    s.kill()
                    st, res, text = run_one(prop, mod, tier, seed, tree, variant, cur["family"], cur["index"],
                                            limit_of.get(cur["family"], CASE_LIMIT))
                    if st == "hang":
                        viols.append({"family": cur["family"], "index": cur["index"], "key": "does-not-terminate",
                                      "msg": f"case did not finish in {limit_of.get(cur['family'], CASE_LIMIT):.0f} s, twice",
                                      "witness": {"stderr": text[-800:]}})
                        for z in shards:
                            z.kill()
                            z.done = True
                        break
                    if st == "ok":
                        with open(os.path.join(outdir, f"res-{s.k}.jsonl"), "a") as f:
                            f.write(json.dumps(res) + "\n")
                    s.restarts += 1
                    if s.restarts > 5:
                        s.done = True
                    else:
                        s.start(cur["k"] + 1)
                elif not cur and not s.seen and time.time() - s.t0 > 200:
                    s.kill()
                    errors.append(f"shard {s.k} did not start: {s.errtail()}")
                    s.done = True
            if time.time() > hard_stop:
                for s in shards:
                    if not s.done:
                        s.kill()
                        notes.append(f"shard {s.k} stopped by the watchdog")
                        s.done = True
        # ---- merge
        results = []
        for k in range(nshards):
            p = os.path.join(outdir, f"res-{k}.jsonl")
            if os.path.exists(p):
                for line in open(p):
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "family" in d:
                        results.append(d)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)

    counters, per_family, sigs = {}, {}, set()
    samples = []
    seen_known = {}
    for r in results:
        per_family[r["family"]] = per_family.get(r["family"], 0) + 1
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        if r["nontrivial"] and not r["error"]:
            sigs.add(r["sig"])
        if r["error"]:
            errors.append(f"{r['family']}[{r['index']}]: {r['error']}")
        for v in r["viol"]:
            if v["key"] in known:
                seen_known[v["key"]] = seen_known.get(v["key"], 0) + 1
            else:
                viols.append({"family": r["family"], "index": r["index"], "params": r["params"], **v})
    done_fam = set()
    for r in results:
        if r["family"] not in done_fam and not r["viol"] and not r["error"]:
            done_fam.add(r["family"])
            samples.append({"family": r["family"], "index": r["index"], "params": r["params"], "observed": r["counters"]})
    planned = core.tasks_of(mod, tier, seed)
    plan = {}
    for f, _ in planned:
        plan[f] = plan.get(f, 0) + 1

    for key in known:
        if key in seen_known:
            print(f"KNOWN-FINDING: property={prop} {known[key]} (seen {seen_known[key]} times, key={key})")

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:12],
            "cases_per_family": per_family,
            "planned_per_family": plan,
            "observed": counters,
            "known_findings_seen": seen_known,
            "build_variant": variant,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    evidence["coverage"].update(getattr(mod, "EXTRA_COVERAGE", {}))
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print(f"{prop} tier={tier} seed={seed} variant={variant} cases={len(results)}/{len(planned)} distinct={len(sigs)} "
          f"assertions={counters.get('assertions', 0)} build={tbuild:.1f}s wall={time.time() - t0:.1f}s")
    print("  families: " + ", ".join(f"{k}={v}" for k, v in sorted(per_family.items())))
    print("  observed: " + ", ".join(f"{k}={v}" for k, v in sorted(counters.items())))
    if os.environ.get("RV_SLOW"):
        for r in sorted(results, key=lambda r: -r["wall"])[:8]:
            print(f"  slow {r['wall']:.2f}s {r['family']}[{r['index']}] {json.dumps(r['params'])[:300]}")
    for n in notes[:5]:
        print("  note: " + n[:600])

    if viols:
        keys = {}
        for v in viols:
            keys.setdefault(v["key"], []).append(v)
        for n, (key, vs) in enumerate(sorted(keys.items(), key=lambda kv: -len(kv[1]))[:6]):
            v = vs[0]
            path = os.path.join(repdir, f"{prop}-{seed}-{tier}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "variant": variant, **v}, f, indent=1)
            print(f"  [{key}] x{len(vs)} {v['family']}[{v['index']}]: {v['msg'][:700]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1

    bad = []
    if errors:
        bad.append("harness errors:\n" + "\n".join(e[-1500:] for e in errors[:3]))
    for f, n in plan.items():
        if per_family.get(f, 0) < max(1, 0.3 * n):
            bad.append(f"family {f}: only {per_family.get(f, 0)} of {n} cases ran")
    for k, v in getattr(mod, "MIN", {}).items():
        if counters.get(k, 0) < v * float(os.environ.get("RV_SCALE", "1")):
            bad.append(f"monitor saw {counters.get(k, 0)} '{k}' events, expected at least {v}")
    if bad:
        print("INCONCLUSIVE: " + "\n".join(bad))
        return 2
    print(f"HELD property={prop} on everything explored")
    return 0
