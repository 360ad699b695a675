"""C29 faults are contained or reported."""
import json
import os
import subprocess
import sys

import numpy as np
import yaml
from riptide import load_json
from riptide.pipeline.pipeline import Pipeline

from rv import gen, pipe
from rv.core import Registry
from rv.props.c21 import mkpeak
from rv.props.c24 import canonical

PROP = "C29"
LEVEL = "fault_enumeration"
RULE = ("Every position of a fault is enumerated in small pipelines: the k-th candidate cannot be folded (all others must come out exactly as "
        "without the fault), the k-th input file is missing, empty, unparseable or lacks its data (the run must raise, at any number of processes, "
        "without hanging and without writing products), the output directory or the k-th product cannot be written (the run must raise). "
        "Distinct by fault, position and parameters; all non-trivial.")
MIN = {"candidate_faults": 100, "file_faults": 60, "write_faults": 25, "survivors": 400, "cli": 2}
family = Registry()


@family("candidate", quick=60, thorough=600, timeout=200)
def candidate(ctx):
    """Candidates that cannot be folded, at every position of the S/N order and of the DM groups."""
    rng = ctx.rng
    nd = int(rng.integers(1, 4))
    ds = pipe.Dataset(ctx.scratch, rng, [0.0, 14.0, 28.0][:nd], T=6.0)
    n = int(rng.integers(2, 7))
    snrs = rng.permutation(7 + np.arange(n) * 2.5 + rng.uniform(0, 2, n))
    good = [mkpeak(1 / gen.loguniform(rng, 0.06, 0.45), s, gen.pick(rng, ds.dms), int(rng.integers(1, 7)), 0.05) for s in snrs]
    # distinct frequencies, no merging with the faulty one
    kind = gen.pick(rng, ["too-short", "too-long"])
    ctx.p(nd=nd, n=n, kind=kind, P=[g.period for g in good])

    def run(peaks):
        pl = Pipeline(gen.small_config(processes=1))
        pl.prepare(ds.filelist())
        pl.peaks = sorted(peaks, key=lambda p: p.period)
        pl.cluster_peaks()
        pl.flag_harmonics()
        pl.apply_candidate_filters()
        try:
            pl.build_candidates()
        except Exception as e:
            ctx.fail("one-candidate-stops-all", f"{kind}: build_candidates raised {type(e).__name__}: {e}")
        return pl
    base = run(good)
    ctx.check(len(base.candidates) == len(base.clusters), "candidates-without-fault", f"{len(base.candidates)} of {len(base.clusters)}")
    so = sorted((c.params["snr"] for c in base.candidates), reverse=True)
    slots = [so[0] + 1] + [(a + b) / 2 for a, b in zip(so, so[1:])] + [so[-1] - 0.5]
    for k, s in enumerate(slots):
        for dm in ds.dms:
            P = 0.0205 if kind == "too-short" else 7.5
            pl = run(good + [mkpeak(1 / P, s, dm, 2, 0.05)])
            ctx.count("candidate_faults")
            a = {c.params["snr"]: c for c in base.candidates}
            b = {c.params["snr"]: c for c in pl.candidates}
            ctx.check(set(a) <= set(b), "candidates-lost", f"{kind} candidate of rank {k} at DM {dm}: {len(set(a) - set(b))} other candidates lost")
            ctx.check(set(b) == set(a), "impossible-candidate-built", f"{sorted(set(b) - set(a))}")
            for x in a:
                ctx.check(a[x].params == b[x].params and np.array_equal(a[x].subints, b[x].subints), "other-candidate-changed")
            ctx.check([c.params["snr"] for c in pl.candidates] == so, "order-or-duplicates")
            ctx.count("survivors", len(b))
    # the survivors reach the disk
    out = os.path.join(ctx.scratch, "out")
    os.makedirs(out)
    pl.save_products(outdir=out)
    js = [f for f in pipe.listing(out) if f.endswith(".json")]
    ctx.check(js == [f"candidate_{k:04d}.json" for k in range(len(so))], "survivors-not-written", f"{js}")
    ctx.check([load_json(os.path.join(out, f)).params["snr"] for f in js] == so, "survivors-not-written")


def break_file(kind, path):
    dat = os.path.splitext(path)[0] + ".dat"
    if kind == "no-data":
        os.remove(dat)
    elif kind == "empty-data":
        open(dat, "wb").close()
    elif kind == "no-header":
        os.remove(path)
    elif kind == "empty-header":
        open(path, "w").close()
    elif kind == "garbage-header":
        with open(path, "wb") as f:
            f.write(bytes(range(32, 127)) * 20)
    elif kind == "truncated-header":
        with open(path) as f:
            s = f.read()
        with open(path, "w") as f:
            f.write("".join(s.splitlines(True)[:9]))
    elif kind == "directory":
        os.remove(dat)
        os.makedirs(dat)


KINDS = ["no-data", "empty-data", "no-header", "empty-header", "garbage-header", "truncated-header", "directory"]


@family("file", quick=28, thorough=200, timeout=250)
def file(ctx):
    """One bad input file at every position."""
    rng = ctx.rng
    kind = KINDS[ctx.index % len(KINDS)]
    nd = int(rng.integers(1, 6))
    procs = int(rng.integers(1, 5))
    ctx.p(kind=kind, nd=nd, procs=procs)
    for k in range(nd):
        d = os.path.join(ctx.scratch, f"k{k}")
        os.makedirs(d)
        ds = pipe.Dataset(d, rng, np.arange(nd) * 12.0, T=5.0, pulsars=[dict(amp=30.0, dm=12.0 * int(rng.integers(nd)), period=0.2)])
        break_file(kind, ds.files[12.0 * k])
        out = os.path.join(d, "out")
        os.makedirs(out)
        pl = Pipeline(gen.small_config(processes=procs))
        files = [ds.filelist()[i] for i in rng.permutation(nd)]
        try:
            pl.process(files, out)
        except Exception as e:
            ctx.count("file_faults")
            ctx.check(not pipe.listing(out), "products-of-incomplete-search", f"{kind}: {pipe.listing(out)[:5]} written although {e!r} was raised")
            continue
        ctx.fail("bad-file-ignored", f"{kind} at DM {12.0 * k} of {nd} trials, {procs} processes: no error; {len(pl.peaks)} peaks")


@family("write", quick=24, thorough=200, timeout=250)
def write(ctx):
    """Products that cannot be written, each in turn."""
    rng = ctx.rng
    ds = pipe.Dataset(ctx.scratch, rng, [0.0, 12.0], T=6.0)
    n = int(rng.integers(1, 5))
    procs = int(rng.integers(1, 4))
    peaks = [mkpeak(1 / gen.loguniform(rng, 0.06, 0.45), 8 + 3 * i + rng.random(), gen.pick(rng, ds.dms), 2, 0.05) for i in range(n)]
    pl = Pipeline(gen.small_config(processes=procs))
    pl.prepare(ds.filelist())
    pl.peaks = sorted(peaks, key=lambda p: p.period)
    pl.cluster_peaks()
    pl.flag_harmonics()
    pl.apply_candidate_filters()
    pl.build_candidates()
    n = len(pl.candidates)
    plot = ctx.index % 4 == 1
    pl.config["plot_candidates"] = plot
    ctx.p(n=n, procs=procs, P=[p.period for p in peaks], plot=plot)
    targets = ["peaks.csv", "clusters.csv", "candidates.csv"] + [f"candidate_{k:04d}.json" for k in range(n)]
    if plot:
        targets = [f"candidate_{k:04d}.png" for k in range(n)]
    for j, t in enumerate(targets + ["<missing>", "<file>"] * (not plot)):
        out = os.path.join(ctx.scratch, f"out{j}")
        if t == "<missing>":
            pass
        elif t == "<file>":
            open(out, "w").close()
        else:
            os.makedirs(os.path.join(out, t))     # a directory sits where the file must go
        try:
            pl.save_products(outdir=out)
        except Exception:
            ctx.count("write_faults")
            continue
        ctx.fail("write-failure-ignored", f"{t} could not be written, no error was raised")


@family("cli", quick=2, thorough=8, timeout=250)
def cli(ctx):
    """The command line program reports failure by its exit status, success by its products."""
    rng = ctx.rng
    ds = pipe.Dataset(ctx.scratch, rng, [0.0, 12.0, 24.0], T=6.0, pulsars=[dict(amp=30.0, dm=12.0, period=0.21)])
    conf = os.path.join(ctx.scratch, "c.yml")
    c = gen.small_config(processes=2)
    with open(conf, "w") as f:
        yaml.safe_dump(c, f)
    out = os.path.join(ctx.scratch, "out")
    os.makedirs(out)
    env = dict(os.environ, PYTHONPATH=os.environ["RV_TREE"])

    def run(out, files, conf=conf):
        return subprocess.run([sys.executable, "-W", "ignore", "-m", "riptide.pipeline.pipeline", "--config", conf, "--outdir", out] + files,
                              env=env, capture_output=True, text=True, timeout=200, cwd=ctx.scratch)
    ctx.p(i=ctx.index)
    r = run(out, ds.filelist())
    ctx.check(r.returncode == 0, "good-run-failed", r.stderr[-800:])
    ref = os.path.join(ctx.scratch, "ref")
    os.makedirs(ref)
    Pipeline(c).process(ds.filelist(), ref)
    a, b = canonical(out), canonical(ref)
    ctx.check(json.dumps(sorted(a)) == json.dumps(sorted(b)) and a == b and "candidates.csv" in a, "program-and-library-differ", f"{sorted(a)} {sorted(b)}")
    r = run(os.path.join(ctx.scratch, "nowhere"), ds.filelist())
    ctx.check(r.returncode != 0, "missing-outdir-accepted")
    break_file(gen.pick(rng, KINDS[:1] + KINDS[2:]), ds.files[12.0])
    out2 = os.path.join(ctx.scratch, "out2")
    os.makedirs(out2)
    r = run(out2, ds.filelist())
    ctx.check(r.returncode != 0 and not pipe.listing(out2), "failure-not-reported", f"status {r.returncode}, {pipe.listing(out2)}")
    with open(conf, "w") as f:
        yaml.safe_dump({**c, "processes": 0}, f)
    r = run(out2, ds.filelist())
    ctx.check(r.returncode != 0, "invalid-config-accepted")
    ctx.count("cli")
