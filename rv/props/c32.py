"""C32 repeated use accumulates neither memory, open files, figures nor processes."""
import ctypes
import gc
import glob
import json
import multiprocessing
import os
import sys
import threading
import time

import numpy as np
import matplotlib.pyplot as plt
import riptide.libcpp as libcpp
from riptide import (Candidate, Metadata, TimeSeries, boxcar_snr, downsample, fast_running_median, ffa1, ffa2, ffa_search, find_peaks, load_json,
                     running_median, save_json)
from riptide.clustering import cluster1d
from riptide.pipeline.dmiter import DMIterator
from riptide.pipeline.pipeline import Pipeline
from riptide.serialization import from_json, to_json

from rv import gen, pipe
from rv.core import Registry
from rv.props import c02

PROP = "C32"
LEVEL = "exploration"
RULE = ("A call is repeated in windows of equal numbers of repeats; bytes in use by the C heap (mallinfo2), Python blocks, reference counts of the "
        "arguments, open descriptors, open figures, threads and child processes are read after each window. A leak is growth in every one of the windows. "
        "Accepted and refused calls of every public function, readers, writers, plots and pipeline runs. A planted leak must be seen in each shard.")
MIN = {"windows": 2000, "calls": 20000, "refused_calls": 5000, "planted_leaks_seen": 20, "pipeline_runs": 8, "failed_pipeline_runs": 4}
ENV = {"MALLOC_ARENA_MAX": "2", "MALLOC_TRIM_THRESHOLD_": "100000000"}
family = Registry()


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = Mallinfo2
libc.malloc.restype = ctypes.c_void_p
libc.malloc.argtypes = [ctypes.c_size_t]


def heap():
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def fds():
    d = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            d[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return d


def state():
    gc.collect()
    return heap(), sys.getallocatedblocks(), len(fds()), len(plt.get_fignums()), threading.active_count(), len(multiprocessing.active_children())


NAMES = ("bytes of heap", "Python blocks", "descriptors", "figures", "threads", "child processes")
# growth per call that is not accumulation (free lists of the interpreter; the plotting library keeps a little for each figure)
SLACK = np.asarray([15, 0.8, 0, 0, 0, 0])
SLACK_PLOT = np.asarray([20000, 150, 0, 0, 0, 0])

SLACK_VARIED = np.asarray([150, 3, 0, 0, 0, 0])
VARIED_SLOW = ()


def growth(run, repeats, windows=6, warm=3, slack=SLACK):
    """Quantities that grew in every window (but one, that may contain a release of something else), with the growth per window."""
    for _ in range(warm):
        run()
    s = [state()]
    for _ in range(windows):
        for _ in range(repeats):
            run()
        s.append(state())
    d = np.diff(np.asarray(s, dtype=np.int64), axis=0)[1:]   # the first window may still be served from what was free
    return {n: d[:, k].tolist() for k, n in enumerate(NAMES) if np.sort(d[:, k])[1] > slack[k] * repeats}


def judge(ctx, what, run, repeats, refuse=(), **kw):
    if refuse:
        call = run

        def run():
            try:
                call()
            except refuse:
                return
            ctx.count("accepted_after_all")
    g = growth(run, repeats, **kw)
    for more in (4, 16):   # again: what is a cache or free list that fills up comes to an end
        if g:
            ctx.count("second_looks")
            g2 = growth(run, more * repeats, warm=30, **kw)
            g = {k: g2[k] for k in g if k in g2}
    ctx.check(not g, "accumulates", f"{repeats} x {what}: growth in every window: {g}")
    w = kw.get("windows", 6)
    ctx.count("windows", w)
    ctx.count("calls", w * repeats)
    if refuse:
        ctx.count("refused_calls", w * repeats)


OPS = [k for k in sorted(c02.OPS) if k not in ("big", "edges")]


@family("calls", quick=110, thorough=2500, timeout=120)
def calls(ctx):
    rng = ctx.rng
    op = gen.pick(rng, OPS)
    ctx.p(op=op, k=int(rng.integers(2**31)))
    args, run = c02.OPS[op](rng)
    t = time.time()
    run()
    t = time.time() - t
    repeats = int(np.clip(0.25 / max(t, 1e-5), 4, 40))
    before = [sys.getrefcount(a) for a in args]
    judge(ctx, op, run, repeats)
    gc.collect()
    ctx.check([sys.getrefcount(a) for a in args] == before, "argument-kept", f"{op}: references to the arguments went from {before} to {[sys.getrefcount(a) for a in args]}")


@family("varied", quick=80, thorough=1500, timeout=120)
def varied(ctx):
    """As calls, with other arguments in each call: no table of everything ever seen is kept."""
    rng = ctx.rng
    op = gen.pick(rng, [k for k in OPS if k not in VARIED_SLOW])
    ctx.p(op=op, k=int(rng.integers(2**31)))
    t = time.time()
    c02.OPS[op](rng)[1]()
    t = time.time() - t
    judge(ctx, "varied " + op, lambda: c02.OPS[op](rng)[1](), int(np.clip(0.25 / max(t, 1e-5), 6, 40)), slack=SLACK_VARIED)


@family("planted", quick=30, thorough=100, timeout=60)
def planted(ctx):
    """Is the meter alive: leaks of a few bytes per call, of objects and of descriptors must be seen."""
    rng = ctx.rng
    kind = gen.pick(rng, ["heap", "object", "descriptor", "figure"])
    ctx.p(kind=kind, k=int(rng.integers(2**31)))
    x = gen.noise(rng, 3000)
    hold, size = [], gen.logint(rng, 16, 100000)

    def run():
        ffa1(x, 30)
        if kind == "heap":
            libc.malloc(size)
        elif kind == "object":
            hold.append(object())
        elif kind == "descriptor":
            hold.append(os.open("/dev/null", os.O_RDONLY))
        else:
            hold.append(plt.figure())
    g = growth(run, 8 if kind != "figure" else 2, windows=5, slack=SLACK if kind != "figure" else SLACK_PLOT)
    want = {"heap": "bytes of heap", "object": "Python blocks", "descriptor": "descriptors", "figure": "figures"}[kind]
    if kind == "descriptor":
        for f in hold:
            os.close(f)
    plt.close("all")
    ctx.check(want in g, "meter-dead", f"a planted leak of a {kind} was not seen: {g}")
    ctx.count("planted_leaks_seen")


def refusals(rng, scratch):
    """{name: call that raises}"""
    m, b = gen.logint(rng, 2, 60), gen.logint(rng, 4, 200)
    x = gen.noise(rng, m * b)
    x2 = x.reshape(m, b)
    w = np.asarray([1, 2], dtype=np.uint64)
    wbig = np.asarray([1, b], dtype=np.uint64)
    ts = TimeSeries(x, 1e-3)
    n = x.size
    out = {
        "ffa2-1d": lambda: ffa2(x), "ffa2-3d": lambda: ffa2(x.reshape(m, b, 1)), "ffa2-T": lambda: libcpp.ffa2(x2.T), "ffa2-str": lambda: ffa2(np.asarray([["a"]])),
        "ffa1-p": lambda: ffa1(x, n + 1), "ffa1-2d": lambda: ffa1(x2, 1), "ffa1-0": lambda: ffa1(x, 0),
        "snr-wide": lambda: boxcar_snr(x2, wbig), "snr-std": lambda: boxcar_snr(x2, w, stdnoise=-1.0), "snr-zero": lambda: boxcar_snr(x2, [0, 1]),
        "snr1-wide": lambda: libcpp.snr1(x2[0], wbig, 1.0), "snr2-dim": lambda: libcpp.snr2(x, w, 1.0),
        "down-low": lambda: downsample(x, 1.0), "down-high": lambda: downsample(x, n + 1.0), "down-nan": lambda: downsample(x, float("nan")), "down-2d": lambda: downsample(x2, 2.0),
        "rmed-even": lambda: running_median(x, 2), "rmed-wide": lambda: running_median(x, 2 * n + 1), "frmed-min": lambda: fast_running_median(x, 3, 2), "rmed-2d": lambda: libcpp.running_median(x2, 3),
        "psum-2d": lambda: libcpp.circular_prefix_sum(x2, 3), "psum-0": lambda: libcpp.circular_prefix_sum(x[:0], 3), "psum-neg": lambda: libcpp.circular_prefix_sum(x, -1),
        "fra-size": lambda: libcpp.fused_rollback_add(x, x[1:], 1), "roll-2d": lambda: libcpp.rollback(x2, 1),
        "pg-order": lambda: libcpp.periodogram(x, 1.0, w, b * 2.0, b * 1.0, b, b + 1), "pg-short": lambda: libcpp.periodogram(x, 1.0, w, b * 1.0, n * 9.0, b, b + 1),
        "pg-wide": lambda: libcpp.periodogram(x, 1.0, wbig, b * 1.0, b * 1.5, b, b + 1), "pg-bins": lambda: libcpp.periodogram(x, 1.0, w, b * 1.0, b * 1.5, b + 1, b),
        "pg-coarse": lambda: libcpp.periodogram(x, 1.0, w, b * 0.5, b * 1.5, b, b + 1), "pg-2d": lambda: libcpp.periodogram(x2, 1.0, w, b * 1.0, b * 1.5, b, b + 1),
        "search-long": lambda: ffa_search(ts, period_min=0.001 * b, period_max=1.0 * n, bins_min=b, bins_max=b + 1, deredden=False),
        "search-bins": lambda: ffa_search(ts, period_min=0.0005 * b, period_max=0.002 * b, bins_min=b, bins_max=b + 1, deredden=False),
        "fold-bins": lambda: ts.fold(0.001, 64), "fold-long": lambda: ts.fold(n * 1.0, 64), "fold-subints": lambda: ts.fold(0.001 * b, 2, subints=10 * n),
        "ts-2d": lambda: TimeSeries(x2, 1e-3), "ts-tsamp": lambda: TimeSeries(x, -1.0), "ts-zero": lambda: TimeSeries(np.zeros(50, dtype=np.float32), 1e-3).normalise(),
        "ts-down": lambda: ts.downsample(0.5), "meta": lambda: Metadata({"dm": "high", "fname": 3, "mjd": []}),
        "json-bad": lambda: from_json('{"a": [1, 2'), "json-none": lambda: from_json(""),
    }
    p = os.path.join(scratch, "bad")
    good = gen.inf_text(gen.radio_inf(nsamp=n))
    sig = gen.sig_header(dict(source_name="x", nbits=32, tsamp=1e-3, nchans=1, refdm=1.0), gen.SIG_TYPES)
    cut = int(rng.integers(1, len(good) // 2))
    scut = int(rng.integers(1, len(sig) - 1))
    with open(p + "1.inf", "w") as f:
        f.write(good[:cut])
    with open(p + "2.inf", "w") as f:
        f.write(good)   # without data
    with open(p + "1.tim", "wb") as f:
        f.write(sig[:scut])
    with open(p + "2.tim", "wb") as f:
        f.write(gen.sig_header(dict(source_name="x", nbits=16, tsamp=1e-3, nchans=1, refdm=1.0), gen.SIG_TYPES) + x.tobytes())
    with open(p + ".json", "w") as f:
        f.write(to_json(ts)[:-int(rng.integers(1, 30))])
    with open(p + ".npy", "wb") as f:
        f.write(b"\x93NUMPY\x01\x00garbage")
    conf = gen.small_config()
    conf["ranges"][0]["ffa_search"]["period_min"] = -1.0
    ymlbad = os.path.join(scratch, "bad.yml")
    with open(ymlbad, "w") as f:
        f.write(json.dumps(conf))
    out.update({
        "inf-cut": lambda: TimeSeries.from_presto_inf(p + "1.inf"), "inf-nodata": lambda: TimeSeries.from_presto_inf(p + "2.inf"), "inf-missing": lambda: TimeSeries.from_presto_inf(p + "3.inf"),
        "tim-cut": lambda: TimeSeries.from_sigproc(p + "1.tim"), "tim-16bit": lambda: TimeSeries.from_sigproc(p + "2.tim"), "tim-missing": lambda: TimeSeries.from_sigproc(p + "3.tim"),
        "json-cut": lambda: load_json(p + ".json"), "json-missing": lambda: load_json(p + "x.json"), "npy-bad": lambda: TimeSeries.from_npy_file(p + ".npy", 1e-3),
        "bin-missing": lambda: TimeSeries.from_binary(p + ".none", 1e-3), "save-dir": lambda: save_json(os.path.join(scratch, "no", "x.json"), ts),
        "save-type": lambda: save_json(os.path.join(scratch, "x.json"), {"a": lambda: 0}),
        "dmiter": lambda: DMIterator([p + "1.inf"], 0.0, 1.0, fmt="presto"), "dmiter-none": lambda: DMIterator([], 0.0, 1.0, fmt="presto"),
        "config": lambda: Pipeline(conf), "yaml": lambda: Pipeline.from_yaml_config(ymlbad),
    })
    return out


REFUSED = (ValueError, TypeError, IndexError, RuntimeError, OSError, KeyError, EOFError, OverflowError, ArithmeticError, AttributeError, UnicodeError, MemoryError, AssertionError)
try:
    import schema
    REFUSED += (schema.SchemaError,)
except ImportError:
    pass


@family("refusals", quick=150, thorough=3000, timeout=120)
def refused(ctx):
    """Calls that raise leave nothing behind either."""
    rng = ctx.rng
    calls_ = refusals(rng, ctx.scratch)
    names = [sorted(calls_)[i] for i in rng.permutation(len(calls_))[:3]]
    ctx.p(names=names, k=int(rng.integers(2**31)))
    for n in names:
        judge(ctx, "refused " + n, calls_[n], 20, refuse=REFUSED + (Exception,))


def candidate(rng):
    n = 4000
    x = gen.noise(rng, n)
    from riptide.peak_detection import Peak
    import pandas
    sub = gen.noise(rng, 8 * 32).reshape(8, 32)
    peaks = pandas.DataFrame({"period": [1.0, 1.1], "freq": [1.0, 0.9], "width": [1, 2], "ducy": [0.1, 0.2], "iw": [0, 1], "ip": [3, 4], "snr": [8.0, 9.0], "dm": [1.0, 2.0]})
    ts = TimeSeries(x, 1e-3, metadata={"dm": 2.0, "source_name": "x", "mjd": 59000.0})
    return Candidate(dict(period=1.0, freq=1.0, dm=2.0, width=1, ducy=0.1, snr=9.0), ts.metadata, peaks, sub), ts


@family("files", quick=60, thorough=800, timeout=200)
def files(ctx):
    """Readers, writers and plots."""
    rng = ctx.rng
    d = ctx.scratch
    n = gen.logint(rng, 100, 200000)
    x = gen.noise(rng, n)
    kind = gen.pick(rng, ["presto", "sigproc", "npy", "bin", "json", "json-cand", "savefig", "savefig", "dmiter", "yaml", "pgplot"])
    ctx.p(kind=kind, n=n, k=int(rng.integers(2**31)))
    reps = 10
    if kind == "presto":
        p = gen.write_presto(d, "a", x, 1e-3, 5.0)
        run = lambda: TimeSeries.from_presto_inf(p)
    elif kind == "sigproc":
        p = gen.write_sigproc(os.path.join(d, "a.tim"), x, 1e-3, 5.0)
        run = lambda: TimeSeries.from_sigproc(p)
    elif kind == "npy":
        p = os.path.join(d, "a.npy")
        np.save(p, x)
        run = lambda: TimeSeries.from_npy_file(p, 1e-3)
    elif kind == "bin":
        p = os.path.join(d, "a.bin")
        x.tofile(p)
        run = lambda: TimeSeries.from_binary(p, 1e-3)
    elif kind == "json":
        ts = TimeSeries(x, 1e-3, metadata={"dm": 1.0})
        p = os.path.join(d, "a.json")
        run = lambda: (save_json(p, ts), load_json(p))
    elif kind == "json-cand":
        c, _ = candidate(rng)
        p = os.path.join(d, "a.json")
        run = lambda: (save_json(p, c), load_json(p))
    elif kind == "savefig":
        c, _ = candidate(rng)
        p = os.path.join(d, "a.png")
        run = lambda: c.savefig(p, figsize=(6, 2), dpi=30)
        reps = 2
    elif kind == "pgplot":
        _, pg = ffa_search(TimeSeries(gen.noise(rng, 3000), 1e-3), period_min=0.03, period_max=0.06, bins_min=24, bins_max=26, deredden=False)

        def run():
            fig = plt.figure(figsize=(4, 2), dpi=30)
            pg.plot()
            plt.close(fig)
        reps = 2
    elif kind == "dmiter":
        fs = pipe.inf_only(d, [0.0, 1.0, 2.0, 5.0])
        run = lambda: list(DMIterator(fs, 0.0, 4.0, dmsinb_max=45.0, fmt="presto", wmin=1e-2).iterate_filenames(2))
    else:
        import yaml
        p = os.path.join(d, "a.yml")
        with open(p, "w") as f:
            yaml.safe_dump(gen.small_config(), f)
        run = lambda: Pipeline.from_yaml_config(p)
    n0 = plt.get_fignums()
    run()
    ctx.check(plt.get_fignums() == n0, "figures-left", f"{kind}: figures {n0} became {plt.get_fignums()}")
    judge(ctx, kind, run, reps, **(dict(windows=5, slack=SLACK_PLOT) if reps == 2 else {}))
    plt.close("all")


def children():
    out = []
    for p in glob.glob("/proc/self/task/*/children"):
        with open(p) as f:
            out += f.read().split()
    return out


@family("pipeline", quick=16, thorough=200, timeout=400)
def pipeline(ctx):
    """Runs of the pipeline, also failing ones: afterwards no process, thread, figure or descriptor of theirs remains, and the object keeps no trial."""
    rng = ctx.rng
    dms = list(np.arange(int(rng.integers(2, 6))) * 2.0)
    procs = int(rng.integers(1, 4))
    fail = bool(rng.random() < 0.5)
    plot = bool(rng.random() < 0.4)
    ctx.p(n=len(dms), processes=procs, fail=fail, plot=plot, k=int(rng.integers(2**31)))
    ds = pipe.Dataset(ctx.scratch, rng, dms, T=30.0, tsamp=1e-3, pulsars=[dict(period=0.11, dm=dms[1], amp=40.0)])
    out = os.path.join(ctx.scratch, "out")
    os.makedirs(out)
    conf = gen.small_config(ranges=[gen.small_range(pmin=0.08, pmax=0.15)], processes=procs, plot_candidates=plot)
    conf["dmselect"].update(min=None, max=None)
    bad = None
    if fail:
        bad = gen.pick(rng, ["nodata", "outdir", "short"])
        f = ds.filelist()[int(rng.integers(len(dms)))]
        if bad == "nodata":
            os.remove(f[:-4] + ".dat")
        elif bad == "short":
            with open(f[:-4] + ".dat", "r+b") as g:
                g.truncate(400)
        else:
            os.rmdir(out)
    ctx.p(bad=bad)
    res = []

    def run():
        pl = Pipeline(conf)
        try:
            with pipe.quiet():
                pl.process(ds.filelist(), out)
        except Exception as e:
            if not fail:
                raise
            res.append(type(e).__name__)
            return None
        ctx.count("pipeline_runs")
        return pl
    for k in range(3):
        h0 = state()
        pl = run()
        ctx.count("failed_pipeline_runs", len(res))
        del res[:]
        t = time.time()
        while time.time() - t < 20 and (gc.collect() or multiprocessing.active_children() or children()):
            time.sleep(0.05)
        h1 = state()
        ctx.check(not multiprocessing.active_children() and not children(), "processes-left", f"child processes alive after the run ({bad}): {multiprocessing.active_children()} {children()}")
        if k:   # the first run loads modules, fonts and so on
            ctx.check(h1[2] <= h0[2], "descriptors-left", f"{h0[2]} descriptors before the run, {h1[2]} after: {fds()}")
            ctx.check(h1[3] <= h0[3], "figures-left", f"{h0[3]} figures before the run, {h1[3]} after")
            ctx.check(h1[4] <= h0[4], "threads-left", f"{h0[4]} threads before the run, {h1[4]} after: {threading.enumerate()}")
            if not plot:
                ctx.check(h1[0] - h0[0] < 100000, "memory-kept", f"{h1[0] - h0[0]} bytes more in use after the run, one trial being {4 * ds.n} bytes")
        del pl
        ctx.count("windows")
