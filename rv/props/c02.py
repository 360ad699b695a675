"""C02 results are a pure function of the arguments."""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np
import riptide.libcpp as libcpp
from riptide import (TimeSeries, boxcar_snr, downsample, fast_running_median, ffa1, ffa2, ffa_search, find_peaks, generate_signal,
                     running_median)
from riptide.ffautils import generate_width_trials
from riptide.clustering import cluster1d
from riptide.serialization import from_json, to_json

from rv import gen
from rv.core import Ctx, Registry, jsonable

PROP = "C02"
LEVEL = "exploration"
RULE = ("Each random call is made several times in one process (with poisoned heap blocks freed in between and other calls "
        "interleaved) and again in a second process whose allocator fills memory with a different pattern; all outputs must be "
        "bit-identical, finite, and no argument may change. Distinct by call and arguments.")
MIN = {"repeats": 3000, "cross_process": 1000, "arguments_checked": 3000, "views_equal": 4000, "mutations": 600, "addresses_reused": 100, "threaded_calls": 3000, "environments": 500, "objects_intact": 2000}
ENV = {"MALLOC_PERTURB_": "0"}
family = Registry()


def digest(outs):
    h = hashlib.sha1()
    for o in outs:
        if isinstance(o, np.ndarray):
            h.update(str((o.dtype, o.shape)).encode() + np.ascontiguousarray(o).tobytes())
        else:
            h.update(repr(o).encode())
    return h.hexdigest()


# every op: rng -> (args to protect, thunk)
def op_ffa(rng):
    m, p = gen.logint(rng, 1, 200), gen.logint(rng, 1, 200)
    x = gen.noise(rng, m * p).reshape(m, p)
    return [x], lambda: [ffa2(x)]


def op_ffa1(rng):
    n = gen.logint(rng, 10, 20000)
    x = gen.noise(rng, n)
    p = int(rng.integers(1, n + 1))
    return [x], lambda: [ffa1(x, p)]


def op_snr(rng):
    m, b = gen.logint(rng, 1, 50), gen.logint(rng, 2, 300)
    x = gen.noise(rng, m * b).reshape(m, b)
    w = np.unique(rng.integers(1, b, 4)).astype(np.uint64)
    return [x, w], lambda: [boxcar_snr(x, w), libcpp.snr1(x[0], w, 1.5)]


def op_down(rng):
    n = gen.logint(rng, 10, 20000)
    x = gen.noise(rng, n)
    f = gen.pick(rng, [gen.loguniform(rng, 1.001, n), float(n), 2.0, n / 7.0 if n > 7 else 2.0])
    return [x], lambda: [downsample(x, f)]


def op_rmed(rng):
    n = gen.logint(rng, 10, 600)
    x = gen.noise(rng, n)
    w = int(rng.integers(0, (n - 1) // 2)) * 2 + 1
    return [x], lambda: [running_median(x, w), fast_running_median(x, max(1, w // 3), 3)]


def op_prefix(rng):
    n = gen.logint(rng, 1, 500)
    x = gen.noise(rng, n)
    k = int(rng.integers(1, 4 * n))
    return [x], lambda: [libcpp.circular_prefix_sum(x, k), libcpp.rollback(x, k), libcpp.fused_rollback_add(x, x[::-1].copy(), k)]


def op_pgram(rng):
    b = int(rng.integers(4, 60))
    b2 = b + int(rng.integers(0, 8))
    f = gen.pick(rng, [1.0, 2.0, gen.loguniform(rng, 1, 6)])
    n = int(b * f * gen.loguniform(rng, 3, 60)) + 3
    x = gen.noise(rng, n)
    pmin = f * b
    w = np.asarray([1, max(1, b // 3)], dtype=np.uint64)
    args = (x, 1.0, w, pmin, pmin * gen.loguniform(rng, 1.1, 8), b, b2)
    return [x, w], lambda: list(libcpp.periodogram(*args))


def op_search(rng):
    b = int(rng.integers(16, 40))
    n = int(b * gen.loguniform(rng, 20, 100))
    x = gen.noise(rng, n) + 4 * ((np.arange(n) % (b * 1.37)) < 2)
    x = x.astype(np.float32)
    ts = TimeSeries(x, 1e-3, metadata={"dm": 3.0})
    w = float(rng.uniform(0.02, 0.3)) * ts.length

    def run():
        a, pg = ffa_search(ts, period_min=b * 1.1e-3, period_max=b * 4e-3, bins_min=b, bins_max=b + 4, rmed_width=w, rmed_minpts=11)
        peaks, polys = find_peaks(pg, smin=4.5, nstd=4.0)
        return [a.data, pg.periods, pg.foldbins, pg.snrs, pg.widths, [tuple(p) for p in peaks], [np.asarray(v).tolist() for v in polys.values()],
                ts.fold(b * 1.37e-3, 16, subints=3), to_json(pg)]
    return [x], run


def op_series(rng):
    n = gen.logint(rng, 300, 5000)
    x = gen.noise(rng, n) + 5
    ts = TimeSeries(x, 1e-3)
    f = float(rng.uniform(1.1, 5))
    w = float(rng.uniform(0.05, 0.4)) * ts.length

    def run():
        return [ts.normalise().data, ts.deredden(w, minpts=11).data, ts.downsample(f).data, ts.downsample(f).tsamp,
                ts.copy().data, from_json(to_json(ts)).data, dict(ts.metadata)]
    return [ts.data], run


def op_cluster(rng):
    n = gen.logint(rng, 1, 300)
    x = rng.uniform(0, 10, n)
    if rng.random() < 0.4:
        x = np.round(x, 1)
    r = float(rng.uniform(0, 0.3))
    return [x], lambda: [np.concatenate([np.sort(c) for c in cluster1d(x, r)]), sorted(len(c) for c in cluster1d(x, r))]


def op_generate(rng):
    n = gen.logint(rng, 50, 5000)
    s = int(rng.integers(2**31))
    per = float(rng.uniform(5, n))

    def run():
        np.random.seed(s)
        return [generate_signal(n, per, stdnoise=1.0), generate_signal(n, per, stdnoise=0.0)]
    return [], run


def op_edges(rng):
    """Options at, or a hair beyond, the limits of their range."""
    b = int(rng.integers(4, 60))
    m = int(rng.integers(2, 40))
    n = b * m + int(gen.pick(rng, [0, 0, 1, b - 1]))
    dt = float(gen.pick(rng, [1e-3, 0.25, 1.0, 6.4e-5]))
    x = gen.noise(rng, n)
    ts = TimeSeries(x, dt)
    hair = [1 + 2.0**-k for k in (51, 48, 40, 30, 27, 24, 20, 17)]
    fs = [float(h) for h in rng.permutation(hair)[:4]] + [float(n), float(np.nextafter(n, 0)), 2.0, 2 * float(hair[0])]
    w = np.asarray([1, b - 1], dtype=np.uint64)

    def run():
        out = []
        for f in fs:
            out += [downsample(x, f), ts.downsample(f).data]
            for sub in (None, 1, 2, m):
                try:
                    out.append(ts.fold(f * b * dt, b, subints=sub))
                except (ValueError, IndexError):
                    out.append(0)
            try:
                out += list(libcpp.periodogram(x, 1.0, w, f * b, f * b * 1.3, b, b + 1))
            except (ValueError, IndexError):
                out.append(0)
        out += [fast_running_median(x, k, 3) for k in (1, 3, 5, 6)] + [ffa1(x, n), ffa1(x, 1), running_median(x, 1), boxcar_snr(x, w)]
        for kw in (dict(), dict(already_normalised=True)):
            try:
                a, pg = ffa_search(ts, period_min=b * dt * hair[0], period_max=b * dt * 1.5, bins_min=b, bins_max=b, deredden=False, **kw)
                out += [a.data.copy(), pg.snrs, pg.periods]   # may be the very series given
            except (ValueError, IndexError):   # no trial
                out.append(0)
        return out
    return [x, w], run


def op_big(rng):
    """Sizes for which an implementation may switch to another method."""
    n = int(gen.pick(rng, [300000, 1200000]))
    x = gen.noise(rng, n) + np.float32(1)
    T = 2.0 * n * 1e-3
    ts = TimeSeries(x, 1e-3)
    b = int(rng.integers(40, 60))
    f = np.linspace(2.0, 1.0, 120000)
    sn = gen.noise(rng, f.size * 2).reshape(-1, 2) + 3
    from riptide import Metadata, Periodogram
    pg0 = Periodogram(np.asarray([1, 2]), 1 / f, np.full(f.size, 100, dtype=np.uint32), sn, Metadata({"tobs": float(gen.pick(rng, [30.0, 100.0, 2000.0])), "dm": 1.0}))
    rows = sn.reshape(-1, 400)
    pts = rng.uniform(0, 1, 60000)
    w = np.asarray([1, 3, 5])

    def run():
        out = [ffa2(x[:300000].reshape(-1, 300)), ffa2(x[:300000].reshape(30, -1)), downsample(x, 3.7), downsample(x, 5000.5), fast_running_median(x, 30001, 101),
               ts.fold(0.0731, 64, subints=8), ts.fold(1.5, 1000, subints=None), ts.normalise().data, ts.deredden(4.0).data, ts.downsample(2.2).data, boxcar_snr(rows, w), boxcar_snr(rows[:1].repeat(2, 0), w),
               np.concatenate(cluster1d(pts, 1e-5)), libcpp.circular_prefix_sum(x, n + 5000)]
        a, pg = ffa_search(ts, period_min=0.1, period_max=0.14, bins_min=b, bins_max=b + 4, ducy_max=0.1)
        for q in (pg, pg0):
            peaks, polys = find_peaks(q, smin=4.0, nstd=2.0)
            out += [[tuple(k) for k in peaks], [np.asarray(v).tolist() for v in polys.values()]]
        return out + [a.data, pg.snrs]
    return [x, f, sn, pts], run


# families of calls that differ in one argument: {name: thunk}
def sib_search(rng):
    b = int(rng.integers(16, 60))
    n = int(b * gen.loguniform(rng, 20, 60))
    x = (gen.noise(rng, n) + 4 * ((np.arange(n) % (b * 1.37)) < 2)).astype(np.float32)
    ts = TimeSeries(x, 1e-3, metadata={"dm": 3.0})
    T = ts.length
    base = dict(period_min=b * 1.1e-3, period_max=b * 3e-3, bins_min=b, bins_max=b + 3, rmed_width=0.2 * T, rmed_minpts=11, fpmin=2,
                wtsp=1.5, ducy_max=0.2, deredden=True, already_normalised=False)
    alt = dict(period_min=b * 1.3e-3, period_max=b * 2.5e-3, bins_min=b + 1, bins_max=b + 4, rmed_width=0.1 * T, rmed_minpts=21,
               fpmin=int(n // (b * 2)), wtsp=1.2, ducy_max=0.4, deredden=False, already_normalised=True)

    def call(kw):
        def run():
            a, pg = ffa_search(ts, **kw)
            return [a.data.copy(), pg.periods, pg.foldbins, pg.snrs, pg.widths, pg.tobs, dict(pg.metadata)]
        return run
    return [x], {"base": call(base), **{k: call({**base, k: v}) for k, v in alt.items()}}


def sib_peaks(rng):
    b = int(rng.integers(16, 30))
    n = int(b * gen.loguniform(rng, 60, 150))
    x = (gen.noise(rng, n) + 4 * ((np.arange(n) % (b * 1.37)) < 2)).astype(np.float32)
    _, pg = ffa_search(TimeSeries(x, 1e-3), period_min=b * 1.1e-3, period_max=b * 4e-3, bins_min=b, bins_max=b + 4, deredden=False)
    base = dict(smin=4.0, segwidth=5.0, nstd=4.0, minseg=6, polydeg=2, clrad=0.1)
    alt = dict(smin=5.0, segwidth=9.0, nstd=2.5, minseg=1000, polydeg=1, clrad=1.0)

    def call(kw):
        def run():
            peaks, polys = find_peaks(pg, **kw)
            return [[tuple(p) for p in peaks], [np.asarray(v).tolist() for v in polys.values()]]
        return run
    return [x], {"base": call(base), **{k: call({**base, k: v}) for k, v in alt.items()}}


def sib_widths(rng):
    n = gen.logint(rng, 5, 1000)
    base = dict(nbins=n, ducy_max=float(rng.uniform(0.1, 0.3)), wtsp=float(rng.uniform(1.2, 2.0)))
    alt = dict(nbins=n + int(rng.integers(1, 30)), ducy_max=float(rng.uniform(0.3, 0.9)), wtsp=float(rng.uniform(1.05, 1.2)))
    def call(kw):
        return lambda: [generate_width_trials(**kw)]
    return [], {"base": call(base), **{k: call({**base, k: v}) for k, v in alt.items()}}


def sib_core(rng):
    m, b = gen.logint(rng, 2, 40), gen.logint(rng, 8, 100)
    x, y = gen.noise(rng, m * b), gen.noise(rng, m * b)
    w, w2 = np.asarray([1, b // 2], dtype=np.uint64), np.asarray([2, b - 1], dtype=np.uint64)
    f, f2 = float(rng.uniform(1.1, 2)), float(rng.uniform(2.1, 3))
    k = int(rng.integers(1, m * b))
    return [x, y, w, w2], {
        "ffa-x": lambda: [ffa2(x.reshape(m, b))], "ffa-y": lambda: [ffa2(y.reshape(m, b))], "ffa-T": lambda: [ffa2(x.reshape(b, m))],
        "snr-x": lambda: [boxcar_snr(x.reshape(m, b), w)], "snr-y": lambda: [boxcar_snr(y.reshape(m, b), w)],
        "snr-w": lambda: [boxcar_snr(x.reshape(m, b), w2)], "snr-std": lambda: [libcpp.snr2(x.reshape(m, b), w, 2.0)],
        "snr-std3": lambda: [libcpp.snr2(x.reshape(m, b), w, 3.0)],
        "down": lambda: [downsample(x, f)], "down-f": lambda: [downsample(x, f2)], "down-y": lambda: [downsample(y, f)],
        "med": lambda: [running_median(x, 3)], "med-5": lambda: [running_median(x, 5)], "med-y": lambda: [running_median(y, 3)],
        "fmed": lambda: [fast_running_median(x, 7, 3)], "fmed-w": lambda: [fast_running_median(x, 9, 3)],
        "fmed-m": lambda: [fast_running_median(x, 7, 5)],
        "psum": lambda: [libcpp.circular_prefix_sum(x, k)], "psum-y": lambda: [libcpp.circular_prefix_sum(y, k)],
        "var": lambda: [libcpp.downsampled_variance(m * b, f)] if hasattr(libcpp, "downsampled_variance") else [0],
    }


def sib_fold(rng):
    n = gen.logint(rng, 600, 6000)
    ts, ts2 = TimeSeries(gen.noise(rng, n), 1e-3), TimeSeries(gen.noise(rng, n), 1e-3)
    base = dict(period=float(rng.uniform(0.02, 0.05)), bins=16, subints=4)
    alt = dict(period=float(rng.uniform(0.05, 0.08)), bins=17, subints=3)
    w = 0.2 * ts.length

    def call(t, kw):
        return lambda: [t.fold(**kw)]
    return [ts.data, ts2.data], {
        "base": call(ts, base), "other": call(ts2, base), **{k: call(ts, {**base, k: v}) for k, v in alt.items()},
        "norm": lambda: [ts.normalise().data], "norm2": lambda: [ts2.normalise().data],
        "dered": lambda: [ts.deredden(w, minpts=11).data], "dered-w": lambda: [ts.deredden(w / 2, minpts=11).data],
        "dered-m": lambda: [ts.deredden(w, minpts=21).data], "dered2": lambda: [ts2.deredden(w, minpts=11).data],
        "down": lambda: [ts.downsample(2.5).data, ts.downsample(2.5).tsamp], "down-f": lambda: [ts.downsample(2.6).data],
        "json": lambda: [from_json(to_json(ts)).data], "json2": lambda: [from_json(to_json(ts2)).data],
    }


SIBS = {k[4:]: v for k, v in sorted(globals().items()) if k.startswith("sib_")}


def run_siblings(calls, names):
    return {k: digest(calls[k]()) for k in names}


OPS = {k[3:]: v for k, v in sorted(globals().items()) if k.startswith("op_")}


def build(seed, op, index):
    c = Ctx(PROP, op, index, seed, "x")
    return OPS[op](c.rng)


def worker():
    """second process: prints digests for requests read on stdin"""
    for line in sys.stdin:
        seed, op, index = json.loads(line)
        try:
            if op.startswith("sib-"):
                calls = SIBS[op[4:]](Ctx(PROP, op, index, seed, "x").rng)[1]
                d = run_siblings(calls, sorted(calls, reverse=True))
            else:
                _, run = build(seed, op, index)
                d = digest(run())
        except Exception as e:
            d = f"{type(e).__name__}: {e}"
        sys.stdout.write("DIGEST " + json.dumps(d) + "\n")
        sys.stdout.flush()


_child = None


def ask(seed, op, index):
    global _child
    if _child is None:
        env = dict(os.environ, MALLOC_PERTURB_="93")
        code = ("import sys, logging, warnings; logging.disable(50); warnings.simplefilter('ignore')\n"
                "from rv import core; core.import_riptide(sys.argv[1])\nfrom rv.props import c02; c02.worker()")
        _child = subprocess.Popen([sys.executable, "-c", code, os.environ["RV_TREE"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env, text=True, bufsize=1)
    _child.stdin.write(json.dumps([seed, op, index]) + "\n")
    _child.stdin.flush()
    while True:
        line = _child.stdout.readline()
        if not line:
            _child = None
            return "worker process died"
        if line.startswith("DIGEST "):
            return json.loads(line[7:])


def poison(rng, outs):
    """free blocks of the sizes just used, filled with garbage"""
    blocks = []
    for o in outs:
        if isinstance(o, np.ndarray) and o.size:
            for _ in range(3):
                blocks.append(np.full(o.shape, np.nan if o.dtype.kind == "f" else 77, dtype=o.dtype))
    blocks += [np.full(int(rng.integers(10, 40000)), 1e30, dtype=np.float32) for _ in range(4)]
    del blocks


def case(ctx, op):
    args, run = build(ctx.seed, op, ctx.index)
    ctx.p(op=op, shapes=[list(a.shape) for a in args], sum=float(sum(a.astype(float).sum() for a in args)))
    keep = [a.copy() for a in args]
    a = run()
    d0 = digest(a)
    for o in a:
        if isinstance(o, np.ndarray) and o.dtype.kind == "f":
            ctx.check(np.all(np.isfinite(o)), f"{op}:not-finite", "finite input gave non-finite output")
    poison(ctx.rng, a)
    # state that is not an argument
    np.random.seed(int(ctx.rng.integers(2**31)))
    random.seed(int(ctx.rng.integers(2**31)))
    b0 = run()
    ctx.check(digest(b0) == d0, f"{op}:not-repeatable", "same call, same process, different result")
    for k, v in zip(keep, args):
        ctx.check(np.array_equal(k, v), f"{op}:argument-modified", "an argument was modified")
        ctx.count("arguments_checked")
    # what the caller does with a result has no influence on later calls
    for o in b0:
        if isinstance(o, np.ndarray) and o.flags.writeable:
            o.fill(77 if o.dtype.kind in "iu" else np.nan if o.dtype.kind == "f" else 0)
            ctx.count("results_scribbled")
    for _ in range(2):
        # another, unrelated call in between (hidden state)
        other = gen.pick(ctx.rng, sorted(set(OPS) - {"big"}))
        build(ctx.seed + 1, other, ctx.index)[1]()
        b = run()
        ctx.check(digest(b) == d0, f"{op}:not-repeatable", "same call, same process, different result")
        ctx.count("repeats")
        poison(ctx.rng, b)
    # a fresh copy of the arguments at other addresses
    _, run2 = build(ctx.seed, op, ctx.index)
    ctx.check(digest(run2()) == d0, f"{op}:depends-on-address", "same values in other arrays, different result")
    # the first result must not have been overwritten by later calls
    ctx.check(digest(a) == d0, f"{op}:result-overwritten", "an already returned result changed")
    d1 = ask(ctx.seed, op, ctx.index)
    ctx.check(d1 == d0, f"{op}:depends-on-memory-contents", f"other process: {d1}")
    ctx.count("cross_process")


for _op, _q in dict(ffa=300, ffa1=200, snr=300, down=300, rmed=200, prefix=300, pgram=300, search=120, series=200, cluster=200,
                    generate=120, edges=160, big=8).items():
    family(_op, quick=_q, thorough=_q * 15)(lambda ctx, _op=_op: case(ctx, _op))


def siblings(ctx, op):
    """Calls that differ in one argument only do not influence each other, whatever the order."""
    args, calls = SIBS[op](Ctx(PROP, ctx.family, ctx.index, ctx.seed, "x").rng)
    ctx.p(op=op, shapes=[list(a.shape) for a in args], sum=float(sum(a.astype(float).sum() for a in args)))
    keep = [a.copy() for a in args]
    names = sorted(calls)
    if not args:
        ctx.p(calls=[repr(c()[0].tolist()) for c in calls.values()])
    kept = {k: calls[k]() for k in names}
    first = {k: digest(kept[k]) for k in names}
    ctx.check(run_siblings(calls, names) == first, f"{op}:depends-on-history", "second round of the same calls differs")
    for k in ctx.rng.permutation(names):
        outs = calls[str(k)]()
        ctx.check(digest(outs) == first[k], f"{op}:depends-on-history", f"{k} after other calls")
        for o in outs:
            if isinstance(o, np.ndarray) and o.flags.writeable:
                o.fill(77 if o.dtype.kind in "iu" else np.nan if o.dtype.kind == "f" else 0)
        ctx.check(digest(calls[str(k)]()) == first[k], f"{op}:result-shared", f"{k} after its result was overwritten by the caller")
        ctx.count("repeats", 2)
    # results handed out first are still what they were
    over = [k for k in names if digest(kept[k]) != first[k]]
    ctx.check(not over, f"{op}:result-overwritten", f"already returned results changed: {over}")
    for k, v in zip(keep, args):
        ctx.check(np.array_equal(k, v), f"{op}:argument-modified", "an argument was modified")
        ctx.count("arguments_checked")
    other = ask(ctx.seed, "sib-" + op, ctx.index)
    ctx.check(isinstance(other, dict), f"{op}:second-process", f"{other}")
    diff = [k for k in names if other[k] != first[k]]
    ctx.check(not diff, f"{op}:depends-on-call-order", f"reverse order in another process: {diff} differ")
    ctx.count("cross_process")


for _op, _q in dict(search=150, peaks=100, widths=300, core=200, fold=150).items():
    family("sib-" + _op, quick=_q, thorough=_q * 15)(lambda ctx, _op=_op: siblings(ctx, _op))


def views(rng, x):
    """The same values in other memory layouts."""
    x = np.ascontiguousarray(x)
    big = np.full(tuple(2 * k + 1 for k in x.shape), 7, dtype=x.dtype)
    sl = tuple(slice(1, None, 2) for _ in x.shape)
    big[sl] = x
    out = {"strided": big[sl], "reversed": np.ascontiguousarray(x[..., ::-1])[..., ::-1], "offset": np.concatenate((x.ravel()[:1], x.ravel()))[1:].reshape(x.shape)}
    ro = x.copy()
    ro.flags.writeable = False
    out["readonly"] = ro
    if x.ndim > 1:
        out["fortran"] = np.asfortranarray(x)
        out["rows-reversed"] = x[::-1].copy()[::-1]
    b = np.zeros(x.nbytes + 1, dtype=np.uint8)[1:].view(x.dtype).reshape(x.shape)
    b[...] = x
    out["unaligned"] = b
    out["big-endian"] = x.astype(x.dtype.newbyteorder(">"))
    return out


def view_calls(rng):
    """{name: (function of the arrays, arrays)}"""
    m, b = gen.logint(rng, 2, 30), gen.logint(rng, 6, 80)
    x, y = gen.noise(rng, m * b), gen.noise(rng, m * b)
    X = x.reshape(m, b)
    w = rng.integers(1, b, int(rng.integers(1, 6))).astype(np.uint64)
    wi = w.astype(int)
    f = float(rng.uniform(1.1, 3))
    k = int(rng.integers(1, m * b))
    pmin = float(b)
    return {
        "ffa2": (ffa2, [X]), "libcpp.ffa2": (libcpp.ffa2, [X]), "ffa1": (lambda a: ffa1(a, b), [x]),
        "snr1": (lambda a, v: libcpp.snr1(a, v, 1.5), [x[:b], w]), "snr2": (lambda a, v: libcpp.snr2(a, v, 1.5), [X, w]),
        "boxcar_snr": (boxcar_snr, [X, wi]), "boxcar_snr1": (boxcar_snr, [x, w]), "downsample": (lambda a: downsample(a, f), [x]),
        "libcpp.downsample": (lambda a: libcpp.downsample(a, f), [x]),
        "running_median": (lambda a: running_median(a, 5), [x]), "libcpp.running_median": (lambda a: libcpp.running_median(a, 5), [x]),
        "fast_running_median": (lambda a: fast_running_median(a, 7, 3), [x]),
        "prefix": (lambda a: libcpp.circular_prefix_sum(a, k), [x]), "rollback": (lambda a: libcpp.rollback(a, k), [x]),
        "fused": (lambda a, c: libcpp.fused_rollback_add(a, c, k), [x, y]),
        "periodogram": (lambda a, v: libcpp.periodogram(a, 1.0, v, pmin, 2.5 * pmin, b, b + 3), [x, w]),
        "cluster1d": (lambda a: [np.sort(c) for c in cluster1d(a, 0.01)], [x.astype(float)]),
        "from_numpy_array": (lambda a: TimeSeries.from_numpy_array(a, 1e-3).data, [x]),
        "fold": (lambda a: TimeSeries.from_numpy_array(a, 1e-3).fold(b * 1.2e-3, b, subints=2), [gen.noise(rng, 4 * b)]),
        "search": (lambda a: ffa_search(TimeSeries.from_numpy_array(a, 1e-3), period_min=b * 1.01e-3, period_max=b * 2e-3, bins_min=b, bins_max=b + 2,
                                        rmed_width=0.02, rmed_minpts=5)[1].snrs, [gen.noise(rng, 4 * b)]),
    }


def flat(r):
    return list(r) if isinstance(r, (tuple, list)) else [r]


@family("views", quick=250, thorough=4000)
def layouts(ctx):
    """Only the values of an array argument count, not how it is laid out in memory: same result or refusal."""
    rng = ctx.rng
    calls = view_calls(rng)
    ctx.p(calls=sorted(calls), sizes=[list(a.shape) for _, v in calls.values() for a in v])
    for name, (fn, arrays) in calls.items():
        base = digest(flat(fn(*arrays)))
        for i, a in enumerate(arrays):
            for kind, v in views(rng, a).items():
                keep = v.copy()
                args = list(arrays)
                args[i] = v
                try:
                    r = fn(*args)
                except (ValueError, TypeError):
                    ctx.count("views_refused")
                    continue
                ctx.check(digest(flat(r)) == base, f"{name}:depends-on-layout", f"argument {i} {kind}, shape {a.shape}")
                ctx.check(np.array_equal(keep, v), f"{name}:argument-modified", f"argument {i} {kind}")
                ctx.count("views_equal")


@family("mutated", quick=250, thorough=3000)
def mutated(ctx):
    """An object that has been changed since the last call is treated like a new one with the same contents."""
    rng = ctx.rng
    b = int(rng.integers(16, 40))
    n = int(b * gen.loguniform(rng, 20, 80))
    ts = TimeSeries(gen.noise(rng, n) + np.float32(rng.uniform(-3, 3)), 1e-3, metadata={"dm": 3.0})
    ctx.p(b=b, n=n)
    hist = []

    def observe(t):
        w = 0.2 * t.length
        bm = b if t.tsamp < 1.5e-3 else max(4, b // 2)
        kw = dict(period_min=bm * 1.1 * t.tsamp, period_max=bm * 2.5 * t.tsamp, bins_min=bm, bins_max=bm + 3, rmed_width=w, rmed_minpts=11)
        fns = {
            "search": lambda: [ffa_search(t, **kw)[1].snrs], "search-flat": lambda: [ffa_search(t, deredden=False, already_normalised=True, **kw)[1].snrs],
            "fold": lambda: [t.fold(bm * 1.3 * t.tsamp, bm, subints=3)], "norm": lambda: [t.normalise().data, t.normalise().tsamp],
            "dered": lambda: [t.deredden(w, minpts=11).data], "down": lambda: [t.downsample(1.7).data, t.downsample(1.7).tsamp],
            "ffa1": lambda: [ffa1(t.data, bm)], "med": lambda: [running_median(t.data, 7)], "copy": lambda: [t.copy().data],
            "json": lambda: [from_json(to_json(t)).data, from_json(to_json(t)).tsamp], "props": lambda: [t.nsamp, t.length, t.tobs, t.tsamp]}
        return {k: digest(f()) for k, f in fns.items()}

    observe(ts)
    for _ in range(5):
        kind = gen.pick(rng, ["normalise", "deredden", "downsample", "sample", "all", "swap", "scale"])
        hist.append(kind)
        if kind == "normalise":
            ts.normalise(inplace=True)
        elif kind == "deredden":
            ts.deredden(float(rng.uniform(0.1, 0.4)) * ts.length, minpts=11, inplace=True)
        elif kind == "downsample":
            if ts.nsamp < 12 * b:
                continue
            ts.downsample(float(rng.uniform(1.01, 1.9)), inplace=True)
        elif kind == "sample":
            ts.data[int(rng.integers(ts.nsamp))] += np.float32(25)
        elif kind == "all":
            ts.data[:] = gen.noise(rng, ts.nsamp)
        elif kind == "swap":
            i, j = rng.integers(ts.nsamp, size=2)
            ts.data[[i, j]] = ts.data[[j, i]]      # same sum, same set of values
        else:
            ts.data[:] *= np.float32(rng.uniform(0.5, 2))
        fresh = TimeSeries(ts.data.copy(), float(ts.tsamp), metadata=dict(ts.metadata))
        a, c = observe(ts), observe(fresh)
        diff = sorted(k for k in c if a[k] != c[k])
        ctx.check(not diff, "mutated:stale-result", f"after {hist}: {diff} differ from those of an equal new object")
        ctx.count("mutations")
    # the same for plain arrays and periodograms
    x = gen.noise(rng, n)
    w = np.asarray([1, 3], dtype=np.uint64)
    m = n // b
    X = x[:m * b].reshape(m, b)
    fns = {"ffa2": lambda z: [ffa2(z[:m * b].reshape(m, b))], "snr": lambda z: [boxcar_snr(z[:m * b].reshape(m, b), w)],
           "down": lambda z: [downsample(z, 2.3)], "med": lambda z: [running_median(z, 5)], "fmed": lambda z: [fast_running_median(z, 9, 3)],
           "pgram": lambda z: list(libcpp.periodogram(z, 1.0, w, float(b), 2.0 * b, b, b + 2)), "cluster": lambda z: [np.sort(c) for c in cluster1d(z, 0.01)]}
    for f in fns.values():
        f(x)
    for _ in range(3):
        i, j = rng.integers(n, size=2)
        x[[i, j]] = x[[j, i]] + np.float32(gen.pick(rng, [0, 3]))
        for k, f in fns.items():
            ctx.check(digest(f(x)) == digest(f(x.copy())), f"mutated:stale-result:{k}", "array changed in place")
    _, pg = ffa_search(ts, period_min=b * 1.1 * ts.tsamp, period_max=b * 3 * ts.tsamp, bins_min=b, bins_max=b + 3, deredden=False)
    kw = dict(smin=3.0, nstd=3.0)
    find_peaks(pg, **kw)
    pg.snrs[int(rng.integers(len(pg.periods)))] += 20
    from riptide import Periodogram
    q = Periodogram(pg.widths.copy(), pg.periods.copy(), pg.foldbins.copy(), pg.snrs.copy(), dict(pg.metadata))
    ctx.check([tuple(p) for p in find_peaks(pg, **kw)[0]] == [tuple(p) for p in find_peaks(q, **kw)[0]], "mutated:stale-peaks", "periodogram changed in place")
    ctx.check(to_json(pg) == to_json(q), "mutated:stale-json")


@family("recycled", quick=60, thorough=800)
def recycled(ctx):
    """Short-lived objects: a new object at the address of a dead one is a new object."""
    rng = ctx.rng
    b = int(rng.integers(12, 24))
    n = int(b * gen.loguniform(rng, 15, 40))
    ctx.p(b=b, n=n)
    data = [gen.noise(rng, n) for _ in range(12)]
    w = 0.2 * n * 1e-3
    ops = {"search": lambda t: [ffa_search(t, period_min=b * 1.1e-3, period_max=b * 2e-3, bins_min=b, bins_max=b + 2, rmed_width=w, rmed_minpts=11)[1].snrs],
           "fold": lambda t: [t.fold(b * 1.3e-3, b, subints=2)], "norm": lambda t: [t.normalise().data],
           "dered": lambda t: [t.deredden(w, minpts=11).data], "down": lambda t: [t.downsample(1.6).data], "json": lambda t: [to_json(t)]}
    for name, op in ops.items():
        alive = [TimeSeries(x.copy(), 1e-3) for x in data]
        want = [digest(op(t)) for t in alive]
        seen = set()
        for i in list(range(len(data))) * 2:
            t = TimeSeries(data[i].copy(), 1e-3)
            seen.add((id(t), id(t.data)))
            ctx.check(digest(op(t)) == want[i], f"recycled:{name}", "result belongs to an earlier object")
            del t
        if len(seen) < 2 * len(data):
            ctx.count("addresses_reused")


@family("threads", quick=60, thorough=1000, timeout=200)
def threads(ctx):
    """Calls made at the same time from several threads give what they give one after the other."""
    import threading
    rng = ctx.rng
    names = [gen.pick(rng, [k for k in sorted(OPS) if k not in ("generate", "big", "edges")]) for _ in range(3)]
    jobs = []
    for k, op in enumerate(names):
        for j in range(2):   # the same function on different data
            jobs.append((op, OPS[op](Ctx(PROP, f"threads-{op}", ctx.index * 8 + j, ctx.seed, "x").rng)[1]))
    ctx.p(ops=names, index=ctx.index)
    want = [digest(f()) for _, f in jobs]
    bad, done = [], []
    start = threading.Barrier(4)

    def work(t):
        try:
            start.wait()
            for r in range(3):
                for i in np.random.default_rng([t, r]).permutation(len(jobs)):
                    if digest(jobs[i][1]()) != want[i]:
                        bad.append(jobs[i][0])
                    done.append(i)
        except Exception as e:
            bad.append(f"{type(e).__name__}: {e}")
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.check(not bad, "threads:different", f"calls in several threads: {sorted(set(bad))} differ from the same calls made alone")
    ctx.check(len(done) == 12 * len(jobs), "threads:lost", f"{len(done)} calls of {12 * len(jobs)} returned")
    ctx.count("threaded_calls", len(done))


libm = None


def environment(keep_random=True):
    """Settings of the process that belong to the caller."""
    import ctypes
    import decimal
    import locale
    import logging
    import signal
    import threading
    import warnings
    import matplotlib
    import pandas
    global libm
    libm = libm or ctypes.CDLL("libm.so.6")
    tiny = np.full(64, 1e-40, dtype=np.float32)
    out = {
        "np.geterr": repr(np.geterr()), "np.geterrcall": repr(np.geterrcall()), "cwd": os.getcwd(), "environ": repr(sorted(os.environ.items())), "umask": None,
        "warnings": repr([(f[0], str(f[1]), f[2], str(f[3]), f[4]) for f in warnings.filters]), "printoptions": repr(sorted(np.get_printoptions().items())),
        "recursion": sys.getrecursionlimit(), "switch": sys.getswitchinterval(), "locale": repr(locale.setlocale(locale.LC_ALL)), "decimal": repr(decimal.getcontext()),
        "signals": repr([str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGALRM, signal.SIGPIPE)]),
        "rounding": libm.fegetround(), "denormals": int(np.count_nonzero(tiny * np.float32(1))) + int((1e-310 * 1.0) != 0.0),
        "logging": repr((logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable)),
        "pandas": repr([pandas.get_option(o) for o in ("display.max_rows", "mode.chained_assignment", "display.precision")]),
        "rc": repr(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items())), "backend": matplotlib.get_backend(), "path": repr(sys.path), "hook": repr(sys.excepthook),
        "gc": repr(__import__("gc").get_threshold()) + repr(__import__("gc").isenabled()), "threads": threading.active_count(), "stdout": id(sys.stdout), "affinity": repr(sorted(os.sched_getaffinity(0))),
    }
    try:
        import threadpoolctl
        out["threadpools"] = repr(sorted((i["filepath"], i["num_threads"]) for i in threadpoolctl.threadpool_info()))
    except ImportError:
        pass
    if keep_random:
        out["np.random"] = hashlib.sha1(repr(np.random.get_state()).encode() + np.random.get_state()[1].tobytes()).hexdigest()
        out["random"] = hashlib.sha1(repr(random.getstate()).encode()).hexdigest()
    return out


def set_environment(rng):
    """A caller with settings of his own."""
    np.random.seed(int(rng.integers(2**31)))
    random.seed(int(rng.integers(2**31)))
    np.random.normal(size=int(rng.integers(1, 4)))     # a cached second gaussian, perhaps
    np.seterr(**{k: gen.pick(rng, ["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")})


@family("environment", quick=200, thorough=3000, timeout=120)
def settings(ctx):
    """Calls leave the settings of the process alone, and do not depend on them where they are none of their business."""
    rng = ctx.rng
    old = np.geterr()
    op = gen.pick(rng, [k for k in sorted(OPS) if k != "big"])
    ctx.p(op=op, index=ctx.index)
    args, run = OPS[op](rng)
    run()   # lazy imports
    environment()
    try:
        set_environment(rng)
        e0 = environment(op != "generate")
        d = digest(run())
        e1 = environment(op != "generate")
        diff = sorted(k for k in e0 if e0[k] != e1[k])
        ctx.check(not diff, "environment-modified", f"{op} changed {[(k, str(e0[k])[:200], str(e1[k])[:200]) for k in diff]}")
        set_environment(rng)
        ctx.check(digest(run()) == d, "environment-dependent", f"{op} gives another result with another random state or numpy error setting")
        ctx.count("environments")
    finally:
        np.seterr(**old)


@family("environment-io", quick=60, thorough=600, timeout=120)
def settings_io(ctx):
    """The same for readers, writers, the stages of the pipeline and refused calls."""
    from rv import pipe
    from rv.props import c32
    from riptide import load_json, save_json
    from riptide.pipeline.dmiter import DMIterator
    from riptide.pipeline.pipeline import Pipeline
    rng = ctx.rng
    d = ctx.scratch
    x = gen.noise(rng, gen.logint(rng, 100, 5000))
    inf, tim = gen.write_presto(d, "a", x, 1e-3, 5.0), gen.write_sigproc(os.path.join(d, "a.tim"), x, 1e-3, 5.0)
    np.save(os.path.join(d, "a.npy"), x)
    ds = pipe.Dataset(d, rng, [0.0, 2.0], T=20.0, tsamp=1e-3, pulsars=[dict(period=0.11, dm=2.0, amp=40.0)])
    out = os.path.join(d, "out")
    os.makedirs(out)
    cand, ts = c32.candidate(rng)
    conf = gen.small_config(ranges=[gen.small_range(pmin=0.08, pmax=0.15)], processes=int(rng.integers(1, 3)), plot_candidates=bool(rng.random() < 0.3))

    def pipeline():
        with pipe.quiet():
            Pipeline(conf).process(ds.filelist(), out)

    fns = {"presto": lambda: TimeSeries.from_presto_inf(inf), "sigproc": lambda: TimeSeries.from_sigproc(tim), "npy": lambda: TimeSeries.from_npy_file(os.path.join(d, "a.npy"), 1e-3),
           "json": lambda: (save_json(os.path.join(d, "a.json"), cand), load_json(os.path.join(d, "a.json"))), "savefig": lambda: cand.savefig(os.path.join(d, "a.png"), dpi=20),
           "dmiter": lambda: list(DMIterator([inf], 0.0, 9.0, fmt="presto", wmin=1e-3).iterate_filenames(1)), "pipeline": pipeline}
    bad = c32.refusals(rng, d)
    for k in rng.permutation(sorted(bad))[:8]:
        fns["refused " + str(k)] = bad[str(k)]
    ctx.p(fns=sorted(fns), n=x.size, index=ctx.index)
    old = np.geterr()
    environment()
    try:
        for name, fn in fns.items():
            if name == "pipeline" and rng.random() < 0.6:
                continue
            for k in range(2):
                set_environment(rng)
                e0 = environment()
                try:
                    fn()
                except Exception:
                    if not name.startswith("refused"):
                        raise
                e1 = environment()
                diff = sorted(q for q in e0 if e0[q] != e1[q])
                if k == 0:   # the first call may import modules
                    diff = [q for q in diff if q not in ("warnings", "rc", "pandas", "path", "environ", "threadpools", "logging", "printoptions")]
                ctx.check(not diff, "environment-modified", f"{name} changed {[(q, str(e0[q])[:200], str(e1[q])[:200]) for q in diff]}")
                ctx.count("environments")
    finally:
        np.seterr(**old)


@family("intact", quick=150, thorough=1500, timeout=200)
def intact(ctx):
    """No call changes anything reachable from the objects it is passed, nor adds anything to them."""
    import warnings
    import matplotlib.pyplot as plt
    from rv import pipe
    from rv.deep import difference, fingerprint
    from rv.props import c32
    from types import SimpleNamespace as NS
    from riptide import Candidate, Metadata, Periodogram, load_json, save_json
    from riptide.pipeline import config_validation as cv
    from riptide.pipeline.dmiter import DMIterator, get_band_params, get_galactic_coordnates, infer_band_params, select_dms
    from riptide.pipeline.harmonic_testing import hdiag, htest
    from riptide.pipeline.peak_cluster import PeakCluster, clusters_to_dataframe
    from riptide.pipeline.pipeline import CandidateWriter, Pipeline
    from riptide.pipeline.worker_pool import WorkerPool
    from riptide.reading import PrestoInf, SigprocHeader
    rng = ctx.rng
    d = ctx.scratch
    ds = pipe.Dataset(d, rng, [0.0, 2.0, 4.0], T=10.0, tsamp=1e-3, pulsars=[dict(period=0.11, dm=2.0, amp=50.0)])
    files = ds.filelist()
    cand, ts = c32.candidate(rng)
    ts.metadata["user"] = {"a": [1, {"b": (1, 2)}]}
    kw = dict(period_min=0.08, period_max=0.15, bins_min=32, bins_max=35, rmed_width=1.0)
    rg = gen.small_range(pmin=0.08, pmax=0.12, subints=gen.pick(rng, [None, 4, 1]))
    rg2 = gen.small_range(pmin=0.12, pmax=0.2)
    conf = gen.small_config(ranges=[rg, rg2], processes=1)
    tse = TimeSeries.from_presto_inf(files[1])
    _, pg = ffa_search(tse, **kw)
    pks = find_peaks(pg, smin=4.0)[0]
    pc = PeakCluster(pks[:5] or [cand.peaks])
    inf = PrestoInf(files[0])
    tim = gen.write_sigproc(os.path.join(d, "a.tim"), gen.noise(rng, 500), 1e-3, 5.0)
    sig = SigprocHeader(tim)
    mds = [Metadata.from_presto_inf(f) for f in files]
    dms = rng.permutation(np.linspace(0, 50, 40))
    pts = rng.uniform(0, 1, 30)
    pl = Pipeline(conf)
    pl.prepare(files)
    nested = {"a": [ts, pg, cand, {"b": cand.tsmeta}], "x": np.arange(5), "t": cand.peaks}
    obj = gen.pick(rng, [ts, pg, cand, ts.metadata, cand.peaks, nested, [cand, cand]])
    F, H = NS(freq=1.0, snr=20.0, dm=3.0, ducy=0.1), NS(freq=2.0, snr=14.0, dm=3.0, ducy=0.1)
    extra = {"my_key": int, "other": str}
    pool = WorkerPool(conf["dereddening"], conf["ranges"])
    dmi = DMIterator(files, None, None, dmsinb_max=None, wmin=1e-3)
    state = dict(conf=conf, dmi=dmi, pool=pool)

    def closing(fn):
        try:
            return fn()
        finally:
            plt.close("all")

    calls = {
        "to_json": (lambda: to_json(obj), obj), "save_json": (lambda: save_json(os.path.join(d, "o.json"), obj), obj), "to_json-kw": (lambda: to_json(nested, indent=None), nested),
        "plot": (lambda: closing(lambda: cand.plot()), cand), "savefig": (lambda: cand.savefig(os.path.join(d, "a.png"), dpi=20), cand), "pg-plot": (lambda: closing(lambda: pg.plot(iwidth=gen.pick(rng, [None, 0]))), pg),
        "props": (lambda: (cand.profile, cand.dm_curve, str(cand), repr(cand), pg.freqs, pg.tobs, str(ts), ts.length, ts.nsamp, str(ts.metadata)), [cand, pg, ts]),
        "to_dict": (lambda: (cand.to_dict().clear(), pg.to_dict().clear(), ts.to_dict().clear(), ts.metadata.to_dict().clear()), [cand, pg, ts]),
        "from_dict": (lambda: (Candidate.from_dict(cand.to_dict()), Periodogram.from_dict(pg.to_dict()), TimeSeries.from_dict(ts.to_dict()), Metadata.from_dict(ts.metadata)), [cand, pg, ts]),
        "search": (lambda: ffa_search(tse, **kw), [tse, kw]), "search-raw": (lambda: ffa_search(tse, deredden=False, already_normalised=True, **kw), [tse, kw]),
        "find_peaks": (lambda: find_peaks(pg, smin=3.0, nstd=3.0), pg), "fold": (lambda: tse.fold(0.11, 32, subints=gen.pick(rng, [None, 1, 7])), tse),
        "normalise": (lambda: ts.normalise(), ts), "deredden": (lambda: ts.deredden(0.5), ts), "downsample": (lambda: ts.downsample(2.2), ts), "copy": (lambda: ts.copy().normalise(inplace=True), ts),
        "candidate": (lambda: Candidate.from_pipeline_output(tse, pc, 32, subints=gen.pick(rng, [None, 1, 5, 10**6])), [tse, pc]),
        "cluster-table": (lambda: (pc.summary_dataframe(), pc.summary_dict(), pc.centre), pc), "clusters-table": (lambda: clusters_to_dataframe([pc]), [pc]),
        "htest": (lambda: (htest(F, H, 100.0, 1000.0, 1500.0), htest(H, F, 100.0, 1000.0, 1500.0), hdiag(F, H, 100.0, 1000.0, 1500.0)), [F, H]),
        "select_dms": (lambda: select_dms(dms, 5.0, 30.0, 1200.0, 1500.0, 64, 1e-3), dms), "select_dms-list": (lambda: select_dms(list(dms), 5.0, 30.0, 1200.0, 1500.0, 64, 1e-3), dms),
        "cluster1d": (lambda: (cluster1d(pts, 0.05), cluster1d(pts[::-1], 0.05)), pts), "sorted": (lambda: cluster1d(np.sort(pts), 0.05, already_sorted=True), pts),
        "band": (lambda: (get_band_params(mds[0]), infer_band_params(mds), get_galactic_coordnates(mds)), mds),
        "dmiter": (lambda: DMIterator(files, 0.0, 3.0, dmsinb_max=None, wmin=1e-3), files), "dmi": (lambda: (list(dmi.iterate_filenames(2)), dmi.tobs_median(), dmi.tsamp_max(), dmi.get_filename(2.0)), dmi),
        "process_fname": (lambda: pool.process_fname(files[1]), [state, files]), "validate": (lambda: cv.validate_pipeline_config(conf), conf),
        "ranges": (lambda: cv.validate_ranges(conf["ranges"], 1e-3), conf), "Pipeline": (lambda: Pipeline(conf), conf), "get_search_range": (lambda: (pl.get_search_range(0.1), pl.get_search_range(5.0), pl.wmin()), [pl.config, conf]),
        "process": (lambda: Pipeline(conf).process(files, d), [conf, files]), "writer": (lambda: CandidateWriter(d, plot=False)((0, cand)), cand),
        "metadata": (lambda: Metadata(ts.metadata), ts.metadata), "metadata-inf": (lambda: Metadata.from_presto_inf(inf), inf), "metadata-sig": (lambda: Metadata.from_sigproc(sig), sig),
        "series-meta": (lambda: TimeSeries(np.zeros(7), 3.0, metadata=cand.tsmeta), cand.tsmeta), "inf": (lambda: (inf.skycoord, inf.data_fname, inf.load_data()), inf), "sig": (lambda: (sig.skycoord, sig.nsamp, sig.tobs), sig),
        "extra-keys": (lambda: TimeSeries.from_sigproc(tim, extra_keys=extra), extra), "widths": (lambda: boxcar_snr(tse.data[:320].reshape(10, 32), pg.widths), [tse, pg]),
        "stages": (lambda: (setattr(pl, "peaks", sorted(pks, key=lambda p: p.period)), pl.cluster_peaks(), pl.flag_harmonics(), pl.apply_candidate_filters(), pl.build_candidates(), pl.save_products(outdir=d)), [conf, pl.config, pks, pl.dmiter]),
    }
    names = [k for k in sorted(calls) if k not in ("process", "savefig", "plot", "stages") or rng.random() < 0.25]
    ctx.p(names=len(names), index=ctx.index, obj=type(obj).__name__)
    for name in rng.permutation(names):
        fn, args = calls[str(name)]
        a = fingerprint(args)
        with pipe.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn()
        diff = difference(a, fingerprint(args))
        ctx.check(diff is None, f"argument-modified:{name}", f"{diff}")
        ctx.count("objects_intact")
