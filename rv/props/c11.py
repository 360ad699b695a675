"""C11 TimeSeries operations."""
import os

import numpy as np
from riptide import TimeSeries

from rv import gen, ref
from rv.core import Registry

PROP = "C11"
LEVEL = "exploration"
RULE = ("Random series and random chains of operations (normalise, deredden, downsample, copy), each step done in place and out of "
        "place and compared with each other and with a float64 model; the source object, its data and its metadata are watched for "
        "changes; constructors on arrays of many dtypes / layouts and on files. Distinct by parameters.")
MIN = {"operations": 2000, "constructed": 800, "originals_checked": 2000}
family = Registry()


def snapshot(ts):
    return ts.data.copy(), ts.tsamp, {k: v for k, v in ts.metadata.items()}, ts.data.dtype


def unchanged(ctx, ts, snap, op):
    d, t, m, dt = snap
    ctx.check(ts.data.dtype == dt and np.array_equal(ts.data, d), "original-data-changed", f"by {op}")
    ctx.check(ts.tsamp == t, "original-tsamp-changed", f"by {op}")
    ctx.check(dict(ts.metadata) == m, "original-metadata-changed", f"by {op}: {dict(ts.metadata)} was {m}")
    ctx.count("originals_checked")


def wellformed(ctx, ts, meta, op):
    ctx.check(isinstance(ts, TimeSeries), "type", f"{op} returned {type(ts)}")
    ctx.check(ts.data.dtype == np.float32 and ts.data.ndim == 1, "float32-data", f"{op}: {ts.data.dtype}")
    ctx.check(ts.nsamp == ts.data.size, "nsamp")
    ctx.check(abs(ts.length - ts.nsamp * ts.tsamp) <= 1e-12 * ts.length and ts.tobs == ts.length, "length", op)
    ctx.check(ts.metadata["tobs"] == ts.length, "metadata-tobs", f"{op}: {ts.metadata['tobs']!r} instead of {ts.length!r}")
    for k, v in meta.items():
        if k != "tobs":
            ctx.check(ts.metadata.get(k) == v, "metadata-kept", f"{op}: {k} = {ts.metadata.get(k)!r} instead of {v!r}")


def model(ts_data, tsamp, op, arg):
    x = ts_data.astype(np.float64)
    if op == "normalise":
        return (x - x.mean()) / x.std(), tsamp
    if op == "deredden":
        w, mp = arg
        return x - ref.fast_running_median(ts_data, int(round(w / tsamp)), mp), tsamp
    return ref.downsample(x, arg), tsamp * arg


@family("large", quick=48, thorough=500, timeout=120)
def large(ctx):
    chain(ctx, gen.logint(ctx.rng, 100_000, 3_000_000))


@family("chain", quick=1500, thorough=15000)
def chain(ctx, size=None):
    rng = ctx.rng
    n = size or gen.logint(rng, 200, 6000)
    tsamp = gen.pick(rng, [1e-3, 256e-6, 1.0, gen.loguniform(rng, 1e-6, 10)])
    x = (gen.noise(rng, n) * gen.loguniform(rng, 1e-2, 1e3) + rng.normal() * gen.pick(rng, [0, 1, 100, 1e4])).astype(np.float32)
    meta = {"dm": float(rng.uniform(0, 100)), "source_name": "J0000", "extra": [1, 2]}
    a = TimeSeries(x.copy(), tsamp, metadata=meta)      # out of place
    b = TimeSeries(x.copy(), tsamp, metadata=meta)      # in place
    ops = []
    for _ in range(int(rng.integers(1, 5))):
        op = gen.pick(rng, ["normalise", "deredden", "downsample"])
        N = a.nsamp
        if op == "deredden":
            mp = int(rng.integers(1, 12)) * 2 + 1
            # keep the scrunched series longer than the window
            w = float(rng.integers(1, max(2, N // 3))) * a.tsamp
            sc = int(max(1, round(w / a.tsamp) / mp))
            if N // sc <= mp + 1:
                continue
            arg = (w, mp)
        elif op == "downsample":
            if N < 60:
                continue
            arg = gen.pick(rng, [2.0, gen.loguniform(rng, 1.001, N / 40)])
        else:
            if a.data.std(dtype=np.float64) <= 1e-4 * np.abs(a.data).max() or a.nsamp < 50:
                continue
            arg = None
        ops.append((op, arg))
        snap = snapshot(a)
        exp, ets = model(a.data, a.tsamp, op, arg)
        if op == "normalise":
            c, rb = a.normalise(), b.normalise(inplace=True)
        elif op == "deredden":
            c, rb = a.deredden(arg[0], minpts=arg[1]), b.deredden(arg[0], minpts=arg[1], inplace=True)
        else:
            c, rb = a.downsample(arg), b.downsample(arg, inplace=True)
        unchanged(ctx, a, snap, op)
        ctx.check(rb is None, "inplace-returns-none", op)
        for t, nm in ((c, op), (b, op + " in place")):
            wellformed(ctx, t, meta, nm)
        ctx.check(not np.shares_memory(c.data, a.data), "result-aliases-original", op)
        amp = float(np.abs(snap[0]).max()) + 1e-30
        tol = {"normalise": 3e-6 * amp / max(float(snap[0].std()), 1e-30) + 1e-6 * np.abs(exp).max(),
               "deredden": 2e-6 * amp, "downsample": amp * (arg * (3e-6 + 4e-8 * arg) if op == "downsample" else 1)}[op]
        ctx.close_to(c.data, exp, tol, f"{op}-value", f"{op} {arg}")
        ctx.close_to(b.data, c.data, tol, f"{op}-inplace-differs", f"{op} {arg}")
        ctx.check(abs(c.tsamp / ets - 1) < 1e-12 and abs(b.tsamp / ets - 1) < 1e-12, "tsamp", f"{op}: {c.tsamp!r} {b.tsamp!r} {ets!r}")
        if op == "normalise":
            ctx.check(abs(c.data.mean(dtype=np.float64)) < 1e-5 * max(1, amp / float(snap[0].std())) and
                      abs(c.data.std(dtype=np.float64) - 1) < 1e-5 * max(1, amp / float(snap[0].std())), "not-normalised")
        a = c
        b = TimeSeries(c.data.copy(), c.tsamp, metadata=meta)
        ctx.count("operations")
    ctx.p(n=n, tsamp=tsamp, ops=[(o, str(r)) for o, r in ops])
    if not ops:
        ctx.trivial()


@family("copy", quick=300, thorough=2000)
def copy(ctx):
    rng = ctx.rng
    n = gen.logint(rng, 10, 2000)
    ts = TimeSeries(gen.noise(rng, n), 0.5, metadata={"dm": 1.0, "tags": ["a"]})
    c = ts.copy()
    ctx.p(n=n, k=float(ts.data[0]))
    snap = snapshot(ts)
    c.data[:] = 7
    c.metadata["dm"] = 9.0
    c.metadata["tags"].append("b")
    ctx.check(ts.metadata["tags"] == ["a"], "copy-shares-metadata")
    unchanged(ctx, ts, snap, "editing a copy")
    # metadata of a derived series is independent too
    d = gen.pick(rng, [lambda: ts.normalise(), lambda: ts.downsample(2.0), lambda: ts.deredden(1.5)])()
    d.metadata["dm"] = 77.0
    d.metadata["new"] = 1
    unchanged(ctx, ts, snap, "editing the metadata of a derived series")
    ctx.count("operations")


DTYPES = ["f4", "f8", "i4", "i8", "i2", "u1", "i1", ">f4", "f2", "?"]


@family("construct", quick=1200, thorough=8000)
def construct(ctx):
    rng = ctx.rng
    n = gen.logint(rng, 1, 3000) if rng.random() < 0.99 else gen.logint(rng, 50_000, 2_000_000)
    dt = gen.pick(rng, DTYPES)
    v = rng.integers(0, 2, n) if dt == "?" else rng.integers(0, 100, n) + (0 if dt not in ("f4", "f8", ">f4", "f2") else rng.random(n))
    arr = np.asarray(v).astype(dt)
    lay = gen.pick(rng, ["c", "strided", "rev", "list", "ro"])
    if lay == "strided":
        arr = np.repeat(arr, 2)[::2]
    elif lay == "rev":
        arr = arr[::-1]
    elif lay == "ro":
        arr.flags.writeable = False
    exp = np.asarray(arr).astype(np.float32)
    how = gen.pick(rng, ["array", "array-copy", "init", "npy", "bin"])
    tsamp = gen.loguniform(rng, 1e-6, 10)
    ctx.p(n=n, dt=dt, lay=lay, how=how, tsamp=tsamp)
    src = arr.tolist() if lay == "list" else arr
    if how == "array":
        ts = TimeSeries.from_numpy_array(src, tsamp)
    elif how == "array-copy":
        ts = TimeSeries.from_numpy_array(src, tsamp, copy=True)
        if lay != "list":
            ctx.check(not np.shares_memory(ts.data, arr), "copy-not-copied")
    elif how == "init":
        ts = TimeSeries(src, tsamp, metadata={"dm": 5.0}, copy=bool(rng.random() < 0.5))
    elif how == "npy":
        p = os.path.join(ctx.scratch, "x.npy")
        np.save(p, np.asarray(arr))
        ts = TimeSeries.from_npy_file(p, tsamp)
    else:
        p = os.path.join(ctx.scratch, "x.bin")
        np.ascontiguousarray(arr).tofile(p)
        ts = TimeSeries.from_binary(p, tsamp, dtype=np.dtype(dt)) if dt != "f4" or rng.random() < 0.5 else TimeSeries.from_binary(p, tsamp)
    wellformed(ctx, ts, {"dm": 5.0} if how == "init" else {"dm": None}, how)
    ctx.equal(ts.data, exp, "constructed-data", f"{how} {dt} {lay}")
    ctx.check(ts.tsamp == tsamp, "constructed-tsamp")
    if how in ("npy", "bin"):
        with open(p, "rb") as f:
            raw = f.read()
    # usable by every native routine
    if n > 4 and np.std(exp) > 0 and ts.data.flags.c_contiguous:
        y = ts.downsample(2.0)
        ctx.close_to(y.data, ref.downsample(exp, 2.0), 1e-4, "constructed-unusable")
        ts.normalise()
        ts.deredden(3 * tsamp)
    if how in ("npy", "bin"):
        # a series read from a file and that file have separate lives
        ctx.check(ts.data.flags.writeable, "constructed-read-only", how)
        ts.data[0] += 1
        if n > 4 and np.std(exp) > 0:
            ts.normalise(inplace=True)
            ts.deredden(3 * tsamp, inplace=True)
            ts.downsample(2.0, inplace=True)
        with open(p, "rb") as f:
            ctx.check(f.read() == raw, "file-changed-by-operation", how)
        ts = TimeSeries.from_npy_file(p, tsamp) if how == "npy" else TimeSeries.from_binary(p, tsamp, dtype=np.dtype(dt))
        with open(p, "r+b") as f:
            f.seek(max(0, len(raw) - arr.nbytes))
            f.write(b"\x01" * arr.nbytes)
        ctx.equal(ts.data, exp, "series-follows-file", how)
        ctx.count("files_independent")
    ctx.count("constructed")


@family("meta", quick=200, thorough=1000)
def meta(ctx):
    """A caller's metadata dict is not modified nor aliased."""
    rng = ctx.rng
    m = {"dm": float(rng.uniform(0, 10)), "tobs": 12345.0} if rng.random() < 0.5 else {"dm": float(rng.uniform(0, 10))}
    keep = dict(m)
    n = int(rng.integers(5, 100))
    ctx.p(n=n, dm=m["dm"])
    ts = TimeSeries(np.arange(n), 0.25, metadata=m)
    ctx.check(m == keep, "caller-metadata-modified", f"{m} was {keep}")
    wellformed(ctx, ts, {"dm": keep["dm"]}, "init")
    ts.metadata["dm"] = 3.0
    ctx.check(m == keep, "caller-metadata-aliased")
    ctx.count("constructed")


@family("defaults", quick=60, thorough=300)
def defaults(ctx):
    """Options left out have the values of the signature."""
    rng = ctx.rng
    n = int(rng.integers(3000, 9000))
    tsamp = gen.loguniform(rng, 1e-4, 1.0)
    w = int(rng.integers(205, 2500)) * tsamp
    ts = TimeSeries(gen.noise(rng, n), tsamp)
    ctx.p(n=n, w=w, tsamp=tsamp)
    def same(a, b):
        return np.array_equal(a.data, b.data) and a.tsamp == b.tsamp
    ctx.defaults(ts.deredden, (w,), dict(minpts=101, inplace=False), same)
    ctx.defaults(ts.normalise, (), dict(inplace=False), same)
    ctx.defaults(ts.downsample, (3.7,), dict(inplace=False), same)
    ctx.defaults(ts.fold, (100.3 * tsamp, 20), dict(subints=None), np.array_equal)
    ctx.defaults(TimeSeries.generate, (n * tsamp, tsamp, 100.3 * tsamp), dict(phi0=0.5, ducy=0.02, amplitude=10.0, stdnoise=1.0), same)
    x = gen.noise(rng, n)
    ctx.defaults(TimeSeries.from_numpy_array, (x, tsamp), dict(copy=False), same)
    # not copying unless asked to: the default shares memory in the same way as copy=False
    ctx.check(np.shares_memory(TimeSeries(x, tsamp).data, x) == np.shares_memory(TimeSeries(x, tsamp, copy=False).data, x), "default-copy")
