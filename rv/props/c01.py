"""C01 native memory safety / no undefined behaviour, under ASan + UBSan."""
import ctypes
import mmap
import os
import signal
import subprocess
import sys

import numpy as np
import riptide.libcpp as libcpp
from riptide import TimeSeries, boxcar_snr, downsample, fast_running_median, ffa1, ffa2, ffa_search, find_peaks, running_median

from rv import gen
from rv.core import Registry

PROP = "C01"
LEVEL = "exploration"
VARIANT = "asan"
RULE = ("Every native entry point driven through Python with random, boundary and hostile arguments (0/1-sized axes, widths and "
        "factors at the limits, NaN/inf, wrong dtype / order / ndim, huge counts) with the extension compiled with AddressSanitizer + "
        "UndefinedBehaviorSanitizer (reports fatal); any report, signal or hang is a violation, any Python exception is fine. "
        "Distinct by call and arguments.")
MIN = {"calls": 20000, "refused": 1000, "canaries_caught": 8, "returned": 10000, "views": 50000}
family = Registry()

CANARY = "import ctypes; m = ctypes.CDLL(None); m.malloc.restype = ctypes.c_void_p; p = m.malloc(24); " \
         "ctypes.memset(p, 0, 40); print('SURVIVED')"


def call(ctx, fn, *a, **kw):
    ctx.count("calls")
    try:
        r = fn(*a, **kw)
        ctx.count("returned")
        return r
    except (ValueError, TypeError, IndexError, MemoryError, OverflowError, RuntimeError, AssertionError, ZeroDivisionError,
            np.linalg.LinAlgError, FloatingPointError):
        ctx.count("refused")
        return None


@family("canary", quick=8, thorough=8)
def canary(ctx):
    """Positive control: the sanitizer is loaded, the extension is instrumented, a planted overflow is caught."""
    ctx.p(pid=ctx.index)
    with open(libcpp.__file__, "rb") as f:
        so = f.read()
    if b"__asan_report" not in so or b"__ubsan_handle" not in so:
        raise ImportError("extension is not instrumented")
    with open("/proc/self/maps") as f:
        if "libasan" not in f.read():
            raise ImportError("sanitizer run time is not loaded")
    r = subprocess.run([sys.executable, "-c", CANARY], capture_output=True, timeout=100)
    if r.returncode != -signal.SIGABRT or b"heap-buffer-overflow" not in r.stderr:
        raise ImportError(f"planted overflow not caught: rc={r.returncode} {r.stderr[-500:]}")
    ctx.count("canaries_caught")


def arr(rng, n):
    """float32 data on the heap with an exact-size allocation."""
    k = rng.random()
    if k < 0.85:
        x = rng.standard_normal(n)
    elif k < 0.9:
        x = np.zeros(n)
    else:
        x = rng.standard_normal(n)
        if n:
            x[rng.integers(n, size=max(1, n // 10))] = gen.pick(rng, [np.nan, np.inf, -np.inf, 3e38, 1e-42])
    return x.astype(np.float32)


def hostile(rng, x):
    """Same numbers, unusual array."""
    k = int(rng.integers(9))
    if k == 0:
        return x.astype(np.float64)
    if k == 1:
        return np.repeat(x, 2, axis=-1)[..., ::2]
    if k == 2:
        return x[::-1]
    if k == 3:
        return x.astype(">f4")
    if k == 4:
        return np.asfortranarray(x)
    if k == 5:
        return x.tolist()
    if k == 6:
        y = x.copy()
        y.flags.writeable = False
        return y
    if k == 7:
        return x.reshape(x.shape + (1,)) if rng.random() < 0.5 else x.ravel()
    return np.nan_to_num(x, nan=0, posinf=0, neginf=0).astype(np.int16)


def maybe(rng, x, p=0.12):
    return hostile(rng, x) if rng.random() < p else x


def dim(rng, hi):
    r = rng.random()
    if r < 0.08:
        return 0
    if r < 0.35:
        return int(rng.integers(1, 6))
    return gen.logint(rng, 1, hi)


def awkward(rng, lo, hi):
    """integers at and beyond the limits"""
    return gen.pick(rng, [lo, lo + 1, hi, hi - 1, hi + 1, 0, 1, -1, 2**31, 2**63, 2**64 - 1, -2**40, int(rng.integers(lo, max(lo + 1, hi)))])


@family("transform", quick=4000, thorough=40000)
def transform(ctx):
    rng = ctx.rng
    m, p = dim(rng, 300), dim(rng, 300)
    ctx.p(m=m, p=p)
    x = arr(rng, m * p).reshape(m, p)
    call(ctx, libcpp.ffa2, maybe(rng, x))
    call(ctx, ffa2, maybe(rng, x))
    n = dim(rng, 3000)
    call(ctx, ffa1, arr(rng, n), gen.pick(rng, [1, 2, n, n - 1, n + 1, 0, max(1, n // 2), int(rng.integers(1, n + 2))]))
    if m and p:
        call(ctx, libcpp.benchmark_ffa2, m, p, int(rng.integers(0, 3)))


@family("kernels", quick=4000, thorough=40000)
def kernels(ctx):
    rng = ctx.rng
    n = dim(rng, 1000)
    s = awkward(rng, 0, n)
    ctx.p(n=n, s=str(s))
    x, y = arr(rng, n), arr(rng, n if rng.random() < 0.9 else dim(rng, 100))
    call(ctx, libcpp.rollback, maybe(rng, x), s)
    call(ctx, libcpp.rollback, x, int(rng.integers(0, 3 * n + 2)))
    call(ctx, libcpp.fused_rollback_add, maybe(rng, x), maybe(rng, y), s)
    call(ctx, libcpp.fused_rollback_add, x, x.copy(), int(rng.integers(0, 3 * n + 2)))
    for ns in (n, n + 1, max(n - 1, 0), 2 * n, 3 * n + 1, int(rng.integers(0, 5 * n + 3)), gen.pick(rng, [-1, 2**62, 2**64 - 1, 0])):
        call(ctx, libcpp.circular_prefix_sum, maybe(rng, x, 0.03), ns)


def width_list(rng, b):
    k = int(rng.integers(1, 6))
    w = rng.integers(1, max(2, b), k)
    r = rng.random()
    if r < 0.1:
        w = np.asarray([b - 1])
    elif r < 0.15:
        w = np.zeros(0, int)
    elif r < 0.3:
        w = np.append(w, gen.pick(rng, [0, b, b + 1, 2 * b, 10**6]))
    w = w.astype(np.int64)
    r = rng.random()
    if r < 0.8:
        w = w.astype(np.uint64)
    elif r < 0.85:
        w = w - 3
    elif r < 0.9:
        w = w.astype(np.uint64)
        w = gen.pick(rng, [lambda: np.repeat(w, 2)[::2], lambda: w[::-1], lambda: np.repeat(w, 7)[::-7]])()
    elif r < 0.95:
        w = w.astype(float)
    return w


@family("snr", quick=4000, thorough=40000)
def snr(ctx):
    rng = ctx.rng
    m, b = dim(rng, 100), dim(rng, 600)
    std = gen.pick(rng, [1.0, 0.5, 1e-30, 1e30, 0.0, -1.0, np.nan, np.inf])
    ctx.p(m=m, b=b, std=str(std))
    x = arr(rng, b)
    call(ctx, libcpp.snr1, maybe(rng, x), width_list(rng, b), std)
    call(ctx, libcpp.snr1, x, np.asarray([max(1, b - 1)], dtype=np.uint64), 1.0)
    X = arr(rng, m * b).reshape(m, b)
    call(ctx, libcpp.snr2, maybe(rng, X), width_list(rng, b), std)
    call(ctx, boxcar_snr, X, width_list(rng, b))
    call(ctx, boxcar_snr, X.reshape(m, 1, b), [1, max(1, b - 1)], stdnoise=2.0)


@family("bigsnr", quick=8, thorough=60, timeout=120)
def bigsnr(ctx):
    """very long profiles (stack usage)"""
    rng = ctx.rng
    b = int(rng.integers(1, 6)) * 10**6
    ctx.p(b=b)
    call(ctx, libcpp.snr1, np.ones(b, dtype=np.float32), np.asarray([1, b // 3, b - 1], dtype=np.uint64), 1.0)
    call(ctx, libcpp.snr2, np.ones((2, b), dtype=np.float32), np.asarray([b - 1], dtype=np.uint64), 1.0)
    call(ctx, libcpp.circular_prefix_sum, np.ones(b, dtype=np.float32), 2 * b + 1)


@family("deep", quick=6, thorough=30, timeout=140)
def deep(ctx):
    """very tall transforms: single precision row indices, recursion depth"""
    rng = ctx.rng
    m = int(gen.pick(rng, [2**24 + 1, 2**24 + int(rng.integers(2, 10**6)), 10**6 + int(rng.integers(0, 10**5)), 3 * 2**20 + 1]))
    ctx.p(m=m)
    call(ctx, libcpp.ffa2, np.ones((m, int(rng.integers(1, 3))), dtype=np.float32))


@family("downsample", quick=5000, thorough=50000)
def downsample_(ctx):
    rng = ctx.rng
    n = dim(rng, 2000)
    k = gen.pick(rng, ["real", "near", "n", "divisor", "odd", "grid"])
    if k == "real":
        f = gen.loguniform(rng, 1.0, max(2, n))
    elif k == "near":
        f = float(np.nextafter(float(rng.integers(1, max(2, n))), gen.pick(rng, [0, 1e9])))
    elif k == "n":
        f = gen.pick(rng, [float(n), float(np.nextafter(n, 0)), float(np.nextafter(n, 1e9)), n + 1.0])
    elif k == "divisor":
        f = n / float(rng.integers(1, max(2, n)))
    elif k == "grid":
        f = (n / float(rng.integers(1, max(2, n)))) * (1 + gen.pick(rng, [-1, 1]) * 2.0 ** -int(rng.integers(40, 53)))
    else:
        f = gen.pick(rng, [np.nan, np.inf, -np.inf, 0.0, -2.0, 1.0, 1e300, 1e-300, float(np.nextafter(1, 2))])
    ctx.p(n=n, f=repr(f))
    x = arr(rng, n)
    r = call(ctx, libcpp.downsample, maybe(rng, x), f)
    call(ctx, downsample, x, f)
    ts = TimeSeries(x, 0.1) if n else None
    if ts is not None:
        call(ctx, ts.downsample, f)


@family("rmed", quick=3000, thorough=30000)
def rmed(ctx):
    rng = ctx.rng
    n = dim(rng, 400)
    w = gen.pick(rng, [1, 3, n - 1, n, n + 1, n - 2, 0, 2, -1, 2**63, 2**64 - 1, 2**40 + 1, int(rng.integers(0, n + 2)) | 1])
    if abs(w) > 10**7 and w % 2 == 0:
        w += 1
    ctx.p(n=n, w=str(w))
    x = arr(rng, n)
    if rng.random() < 0.3:
        x = np.round(x)
    call(ctx, libcpp.running_median, maybe(rng, x), w)
    call(ctx, running_median, x, w)
    call(ctx, fast_running_median, x, int(rng.integers(-2, n + 5)), gen.pick(rng, [1, 3, 5, 11, 101, 4, -1, 0]))


@family("rmedbig", quick=16, thorough=100)
def rmedbig(ctx):
    rng = ctx.rng
    n = int(rng.integers(3000, 6000))
    w = int(rng.integers(300, 1300)) | 1
    kind = gen.pick(rng, ["sorted", "reversed", "const", "noise"])
    n = min(n, w + 120)
    ctx.p(n=n, w=w, kind=kind)
    x = {"sorted": np.arange(n), "reversed": -np.arange(n), "const": np.ones(n), "noise": rng.standard_normal(n)}[kind]
    call(ctx, libcpp.running_median, x.astype(np.float32), w)


def search_args(rng, n):
    bmin = int(gen.pick(rng, [2, 3, 5, 16, 40, int(rng.integers(2, 120))]))
    bmax = bmin + int(gen.pick(rng, [0, 1, 2, 5, int(rng.integers(0, 40))]))
    ts = gen.pick(rng, [1.0, 0.1, 1e-3, 0.30000000000000004, gen.loguniform(rng, 1e-6, 100)])
    ds = gen.pick(rng, [1.0, float(np.nextafter(1, 2)), 2.0, 3.0, gen.loguniform(rng, 1, 30), float(np.nextafter(2, gen.pick(rng, [0, 9]))),
                        max(1.0, n / bmin / float(rng.integers(1, 6)))])
    pmin = ts * bmin * ds
    while ds == 1.0 and pmin < ts * bmin:
        pmin = float(np.nextafter(pmin, np.inf))
    span = gen.pick(rng, [float(np.nextafter(1, 2)), 1.001, (bmax + 1) / bmin, ((bmax + 1) / bmin) ** 2, 3.0, 30.0, 1e4, max(1.1, n * ts / pmin)])
    return ts, float(pmin), float(pmin * span), bmin, bmax


@family("periodogram", quick=5000, thorough=60000)
def periodogram(ctx):
    rng = ctx.rng
    n = dim(rng, 6000)
    ts, pmin, pmax, bmin, bmax = search_args(rng, n)
    if rng.random() < 0.2:
        k = int(rng.integers(8))
        if k == 0:
            pmax = gen.pick(rng, [pmin, pmin / 2, 1e300, np.nan])
        elif k == 1:
            ts = gen.pick(rng, [0.0, -1.0, np.nan])
        elif k == 2:
            pmin = gen.pick(rng, [0.0, -1.0, np.nan])
        elif k == 3:
            bmin = gen.pick(rng, [0, 1, -1, bmax + 1])
        elif k == 4:
            bmax = gen.pick(rng, [0, bmin - 1, -1, 10**5])
        elif k == 5:
            pmin = pmin * 0.5
        elif k == 6:
            n = gen.pick(rng, [0, 1, 2, bmin - 1, bmin, bmin + 1])
            n = max(0, n)
        else:
            pmax = pmin * (1 + 1e-12)
    ctx.p(n=n, ts=ts, pmin=repr(pmin), pmax=repr(pmax), bmin=bmin, bmax=bmax)
    x = arr(rng, n)
    w = width_list(rng, max(2, bmin)) if rng.random() < 0.3 else np.asarray([1, max(1, bmin - 1)], dtype=np.uint64)
    call(ctx, libcpp.periodogram, maybe(rng, x, 0.05), ts, w, pmin, pmax, bmin, bmax)


def layouts(rng, x):
    """Views whose memory, read as if contiguous, ends beyond the allocation."""
    n = x.shape[-1]
    yield x[..., ::-1]
    yield np.repeat(x, 2, axis=-1)[..., ::2][..., n // 2:]
    yield np.repeat(x, 3, axis=-1)[..., ::-3]
    yield np.broadcast_to(x[..., :1].copy(), x.shape)
    if x.ndim == 2:
        yield x[::-1]
        yield x.T
        yield np.repeat(x, 2, axis=0)[::2][x.shape[0] // 2:]
        yield x[:, n // 2:]
        yield np.broadcast_to(x[:1].copy(), x.shape)
        yield np.asfortranarray(x)[:, n // 2:]
    yield x.astype(x.dtype.newbyteorder(">"))
    yield np.frombuffer(b"1" + x.tobytes(), dtype=np.uint8)[1:].view(x.dtype).reshape(x.shape)
    yield x[..., :0]
    yield x[None]
    yield x[..., None]


@family("views", quick=500, thorough=6000)
def views(ctx):
    """Every array argument of every entry point as a reversed / strided / broadcast / transposed view."""
    rng = ctx.rng
    m, b = int(rng.integers(1, 40)), int(rng.integers(2, 300))
    ctx.p(m=m, b=b)
    x = arr(rng, b)
    X = arr(rng, m * b).reshape(m, b)
    w = rng.integers(1, max(2, b), int(rng.integers(1, 40))).astype(np.uint64)
    k = int(rng.integers(0, 3 * b))
    f = float(rng.uniform(1.01, 5))
    fns = [(libcpp.ffa2, [X]), (ffa2, [X]), (lambda a: ffa1(a, b), [X.ravel()]), (lambda a, v: libcpp.snr1(a, v, 1.0), [x, w]),
           (lambda a, v: libcpp.snr2(a, v, 1.0), [X, w]), (boxcar_snr, [X, w]), (boxcar_snr, [x, w.astype(int)]), (lambda a: libcpp.downsample(a, f), [x]),
           (lambda a: downsample(a, f), [x]), (lambda a: libcpp.running_median(a, 3), [x]), (lambda a: running_median(a, 3), [x]),
           (lambda a: fast_running_median(a, 7, 3), [x]), (lambda a: libcpp.circular_prefix_sum(a, k), [x]), (lambda a: libcpp.rollback(a, k), [x]),
           (lambda a, c: libcpp.fused_rollback_add(a, c, k), [x, arr(rng, b)]),
           (lambda a, v: libcpp.periodogram(a, 1.0, v, float(max(2, b // 4)), float(b), max(2, b // 4), max(2, b // 4) + 3), [X.ravel(), w[w < max(2, b // 4)]]),
           (lambda a: TimeSeries(a, 1e-3).fold(b * 1.1e-3, max(1, b // 2), subints=2), [X.ravel()]),
           (lambda a: TimeSeries(a, 1e-3).downsample(f), [X.ravel()]), (lambda a: TimeSeries(a, 1e-3).deredden(0.01), [X.ravel()])]
    for fn, arrays in fns:
        for i, a in enumerate(arrays):
            for v in layouts(rng, a):
                args = list(arrays)
                args[i] = v
                call(ctx, fn, *args)
                ctx.count("views")


@family("search", quick=600, thorough=6000)
def search(ctx):
    """whole searches and folds"""
    rng = ctx.rng
    n = gen.logint(rng, 50, 8000)
    ts, pmin, pmax, bmin, bmax = search_args(rng, n)
    ctx.p(n=n, ts=ts, pmin=pmin, pmax=pmax, bmin=bmin, bmax=bmax)
    s = TimeSeries(gen.noise(rng, n), ts, metadata={"dm": 0.0})
    r = call(ctx, ffa_search, s, period_min=pmin, period_max=pmax, bins_min=bmin, bins_max=bmax, fpmin=1, ducy_max=float(rng.uniform(0.01, 0.99)),
             deredden=bool(rng.random() < 0.5), rmed_width=ts * n * float(rng.uniform(0, 1.2)), rmed_minpts=int(rng.integers(1, 30)) * 2 + 1)
    if r is not None:
        call(ctx, find_peaks, r[1], smin=4.0)
    for _ in range(4):
        bins = int(rng.integers(1, 200))
        per = gen.loguniform(rng, ts * bins * 0.9, ts * n * 1.1 + ts * bins)
        call(ctx, s.fold, per, bins, subints=gen.pick(rng, [None, 1, 2, int(rng.integers(1, 50)), 0, int(s.length / per)]))
