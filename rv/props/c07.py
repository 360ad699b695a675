"""C07 running medians."""
import numpy as np
from riptide import TimeSeries, fast_running_median, running_median

from rv import gen, ref
from rv.core import Registry

PROP = "C07"
LEVEL = "exploration"
RULE = ("Random data (incl. constants, many ties, monotone, spikes) x window widths 1..N-1 x scrunching; oracle: numpy "
        "median of the edge-padded sliding window (bitwise), and of the scrunched series interpolated at bin centres. "
        "Distinct by (N, width, data kind, minpts).")
MIN = {"medians": 200000, "errors_rejected": 200}
family = Registry()


@family("exact", quick=7500, thorough=40000)
def exact(ctx):
    rng = ctx.rng
    N = int(rng.integers(2, 20)) if rng.random() < 0.2 else gen.logint(rng, 3, 3000)
    wmax = (N - 1) if (N - 1) % 2 else N - 2
    w = 2 * int(rng.integers(0, max(1, wmax) // 2 + 1)) + 1
    if w >= N:
        w = 1
    if N * w > 3e5:
        w = max(1, int(3e5 // N) // 2 * 2 - 1)
    if rng.random() < 0.1 and N < 500:
        w = max(1, wmax)
    dk = gen.pick(rng, ["noise", "int", "ties", "walk", "spike", "const", "ramp", "zeros", "offset"])
    x = rng.integers(0, 3, N).astype(np.float32) if dk == "ties" else gen.data_kind(rng, N, dk)[1]
    ctx.p(N=N, w=w, data=dk)
    lay = gen.pick(rng, ["c", "c", "strided", "reversed", "f64"])
    V = x
    if lay == "strided":
        V = np.repeat(x, 3)[::3]
    elif lay == "reversed":
        V = x[::-1].copy()[::-1]
    elif lay == "f64":
        V = x.astype(np.float64)
    keep = V.copy()
    out = running_median(V, w)
    ctx.equal(V, keep, "input-modified")
    ctx.equal(np.asarray(out, dtype=np.float64), ref.running_median(x, w).astype(np.float64), "running-median", f"N={N} w={w} {dk} {lay}")
    ctx.count("medians", N)


@family("fast", quick=4500, thorough=20000)
def fast(ctx):
    rng = ctx.rng
    minpts = 2 * int(rng.integers(0, 60)) + 1
    width = gen.logint(rng, 1, 4000)
    f = int(max(1, width / float(minpts)))
    lo = (minpts if f > 1 else max(width, minpts)) + 3
    N = int(lo * f * rng.uniform(1.02, 6)) + int(rng.integers(0, 50))
    dk, x = gen.data_kind(rng, N)
    ctx.p(N=N, width=width, minpts=minpts, data=dk)
    if N * min(width / f + minpts, width + 1) > 4e6 or N // f <= (minpts if f > 1 else width + 1):
        ctx.trivial()
        return
    keep = x.copy()
    out = np.asarray(fast_running_median(x, width, minpts), dtype=np.float64)
    ctx.equal(x, keep, "input-modified")
    exp = ref.fast_running_median(x, width, minpts)
    mx = float(np.abs(x).max())
    # scrunching averages f float32 samples
    t = (2e-7 * (f ** 0.5 + 4)) * mx if f > 1 else 0.0
    ctx.close_to(out, exp, t, "fast-running-median", f"N={N} width={width} minpts={minpts} {dk}")
    ctx.check(out.min() >= x.min() - t - 1e-30 and out.max() <= x.max() + t + 1e-30, "median-within-data-range")
    if width % 2 == 0 and f == 1:
        ctx.count("even_width_unscrunched")
    ctx.count("medians", N)


@family("large", quick=6, thorough=40)
def large(ctx):
    """Long series with a level: sizes where another method of averaging may take over."""
    rng = ctx.rng
    N = int(gen.pick(rng, [1, 2, 4])) * 10**6 + int(rng.integers(0, 3000))
    level = float(gen.pick(rng, [0.0, 1.0, 128.0, 3e4]))
    minpts = int(gen.pick(rng, [101, 11, 51]))
    width = minpts * int(gen.pick(rng, [2, 7, 50, 333])) + int(rng.integers(0, 100))
    ctx.p(N=N, level=level, width=width, minpts=minpts)
    x = (gen.noise(rng, N) + np.float32(level)).astype(np.float32)
    if rng.random() < 0.5:
        x += np.linspace(0, level, N).astype(np.float32)
    if ctx.index % 3 == 0:
        # beyond the integers of single precision; compared in pieces
        N = int(rng.integers(17_000_000, 24_000_000))
        minpts, f = int(gen.pick(rng, [11, 5, 21])), int(rng.integers(2, 9))
        width = minpts * f + int(rng.integers(0, minpts))
        ctx.p(N=N, level=0, width=width, minpts=minpts)
        x = np.resize(gen.noise(rng, 1_000_003), N) + (np.arange(N) // 97 % 2 * 50).astype(np.float32)
        x = x.astype(np.float32)
        out = fast_running_median(x, width, minpts)
        ctx.check(out.shape == (N,), "shape")
        for _ in range(6):
            b = int(rng.integers(1, N // f - 3000)) if _ else N // f - 3000
            h = minpts
            e = ref.fast_running_median(x[(b - 0) * f:(b + 3000) * f], width, minpts)[(h + 2) * f:-(h + 2) * f]
            o = np.asarray(out[(b + h + 2) * f:(b + 3000 - h - 2) * f], dtype=np.float64)
            ctx.close_to(o, e, 1e-4, "fast-running-median", f"N={N} width={width} minpts={minpts} from sample {b * f}")
        ctx.count("medians", N)
        return
    f = width // minpts
    out = np.asarray(fast_running_median(x, width, minpts), dtype=np.float64)
    t = 2e-7 * (f ** 0.5 + 4) * float(np.abs(x).max())
    ctx.close_to(out, ref.fast_running_median(x, width, minpts), t, "fast-running-median", f"N={N} width={width} minpts={minpts} level={level}")
    y = x[: N // 100]
    ctx.equal(np.asarray(running_median(y, 301), dtype=float), ref.running_median(y, 301).astype(float), "running-median", f"N={len(y)} w=301")
    ctx.count("medians", N)


@family("structure", quick=1500, thorough=5000)
def structure(ctx):
    """Translation equivariance, impulse rejection, deredden = x - median."""
    rng = ctx.rng
    w = 2 * int(rng.integers(1, 40)) + 1
    N = int(rng.integers(w + 1, 8 * w + 10))
    x = gen.int_data(rng, N)
    ctx.p(N=N, w=w)
    a = running_median(x, w)
    ctx.equal(running_median(x + np.float32(64), w), a + np.float32(64), "baseline-shift")
    ctx.equal(running_median(-x, w), -a, "negation")
    ctx.equal(running_median(x[::-1].copy(), w), a[::-1], "time-reversal")
    # up to half a window of outliers does not move a constant
    y = np.full(N, 3.0, dtype=np.float32)
    k = int(rng.integers(1, w // 2 + 1))
    i = int(rng.integers(w // 2 + 1, N)) if N > w // 2 + 1 else 0
    y[i:min(i + k, N - 1)] = 1e5
    ctx.equal(running_median(y, w), np.full(N, 3.0), "outlier-rejection")
    tsamp = gen.pick(rng, [1.0, 1e-3, 0.0625])
    minpts = gen.pick(rng, [101, 11, 3])
    if w < N - 1 and w // minpts <= 1:
        ts = TimeSeries(x, tsamp)
        d = ts.deredden(w * tsamp, minpts=minpts)
        ctx.close_to(d.data, x.astype(float) - a, 1e-6, "deredden-subtracts-running-median")
        ctx.equal(ts.data, x, "deredden-modified-input")
    ctx.count("medians", 3 * N)


@family("errors", quick=450, thorough=1000)
def errors(ctx):
    rng = ctx.rng
    N = int(rng.integers(3, 300))
    x = gen.noise(rng, N)
    ctx.p(N=N)
    ctx.raises(ValueError, "accepts-even-width", running_median, x, 2 * int(rng.integers(0, N // 2)))
    big = N + int(rng.integers(0, 10))
    ctx.raises(ValueError, "accepts-width>=N", running_median, x, big + (1 - big % 2))
    ctx.raises(ValueError, "accepts-even-minpts", fast_running_median, x, 3, 2 * int(rng.integers(1, 50)))
    ctx.raises(ValueError, "fast-accepts-width>=N", fast_running_median, x, big + (1 - big % 2), 2 * N + 101)
    ctx.raises(ValueError, "fast-accepts-0", fast_running_median, x, 0, 101)


@family("defaults", quick=40, thorough=200)
def defaults(ctx):
    """Options left out have the values of the signature."""
    from riptide.running_medians import fast_running_median
    rng = ctx.rng
    n = int(rng.integers(3000, 9000))
    w = int(rng.integers(205, 2500))
    ctx.p(n=n, w=w)
    x = gen.noise(rng, n)
    ctx.defaults(fast_running_median, (x, w), dict(min_points=101), np.array_equal)
