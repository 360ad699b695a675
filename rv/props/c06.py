"""C06 downsampling is exact area-weighted regrouping."""
import math

import numpy as np
from riptide import TimeSeries, downsample

from rv import gen, ref
from rv.core import Registry

PROP = "C06"
LEVEL = "exploration"
RULE = ("Random (N, f) with real, integer, dyadic, near-integer, barely >1 and = N factors over diverse data; oracle: "
        "difference of the exact cumulative integral in float64 (bitwise for integer data and integer factors). "
        "Distinct by (N, f, data kind).")
MIN = {"samples": 200000, "errors_rejected": 200}
family = Registry()


def factor(rng, N):
    k = gen.pick(rng, ["real", "real", "int", "dyadic", "near", "one+", "N", "divisor", "period"])
    if k == "real":
        f = gen.loguniform(rng, 1.0001, N)
    elif k == "int":
        f = float(rng.integers(2, N + 1))
    elif k == "dyadic":
        f = 1 + float(rng.integers(1, 64)) / 16
    elif k == "near":
        f = float(rng.integers(2, max(3, N // 2))) + gen.pick(rng, [-1, 1]) * 10.0 ** -int(rng.integers(3, 15))
    elif k == "one+":
        f = 1 + 10.0 ** -int(rng.integers(1, 15))
    elif k == "N":
        f = float(N)
    elif k == "divisor":
        f = N / float(rng.integers(1, min(N, 50) + 1))
    else:
        f = gen.loguniform(rng, 1.01, 20)
    return k, float(min(max(f, 1 + 1e-15), N))


@family("value", quick=15000, thorough=80000)
def value(ctx):
    rng = ctx.rng
    N = int(rng.integers(2, 30)) if rng.random() < 0.2 else gen.logint(rng, 10, 20000)
    k, f = factor(rng, N)
    if not 1 < f <= N:
        f = float(N)
    dk, x = gen.data_kind(rng, N)
    ctx.p(N=N, f=f, kind=k, data=dk)
    keep = x.copy()
    out = downsample(x, f)
    ctx.equal(x, keep, "input-modified")
    ctx.check(out.dtype == np.float32, "dtype")
    n = N / f
    sizes = {int(math.floor(n))}
    if abs(n - round(n)) < 1e-9 * max(1.0, n):
        sizes |= {int(round(n)), int(round(n)) - 1}
    ctx.check(out.ndim == 1 and out.size in sizes, "output-size", f"{out.shape} not in {sizes} for N={N} f={f!r}")
    exp = ref.downsample(x, f)
    L = min(len(exp), out.size)
    ab = ref.downsample(np.abs(x), f)[:L]
    # accumulation in float32 plus weights computed from k*f
    mx = float(np.abs(x).max())
    t = (f + 4) * ref.EPS32 * ab + (4e-7 + 4e-16 * N) * mx + 1e-30 + 2e-15 * float(np.abs(np.cumsum(x.astype(float))).max())
    ctx.close_to(out[:L], exp[:L], t, "downsampled-value", f"N={N} f={f!r} {dk}")
    ctx.count("samples", L)


@family("exact", quick=9000, thorough=40000)
def exact(ctx):
    """Integer data, factors that are multiples of 1/16: bitwise."""
    rng = ctx.rng
    N = gen.logint(rng, 4, 5000)
    num = int(rng.integers(17, min(16 * N, 16 * 60) + 1))
    f = num / 16.0
    x = gen.int_data(rng, N, 60)
    ctx.p(N=N, f=f)
    out = downsample(x, f)
    n = (16 * N) // num
    c = np.concatenate(([0], np.cumsum(np.repeat(x.astype(np.int64), 16))))
    e = np.arange(n + 1) * num
    ctx.equal(out.astype(np.float64), np.diff(c[e]) / 16.0, "downsampled-exact", f"N={N} f={f}")
    ctx.check(float(out.astype(np.float64).sum()) == c[e[-1]] / 16.0, "flux-conservation")
    ctx.count("samples", n)


@family("large", quick=32, thorough=300, timeout=120)
def large(ctx):
    """Millions of samples, bitwise."""
    rng = ctx.rng
    N = gen.logint(rng, 100_000, 5_000_000)
    num = int(rng.integers(17, 16 * 60))
    f = num / 16.0
    x = gen.int_data(rng, N, 60)
    if rng.random() < 0.5:
        # any factor: the edges must still be k f far from the start
        f = gen.loguniform(rng, 1.01, 30)
        ctx.p(N=N, f=f)
        out = downsample(x, f)
        exp = ref.downsample(x, f)
        ctx.check(abs(out.size - N / f) <= 1.0, "output-size", f"{out.size} for N={N} f={f!r}")
        L = min(len(exp), out.size)
        t = (f + 4) * ref.EPS32 * ref.downsample(np.abs(x), f)[:L] + (4e-7 + 4e-16 * N) * 60
        ctx.close_to(out[:L], exp[:L], t, "downsampled-value", f"N={N} f={f!r}")
        ctx.count("samples", L)
        return
    ctx.p(N=N, f=f)
    out = downsample(x, f)
    n = (16 * N) // num
    c = np.concatenate(([0], np.cumsum(x.astype(np.int64))))
    e = np.arange(n + 1) * num
    # 16 x cumulative integral at the edges, in sixteenths of a sample
    i, r = e // 16, e % 16
    C = 16 * c[i] + r * np.where(r > 0, x[np.minimum(i, N - 1)].astype(np.int64), 0)
    ctx.equal(out.astype(np.float64), np.diff(C) / 16.0, "downsampled-exact", f"N={N} f={f}")
    ctx.count("samples", n)


@family("compose", quick=1200, thorough=4000)
def compose(ctx):
    """Downsampling by a then b (integers) == downsampling by ab."""
    rng = ctx.rng
    a, b = int(rng.integers(2, 12)), int(rng.integers(2, 12))
    N = a * b * int(rng.integers(1, 60)) + int(rng.integers(0, a * b))
    x = gen.int_data(rng, N)
    ctx.p(N=N, a=a, b=b)
    ctx.equal(downsample(downsample(x, a), b), downsample(x, a * b), "composition")
    ctx.equal(downsample(x, a), x[:N // a * a].reshape(-1, a).sum(axis=1), "integer-factor")
    ts = TimeSeries(x, 0.5)
    d = ts.downsample(a)
    ctx.equal(d.data, downsample(x, a), "time-series-wrapper")
    ctx.check(d.tsamp == a * 0.5 and ts.tsamp == 0.5 and ts.nsamp == N, "sampling-time")
    ctx.count("samples", N // a)


@family("errors", quick=450, thorough=1000)
def errors(ctx):
    rng = ctx.rng
    N = int(rng.integers(1, 200))
    x = gen.noise(rng, N)
    ctx.p(N=N)
    for f in (1.0, 0.5, 0.0, -2.0, float(np.nextafter(N, np.inf)), N + 1.0, 1e300):
        ctx.raises(ValueError, f"accepts-bad-factor", downsample, x, f)
