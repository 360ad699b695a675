"""C05 boxcar S/N = matched filter optimum."""
import numpy as np
import riptide.libcpp as libcpp
from riptide import boxcar_snr

from rv import gen, ref
from rv.core import Registry

PROP = "C05"
LEVEL = "exploration"
RULE = ("Random profiles (2-20000 bins; noise, pulses, offsets, constants), width lists (unsorted, repeated, 1 .. bins-1), "
        "noise levels, array ranks 1-4; oracle: zero-mean unit-norm boxcar template maximised over all phases in float64. "
        "Distinct by (shape, data kind, widths, stdnoise).")
MIN = {"snr_values": 20000, "errors_rejected": 200}
family = Registry()


def tol(prof, widths, std):
    n = prof.shape[-1]
    # float32 prefix sums: absolute error ~ eps * max |prefix sum|
    c = np.abs(np.cumsum(np.concatenate((prof, prof), axis=-1).astype(np.float64), axis=-1)).max(axis=-1)
    w = np.asarray(widths, dtype=float)
    h = np.sqrt((n - w) / (n * w))
    b = w / (n - w) * h
    return (4 * ref.EPS32 * np.asarray(c)[..., None] * (2 * (h + b) + b) / std) + 1e-6


def rand_widths(rng, n, maxn=12):
    k = int(rng.integers(1, min(maxn, n - 1) + 1)) if n > 2 else 1
    w = rng.integers(1, n, size=k)
    if rng.random() < 0.3:
        w[0] = n - 1
    if rng.random() < 0.3:
        w[-1] = 1
    return w


@family("value", quick=4500, thorough=30000)
def value(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 12)) if rng.random() < 0.2 else gen.logint(rng, 4, 3000)
    rank = int(rng.integers(1, 5))
    shape = [int(rng.integers(1, 5)) for _ in range(rank - 1)] + [n]
    dk, x = gen.data_kind(rng, int(np.prod(shape)))
    if rng.random() < 0.4:
        i = int(rng.integers(n))
        x = x.reshape(-1, n)
        w0 = int(rng.integers(1, max(2, n // 3)))
        x[:, (np.arange(w0) + i) % n] += np.float32(gen.loguniform(rng, 1, 100))
    x = x.reshape(shape)
    layout = gen.pick(rng, ["C", "C", "F", "strided", "reversed", "swapped", "float64", "last"])
    if layout == "F":
        x = np.asfortranarray(x)
    elif layout == "strided":
        x = np.repeat(x, 2, axis=int(rng.integers(rank)))
        x = x[tuple(slice(None, None, 2) if x.shape[i] != shape[i] else slice(None) for i in range(rank))]
    elif layout == "reversed":
        x = np.ascontiguousarray(x[..., ::-1])[..., ::-1]
    elif layout == "swapped":
        x = np.ascontiguousarray(np.swapaxes(x, 0, -1)).swapaxes(0, -1)
    elif layout == "float64":
        x = x.astype(np.float64)
    elif layout == "last":
        x = np.asfortranarray(x)[::-1]
    widths = rand_widths(rng, n)
    std = gen.loguniform(rng, 1e-2, 1e2)
    ctx.p(shape=shape, data=dk, layout=layout, widths=widths.tolist(), std=std)
    keep = x.copy()
    out = boxcar_snr(x, widths, std)
    ctx.equal(x, keep, "input-modified")
    ctx.check(out.shape == tuple(shape[:-1]) + (len(widths),), "shape", f"{out.shape}")
    prof = x.reshape(-1, n)
    exp = ref.boxcar_snr(prof, widths, float(np.float32(std))).reshape(out.shape)
    ctx.close_to(out, exp, tol(x, widths, std) + 3e-6 * np.abs(exp), "snr-value", f"{dk} n={n}")
    ctx.count("snr_values", out.size)
    # kernels for one profile / many profiles agree
    one = libcpp.snr1(np.ascontiguousarray(prof[0]), widths.astype(np.uint64), std)
    ctx.close_to(one, out.reshape(-1, len(widths))[0], tol(prof[:1], widths, std)[0], "snr1-vs-snr2")


@family("invariance", quick=2400, thorough=10000)
def invariance(ctx):
    """Rotation, baseline and scale behaviour on exactly representable data."""
    rng = ctx.rng
    n = gen.logint(rng, 4, 1500)
    x = rng.integers(-8, 9, n).astype(np.float32)
    widths = rand_widths(rng, n)
    k = int(rng.integers(1, n))
    off = float(rng.integers(-50, 51))
    ctx.p(n=n, k=k, off=off, widths=widths.tolist())
    a = boxcar_snr(x, widths)
    t = tol(x, widths, 1.0)
    ctx.close_to(boxcar_snr(np.roll(x, k), widths), a, 2 * t, "phase-rotation-invariance", f"k={k} n={n}")
    ctx.close_to(boxcar_snr(x + np.float32(off), widths), a, t + tol(x + np.float32(off), widths, 1.0) + 3e-6 * np.abs(a),
                 "baseline-invariance")
    ctx.close_to(boxcar_snr(4 * x, widths), 4 * a, 8 * t, "scale")
    ctx.close_to(boxcar_snr(x, widths, 4.0), a / 4, t, "noise-scale")
    o = rng.permutation(len(widths))
    ctx.close_to(boxcar_snr(x, widths[o]), a[o], 2 * t[o], "width-order")
    ctx.count("snr_values", 5 * a.size)


@family("boxpulse", quick=1200, thorough=5000)
def boxpulse(ctx):
    """A boxcar pulse is recovered with exactly its matched-filter S/N and by its own width."""
    rng = ctx.rng
    n = gen.logint(rng, 8, 2000)
    w = int(rng.integers(1, max(2, n // 3)))
    amp = float(rng.integers(1, 30))
    ph = int(rng.integers(n))
    x = np.zeros(n, dtype=np.float32)
    x[(ph + np.arange(w)) % n] = amp
    widths = np.unique(np.concatenate(([w], rng.integers(1, n, 6))))
    ctx.p(n=n, w=w, amp=amp, ph=ph)
    out = boxcar_snr(x, widths, 1.0)
    true = amp * np.sqrt(w * (n - w) / n)
    ctx.close_to(out[list(widths).index(w)], true, 1e-5 * true + 1e-5, "matched-filter-snr")
    ctx.check(out.max() <= true * (1 + 1e-5), "best-at-own-width")
    ctx.count("snr_values", out.size)


@family("large", quick=24, thorough=60)
def large(ctx):
    rng = ctx.rng
    n = gen.pick(rng, [200000, 1500000, 3000000])
    x = rng.integers(-3, 4, n).astype(np.float32)
    w = np.concatenate((rng.integers(1, 5000, 2), [int(gen.pick(rng, [n - 1, n // 2, 65535, 65536, 65537, 2**17, 2**17 + 3])), gen.logint(rng, 1, n - 1)]))
    w = w[rng.permutation(4)]
    ctx.p(n=n, w=w.tolist())
    out = boxcar_snr(x, w)
    ctx.close_to(out, ref.boxcar_snr(x[None], w, 1.0)[0], tol(x, w, 1.0) + 1e-4, "snr-large")
    ctx.count("snr_values", 4)


@family("errors", quick=240, thorough=400)
def errors(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 100))
    x = rng.standard_normal(n).astype(np.float32)
    ctx.p(n=n)
    ctx.raises(ValueError, "accepts-width>=bins", boxcar_snr, x, [1, n + int(rng.integers(0, 5))])
    ctx.raises(ValueError, "accepts-width-0", boxcar_snr, x, [0])
    ctx.raises(ValueError, "accepts-width-0-last", boxcar_snr, x, [1, 0])
    bad = np.concatenate((rng.integers(1, n, 3), [gen.pick(rng, [0, n, n + 7])], rng.integers(1, n, 2)))
    ctx.raises(ValueError, "accepts-bad-width-among-others", boxcar_snr, x, bad)
    ctx.raises(ValueError, "snr1-accepts-bad-width-among-others", libcpp.snr1, x, bad.astype(np.uint64), 1.0)
    ctx.raises(ValueError, "accepts-std-nan", boxcar_snr, x, [1], float("nan"))
    ctx.raises(ValueError, "accepts-std-nan", boxcar_snr, x.reshape(1, 1, n), [1], stdnoise=np.float32("nan"))
    ctx.raises(ValueError, "accepts-no-widths", boxcar_snr, x, [])
    ctx.raises(ValueError, "accepts-std<=0", boxcar_snr, x, [1], gen.pick(rng, [0.0, -1.0]))
    ctx.raises(ValueError, "snr1-accepts-width>=bins", libcpp.snr1, x, np.asarray([n], dtype=np.uint64), 1.0)
    ctx.raises(ValueError, "snr1-accepts-std<=0", libcpp.snr1, x, np.asarray([1], dtype=np.uint64), 0.0)


@family("defaults", quick=40, thorough=200)
def defaults(ctx):
    """Options left out have the values of the signature."""
    rng = ctx.rng
    x = gen.noise(rng, int(rng.integers(8, 400)))
    ctx.p(n=len(x))
    ctx.defaults(boxcar_snr, (x, [1, 2, 5]), dict(stdnoise=1.0), np.array_equal)
