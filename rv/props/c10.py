"""C10 folding."""
import math

import numpy as np
from riptide import TimeSeries

from rv import gen, ref
from rv.core import Registry

PROP = "C10"
LEVEL = "exploration"
RULE = ("Random (N, tsamp, period, bins, subints) incl. period == length, whole numbers of periods, subints at the limit and "
        "ratios that round badly; float64 folding model, conservation between sub-integration choices, error contract. "
        "Distinct by parameters; non-trivial: >= 2 full periods.")
MIN = {"folds": 3000, "errors_rejected": 300}
family = Registry()


def rand_fold(rng):
    tsamp = gen.pick(rng, [1.0, 1e-3, 256e-6, gen.loguniform(rng, 1e-6, 10)])
    bins = int(rng.integers(2, 12)) if rng.random() < 0.3 else gen.logint(rng, 4, 512)
    mode = gen.pick(rng, ["real", "real", "whole", "whole", "length"])
    if mode == "length":
        N = int(rng.integers(bins + 1, 20 * bins + 2))
        period = N * tsamp
    elif mode == "whole":
        m = int(rng.integers(1, 120))
        k = int(rng.integers(bins + 1, 12 * bins))   # samples per period
        N = m * k
        period = k * tsamp
        if rng.random() < 0.5:
            N = int(rng.integers(bins + 2, 30 * bins))
            m = int(rng.integers(1, 60))
            period = N * tsamp / m
    else:
        ds = gen.loguniform(rng, 1.001, 30)
        period = bins * ds * tsamp
        N = int(gen.loguniform(rng, 1.0, 150) * bins * ds) + 1
    return mode, int(min(N, 200000)), tsamp, float(period), bins


def foldable(N, tsamp, period, bins):
    return period <= N * tsamp and period / bins > tsamp * (1 + 1e-9)


def tolerance(exp, x, N, f, m):
    mx = float(np.abs(x).max()) + 1e-30
    cs = float(np.abs(np.cumsum(x.astype(float))).max())
    return (8 * ref.EPS32 * (f + 2) * math.sqrt(m) * mx + 1e-13 * cs * m + 1e-9 * N * mx * 1e-3) * 1.0 / math.sqrt(max(m * f, 1)) * math.sqrt(m) + 4e-6 * np.abs(exp)


@family("large", quick=100, thorough=1000, timeout=120)
def large(ctx):
    """Long series, thousands of periods or bins."""
    rng = ctx.rng
    N = gen.logint(rng, 100_000, 2_000_000)
    bins = int(gen.pick(rng, [rng.integers(2, 20), rng.integers(20, 500), rng.integers(500, 20000)]))
    ds = gen.loguniform(rng, 1.001, max(1.01, min(200, N / bins / 2)))
    tsamp = gen.pick(rng, [1.0, 1e-3, 64e-6])
    k = int(bins * ds) + 1
    period = (k * tsamp) if rng.random() < 0.3 else float(bins * ds * tsamp)
    value(ctx, ("large", N, tsamp, period, bins))


@family("value", quick=12000, thorough=60000)
def value(ctx, fold=None):
    rng = ctx.rng
    mode, N, tsamp, period, bins = fold or rand_fold(rng)
    dk, x = gen.data_kind(rng, N, gen.pick(rng, ["noise", "int", "ramp", "spike", "offset"]))
    ctx.p(mode=mode, N=N, tsamp=tsamp, period=period, bins=bins)
    if not foldable(N, tsamp, period, bins):
        ctx.trivial()
        return
    fulls = ref.full_periods(N, tsamp, period)
    full = fulls[-1]
    r = N * tsamp / period
    subs = gen.pick(rng, [None, None, 1, full, int(rng.integers(1, full + 1)), int(rng.integers(1, full + 1)), max(1, full - 1)])
    if subs is not None and subs > r:
        subs = max(1, int(r))
    ctx.p(subs=subs, full=full)
    ts = TimeSeries(x, tsamp)
    keep = x.copy()
    out = ts.fold(period, bins, subints=subs)
    ctx.equal(ts.data, keep, "input-modified")
    ctx.check(ts.tsamp == tsamp and ts.metadata["tobs"] == ts.length, "series-modified")
    f = period / tsamp / bins
    shapes = {(bins,) if n == 1 else (n, bins) for n in (fulls if subs is None else [subs])}
    ctx.check(out.shape in shapes, "shape", f"{out.shape} instead of {shapes}: N={N} period/tsamp={period / tsamp!r} bins={bins} subints={subs} full={full}")
    worst = None
    for m in fulls:
        if m < 1 or (subs is not None and subs > m):
            continue
        exp, _ = ref.fold(x, tsamp, period, bins, subs, m)
        if exp.shape != out.shape:
            continue
        tol = tolerance(exp, x, N, f, m)
        if m > 500:
            # the rows are added one by one in single precision
            if exp.ndim == 1:
                rows = ref.fold(x, tsamp, period, bins, None, m)[0]
                tol = tol + 0.6 * ref.EPS32 * np.abs(np.cumsum(rows, axis=0)).sum(axis=0) * np.abs(exp).max() / max(np.abs(rows.sum(axis=0)).max(), 1e-30)
            else:
                tol = tol + ref.EPS32 * (m / len(exp)) * np.abs(exp).max()
        bad = np.abs(out - exp) > tol
        if not bad.any():
            worst = None
            break
        worst = (int(bad.sum()), float(np.abs(out - exp).max()))
    ctx.count("assertions")
    if worst:
        ctx.fail("folded-value", f"{mode} {dk} N={N} period={period!r} tsamp={tsamp!r} bins={bins} subints={subs}: {worst[0]} of {out.size} "
                                 f"elements off, by up to {worst[1]:.3e}")
    ctx.count("folds")
    if full < 2:
        ctx.trivial()


@family("conserve", quick=4500, thorough=20000)
def conserve(ctx):
    """Total profile does not depend on the number of sub-integrations."""
    rng = ctx.rng
    mode, N, tsamp, period, bins = rand_fold(rng)
    ctx.p(mode=mode, N=N, tsamp=tsamp, period=period, bins=bins)
    if not foldable(N, tsamp, period, bins) or N * tsamp / period < 2.0:
        ctx.trivial()
        return
    x = gen.int_data(rng, N)
    ts = TimeSeries(x, tsamp)
    prof = ts.fold(period, bins, subints=1)
    r = N * tsamp / period
    fulls = ref.full_periods(N, tsamp, period)
    full = fulls[0]
    t = tolerance(prof, x, N, period / tsamp / bins, full) * 4 + 1e-4
    for s in {None, 2, max(1, int(r) - 1), int(r), int(rng.integers(1, int(r) + 1))}:
        out = np.atleast_2d(ts.fold(period, bins, subints=s))
        want = fulls if s is None else [s]
        ctx.check(len(out) in want and out.shape[1] == bins, "shape", f"{out.shape}: subints={s} full={full}")
        ctx.close_to(out.sum(axis=0, dtype=np.float64), prof, t, "subints-sum-to-profile", f"subints={s} of {full}")
        ctx.count("folds")


@family("pulse", quick=2400, thorough=8000)
def pulse(ctx):
    """A pulse at phase phi shows up at bin phi*bins in every sub-integration; unit noise stays unit."""
    rng = ctx.rng
    bins = int(rng.integers(8, 200))
    per = bins * gen.loguniform(rng, 1.3, 10)          # samples
    m = int(rng.integers(2, 60))
    N = int(per * m) + 2 + int(rng.integers(0, int(per)))
    phi = rng.uniform(2.0, bins - 2.0) / bins   # away from the row boundaries
    tsamp = gen.loguniform(rng, 1e-5, 1)
    ctx.p(bins=bins, per=per, m=m, N=N, phi=phi)
    t = (phi + np.arange(int(N / per) + 1)) * per
    i = np.floor(t).astype(int)
    i = i[i < N]
    x = np.zeros(N, dtype=np.float32)
    x[i] = 1.0
    out = TimeSeries(x, tsamp).fold(per * tsamp, bins)
    b = int(phi * bins)
    d = (np.arange(bins) - b + bins // 2) % bins - bins // 2
    far = (np.abs(d) > 2)
    ctx.check(np.abs(out[:, far]).max() <= 1e-6, "pulse-smeared", f"phase {phi} of {bins} bins")
    ctx.close_to(out.sum(axis=1), np.full(len(out), (len(out) * per / bins) ** -0.5), 1e-4, "pulse-flux")
    ctx.count("folds")


@family("noise", quick=180, thorough=600)
def noise(ctx):
    """Folded unit white noise has the advertised unit variance (minus regrouping correlation)."""
    rng = ctx.rng
    bins = int(rng.integers(200, 800))
    f = gen.pick(rng, [2.0, 5.0, gen.loguniform(rng, 2, 8)])
    m = int(rng.integers(5, 40))
    N = int(bins * f * m) + 3
    ctx.p(bins=bins, f=f, m=m)
    prof = TimeSeries(gen.noise(rng, N), 1.0).fold(bins * f, bins, subints=1)
    v = ref.downsample_weights_var(N, f) / f
    ratio = float(np.var(prof)) / v
    sd = math.sqrt(2.0 / bins)
    ctx.check(abs(ratio - 1) < 7 * sd, "noise-normalisation", f"profile variance / expected = {ratio:.3f}")
    ctx.count("folds")


@family("errors", quick=360, thorough=800)
def errors(ctx):
    rng = ctx.rng
    bins = int(rng.integers(4, 50))
    N = int(rng.integers(4 * bins, 200 * bins))
    ts = TimeSeries(np.zeros(N, dtype=np.float32), 1.0)
    ctx.p(bins=bins, N=N)
    ctx.raises(ValueError, "accepts-period>length", ts.fold, float(N) * 1.001, bins)
    ctx.raises(ValueError, "accepts-bin<=tsamp", ts.fold, float(bins) * float(rng.uniform(0.3, 1.0)), bins)
    ctx.raises(ValueError, "accepts-bin==tsamp", ts.fold, float(bins), bins)
    per = bins * 1.5
    ctx.raises(ValueError, "accepts-subints<1", ts.fold, per, bins, subints=-int(rng.integers(0, 3)))
    ctx.raises(ValueError, "accepts-too-many-subints", ts.fold, per, bins, subints=int(N / per) + 1 + int(rng.integers(0, 5)))
