"""C08 the trial grid of a search."""
import math

import numpy as np
import riptide.libcpp as libcpp
from riptide import TimeSeries, ffa_search
from riptide.ffautils import generate_width_trials

from rv import gen, ref
from rv.core import Registry

PROP = "C08"
LEVEL = "exploration"
RULE = ("Random (size, tsamp, period range, bins range) incl. searches at native resolution, many downsamplings, ranges "
        "cut by the end of the data, sub-octave ranges; every trial compared with an independent grid model, plus "
        "model-free ordering / range / gap-freeness checks. Distinct by parameters; non-trivial: >= 10 trials.")
MIN = {"trials": 500000, "searches": 300, "errors_rejected": 300}
family = Registry()


def rand_search(rng, cheap=False):
    bmin = gen.logint(rng, 2, 40) if rng.random() < 0.3 else int(rng.integers(16, 300))
    bmax = bmin + (0 if rng.random() < 0.1 else int(rng.integers(1, max(2, bmin // 4 + 2))))
    tsamp = gen.loguniform(rng, 1e-5, 1.0)
    native = rng.random()
    if native < 0.25:
        ds = 1.0
    elif native < 0.5:
        ds = float(rng.integers(1, 6))
    else:
        ds = gen.loguniform(rng, 1.0, 20.0)
    pmin = ds * tsamp * bmin
    while pmin < tsamp * bmin:
        pmin = np.nextafter(pmin, np.inf)
    span = gen.loguniform(rng, 1.02, 20)
    if rng.random() < 0.15:
        # the end of the range a hair beside the end of a downsampling cycle
        geo = (bmax + 1.0) / bmin
        span = max(1.0 + 1e-6, geo ** max(1, round(math.log(span) / math.log(geo))) * (1 + float(rng.choice([-1, 1, 1])) * 10.0 ** -float(rng.uniform(2, 9))))
    pmax = pmin * span
    periods = gen.loguniform(rng, 1.2, 300)   # number of shortest periods in the data
    size = int(periods * bmin * ds) + 1
    size = int(min(size, 60000 if cheap else 300000))
    return size, tsamp, float(pmin), float(pmax), bmin, bmax


def guarded(ctx, args, fn):
    """A search that has no trial at all may be refused with an error."""
    n = sum(b.nrows for b in ref.search_grid(*args) if b.rows > 1)
    try:
        return fn()
    except (IndexError, ValueError) as e:
        ctx.check(n <= 1, "valid-search-refused", f"{type(e).__name__}: {e}; {n} trials expected")
        ctx.count("empty_searches")
        ctx.trivial()
        return None


def check_grid(ctx, size, tsamp, pmin, pmax, bmin, bmax, periods, foldbins):
    blocks = ref.search_grid(size, tsamp, pmin, pmax, bmin, bmax)
    n = len(periods)
    ctx.check(len(foldbins) == n, "foldbins-length")
    T = size * tsamp
    # ---- model-free part
    if n:
        ctx.check(np.all(np.isfinite(periods)), "period-not-finite")
        ctx.check(np.all(periods[1:] >= periods[:-1] * (1 - 1e-12)), "periods-not-increasing",
                  f"{n} trials")
        ctx.check(periods[0] >= pmin * (1 - 1e-12), "period-below-range", f"{periods[0]!r} < {pmin!r}")
        ctx.check(periods[-1] <= pmax * (1 + 1e-12), "period-above-range", f"{periods[-1]!r} > {pmax!r}")
        ctx.check(foldbins.min() >= bmin and foldbins.max() <= bmax, "foldbins-out-of-range",
                  f"{foldbins.min()}..{foldbins.max()} not in {bmin}..{bmax}")
        ctx.check(periods[-1] <= T * (1 + 1e-9), "period-longer-than-data")
        # resolution: consecutive trials drift apart by at most one phase bin over the data
        b = foldbins.astype(float)
        tau = periods / b   # bin width within 1 part in bins
        # true rows are known only to the model; one-bin drift bound holds with rows >= floor(T / period)
        rows = np.floor(T / periods * (1 - 1e-12))
        ok = rows[:-1] >= 3
        df = 1 / periods[:-1] - 1 / periods[1:]
        lim = 1.0 / (periods[:-1] * np.maximum((rows[:-1] - 2), 1.0)) / b[:-1] * (1 + 2.0 / b[:-1]) * 1.02
        if ok.any():
            ctx.check(np.all(df[ok] <= lim[ok]), "gap-in-trial-periods",
                      f"gap at {periods[:-1][ok][np.argmax(df[ok] - lim[ok])]!r}")
        if T / pmin >= 4:
            ctx.check(periods[0] <= pmin * (1 + 1e-12), "range-start-not-covered", f"{periods[0]!r} vs {pmin!r}")
        if T / pmax >= 4:
            r = math.floor(T / pmax) - 2
            ctx.check(periods[-1] >= pmax * (1 - 1.5 / (foldbins[-1] * max(r, 1)) ), "range-end-not-covered",
                      f"last {periods[-1]!r} of {pmax!r}")
    else:
        ctx.check(T / pmin < 2.5 or pmax / pmin < 1 + 1e-9, "no-trials")
    # ---- model: set of output positions consistent with the transforms so far (one row more
    # or fewer is the same search when the row count sits on a rounding tie)
    positions = {0}
    for bi, bl in enumerate(blocks):
        if bl.rows == 1:
            continue
        new, err = set(), None
        for pos in sorted(positions):
            for k in ((bl.nrows, bl.nrows + 1, bl.nrows - 1) if bl.opt else (bl.nrows,)):
                if not 0 <= k <= bl.rows:
                    continue
                if pos + k > n:
                    err = err or ("trials-missing", f"block f={bl.f!r} bins={bl.bins} rows={bl.rows}: {n - pos} of {k} trials")
                elif np.any(foldbins[pos:pos + k] != bl.bins):
                    err = err or ("foldbins-value", f"block {bi}: {k} trials of {bl.bins} bins, got {np.unique(foldbins[pos:pos + k])}")
                elif k and np.abs(periods[pos:pos + k] / bl.periods(k) - 1).max() > 1e-12:
                    err = err or ("trial-period", f"block {bi} bins={bl.bins} rows={bl.rows} f={bl.f!r}")
                else:
                    new.add(pos + k)
        ctx.count("assertions")
        if not new:
            ctx.fail(*err)
        positions = new
    ctx.check(n in positions, "extra-trials", f"{n} trials, {sorted(positions)} expected")
    ctx.count("trials", n)
    ctx.count("transforms", len(blocks))
    ctx.count("searches")
    if n < 10:
        ctx.trivial()


@family("grid", quick=1500, thorough=6000)
def grid(ctx):
    size, tsamp, pmin, pmax, bmin, bmax = rand_search(ctx.rng)
    ctx.p(size=size, tsamp=tsamp, pmin=pmin, pmax=pmax, bmin=bmin, bmax=bmax)
    r = guarded(ctx, (size, tsamp, pmin, pmax, bmin, bmax), lambda: libcpp.periodogram(
        np.zeros(size, dtype=np.float32), tsamp, np.asarray([1], dtype=np.uint64), pmin, pmax, bmin, bmax))
    if r is None:
        return
    P, B, S = r
    ctx.check(S.shape == (len(P), 1), "snr-shape")
    check_grid(ctx, size, tsamp, pmin, pmax, bmin, bmax, P, B)


@family("long", quick=5, thorough=40, timeout=200)
def long(ctx):
    """Tens of millions of samples: counts beyond what 32-bit floats hold."""
    rng = ctx.rng
    size = int(rng.integers(17_000_000, 36_000_000))
    tsamp = float(gen.pick(rng, [64e-6, 1e-3, 1.0]))
    bmin = int(rng.integers(40, 400))
    bmax = bmin + int(rng.integers(0, 3))
    ds = float(gen.pick(rng, [1.0, 1.0, rng.uniform(1.0, 1.6)]))
    pmin = ds * tsamp * bmin
    while pmin < tsamp * bmin:
        pmin = float(np.nextafter(pmin, np.inf))
    pmax = pmin * float(rng.uniform(1.0005, 1.01))
    ctx.p(size=size, tsamp=tsamp, pmin=pmin, pmax=pmax, bmin=bmin, bmax=bmax)
    P, B, S = libcpp.periodogram(np.zeros(size, dtype=np.float32), tsamp, np.asarray([1], dtype=np.uint64), pmin, pmax, bmin, bmax)
    check_grid(ctx, size, tsamp, pmin, pmax, bmin, bmax, P, B)
    ctx.count("long_searches")


@family("search", quick=450, thorough=2000)
def search(ctx):
    """Through the public search call, with its width trials."""
    rng = ctx.rng
    size, tsamp, pmin, pmax, bmin, bmax = rand_search(rng, cheap=True)
    ducy, wtsp = float(rng.uniform(0.02, 0.9)), gen.pick(rng, [1.5, 1.1, 2.0, float(rng.uniform(1.01, 4))])
    ctx.p(size=size, tsamp=tsamp, pmin=pmin, pmax=pmax, bmin=bmin, bmax=bmax, ducy=ducy, wtsp=wtsp)
    if int(ducy * bmin) >= bmin:
        ducy = 0.2
    ts = TimeSeries(gen.noise(rng, size), tsamp, metadata={"dm": 1.5})
    r = guarded(ctx, (size, tsamp, pmin, pmax, bmin, bmax), lambda: ffa_search(
        ts, period_min=pmin, period_max=pmax, fpmin=1, bins_min=bmin, bins_max=bmax,
        ducy_max=ducy, wtsp=wtsp, deredden=False))
    if r is None:
        return
    tsr, pg = r
    w = ref.width_trials(bmin, ducy, wtsp)
    ctx.equal(pg.widths, w, "width-trials")
    ctx.check(pg.snrs.shape == (len(pg.periods), len(w)), "snr-shape", f"{pg.snrs.shape}")
    ctx.check(np.all(np.isfinite(pg.snrs)), "snr-not-finite")
    ctx.equal(pg.freqs, 1.0 / pg.periods, "freqs")
    ctx.check(abs(pg.tobs - size * tsamp) <= 1e-12 * pg.tobs, "tobs")
    ctx.check(pg.metadata["dm"] == 1.5 and tsr.metadata["dm"] == 1.5, "metadata-carried")
    check_grid(ctx, size, tsamp, pmin, pmax, bmin, bmax, pg.periods, pg.foldbins)


@family("widths", quick=1200, thorough=4000)
def widths(ctx):
    rng = ctx.rng
    n, d, g = gen.logint(rng, 1, 5000), float(rng.uniform(0.001, 1.0)), float(rng.uniform(1.001, 5))
    if rng.random() < 0.3:
        d, g = gen.pick(rng, [0.2, 0.3, 0.5, 0.1]), gen.pick(rng, [1.5, 1.2, 2.0, 3.0])
    ctx.p(n=n, d=d, g=g)
    w = generate_width_trials(n, ducy_max=d, wtsp=g)
    ctx.equal(w, ref.width_trials(n, d, g), "width-trials", f"nbins={n} ducy_max={d} wtsp={g}")
    ctx.check(w[0] == 1 and np.all(np.diff(w) >= 1), "widths-increasing-from-1")
    ctx.check(w[-1] <= max(1, d * n), "width-above-ducy-max")
    ctx.check(np.all(w[1:] <= np.maximum(w[:-1] + 1, g * w[:-1])), "width-spacing")
    nxt = max(w[-1] + 1, int(g * w[-1]))
    ctx.check(nxt > int(max(1, d * n)), "width-trials-stop-early")
    ctx.count("width_lists")


@family("errors", quick=180, thorough=400)
def errors(ctx):
    rng = ctx.rng
    x = np.zeros(int(rng.integers(500, 5000)), dtype=np.float32)
    w = np.asarray([1, 2], dtype=np.uint64)
    b = int(rng.integers(8, 40))
    pm = b * 1e-3 * float(rng.uniform(1.01, 3))
    ctx.p(n=len(x), b=b, pm=pm)

    def call(tsamp=1e-3, widths=w, pmin=pm, pmax=3 * pm, bmin=b, bmax=b + 4):
        return libcpp.periodogram(x, tsamp, widths, pmin, pmax, bmin, bmax)
    call()
    for key, kw in (("tsamp<=0", dict(tsamp=0.0)), ("tsamp<0", dict(tsamp=-1e-3)), ("pmin<=0", dict(pmin=0.0)),
                    ("pmax<=pmin", dict(pmax=pm)), ("pmax<pmin", dict(pmax=pm / 2)), ("bins_min<=1", dict(bmin=1)),
                    ("bins_max<bins_min", dict(bmax=b - 1)), ("bins too fine", dict(pmin=b * 1e-3 * 0.99)),
                    ("width 0", dict(widths=np.asarray([0], dtype=np.uint64))),
                    ("width >= bins", dict(widths=np.asarray([1, b], dtype=np.uint64))),
                    ("no widths", dict(widths=np.zeros(0, dtype=np.uint64)))):
        ctx.raises(ValueError, "accepts-" + key, call, **kw)


@family("fpmin", quick=8, thorough=40)
def fpmin(ctx):
    """Documented cap: period_max <= length / fpmin."""
    rng = ctx.rng
    fp = int(rng.integers(2, 12))
    T = 20.0
    ts = TimeSeries(gen.noise(rng, 20000), 1e-3)
    pmax = min(0.9 * T / 2, T / fp * float(rng.uniform(1.3, 3.0)))
    ctx.p(fp=fp, pmax=pmax)
    _, pg = ffa_search(ts, period_min=0.5, period_max=pmax, fpmin=fp, bins_min=20, bins_max=24, deredden=False)
    ctx.check_soft(pg.periods.max() <= T / fp * (1 + 1e-9), "fpmin-cap-not-applied",
                   f"fpmin={fp}: trials up to {pg.periods.max():.4f} s although length / fpmin = {T / fp:.4f} s")
    ctx.count("fpmin_cases")


@family("defaults", quick=60, thorough=300)
def defaults(ctx):
    """Options left out have the values of the signature."""
    rng = ctx.rng
    n = gen.logint(rng, 10, 3000)
    ctx.p(n=n)
    ctx.defaults(generate_width_trials, (n,), dict(ducy_max=0.20, wtsp=1.5), lambda a, b: len(a) == len(b) and np.all(np.asarray(a) == np.asarray(b)))
