"""C09 periodogram values = reference chain; calibrated on noise."""
import math

import numpy as np
import riptide.libcpp as libcpp
from riptide import TimeSeries, ffa_search

from rv import gen, ref
from rv.core import Registry

PROP = "C09"
LEVEL = "exploration"
RULE = ("Random searches (native resolution, real/integer/near-integer downsampling factors, several downsamplings and bin "
        "counts); every S/N recomputed as downsample -> FFA -> boxcar in float64 from independent models; "
        "noise calibration against the exact variance of the regrouping weights. Distinct by parameters.")
MIN = {"snr_values": 500000, "noise_std_checks": 40}
family = Registry()


def rand_search(rng, maxsize):
    bmin = int(rng.integers(4, 20)) if rng.random() < 0.3 else int(rng.integers(16, 80))
    bmax = bmin + int(rng.integers(0, max(2, bmin // 4)))
    tsamp = gen.pick(rng, [1.0, 1e-3, 0.1 + 0.2, gen.loguniform(rng, 1e-5, 1.0)])
    kind = gen.pick(rng, ["native", "int", "near", "real", "real", "one+"])
    if kind == "native":
        ds = 1.0
    elif kind == "int":
        ds = float(rng.integers(2, 12))
    elif kind == "near":
        ds = float(rng.integers(2, 8)) + 10.0 ** -int(rng.integers(4, 14))
    elif kind == "one+":
        ds = 1.0 + gen.loguniform(rng, 1e-6, 3e-2)
    else:
        ds = gen.loguniform(rng, 1.001, 12)
    pmin = ds * tsamp * bmin
    while pmin < tsamp * bmin:
        pmin = float(np.nextafter(pmin, np.inf))
    pmax = pmin * gen.loguniform(rng, 1.05, 6)
    size = int(min(maxsize, gen.loguniform(rng, 3, 150) * bmin * ds)) + 2
    return kind, size, tsamp, float(pmin), float(pmax), bmin, bmax


def model(x, tsamp, widths, pmin, pmax, bmin, bmax):
    """Yields (block, variants of snr, tolerance)"""
    cache = {}
    for bl in ref.search_grid(len(x), tsamp, pmin, pmax, bmin, bmax):
        if bl.rows <= 1:
            continue
        if bl.f not in cache:
            cache.clear()
            near1 = abs(bl.f - 1) < 1e-12
            d = x.astype(np.float64) if near1 else ref.downsample(x, bl.f)
            cache[bl.f] = (d, 1e-12)
        d, _ = cache[bl.f]
        T = ref.ffa(d[:bl.rows * bl.bins].reshape(bl.rows, bl.bins))
        stds = [math.sqrt(bl.rows * v) for v in ref.downsampled_variance(len(x), bl.f)]
        yield bl, T, stds


def block_error(ctx, bl, T, stds, x, amp, widths, P, B, S, pos, k):
    """None if trials pos..pos+k are the first k rows of this transform, else (key, message)."""
    if k < 0 or pos + k > len(P):
        return "block-rows", f"bins={bl.bins} rows={bl.rows}: {k} trials expected, {len(P) - pos} left"
    if np.any(B[pos:pos + k] != bl.bins):
        return "block-bins", f"bins={bl.bins} rows={bl.rows}: {k} trials expected, got bins {np.unique(B[pos:pos + k])}"
    s = np.arange(k)
    per = bl.tau * bl.bins**2 / (bl.bins - s / (bl.rows - 1.0))
    if k and np.abs(P[pos:pos + k] / per - 1).max() > 1e-12:
        return "trial-period", f"bins={bl.bins} rows={bl.rows} f={bl.f!r}"
    got = S[pos:pos + k].astype(np.float64)
    if not np.all(np.isfinite(got)):
        return "snr-value", "S/N not finite"
    best = None
    n = bl.bins
    w = np.asarray(widths, float)
    hb = np.sqrt(n / (w * (n - w)))  # h + b
    for std in stds:
        exp = ref.boxcar_snr(T[:k], widths, std)
        fold = np.abs(T[:k]).max(axis=1)[:, None]
        # float32 error of sums of 'rows' terms, then prefix sums over 'bins' terms
        err = 8 * ref.EPS32 * (math.log2(bl.rows) + 4) * (fold + amp * bl.f) * np.sqrt(n) * hb * np.sqrt(np.minimum(w, n)) / std
        csum = np.abs(np.cumsum(T[:k], axis=1)).max(axis=1)[:, None] * 2
        err = err + 6 * ref.EPS32 * csum * (2 * hb) / std + 2e-5 * np.abs(exp) + 1e-5
        bad = np.abs(got - exp) > err
        nb = int(bad.sum())
        if nb == 0:
            return None
        if best is None or nb < best[0]:
            i = tuple(np.argwhere(bad)[0])
            best = (nb, f"f={bl.f!r} bins={bl.bins} rows={bl.rows} row {i[0]} width {int(widths[i[1]])}: S/N {got[i]!r} instead "
                        f"of {exp[i]!r} (tolerance {err[i]:.2e}; {nb} of {got.size} wrong)")
    return "snr-value", best[1]


def compare(ctx, x, tsamp, widths, pmin, pmax, bmin, bmax, P, B, S):
    # set of positions in the output that are consistent with the blocks seen so far: when the
    # number of rows evaluated sits on a rounding tie, one more or fewer is the same search
    positions = {0}
    amp = float(np.abs(x).max()) + 1e-30
    for bl, T, stds in model(x, tsamp, widths, pmin, pmax, bmin, bmax):
        new, first = set(), None
        for pos in sorted(positions):
            for k in ((bl.nrows, bl.nrows + 1, bl.nrows - 1) if bl.opt else (bl.nrows,)):
                if not 0 <= k <= bl.rows:
                    continue
                e = block_error(ctx, bl, T, stds, x, amp, widths, P, B, S, pos, k)
                if e is None:
                    new.add(pos + k)
                elif first is None:
                    first = e
        ctx.count("assertions")
        if not new:
            ctx.fail(*first)
        ctx.count("snr_values", bl.nrows * len(widths))
        positions = new
    ctx.check(len(P) in positions, "extra-trials", f"{sorted(positions)} vs {len(P)}")


@family("large", quick=48, thorough=500, timeout=200)
def large(ctx):
    """Long observations and fine phase resolution: up to a million samples, hundreds of bins, thousands of periods."""
    rng = ctx.rng
    bmin = int(gen.pick(rng, [240, rng.integers(8, 60), rng.integers(100, 500), rng.integers(1000, 4000)]))
    bmax = bmin + int(rng.integers(0, 3))
    ds = gen.pick(rng, [1.0, 2.0, gen.loguniform(rng, 1.0001, 10)])
    tsamp = gen.pick(rng, [1e-3, 64e-6, 1.0])
    pmin = ds * tsamp * bmin
    while pmin < tsamp * bmin:
        pmin = float(np.nextafter(pmin, np.inf))
    chain(ctx, ("large", gen.logint(rng, 100_000, 700_000), tsamp, float(pmin), float(pmin * (bmin + 1.5) / bmin), bmin, bmax))


@family("chain", quick=900, thorough=5000)
def chain(ctx, search=None):
    rng = ctx.rng
    kind, size, tsamp, pmin, pmax, bmin, bmax = search or rand_search(rng, 30000)
    dk = gen.pick(rng, ["noise", "noise", "int", "walk", "spike", "pulsar"])
    if dk == "pulsar":
        per = gen.loguniform(rng, pmin, min(pmax, size * tsamp / 2 + pmin)) / tsamp
        x = (rng.standard_normal(size) + 3.0 * ((np.arange(size) / per) % 1 < 0.1)).astype(np.float32)
    else:
        _, x = gen.data_kind(rng, size, dk)
    widths = np.unique(rng.integers(1, bmin, int(rng.integers(1, 7))))
    ctx.p(kind=kind, size=size, tsamp=tsamp, pmin=pmin, pmax=pmax, bmin=bmin, bmax=bmax, data=dk, widths=widths.tolist())
    keep = x.copy()
    try:
        P, B, S = libcpp.periodogram(x, tsamp, widths.astype(np.uint64), pmin, pmax, bmin, bmax)
    except (IndexError, ValueError):
        n = sum(b.nrows for b in ref.search_grid(size, tsamp, pmin, pmax, bmin, bmax) if b.rows > 1)
        ctx.check(n <= 1, "valid-search-refused", f"{n} trials expected")
        ctx.trivial()
        return
    ctx.equal(x, keep, "input-modified")
    compare(ctx, x, tsamp, widths, pmin, pmax, bmin, bmax, P, B, S)


@family("search", quick=360, thorough=2000)
def search(ctx):
    """ffa_search: deredden, then normalise, then search; result describes the returned series."""
    rng = ctx.rng
    kind, size, tsamp, pmin, pmax, bmin, bmax = rand_search(rng, 20000)
    size = max(size, 400)
    x = (rng.standard_normal(size) * gen.loguniform(rng, 0.1, 100) + rng.normal() * 50).astype(np.float32)
    dered, norm = bool(rng.random() < 0.6), bool(rng.random() < 0.8)
    how = gen.pick(rng, ["any", "any", "unit-variance", "zero-mean", "both", "counts"])
    if how == "counts":
        x = rng.poisson(gen.loguniform(rng, 1, 200), size).astype(np.float32)
    elif how != "any":
        # series that are partly normalised already
        m, v = x.mean(dtype=np.float64), x.std(dtype=np.float64)
        x = ((x - m) / v * (1.0 if how != "zero-mean" else v) + (gen.pick(rng, [3.0, -0.5, 1e3]) if how == "unit-variance" else 0.0)).astype(np.float32)
    width = float(rng.integers(50, size // 2)) * tsamp
    minpts = int(rng.integers(2, 20)) * 2 + 1
    ctx.p(kind=kind, size=size, pmin=pmin, pmax=pmax, bmin=bmin, bmax=bmax, dered=dered, norm=norm, minpts=minpts)
    ts = TimeSeries(x.copy(), tsamp)
    try:
        tsr, pg = ffa_search(ts, period_min=pmin, period_max=pmax, fpmin=1, bins_min=bmin, bins_max=bmax, ducy_max=0.3,
                             deredden=dered, rmed_width=width, rmed_minpts=minpts, already_normalised=not norm)
    except (IndexError, ValueError):
        n = sum(b.nrows for b in ref.search_grid(size, tsamp, pmin, pmax, bmin, bmax) if b.rows > 1)
        ctx.check(n <= 1, "valid-search-refused", f"{n} trials expected")
        ctx.trivial()
        return
    ctx.equal(ts.data, x, "input-modified")
    e = x.astype(np.float64)
    if dered:
        e = e - ref.fast_running_median(x, int(round(width / tsamp)), minpts)
    if norm:
        e = (e - e.mean()) / e.std()
    scale = float(np.abs(x).max()) / (x.std() if norm else 1.0)
    ctx.close_to(tsr.data, e, 3e-6 * scale + 1e-5 * np.abs(e).max(), "searched-series", f"dered={dered} norm={norm}")
    compare(ctx, np.asarray(tsr.data), tsamp, pg.widths, pmin, pmax, bmin, bmax, pg.periods, pg.foldbins, pg.snrs)


@family("calibration", quick=360, thorough=1500)
def calibration(ctx):
    """The noise level assumed by the S/N matches the true standard deviation
    of a regrouped + folded unit white noise (exact weights)."""
    rng = ctx.rng
    bmin = int(rng.integers(16, 64))
    kind = gen.pick(rng, ["native", "int", "near", "real"])
    f = {"native": 1.0, "int": float(rng.integers(2, 15)), "near": float(rng.integers(2, 9)) + 10.0 ** -int(rng.integers(6, 14)),
         "real": gen.loguniform(rng, 1.05, 15)}[kind]
    size = int(bmin * f * gen.loguniform(rng, 20, 100))
    tsamp = 1e-3
    pmin = f * tsamp * bmin
    while pmin < tsamp * bmin:
        pmin = float(np.nextafter(pmin, 9))
    f = pmin / (tsamp * bmin)          # the factor that search must use
    true = 1.0 if f == 1 else ref.downsample_weights_var(size, f)
    approx = max(ref.downsampled_variance(size, f), key=lambda v: abs(v / true - 1))
    ctx.p(kind=kind, f=f, size=size, bmin=bmin)
    # deterministic signal: unit impulse at every period -> known best S/N per unit noise std
    x = np.zeros(size, dtype=np.float32)
    x[:] = 0
    step = f * bmin
    edges = np.arange(0, size - step, step)
    idx = np.ceil(edges + 0.25 * f).astype(int)
    idx = idx[idx < size]
    x[idx] = 1.0
    w = np.asarray([2], dtype=np.uint64)
    P, B, S = libcpp.periodogram(x, tsamp, w, pmin, pmin * 1.05, bmin, bmin + 3)
    d = x.astype(float) if f == 1 else ref.downsample(x, f)
    rows = len(d) // bmin
    prof = d[:rows * bmin].reshape(rows, bmin).sum(axis=0)
    s1 = ref.boxcar_snr(prof[None], [2], 1.0)[0, 0]
    used_std = s1 / float(S[0, 0])
    true_std = math.sqrt(rows * true)
    # the noise model is an approximation for non-integer factors: allow its own error
    tol = max(0.03, abs(math.sqrt(approx / true) - 1) + 0.01)
    ctx.check(abs(used_std / true_std - 1) <= tol, "noise-calibration",
              f"f={f!r}: S/N assumes noise std {used_std:.5f}, regrouped white noise has {true_std:.5f}")
    ctx.count("noise_std_checks")


@family("whitenoise", quick=72, thorough=300)
def whitenoise(ctx):
    """S/N of pure white noise at a random width and phase-optimal boxcar stays within extreme-value bounds."""
    rng = ctx.rng
    bmin = int(rng.integers(20, 60))
    f = gen.pick(rng, [1.0, 2.0, gen.loguniform(rng, 1.1, 8)])
    size = int(bmin * f * 300)
    ctx.p(bmin=bmin, f=f, size=size)
    ts = TimeSeries(gen.noise(rng, size), 1e-3)
    pmin = max(f * 1e-3 * bmin, 1e-3 * bmin)
    _, pg = ffa_search(ts, period_min=float(np.nextafter(pmin, 9)), period_max=pmin * 4, fpmin=1, bins_min=bmin,
                       bins_max=bmin + 4, deredden=False)
    n = pg.snrs.size * bmin
    # single-trial S/N is a max over phases of unit normals
    lim = math.sqrt(2 * math.log(n)) + 3.0
    ctx.check(pg.snrs.max() < lim, "noise-too-significant", f"max S/N {pg.snrs.max():.2f} > {lim:.2f}")
    med = np.median(pg.snrs[:, 0])
    expect = math.sqrt(2 * math.log(bmin))
    ctx.check(0.55 * expect < med < 1.15 * expect, "noise-snr-scale", f"median S/N of width 1: {med:.2f}, expected about {expect:.2f}")
    ctx.count("snr_values", pg.snrs.size)


def same_search(a, b):
    (t1, g1), (t2, g2) = a, b
    return all(np.array_equal(x, y) for x, y in ((t1.data, t2.data), (g1.periods, g2.periods), (g1.snrs, g2.snrs), (g1.widths, g2.widths),
                                                 (g1.foldbins, g2.foldbins)))


@family("defaults", quick=16, thorough=60, timeout=120)
def defaults(ctx):
    """Options left out have the values of the signature."""
    rng = ctx.rng
    tsamp = float(gen.pick(rng, [3.9e-3, 4e-3, 2.5e-3]))
    n = int(rng.integers(260, 320) / tsamp)   # fpmin = 8 must not cut period_max = 30 s
    x = gen.noise(rng, n) + np.cumsum(gen.noise(rng, n)) * 0.01
    ts = TimeSeries(x, tsamp)
    ctx.p(n=n, tsamp=tsamp)
    ctx.defaults(ffa_search, (ts,), dict(period_min=1.0, period_max=30.0, fpmin=8, bins_min=240, bins_max=260, ducy_max=0.20, wtsp=1.5,
                                         deredden=True, rmed_width=4.0, rmed_minpts=101, already_normalised=False), same_search)
