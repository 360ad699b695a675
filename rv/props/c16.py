"""C16 peak detection."""
import math

import numpy as np
from riptide import Metadata, Periodogram, TimeSeries, ffa_search, find_peaks

from rv import gen, ref
from rv.core import Registry

PROP = "C16"
LEVEL = "exploration"
RULE = ("Periodograms from real searches and synthetic ones (noise, trends, injected peaks, plateaus, ties, few trials); the dynamic "
        "threshold and the clusters of significant points are recomputed by an independent implementation and the list of peaks must be "
        "exactly the maxima of these clusters with correct attributes. Distinct by parameters; non-trivial: >= 1 expected peak.")
MIN = {"periodograms": 500, "peaks": 2000, "width_trials": 3000}
family = Registry()


def expected(f, s, T, smin, segwidth, nstd, minseg, polydeg, clrad):
    """Returns list of (set of acceptable peak indices), and indices whose status is a rounding matter."""
    m = max(1, math.ceil(abs(f[-1] - f[0]) / (segwidth / T)))
    p = len(f) // m
    if p == 0:
        return None
    fc, tc = [], []
    for k in range(m):
        seg = np.sort(s[k * p:(k + 1) * p])

        def pct(q):
            h = (p - 1) * q
            lo = int(math.floor(h))
            hi = min(lo + 1, p - 1)
            return seg[lo] + (h - lo) * (seg[hi] - seg[lo])
        med = pct(0.5)
        fc.append(np.median(f[k * p:(k + 1) * p]))
        tc.append(med + nstd * (pct(0.75) - pct(0.25)) / 1.349)
    fc, tc = np.asarray(fc), np.asarray(tc)
    if m >= minseg:
        # least squares in centred, scaled log(f)
        L = np.log(fc)
        c, sc = L.mean(), max(np.ptp(L), 1e-12)
        A = ((L - c) / sc)[:, None] ** np.arange(polydeg + 1)[None]
        co = np.linalg.lstsq(A, tc, rcond=None)[0]
        thr = (((np.log(f) - c) / sc)[:, None] ** np.arange(polydeg + 1)[None]) @ co
    else:
        thr = np.full(len(f), smin)
    fit = 1e-8 * float(np.abs(tc).max()) if m >= minseg else 0.0      # rounding of a fit whose largest point is that high
    tol = 1e-6 * (1 + np.abs(thr)) + fit
    sure = (s > thr + tol) & (s > smin)
    maybe = (s > thr - tol) & (s > smin)
    return sure, maybe, m, clrad / T, thr, m >= minseg, fit


def clusters(idx, f, r):
    return [idx[g] for g in ref.friends_sorted(f[idx], r)] if len(idx) else []


def judge(ctx, pg, peaks, polys, kw):
    T, dm = pg.metadata["tobs"], pg.metadata["dm"]
    f = 1.0 / pg.periods
    ctx.check(all(a.snr >= b.snr for a, b in zip(peaks, peaks[1:])), "peaks-not-sorted")
    ctx.check(set(polys) == set(range(len(pg.widths))), "threshold-coefficients")
    for iw, w in enumerate(pg.widths):
        s = pg.snrs[:, iw].astype(float)
        mine = [p for p in peaks if p.iw == iw]
        e = expected(f, s, T, **kw)
        ctx.count("width_trials")
        if e is None:
            ctx.check(not mine, "peaks-from-nothing")
            continue
        sure, maybe, m, r, thr, fitted, fit = e
        # the coefficients handed out describe that threshold
        co = np.atleast_1d(np.asarray(polys[iw], dtype=float))
        ctx.close_to(np.polyval(co, np.log(f)), thr, 1e-5 * (1 + np.abs(thr)) + 10 * fit, "threshold-polynomial", f"width {w}, {m} segments")
        ctx.count("fitted_thresholds" if fitted else "static_thresholds")
        # attributes
        for p in mine:
            ctx.check(0 <= p.ip < len(f), "peak-index")
            ctx.check(p.snr == s[p.ip] and type(p.snr) is float, "peak-snr", f"{p.snr} / {s[p.ip]}")
            ctx.check(abs(p.freq / f[p.ip] - 1) < 1e-14 and abs(p.period * f[p.ip] - 1) < 1e-14, "peak-frequency")
            ctx.check(p.width == w and type(p.width) is int, "peak-width")
            ctx.check(abs(p.ducy - float(w) / float(pg.foldbins[p.ip])) < 1e-12, "peak-ducy", f"{p.ducy}")
            ctx.check(p.dm == dm, "peak-dm")
            ctx.check(maybe[p.ip], "peak-below-threshold", f"S/N {p.snr} at trial {p.ip}, width {w}")
            ctx.count("peaks")
        got = sorted(p.ip for p in mine)
        ctx.check(len(set(got)) == len(got), "duplicate-peaks")
        # exact clusters when no point is borderline; in general between the sure and the maybe clusterings
        cl = clusters(np.where(maybe)[0], f, r)
        exact = np.array_equal(sure, maybe)
        # distances equal to the radius within rounding can go either way
        o = np.sort(f[maybe])
        d = np.diff(o)
        exact = exact and not np.any(np.abs(d - r) < 1e-9 * r + 4e-16 * np.abs(o[1:]))
        if exact:
            ctx.check(len(mine) == len(cl), "number-of-peaks", f"width {w}: {len(mine)} peaks, {len(cl)} expected "
                      f"(segments={m}, points above threshold={int(sure.sum())})")
            peaks_at = np.zeros(len(f), dtype=bool)
            peaks_at[got] = True
            for c in cl:
                best = s[c].max()
                hit = c[peaks_at[c]].tolist()
                ctx.check(len(hit) == 1 and s[hit[0]] == best, "peak-not-cluster-maximum",
                          f"width {w}: cluster of {len(c)} points with maximum {best}; peaks {[(i, s[i]) for i in hit]}")
            ctx.count("exact")
        else:
            ctx.count("borderline")


def rand_kw(rng):
    return dict(smin=float(rng.uniform(3, 9)), segwidth=float(rng.uniform(1, 15)) if rng.random() < 0.85 else gen.loguniform(rng, 15, 1e5), nstd=float(rng.uniform(2, 9)),
                minseg=int(rng.integers(1, 20)) if rng.random() < 0.8 else int(rng.integers(1, 3)), polydeg=int(rng.integers(0, 4)), clrad=float(rng.uniform(0.01, 1.0)))


DEFAULTS = dict(smin=6.0, segwidth=5.0, nstd=6.0, minseg=10, polydeg=2, clrad=0.1)


@family("large", quick=32, thorough=300, timeout=120)
def large(ctx):
    synthetic(ctx, gen.logint(ctx.rng, 50_000, 600_000))


@family("synthetic", quick=1800, thorough=16000)
def synthetic(ctx, size=None):
    rng = ctx.rng
    n = size or (gen.logint(rng, 1, 4000) if rng.random() < 0.9 else int(rng.integers(1, 6)))
    T = gen.loguniform(rng, 10, 1e4)
    f0 = gen.loguniform(rng, 0.01, 50)
    df = gen.loguniform(rng, 0.003, 0.5) / T
    f = f0 + df * np.arange(n)[::-1]
    if rng.random() < 0.3:
        f = f + rng.uniform(-0.3, 0.3, n) * df
    nw = int(rng.integers(1, 5))
    s = np.abs(rng.standard_normal((n, nw))) * 0.8 + 2.5
    s += (rng.normal() * np.log(f / f0) * 0.3)[:, None]
    for _ in range(int(rng.integers(0, 12))):
        c, a, wd = int(rng.integers(n)), gen.loguniform(rng, 3, 60 if rng.random() < 0.8 else 1e5), gen.loguniform(rng, 0.5, 20)
        s += (a * np.exp(-0.5 * ((np.arange(n) - c) / wd) ** 2))[:, None] * rng.uniform(0.3, 1, nw)[None]
    if rng.random() < 0.25:
        s = np.round(s)          # many ties
    kw = rand_kw(rng) if rng.random() < 0.7 else dict(DEFAULTS)
    # one segment must hold at least one trial, else thresholds are undefined
    m = max(1, math.ceil(abs(f[-1] - f[0]) / (kw["segwidth"] / T)))
    if n // m < 1 or (m >= kw["minseg"] and m <= kw["polydeg"]):
        kw = dict(DEFAULTS, minseg=10**6 if n // max(1, math.ceil(abs(f[-1] - f[0]) / (5.0 / T))) < 1 else 10)
    # a polynomial of high degree over a very narrow span of log(f) is not determined in double precision
    span = float(np.log(f[0] / f[-1]))
    while kw["polydeg"] > 1 and (span / max(1.0, float(np.abs(np.log(f)).max()))) ** kw["polydeg"] < 1e-6:
        kw["polydeg"] -= 1
    if rng.random() < 0.2:
        kw["clrad"] = float(df * T * int(rng.integers(1, 4)))
    widths = np.sort(rng.choice(np.arange(1, 60), nw, replace=False))
    if rng.random() < 0.3:
        widths = rng.permutation(widths)
    ctx.p(n=n, T=T, f0=f0, df=df, nw=nw, kw=kw)
    pg = Periodogram(widths, 1.0 / f, np.full(n, int(rng.integers(60, 300)), dtype=np.uint32), s.astype(np.float32),
                     metadata=Metadata({"tobs": T, "dm": gen.pick(rng, [None, 0.0, 12.5])}))
    keep = pg.snrs.copy(), pg.periods.copy()
    peaks, polys = find_peaks(pg, **kw) if kw != DEFAULTS else find_peaks(pg)
    ctx.check(np.array_equal(keep[0], pg.snrs) and np.array_equal(keep[1], pg.periods), "periodogram-modified")
    judge(ctx, pg, peaks, polys, kw)
    ctx.count("periodograms")
    if not peaks:
        ctx.trivial()


@family("search", quick=360, thorough=3000)
def search(ctx):
    rng = ctx.rng
    per = float(rng.uniform(0.1, 0.8))
    n = int(rng.integers(15000, 40000))
    amp = gen.pick(rng, [0.0, 1.0, 3.0, 20.0])
    x = gen.noise(rng, n) + amp * ((np.arange(n) * 1e-3 / per) % 1 < 0.04)
    ts = TimeSeries(x, 1e-3, metadata={"dm": 5.0})
    tsr, pg = ffa_search(ts, period_min=0.06, period_max=float(rng.uniform(0.5, 2)), bins_min=32, bins_max=36, rmed_width=2.0)
    kw = rand_kw(rng) if rng.random() < 0.6 else dict(DEFAULTS)
    if rng.random() < 0.3:
        kw["minseg"] = 10**6    # static threshold
    m = math.ceil(abs(pg.freqs[-1] - pg.freqs[0]) / (kw["segwidth"] / pg.tobs))
    if kw["minseg"] <= m <= kw["polydeg"]:
        kw["polydeg"] = 0       # a polynomial needs as many points as coefficients
    ctx.p(per=per, n=n, amp=amp, kw=kw)
    peaks, polys = find_peaks(pg, **kw)
    judge(ctx, pg, peaks, polys, kw)
    ctx.count("periodograms")
    if amp > 2.5 and not (kw["smin"] > 20):
        best = float(pg.snrs.max())
        i, j = np.unravel_index(int(pg.snrs.argmax()), pg.snrs.shape)
        if best > 4 * kw["smin"] and kw["minseg"] > 10**5:
            ctx.check(peaks and peaks[0].snr == best, "brightest-trial-not-a-peak", f"{best} / {peaks[:1]}")
    if not peaks:
        ctx.trivial()
