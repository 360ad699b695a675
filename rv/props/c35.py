"""C35 results do not depend on units, on the origin of phase, or on what else is in the batch."""
import copy
import math
import os
from types import SimpleNamespace

import numpy as np
import riptide
from riptide import TimeSeries, ffa_search, find_peaks
from riptide.clustering import cluster1d
from riptide.libffa import generate_signal
from riptide.pipeline.dmiter import select_dms
from riptide.pipeline.harmonic_testing import htest
from riptide.pipeline.pipeline import Pipeline
from riptide.running_medians import fast_running_median, running_median

from rv import gen, pipe
from rv.core import Registry
from rv.props import c20, c31

PROP = "C35"
LEVEL = "exploration"
RULE = ("Pairs of calls whose inputs differ by a change that must not matter: data multiplied by a power of two (of either sign where the result is linear), "
        "times and frequencies in another unit, phases rotated, rows or widths taken out of a batch, signals added. All scalings are powers of two, hence "
        "exact, and results must be equal bit for bit after conversion; decisions that flip under a relative change of 1e-9 are set aside. Distinct by parameters.")
MIN = {"kernel_pairs": 3000, "search_pairs": 250, "peaks": 600, "decisions": 2000, "selections": 300, "pipeline_pairs": 8, "series_pairs": 600, "groups": 1000}
family = Registry()


def scale(rng, signed=True, lo=-30, hi=31):
    k = 2.0 ** int(rng.integers(lo, hi))
    return -k if signed and rng.random() < 0.4 else k


def f32(x):
    return np.asarray(x, dtype=np.float32)


def widths(rng, p):
    n = int(rng.integers(1, 9))
    return np.unique(np.concatenate([[1], rng.integers(1, max(2, p), size=n)])) if p > 1 else np.array([1])


@family("kernels", quick=1200, thorough=20000)
def kernels(ctx):
    rng = ctx.rng
    m, p = gen.logint(rng, 1, 300), gen.logint(rng, 2, 400)
    x = f32(rng.normal(size=(m, p)) * gen.loguniform(rng, 1e-3, 1e3) + gen.pick(rng, [0, 0, 5, -100]))
    k = scale(rng)
    ctx.p(m=m, p=p, k=k)
    y = f32(x * np.float32(k))
    a = riptide.ffa2(x)
    ctx.equal(riptide.ffa2(y), a * np.float32(k), "ffa-scale", f"x {k}")
    r = int(rng.integers(0, p))
    ctx.equal(riptide.ffa2(np.roll(x, r, axis=1)), np.roll(a, r, axis=1), "ffa-rotation", f"rotated by {r} of {p}")
    ctx.equal(riptide.ffa1(y.ravel(), p), a * np.float32(k), "ffa1-scale")
    # sums of integers are exact: the transform of a sum is the sum of the transforms
    i, j = rng.integers(-50, 51, size=(2, m, p))
    ctx.equal(riptide.ffa2(f32(i + j)), riptide.ffa2(f32(i)) + riptide.ffa2(f32(j)), "ffa-sum")
    # S/N
    w = widths(rng, p)
    w = w[w < p]
    if len(w):
        sd = float(np.float32(gen.loguniform(rng, 1e-3, 1e3)))
        s = riptide.boxcar_snr(x, w, sd)
        kk = abs(k)
        ctx.equal(riptide.boxcar_snr(f32(x * np.float32(kk)), w, sd * kk), s, "snr-scale", f"x {kk}")
        ctx.equal(riptide.boxcar_snr(x, w, sd * kk), s / np.float32(kk), "snr-noise-scale", f"noise x {kk}")
        ii = f32(i)
        si = riptide.boxcar_snr(ii, w, 1.0)
        ctx.equal(riptide.boxcar_snr(np.roll(ii, r, axis=1), w, 1.0), si, "snr-rotation", f"rotated by {r} of {p}")
        # one row, one width
        q, v = int(rng.integers(m)), int(rng.integers(len(w)))
        tol = 1e-5 * np.abs(x).sum(axis=1, dtype=np.float64) / sd
        ctx.close_to(riptide.boxcar_snr(x[q], w, sd), s[q], tol[q], "snr-batch-rows", f"row {q} of {m} alone")
        ctx.close_to(riptide.boxcar_snr(x, w[v:v + 1], sd)[:, 0], s[:, v], tol, "snr-batch-widths", f"width {w[v]} alone")
        o = rng.permutation(m)
        ctx.close_to(riptide.boxcar_snr(x[o], w, sd), s[o], tol[o][:, None], "snr-row-order")
    # one dimension
    z = x.ravel()
    n = len(z)
    if n > 4:
        f = float(rng.uniform(1, max(1.5, n / 3))) if rng.random() < 0.8 else float(rng.integers(2, max(3, n // 2)))
        if f > 1:
            ctx.equal(riptide.downsample(y.ravel(), f), riptide.downsample(z, f) * np.float32(k), "downsample-scale", f"factor {f}")
            if f < n / 2 and f == int(f):
                g, h = i.ravel(), j.ravel()
                ctx.equal(riptide.downsample(f32(g + h), f), riptide.downsample(f32(g), f) + riptide.downsample(f32(h), f), "downsample-sum", f"factor {f}")
        z, yz, i = z[:4000], y.ravel()[:4000], i.ravel()[:4000]
        n = len(z)
        wd = 2 * int(rng.integers(0, max(1, (n - 1) // 2))) + 1
        wd = min(wd, int(gen.pick(rng, [51, 301, 801])))
        if wd < n:
            b = running_median(z, wd)
            ctx.equal(running_median(yz, wd), b * np.float32(k), "median-scale", f"width {wd}")
            ctx.equal(running_median(z[::-1], wd)[::-1], b, "median-reversed", f"width {wd}")
            c = float(rng.integers(-500, 501))
            g = f32(i)
            ctx.equal(running_median(f32(g + c), wd), running_median(g, wd) + np.float32(c), "median-offset", f"width {wd}")
            mp = gen.pick(rng, [3, 5, 11, 21, 101])
            if mp <= wd and n // max(1, wd // mp) > mp:
                ctx.equal(fast_running_median(yz, wd, mp), fast_running_median(z, wd, mp) * np.float32(k), "fast-median-scale", f"width {wd} points {mp}")
    ctx.count("kernel_pairs", 3)


@family("series", quick=700, thorough=10000)
def series(ctx):
    rng = ctx.rng
    n = gen.logint(rng, 200, 20000)
    tsamp = gen.loguniform(rng, 1e-5, 1.0)
    x = f32(rng.normal(size=n) * gen.loguniform(rng, 0.01, 100) + gen.pick(rng, [0, 3, -40]) + gen.pick(rng, [0, 1]) * np.cumsum(rng.normal(size=n)) * 0.05)
    k, u = scale(rng), scale(rng, signed=False, lo=-36, hi=37)
    ctx.p(n=n, tsamp=tsamp, k=k, u=u)
    a = TimeSeries.from_numpy_array(x, tsamp)
    b = TimeSeries.from_numpy_array(f32(x * np.float32(k)), tsamp * u)
    kk, sg = np.float32(k), np.float32(np.sign(k))
    ctx.equal(b.length, a.length * u, "length")
    ctx.equal(b.tsamp, a.tsamp * u, "tsamp")
    ctx.equal(b.normalise().data, a.normalise().data * sg, "normalise-scale", f"x {k}")
    w = tsamp * float(rng.uniform(1, n / 3))
    mp = gen.pick(rng, [11, 51, 101, 201])
    ctx.equal(b.deredden(w * u, minpts=mp).data, a.deredden(w, minpts=mp).data * kk, "deredden-units", f"window {w / tsamp} samples, minpts {mp}")
    f = float(rng.uniform(1.01, min(50, n / 4)))
    c, d = a.downsample(f), b.downsample(f)
    ctx.equal(d.data, c.data * kk, "downsample-scale", f"factor {f}")
    ctx.equal(d.tsamp, c.tsamp * u, "downsample-tsamp")
    bins = int(rng.integers(2, 129))
    lo, hi = bins * 1.001 * tsamp, a.length / 2
    if lo < hi:
        P = gen.loguniform(rng, lo, hi)
        full = int(a.length / P * (1 - 1e-9))
        si = gen.pick(rng, [None, 1, int(rng.integers(1, full + 1))]) if full >= 1 else 1
        A, B = a.fold(P, bins, subints=si), b.fold(P * u, bins, subints=si)
        ctx.equal(B, A * kk, "fold-units", f"period {P / tsamp} samples, {bins} bins, {si} subints")
        ctx.count("folds")
    # generated signals
    s = int(rng.integers(2**31))
    T, P = a.length, gen.loguniform(rng, 3 * tsamp, max(4 * tsamp, a.length / 2))
    amp, sd, ph, du = gen.loguniform(rng, 0.1, 1e3), gen.pick(rng, [0.0, gen.loguniform(rng, 0.1, 10)]), float(rng.uniform(-1, 2)), gen.loguniform(rng, 0.005, 0.4)
    ka = abs(k)
    np.random.seed(s)
    A = TimeSeries.generate(T, tsamp, P, phi0=ph, ducy=du, amplitude=amp, stdnoise=sd)
    np.random.seed(s)
    B = TimeSeries.generate(T * u, tsamp * u, P * u, phi0=ph, ducy=du, amplitude=amp * ka, stdnoise=sd * ka)
    ctx.close_to(B.data / np.float64(ka), A.data, 1e-36 / min(ka, 1.0), "generate-units", f"amplitude {amp} noise {sd}")   # equal above the denormals
    np.random.seed(s)
    C = TimeSeries.generate(T, tsamp, P, phi0=ph + int(rng.integers(-3, 4)), ducy=du, amplitude=amp, stdnoise=sd)
    ctx.close_to(C.data, A.data, 1e-4 * amp + 1e-6 * np.abs(A.data), "generate-turns", "whole turns of the initial phase")
    # a pulse train that starts j samples later is the same train shifted
    j = int(rng.integers(1, max(2, n // 10)))
    np.random.seed(s)
    one = generate_signal(n, P / tsamp, phi0=ph, ducy=du, amplitude=1.0, stdnoise=0.0)
    two = generate_signal(n, P / tsamp, phi0=ph + j * tsamp / P, ducy=du, amplitude=1.0, stdnoise=0.0)
    i0, i1 = np.asarray(one, float)[:n - j], np.asarray(two, float)[j:]
    if i0.max() > 0:
        g = i0.max() / i1.max() if i1.max() > 0 else 0.0
        ctx.close_to(i1 * g, i0, 2e-3 * i0.max(), "generate-shift", f"delay of {j} samples, period {P / tsamp}")
    ctx.count("series_pairs")


def search_pair(ctx):
    rng = ctx.rng
    n = gen.logint(rng, 3000, 60000)
    tsamp = float(gen.loguniform(rng, 1e-4, 1e-2))
    T = n * tsamp
    bmin = int(rng.integers(16, 100))
    bmax = bmin + int(rng.integers(1, 12))
    pmin = gen.loguniform(rng, bmin * tsamp * 1.01, max(bmin * tsamp * 1.2, T / 20))
    pmax = min(pmin * float(rng.uniform(1.1, 6)), T / 4)
    if pmax <= pmin:
        pmax = pmin * 1.2
    P = float(rng.uniform(pmin, pmax))
    x = rng.normal(size=n) * gen.loguniform(rng, 0.1, 30)
    for h in range(int(rng.integers(0, 3))):
        t = (np.arange(n) * tsamp / (P * (h + 1)) + rng.random()) % 1.0
        x = x + x.std() * gen.loguniform(rng, 0.1, 2) * (t < 0.08)
    if rng.random() < 0.5:
        x = x + np.cumsum(rng.normal(size=n)) * 0.02 * x.std()
    kw = dict(period_min=pmin, period_max=pmax, bins_min=bmin, bins_max=bmax, ducy_max=float(rng.uniform(0.05, 0.45)), wtsp=float(rng.uniform(1.2, 2.5)),
              rmed_width=float(min(rng.uniform(1.5, 10) * pmax, T / 3)), rmed_minpts=int(gen.pick(rng, [21, 51, 101])), fpmin=int(gen.pick(rng, [1, 3, 8])),
              deredden=bool(rng.random() < 0.7), already_normalised=bool(rng.random() < 0.1))
    return f32(x), tsamp, kw


@family("search", quick=160, thorough=3000, timeout=120)
def search(ctx):
    rng = ctx.rng
    x, tsamp, kw = search_pair(ctx)
    k, u = scale(rng, signed=False), scale(rng, signed=False, lo=-30, hi=31)
    if kw["already_normalised"]:
        k = 1.0
    ctx.p(n=len(x), tsamp=tsamp, k=k, u=u, **kw)
    a, pa = ffa_search(TimeSeries.from_numpy_array(x, tsamp), **kw)
    kw2 = dict(kw, period_min=kw["period_min"] * u, period_max=kw["period_max"] * u, rmed_width=kw["rmed_width"] * u)
    b, pb = ffa_search(TimeSeries.from_numpy_array(f32(x * np.float32(k)), tsamp * u), **kw2)
    ctx.equal(b.data, a.data, "prepared-data", f"data x {k}, time x {u}")
    ctx.equal(pb.periods, pa.periods * u, "periods", f"time x {u}")
    ctx.equal(pb.foldbins, pa.foldbins, "foldbins")
    ctx.equal(pb.widths, pa.widths, "widths")
    ctx.equal(pb.snrs, pa.snrs, "snrs", f"data x {k}, time x {u}")
    ctx.equal(pb.freqs, pa.freqs / u, "freqs")
    ctx.equal(pb.tobs, pa.tobs * u, "tobs")
    # a level added to the data hardly matters
    if not kw["already_normalised"]:
        lev = float(x.std()) * float(rng.uniform(-20, 20))
        _, pc = ffa_search(TimeSeries.from_numpy_array(f32(x.astype(np.float64) + lev), tsamp), **kw)
        tol = 2e-3 * (1 + np.abs(pa.snrs))
        ctx.close_to(pc.snrs, pa.snrs, tol, "level", f"level {lev}")
    # narrower widths are those of the search with more of them
    dm = kw["ducy_max"] * float(rng.uniform(0.3, 1.0))
    if dm * kw["bins_min"] >= 1:
        _, pd = ffa_search(TimeSeries.from_numpy_array(x, tsamp), **dict(kw, ducy_max=dm))
        q = len(pd.widths)
        ctx.equal(pd.widths, pa.widths[:q], "fewer-widths")
        ctx.equal(pd.snrs, pa.snrs[:, :q], "fewer-widths-snr", f"ducy_max {dm} instead of {kw['ducy_max']}")
    # peaks
    fk = dict(smin=float(rng.uniform(3, 7)), segwidth=float(rng.uniform(3, 10)), nstd=float(rng.uniform(3, 7)), minseg=int(rng.integers(3, 20)),
              polydeg=int(rng.integers(1, 4)), clrad=gen.loguniform(rng, 0.05, 2))
    ctx.p(find=fk)
    A, ca = find_peaks(pa, **fk)
    B, cb = find_peaks(pb, **fk)
    ka, kb = {(q.ip, q.iw): q for q in A}, {(q.ip, q.iw): q for q in B}
    for key in ka.keys() | kb.keys():
        if key in ka and key in kb:
            q, v = ka[key], kb[key]
            ctx.check(q.snr == v.snr and q.width == v.width and q.ducy == v.ducy and q.dm == v.dm, "peak-attributes", f"{q} {v}")
            ctx.check(v.period == q.period * u and abs(v.freq * u - q.freq) <= 1e-12 * q.freq, "peak-units", f"{q} {v} with times x {u}")
            continue
        ip, iw = key
        thr = []
        for pg, co in ((pa, ca), (pb, cb)):
            c = co.get(iw, None) if isinstance(co, dict) else co[iw]
            thr.append(max(fk["smin"], float(np.polyval(np.atleast_1d(c), math.log(pg.freqs[ip])))) if c is not None and len(np.atleast_1d(c)) else fk["smin"])
        s = float(pa.snrs[ip, iw])
        near = any(abs(s - t) < 1e-3 * (1 + abs(t)) for t in thr)
        ctx.check(near, "peaks-depend-on-units", f"peak {ka.get(key) or kb.get(key)} in one of the searches only, thresholds {thr}")
        ctx.count("borderline")
    ctx.count("peaks", len(A))
    ctx.count("search_pairs", 2)


@family("clusters", quick=700, thorough=10000)
def clusters(ctx):
    rng = ctx.rng
    n = gen.logint(rng, 1, 400)
    kind = gen.pick(rng, ["uniform", "grid", "lumps", "log"])
    x = {"uniform": lambda: rng.uniform(0, 1, n), "grid": lambda: rng.integers(0, 40, n) * 0.125, "lumps": lambda: rng.choice(rng.uniform(0, 10, 5), n) + rng.normal(size=n) * 0.01,
         "log": lambda: 10 ** rng.uniform(-3, 3, n)}[kind]()
    r = gen.pick(rng, [gen.loguniform(rng, 1e-4, 1), 0.125])
    k = scale(rng)
    ctx.p(n=n, kind=kind, r=r, k=k)

    def groups(c):
        return sorted(tuple(sorted(int(i) for i in g)) for g in c)
    a = groups(cluster1d(x, r))
    ctx.equal(len(groups(cluster1d(x * k, r * abs(k)))), len(a), "cluster-units")
    ctx.check(groups(cluster1d(x * k, r * abs(k))) == a, "cluster-units", f"positions and radius x {k}")
    o = rng.permutation(n)
    ctx.check(groups([o[np.asarray(g)] for g in cluster1d(x[o], r)]) == a, "cluster-order", "permuted")
    s = np.argsort(x, kind="stable")
    ctx.check(groups([s[np.asarray(g)] for g in cluster1d(x[s], r, already_sorted=True)]) == a, "cluster-sorted")
    # a larger radius only merges
    big = groups(cluster1d(x, r * float(rng.uniform(1, 3))))
    where = {i: t for t, g in enumerate(big) for i in g}
    ctx.check(all(len({where[i] for i in g}) == 1 for g in a), "cluster-radius", "a larger radius splits a cluster")
    ctx.count("groups", len(a))


@family("harmonics", quick=2500, thorough=40000)
def harmonics(ctx):
    rng = ctx.rng
    F, H, T, fb, ft, kw = c20.pair(rng)
    u = scale(rng, signed=False, lo=-24, hi=25)   # times x u
    a = 2.0 ** int(rng.integers(-3, 4))         # band x a
    ctx.p(F=vars(F), H=vars(H), T=T, fb=fb, ft=ft, u=u, a=a, **kw)

    def conv(X, e=1.0):
        # pulse widths scale with u, so must the DM delays: DM x u x a^2
        return c20.aspeak(SimpleNamespace(freq=X.freq / u, snr=X.snr, ducy=X.ducy, dm=X.dm * u * a * a))

    def ask(e=1.0, one=False):
        k2 = dict(kw, **{q: kw[q] * e for q in ("phase_distance_max", "dm_distance_max", "snr_distance_max")})
        if one:
            return htest(c20.aspeak(F), c20.aspeak(H), T, fb, ft, **k2)
        return htest(conv(F), conv(H), T * u, fb * a, ft * a, **k2)
    x, y = ask(one=True), ask()
    same = x[0] == y[0] and x[1] == y[1]
    if not same:
        # a rounding matter?
        alt = [ask(e, True) for e in (1 - 1e-7, 1 + 1e-7)]
        ctx.check(alt[0][0] != alt[1][0], "harmonic-units", f"{x[:2]} and {y[:2]} with times x {u}, band x {a}")
        ctx.count("borderline")
    ctx.count("related", int(bool(x[0])))
    ctx.count("decisions")


@family("dm-units", quick=400, thorough=6000)
def dm_units(ctx):
    rng = ctx.rng
    n = gen.logint(rng, 1, 120)
    dms = np.unique(np.round(np.cumsum(rng.exponential(size=n) * gen.loguniform(rng, 0.05, 5)) - rng.choice([0, 1]), 4))
    dms = dms[dms >= 0] if np.any(dms >= 0) else np.array([0.0])
    fmin = float(rng.uniform(200, 1500))
    fmax = fmin + float(rng.uniform(20, 800))
    nch = gen.logint(rng, 1, 4096)
    wmin = gen.loguniform(rng, 1e-4, 0.1)
    lo, hi = float(dms[0]), float(dms[-1])
    u, a = scale(rng, signed=False, lo=-24, hi=25), 2.0 ** int(rng.integers(-2, 3))
    ctx.p(n=len(dms), fmin=fmin, fmax=fmax, nch=nch, wmin=wmin, u=u, a=a)

    def ask(d, lo, hi, f0, f1, w):
        return np.asarray(select_dms(d, lo, hi, f0, f1, nch, w), float)
    x = ask(dms, lo, hi, fmin, fmax, wmin)
    c = u * a * a
    y = ask(dms * c, lo * c, hi * c, fmin * a, fmax * a, wmin * u)
    if not np.array_equal(y, x * c):
        alt = [ask(dms, lo, hi, fmin, fmax, wmin * e) for e in (1 - 1e-7, 1 + 1e-7)]
        ctx.check(not np.array_equal(*alt), "selection-units", f"{x[:10]} and {(y / c)[:10]} with times x {u}, band x {a}")
        ctx.count("borderline")
    o = rng.permutation(len(dms))
    ctx.equal(ask(dms[o], lo, hi, fmin, fmax, wmin), x, "selection-order")
    ctx.equal(np.sort(ask(dms, lo, hi, fmin, fmax, wmin)), x, "selection-sorted")
    ctx.count("selections")


def write_copy(ctx, ds, name, k, u, a, c):
    """The same observation: data x k, times x u, frequencies of the band x a, DMs x c."""
    d = os.path.join(ctx.scratch, name)
    os.makedirs(d)
    out = {}
    for f0, dm, ts in zip(ds.filelist(), ds.dms, ds.tsamps):
        x = f32(ds.data[dm] * np.float32(k))
        base = os.path.splitext(os.path.basename(f0))[0]
        if ds.fmt == "presto":
            kw = {q: v * a for q, v in (("fbot", ds.band["fbot"]), ("cbw", ds.band["cbw"]), ("bandwidth", ds.band["bandwidth"]))}
            out[dm] = gen.write_presto(d, base, x, ts * u, dm * c, **kw)
        else:
            out[dm] = gen.write_sigproc(os.path.join(d, base + ".tim"), x, ts * u, dm * c)
    return out


def row(p, u=1.0, c=1.0):
    return (p.dm / c, p.iw, p.ip, p.snr, p.period / u, p.width, p.ducy)


@family("pipeline", quick=40, thorough=400, timeout=300)
def pipeline(ctx):
    """The whole pipeline on the same observation in other units, with the configuration in these units."""
    rng = ctx.rng
    ds, band, (fmin, fmax, nch), tmed = c31.rand_data(ctx, 5)
    if ds.fmt == "presto":
        ds.band = dict(fbot=fmin, cbw=(fmax - fmin) / 1024, bandwidth=fmax - fmin)
    conf = c31.rand_conf(ctx, max(ds.tsamps), ds.fmt, band)
    conf["dmselect"] = dict(min=None, max=None, dmsinb_max=None)
    k = scale(rng, signed=False, lo=-12, hi=13)
    u, a = gen.pick(rng, [(1.0, 1.0), (scale(rng, signed=False, lo=-16, hi=17), 2.0 ** int(rng.integers(-2, 3)))])
    c = u * a * a
    ctx.p(conf=conf, k=k, u=u, a=a)
    conf2 = copy.deepcopy(conf)
    for r in conf2["ranges"]:
        for q in ("period_min", "period_max"):
            r["ffa_search"][q] *= u
    conf2["dereddening"]["rmed_width"] *= u
    for q in ("dm_min",):
        if conf2["candidate_filters"].get(q) is not None:
            conf2["candidate_filters"][q] *= c
    if ds.fmt == "sigproc":
        conf2["data"].update(fmin=fmin * a, fmax=fmax * a)
    A, B = Pipeline(conf), Pipeline(conf2)
    outs = []
    for pl, files, n in ((A, write_copy(ctx, ds, "a", 1.0, 1.0, 1.0, 1.0), "oa"), (B, write_copy(ctx, ds, "b", k, u, a, c), "ob")):
        out = os.path.join(ctx.scratch, n)
        os.makedirs(out)
        pl.process(list(files.values()), out)
        outs.append(out)
    ctx.count("pipeline_pairs")
    if [d * c for d in A.dmiter.selected_dms] != [float(d) for d in B.dmiter.selected_dms]:
        w = A.wmin()
        alt = [np.asarray(select_dms(np.asarray(ds.dms), min(ds.dms), max(ds.dms), fmin, fmax, nch, w * e)).tolist() for e in (1 - 1e-7, 1 + 1e-7)]
        ctx.check(alt[0] != alt[1], "pipeline-selection-units", f"{A.dmiter.selected_dms} {B.dmiter.selected_dms}")
        ctx.count("borderline")
        return
    pa, pb = sorted(row(p) for p in A.peaks), sorted(row(p, u, c) for p in B.peaks)
    ctx.count("pipeline_peaks", len(pa))
    if pa != pb:
        diff = set(pa) ^ set(pb)
        st = {}
        for r in diff:
            dm = r[0]
            if dm not in st:
                st[dm] = c31.stages(ds, dm, conf)
            near = [c31.near_threshold(SimpleNamespace(snr=r[3], iw=r[1], freq=1 / r[4]), po, smin) for (pk, po, smin), rg in zip(st[dm], conf["ranges"])
                    if rg["ffa_search"]["period_min"] * 0.99 <= r[4] <= rg["ffa_search"]["period_max"] * 1.01 and r[1] in po]
            ctx.check(any(near), "pipeline-units", f"peak (dm, iw, ip, snr, period, width, ducy) {r} in one of the runs only; data x {k}, time x {u}, band x {a}")
        ctx.count("borderline")
        return
    if not pa:
        ctx.trivial()

    def groups(pl, u, c):
        return sorted(sorted(row(p, u, c) for p in cl) for cl in pl.clusters)
    ga, gb = groups(A, 1.0, 1.0), groups(B, u, c)
    ctx.check(ga == gb, "pipeline-clusters-units", f"{len(ga)} and {len(gb)} clusters; time x {u}")

    def flags(pl, u, c):
        # brightest peaks of equal S/N may be ranked either way
        return sorted((row(cl.centre, u, c), bool(cl.is_harmonic), str(cl.hfrac)) for cl in pl.clusters)
    fa, fb = flags(A, 1.0, 1.0), flags(B, u, c)
    ctx.check(u != 1.0 or a != 1.0 or fa == fb, "pipeline-flags-gain", f"{fa[:3]} {fb[:3]}")
    if fa != fb:
        ctx.count("borderline_flags")
        return
    snrs = [cl.centre.snr for cl in A.clusters]
    if len(set(snrs)) < len(snrs):
        ctx.count("ties")
        return
    ctx.check(len(A.candidates) == len(B.candidates), "pipeline-candidates-units", f"{len(A.candidates)} and {len(B.candidates)} candidates")
    for x, y in zip(A.candidates, B.candidates):
        P, Q = x.params, y.params
        ctx.check(P["period"] * u == Q["period"] and P["dm"] * c == Q["dm"] and P["snr"] == Q["snr"] and P["width"] == Q["width"], "pipeline-candidates-units", f"{P} {Q}")
        ctx.equal(y.subints, x.subints, "pipeline-subints-units", f"data x {k}, time x {u}")
        ctx.count("candidates")
    ctx.check(pipe.listing(outs[0]) == pipe.listing(outs[1]), "pipeline-files-units", f"{pipe.listing(outs[0])} {pipe.listing(outs[1])}")
