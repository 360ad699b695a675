"""C21 peak clustering, ranking and harmonic flagging in the pipeline."""
import math

import numpy as np
from riptide.peak_detection import Peak
from riptide.pipeline.peak_cluster import clusters_to_dataframe
from riptide.pipeline.pipeline import Pipeline

from rv import gen, pipe, ref
from rv.core import Registry

PROP = "C21"
LEVEL = "exploration"
RULE = ("Pipelines prepared on header files with unequal observation lengths are given random populations of peaks (isolated signals seen at many "
        "DMs and widths, dense chains at spacings around the clustering radius, families of harmonics and subharmonics, harmonics of "
        "harmonics), then clustered and flagged; partition, friends-of-friends, ranks and flags are recomputed by brute force. Distinct by "
        "parameters; non-trivial: at least two clusters.")
MIN = {"pipelines": 400, "clusters": 6000, "harmonics": 600, "peaks": 20000, "chained_harmonics": 15}
family = Registry()


def mkpeak(freq, snr, dm, width, ducy):
    return Peak(period=float(1.0 / freq), freq=float(freq), width=int(width), ducy=float(ducy), iw=0, ip=0, snr=float(snr), dm=float(dm))


def population(rng, T, radius, dms):
    """Random peaks, unique S/N."""
    r = radius / T
    out = []
    nsig = int(rng.integers(1, 12)) if rng.random() < 0.95 else 60
    base = []
    for _ in range(nsig):
        kind = gen.pick(rng, ["single", "multi", "multi", "chain", "harm", "harm"])
        f0 = gen.loguniform(rng, 0.05, 8)
        s0 = gen.loguniform(rng, 7, 120)
        du = gen.loguniform(rng, 0.01, 0.2)
        dm = gen.pick(rng, dms)
        if kind == "harm" and base:
            f0, s, du, dm = gen.pick(rng, base)
            p, q = int(rng.integers(1, 12)), int(rng.integers(1, 12))
            f0 = f0 * p / q * (1 + rng.normal() * 0.2 * du / (f0 * T))
            g = math.gcd(p, q)
            s0 = max(6.5, s / math.sqrt(p * q / g / g) + rng.uniform(-2.5, 2.5))
        base.append((f0, s0, du, dm))
        if kind == "single" or kind == "harm":
            out.append((f0, s0, dm, du))
        if kind == "harm" and rng.random() < 0.5:
            # a relative of this relative, too bright or too faint to be related to the first one
            s, sg = s0, gen.pick(rng, [1, -1])
            f, dd = f0, gen.pick(rng, [1.9, 2.6])
            for q in range(2):
                f, s = 2 * f, s / math.sqrt(2) + sg * dd
                if s > 6:
                    out.append((f * (1 + rng.normal() * 0.02 * du / (f * T)), s, dm, du))
        if kind in ("multi", "harm"):
            for _ in range(int(rng.integers(0, 12))):
                out.append((f0 + rng.uniform(-0.45, 0.45) * r, s0 * rng.uniform(0.3, 0.99), gen.pick(rng, dms), du * gen.pick(rng, [0.5, 0.66, 1.5, 2])))
            if kind == "multi":
                out.append((f0, s0, dm, du))
        if kind == "chain":
            f = f0
            for _ in range(int(rng.integers(2, 30))):
                f = f + r * gen.pick(rng, [0.05, 0.5, 0.999, 1.001, 1.5, 0.2])
                out.append((f, s0 * rng.uniform(0.5, 1), gen.pick(rng, dms), du))
    pk = [mkpeak(f, s, d, rng.integers(1, 20), min(u, 0.5)) for f, s, d, u in out]
    seen, uniq = set(), []
    for p in pk:
        if p.snr in seen:
            continue
        seen.add(p.snr)
        uniq.append(p)
    # equal periods at different DMs / widths, as on a real trial grid
    for p in list(uniq):
        if rng.random() < 0.2:
            uniq.append(p._replace(snr=float(p.snr * rng.uniform(0.3, 0.98)), dm=gen.pick(rng, dms)))
    return uniq


def judge(ctx, pl, peaks, T, radius, hf, fmin, fmax):
    cl = pl.clusters
    # --- partition of the peaks
    got = sorted((tuple(p) for c in cl for p in c))
    exp = sorted(tuple(p) for p in peaks)
    ctx.check(len(got) == len(exp), "peaks-lost-or-duplicated", f"{len(got)} peaks in clusters, {len(exp)} given")
    ctx.check(got == exp, "peaks-altered")
    ctx.check(all(len(c) for c in cl), "empty-cluster")
    # --- friends of friends
    f = np.array([p.freq for p in peaks])
    r = radius / T
    d = np.diff(np.sort(f))
    near = np.any(np.abs(d - r) < 1e-9 * r + 1e-15 * f.max())
    if not near:
        g = ref.friends_sorted(f, r)
        a = sorted(sorted(tuple(peaks[i]) for i in x) for x in g)
        b = sorted(sorted(tuple(p) for p in c) for c in cl)
        ctx.check(len(a) == len(b), "number-of-clusters", f"{len(b)} instead of {len(a)}")
        ctx.check(a == b, "clusters-differ")
    else:
        ctx.count("borderline_radius")
    # --- ranks and centres
    for c in cl:
        ctx.check(c.centre.snr == max(p.snr for p in c), "centre-not-brightest")
    order = sorted(cl, key=lambda c: -max(p.snr for p in c))
    ctx.check([c.rank for c in order] == list(range(len(cl))), "ranks", f"{[c.rank for c in order][:20]}")
    # --- harmonic flags
    flagged = {}
    for j, H in enumerate(order):
        for i in range(j):
            F = order[i]
            if i in flagged:
                continue
            rel, frac, margin = ref.harmonic(F.centre, H.centre, T, fmin, fmax, hf["denom_max"], hf["phase_distance_max"],
                                             hf["dm_distance_max"], hf["snr_distance_max"])
            if margin < 1e-6:
                ctx.count("borderline_harmonic")
                return
            if rel:
                flagged[j] = (i, frac)
                break
    for j, H in enumerate(order):
        want = flagged.get(j)
        ctx.check(bool(H.is_harmonic) == (want is not None), "harmonic-flag",
                  f"rank {j}: flagged={H.is_harmonic}, expected {want}")
        if want:
            i, frac = want
            ctx.check(H.parent_fundamental is order[i], "fundamental", f"rank {j}: parent rank {H.parent_fundamental.rank}, expected {i}")
            ctx.check(H.hfrac == frac, "harmonic-fraction", f"rank {j}: {H.hfrac} instead of {frac}")
            ctx.check(not H.parent_fundamental.is_harmonic, "fundamental-is-harmonic")
            ctx.check(H.parent_fundamental.centre.snr >= H.centre.snr, "fundamental-fainter")
            ctx.count("harmonics")
            # would also be related to one of the already flagged clusters
            if any(ref.harmonic(order[k].centre, H.centre, T, fmin, fmax, hf["denom_max"], hf["phase_distance_max"],
                                hf["dm_distance_max"], hf["snr_distance_max"])[0] for k in flagged if k < i):
                ctx.count("chained_harmonics")
    for j in range(len(order)):
        if j not in flagged and any(ref.harmonic(order[k].centre, order[j].centre, T, fmin, fmax, hf["denom_max"],
                                                 hf["phase_distance_max"], hf["dm_distance_max"], hf["snr_distance_max"])[0]
                                    for k in flagged if k < j):
            ctx.count("chained_harmonics")     # harmonic of a harmonic only: must stay unflagged
    ctx.count("judged")
    # --- table
    df = clusters_to_dataframe(pl.clusters)
    ctx.check(list(df.columns) == ["rank", "period", "dm", "snr", "ducy", "freq", "npeaks", "hfrac_num", "hfrac_denom",
                                   "fundamental_rank"], "table-columns", f"{list(df.columns)}")
    ctx.check(len(df) == len(cl), "table-rows")
    for row, c in zip(df.itertuples(index=False), order):
        m = max(c, key=lambda p: p.snr)
        ctx.check((row.rank, row.period, row.dm, row.snr, row.ducy, row.freq, row.npeaks)
                  == (c.rank, m.period, m.dm, m.snr, m.ducy, m.freq, len(c)), "table-values", f"{row}")
        w = flagged.get(c.rank)
        e = (w[1].numerator, w[1].denominator, w[0]) if w else (0, 0, c.rank)
        ctx.check((row.hfrac_num, row.hfrac_denom, row.fundamental_rank) == e, "table-harmonics", f"{row} expected {e}")


@family("populations", quick=1500, thorough=16000)
def populations(ctx):
    rng = ctx.rng
    dms = np.round(np.sort(rng.uniform(0, 100, int(rng.integers(1, 8)))), 2).tolist()
    dms = sorted(set(dms))
    ns = rng.integers(5000, 2_000_000, len(dms)) if rng.random() < 0.6 else np.full(len(dms), 300000)
    tsamp = 1e-3
    files = pipe.inf_only(ctx.scratch, dms, tsamp=tsamp, nsamps=ns)
    radius = gen.loguniform(rng, 0.05, 1.0)
    hf = dict(denom_max=int(gen.pick(rng, [100, 100, 8, 30])), phase_distance_max=float(gen.pick(rng, [1.0, 0.5, 3.0])),
              dm_distance_max=float(gen.pick(rng, [3.0, 30.0, 1000.0])), snr_distance_max=float(gen.pick(rng, [3.0, 1.0, 6.0])))
    conf = gen.small_config(clustering={"radius": radius}, harmonic_flagging=hf)
    pl = Pipeline(conf)
    pl.prepare([files[i] for i in rng.permutation(len(files))])
    T = float(np.median(ns * tsamp))
    fmin, fmax = 1182.1953125, 1182.1953125 + 1024 * 0.390625
    peaks = population(rng, T, radius, dms)
    if rng.random() < 0.25:
        # fast signals: periods that differ by less than a microsecond
        k = gen.loguniform(rng, 20, 3000) / max(p.freq for p in peaks)
        peaks = [p._replace(freq=f, period=1.0 / f) for p in peaks for f in [p.freq * k]]
        for d in np.unique(rng.integers(len(peaks), size=5)):
            p = peaks[int(d)]
            for i in range(1, 12):
                f = p.freq + i * 0.7 * radius / T * (1 if d % 2 else -1)
                peaks.append(p._replace(freq=f, period=1.0 / f, snr=p.snr * (1 - 1e-3 * i)))
    if rng.random() < 0.015:
        # crowded run
        for i in range(int(rng.integers(400, 1600))):
            f = gen.loguniform(rng, 0.05, 8)
            peaks.append(mkpeak(f, float(rng.uniform(2, 6)) + 1e-9 * i, gen.pick(rng, dms), 1, 0.03))
    peaks = [peaks[i] for i in rng.permutation(len(peaks))]
    ctx.p(n=len(peaks), dms=len(dms), T=T, radius=radius, hf=hf, first=peaks[0]._asdict())
    ctx.count("pipelines")
    ctx.count("peaks", len(peaks))
    pipe.feed_search(ctx, pl, peaks)
    peaks = list(pl.peaks)
    pl.cluster_peaks()
    pl.flag_harmonics()
    ctx.count("clusters", len(pl.clusters))
    if len(pl.clusters) < 2:
        ctx.trivial()
    judge(ctx, pl, peaks, T, radius, hf, fmin, fmax)


@family("nothing", quick=4, thorough=10)
def nothing(ctx):
    """No peaks at all is a normal outcome."""
    files = pipe.inf_only(ctx.scratch, [0.0, 10.0])
    pl = Pipeline(gen.small_config())
    pl.prepare(files)
    pl.peaks = []
    pl.cluster_peaks()
    pl.flag_harmonics()
    pl.apply_candidate_filters()
    pl.build_candidates()
    ctx.check(not pl.clusters and not pl.candidates, "something-from-nothing")
    ctx.trivial()
