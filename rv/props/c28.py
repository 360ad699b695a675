"""C28 content of the candidates."""
import os

import numpy as np
from riptide import TimeSeries, load_json
from riptide.pipeline.pipeline import Pipeline

from rv import gen, pipe, ref
from rv.core import Registry
from rv.props.c21 import mkpeak

PROP = "C28"
LEVEL = "exploration"
RULE = ("Candidates are built by the pipeline from real DM trials (every trial with its own data) for peak populations in one to four search "
        "ranges with different bins and sub-integrations, with periods on range edges, below the first and above the last range, long periods with "
        "fewer rotations than sub-integrations; each is compared with a model folding of the trial it must come from, and its parameters, "
        "metadata, peak table, profile and DM curve with its cluster. Distinct by parameters; every case builds at least one candidate.")
MIN = {"candidates": 1200, "edge_period": 60, "few_rotations": 60, "blank_subints": 100, "dm_curve_points": 2000}
family = Registry()


def the_range(ranges, P):
    if P < ranges[0]["ffa_search"]["period_min"]:
        return ranges[0]
    for r in ranges:
        if r["ffa_search"]["period_min"] <= P < r["ffa_search"]["period_max"]:
            return r
    return ranges[-1]


def expected_shapes(P, T, N, tsamp, bins, subints):
    """List of (subints or None, full) acceptable."""
    out = []
    for full in ref.full_periods(N, tsamp, P):
        s = subints
        if s is not None:
            near = abs(s * P / T - 1) < 1e-9
            opts = [None if s * P >= T else s]
            if near:
                opts = [None, s]
        else:
            opts = [None]
        for o in opts:
            if o is None or o <= full:
                out.append((o, full))
    return out


def judge_candidate(ctx, c, cl, ds, trials, ranges):
    m = max(cl, key=lambda p: p.snr)
    ctx.check(c.params == dict(period=m.period, freq=m.freq, dm=m.dm, width=m.width, ducy=m.ducy, snr=m.snr), "parameters", f"{c.params} / {m}")
    ts = trials[m.dm]
    # metadata
    ctx.check(c.tsmeta["dm"] == m.dm and os.path.realpath(c.tsmeta["fname"]) == os.path.realpath(ds.files[m.dm])
              and abs(c.tsmeta["tobs"] - ts.length) < 1e-9 and c.tsmeta["tsamp"] == ts.tsamp, "metadata",
              f"{c.tsmeta['dm']} {c.tsmeta['fname']}")
    # peak table
    a = sorted((r.period, r.freq, r.dm, r.width, r.ducy, r.snr) for r in c.peaks.itertuples(index=False))
    b = sorted((p.period, p.freq, p.dm, p.width, p.ducy, p.snr) for p in cl)
    ctx.check(a == b, "peak-table", f"{len(a)} rows, {len(b)} peaks in the cluster")
    # DM curve
    d, s = c.dm_curve
    best = {}
    for p in cl:
        best[p.dm] = max(best.get(p.dm, -1), p.snr)
    ctx.check(list(map(float, d)) == sorted(best) and list(map(float, s)) == [best[k] for k in sorted(best)], "dm-curve", f"{d} {s} / {best}")
    ctx.count("dm_curve_points", len(best))
    # folded data
    rg = the_range(ranges, m.period)
    bins, sub = rg["candidates"]["bins"], rg["candidates"]["subints"]
    X = np.asarray(c.subints)
    ok, why = False, []
    for o, full in expected_shapes(m.period, ts.length, ts.nsamp, ts.tsamp, bins, sub):
        e, _ = ref.fold(ts.data, ts.tsamp, m.period, bins, o, full)
        if X.shape != e.shape:
            why.append(f"shape {X.shape} instead of {e.shape}")
            continue
        err = float(np.abs(X - e).max())
        if err <= 2e-3 * (1 + np.abs(e).max()):
            ok = True
            break
        why.append(f"max error {err:.3g}, folded std {e.std():.3g}")
    ctx.check(ok, "folded-data", f"P={m.period!r} DM={m.dm} range {rg['name']} bins={bins} subints={sub}: {why}")
    prof = X if X.ndim == 1 else X.sum(axis=0)
    ctx.check(c.profile.shape == (bins,), "profile-shape", f"{c.profile.shape}")
    ctx.check(np.allclose(c.profile, prof, atol=1e-4 * (1 + np.abs(prof).max())), "profile")
    ctx.count("candidates")
    if sub is None:
        ctx.count("blank_subints")
    elif sub * m.period >= ts.length:
        ctx.count("few_rotations")


@family("built", quick=220, thorough=3000, timeout=200)
def built(ctx):
    rng = ctx.rng
    nd = int(rng.integers(1, 5))
    T = float(gen.pick(rng, [6.0, 9.0, 12.345]))
    close = rng.random() < 0.3
    # low frequencies: trials a few hundredths apart are all needed
    same = rng.random() < 0.3     # range names need not differ
    dms, kw = ([0.0, 12.5, 25.0, 60.0], {}) if not close else ([1.0, 1.02, 1.04, 1.25], dict(fbot=60.0, bandwidth=20.0, nchan=20000, cbw=0.001))
    if close and rng.random() < 0.4:
        # trials told apart by the last digits only
        dms, kw = [1.0, 1.0000004, 1.0000013, 1.00003], dict(fbot=0.1, bandwidth=0.02, nchan=200000, cbw=1e-7)
    ds = pipe.Dataset(ctx.scratch, rng, dms[:nd], T=T, **kw, red=float(gen.pick(rng, [0, 3.0])),
                      pulsars=[dict(amp=30.0, dm=12.5, width=20.0, period=0.21)])
    nr = int(rng.integers(1, 5))
    edges = np.geomspace(0.06, 2.5, nr + 1)
    ranges = []
    for i in range(nr):
        ranges.append(gen.small_range(float(edges[i]), float(edges[i + 1]), 32, 36, int(rng.integers(16, 60)),
                                      gen.pick(rng, [1, 2, 3, 8, 16, 64, None]), "r" if same else f"r{i}"))
    rw, rp = float(gen.pick(rng, [1.0, 2.0, 0.5])), int(gen.pick(rng, [101, 51, 501]))
    pl = Pipeline(gen.small_config(ranges, processes=1, dereddening=dict(rmed_width=rw, rmed_minpts=rp)))
    pl.prepare([ds.filelist()[i] for i in rng.permutation(nd)])
    dms = [float(d) for d in pl.dmiter.selected_dms]
    if close:
        ctx.count("close_dms", len(dms) > 1)
    peaks, n = [], int(rng.integers(2, 14))
    snrs = rng.permutation(7 + 0.77 * np.arange(3 * n))
    for i in range(n):
        k = gen.pick(rng, ["in", "in", "in", "edge", "above", "below", "long"])
        P = gen.loguniform(rng, edges[0], edges[-1])
        if k == "edge":
            # the exact upper edge, its neighbours
            P = float(gen.pick(rng, list(edges)))
            P = float(gen.pick(rng, [P, np.nextafter(P, 0), np.nextafter(P, 9)]))
            ctx.count("edge_period")
        elif k == "above":
            P = float(edges[-1] * rng.uniform(1.0, 1.05))
        elif k == "below":
            P = float(edges[0] * rng.uniform(0.995, 1.0))
        elif k == "long":
            P = float(rng.uniform(edges[-1] * 0.8, edges[-1]))
        if P / 60 < ds.tsamp:
            P = 0.0601
        pk = mkpeak(1 / P, snrs[3 * i], gen.pick(rng, dms), int(rng.integers(1, 7)), rng.uniform(0.03, 0.2))
        peaks.append(pk._replace(period=P))
        for j in (1, 2):
            if rng.random() < 0.5:
                peaks.append(mkpeak(1 / P + rng.uniform(-0.1, 0.1) * 0.2 / T, snrs[3 * i + j], gen.pick(rng, dms), int(rng.integers(1, 7)), 0.05))
    peaks = sorted(peaks, key=lambda p: p.period)
    ctx.p(nd=nd, T=T, edges=edges.tolist(), n=n, bins=[r["candidates"] for r in ranges], rw=rw, rp=rp, P=[p.period for p in peaks])
    pl.peaks = peaks
    pl.cluster_peaks()
    pl.flag_harmonics()
    pl.apply_candidate_filters()
    pl.build_candidates()
    trials = {d: TimeSeries.from_presto_inf(ds.files[d]).deredden(rw, minpts=rp).normalise() for d in ds.dms}
    by = {max(p.snr for p in c): c for c in pl.clusters}
    ctx.check(len(pl.candidates) == len(by), "number-of-candidates", f"{len(pl.candidates)} / {len(by)}")
    for c in pl.candidates:
        judge_candidate(ctx, c, by[c.params["snr"]], ds, trials, ranges)


@family("found", quick=24, thorough=300, timeout=200)
def found(ctx):
    """A real search: the candidate files of a pulsar, read back from disk."""
    rng = ctx.rng
    P = gen.loguniform(rng, 0.06, 0.7)
    nd = int(rng.integers(1, 5))
    ds = pipe.Dataset(ctx.scratch, rng, np.arange(nd) * 11.0, T=12.0,
                      pulsars=[dict(amp=30.0, dm=11.0 * int(rng.integers(nd)), width=11.0, period=P, phase=float(rng.random()))])
    ranges = [gen.small_range(0.05, 0.2, 32, 36, 40, 8, "a"), gen.small_range(0.2, 0.8, 32, 36, 56, 5, "b")]
    pl = Pipeline(gen.small_config(ranges, processes=2))
    out = os.path.join(ctx.scratch, "out")
    os.makedirs(out)
    pl.process(ds.filelist(), out)
    ctx.p(P=P, nd=nd)
    ctx.check(pl.candidates, "no-candidates")
    trials = {d: TimeSeries.from_presto_inf(ds.files[d]).deredden(2.0, minpts=101).normalise() for d in ds.dms}
    by = {max(p.snr for p in c): c for c in pl.clusters}
    for k in range(len(pl.candidates)):
        c = load_json(os.path.join(out, f"candidate_{k:04d}.json"))
        ctx.check(c.params["snr"] in by, "candidate-unknown")
        judge_candidate(ctx, c, by[c.params["snr"]], ds, trials, ranges)
    # the folded profile really shows the pulse
    c = load_json(os.path.join(out, "candidate_0000.json"))
    pr = c.profile - np.median(c.profile)
    ctx.check(abs(c.params["freq"] * P - 1) * 12.0 / P < 0.5 and pr.max() > 8, "pulse-not-in-profile", f"{c.params} max {pr.max()}")
