"""C22 candidate filters."""
import numpy as np
from riptide.pipeline.pipeline import Pipeline

from rv import gen, pipe
from rv.core import Registry
from rv.props.c21 import mkpeak, population

PROP = "C22"
LEVEL = "exploration"
RULE = ("Clusters made by the pipeline from random peak populations are filtered under random combinations of the filters (thresholds on, just "
        "above and just below values present, blank filters, caps smaller and larger than the number of clusters, zero thresholds, S/N "
        "increasing or decreasing with period); the surviving clusters are recomputed, and candidates are built from real data files and "
        "matched one to one. Distinct by parameters; non-trivial: at least one cluster removed and one kept.")
MIN = {"filtered": 1000, "kept": 3000, "removed": 3000, "capped": 150, "candidates": 250, "threshold_equal": 150}
family = Registry()


def expected(clusters, flt):
    keep = list(clusters)
    if flt["dm_min"] is not None:
        keep = [c for c in keep if max(c, key=lambda p: p.snr).dm >= flt["dm_min"]]
    if flt["snr_min"] is not None:
        keep = [c for c in keep if max(p.snr for p in c) >= flt["snr_min"]]
    if flt["remove_harmonics"]:
        keep = [c for c in keep if c.parent_fundamental is None]
    capped = False
    if flt["max_number"] is not None and len(keep) > flt["max_number"]:
        keep = sorted(keep, key=lambda c: -max(p.snr for p in c))[:flt["max_number"]]
        capped = True
    return keep, capped


def rand_filters(ctx, clusters):
    rng = ctx.rng
    snrs = [max(p.snr for p in c) for c in clusters]
    dms = [max(c, key=lambda p: p.snr).dm for c in clusters]

    def thr(vals):
        k = gen.pick(rng, ["none", "value", "above", "below", "random", "zero", "huge"])
        v = float(gen.pick(rng, vals))
        if k == "value":
            ctx.count("threshold_equal")
        return {"none": None, "value": v, "above": float(np.nextafter(v, np.inf)), "below": float(np.nextafter(v, -np.inf)),
                "random": float(rng.uniform(min(vals), max(vals) + 1e-9)), "zero": 0.0,
                "huge": None if rng.random() < 0.7 else max(vals) + 1.0}[k]
    n = len(clusters)
    return dict(dm_min=thr(dms), snr_min=thr(snrs), remove_harmonics=gen.pick(rng, [True, False, None]),
                max_number=gen.pick(rng, [None, 1, 2, 3, max(1, n - 1), n, n + 1, max(1, n // 2)]))


def clustered(ctx, files, dms, T, peaks=None, flt=None):
    rng = ctx.rng
    conf = gen.small_config(**({"candidate_filters": flt} if flt else {}))
    pl = Pipeline(conf)
    pl.prepare(files)
    peaks = sorted(peaks if peaks is not None else population(rng, T, 0.2, dms), key=lambda p: p.period)
    pl.peaks = peaks
    pl.cluster_peaks()
    pl.flag_harmonics()
    return pl


def ident(cs):
    return sorted(id(c) for c in cs)


@family("filters", quick=1200, thorough=15000)
def filters(ctx):
    rng = ctx.rng
    dms = sorted(set(np.round(rng.uniform(0, 100, int(rng.integers(1, 8))), 2).tolist()))
    files = pipe.inf_only(ctx.scratch, dms)
    pl = clustered(ctx, files, dms, 20.0)
    cl0 = cl = list(pl.clusters)
    peaks = pl.peaks
    ctx.p(n=len(cl), first=cl[0].centre._asdict())
    removed = 0
    for _ in range(3):
        flt = rand_filters(ctx, cl0)
        pl = clustered(ctx, files, dms, 20.0, peaks, flt)
        cl = list(pl.clusters)
        members = [tuple(c) for c in cl]
        pl.apply_candidate_filters()
        exp, capped = expected(cl, flt)
        got = list(pl.clusters_filtered)
        ctx.check(len(got) == len(exp), "number-of-candidates", f"{len(got)} clusters kept, {len(exp)} expected of {len(cl)}, filters {flt}")
        ctx.check(ident(got) == ident(exp), "wrong-clusters-kept", f"filters {flt}")
        # the list of all clusters must be left as it was
        ctx.check(ident(pl.clusters) == ident(cl) and [tuple(c) for c in cl] == members, "clusters-modified")
        ctx.count("filtered")
        ctx.count("kept", len(got))
        ctx.count("removed", len(cl) - len(got))
        ctx.count("capped", capped)
        removed += len(cl) - len(got)
    if not removed:
        ctx.trivial()


@family("built", quick=150, thorough=1500)
def built(ctx):
    """Candidates made from the surviving clusters, one each, by decreasing S/N."""
    rng = ctx.rng
    dms = [0.0, 15.0, 30.0, 45.0][: int(rng.integers(1, 5))]
    ds = pipe.Dataset(ctx.scratch, rng, dms, T=8.0, tsamp=1e-3)
    n = int(rng.integers(1, 25))
    snrs = rng.permutation(np.round(7 + rng.uniform(0, 60, n) + 0.001 * np.arange(n), 6))
    peaks = []
    for i in range(n):
        f = 1.0 / gen.loguniform(rng, 0.051, 0.49)
        peaks.append(mkpeak(f, snrs[i], gen.pick(rng, dms), int(rng.integers(1, 7)), rng.uniform(0.03, 0.2)))
    pl = clustered(ctx, ds.filelist(), dms, 8.0, peaks)
    cl = list(pl.clusters)
    flt = rand_filters(ctx, cl)
    ctx.p(n=n, clusters=len(cl), flt=flt)
    pl = clustered(ctx, ds.filelist(), dms, 8.0, peaks, flt)
    cl = list(pl.clusters)
    pl.apply_candidate_filters()
    pl.build_candidates()
    exp, capped = expected(cl, flt)
    cen = sorted((max(c, key=lambda p: p.snr) for c in exp), key=lambda p: -p.snr)
    got = [(c.params["period"], c.params["dm"], c.params["snr"], c.params["width"]) for c in pl.candidates]
    ctx.check(len(got) == len(cen), "number-of-candidates", f"{len(got)} candidates, {len(cen)} clusters survive {flt}")
    ctx.check(got == [(p.period, p.dm, p.snr, p.width) for p in cen], "candidates-differ", f"{got[:4]}")
    by = {p.snr: c for p, c in ((max(c, key=lambda p: p.snr), c) for c in exp)}
    for c in pl.candidates:
        ctx.check(len(c.peaks) == len(by[c.params["snr"]]), "candidate-peaks")
    ctx.count("candidates", len(got))
    ctx.count("capped", capped)
    if not got:
        ctx.trivial()
