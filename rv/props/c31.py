"""C31 a pipeline run is the composition of its documented stages."""
import collections
import math
import os
import subprocess
import sys

import numpy as np
import yaml
from riptide import TimeSeries, ffa_search, find_peaks
from riptide.pipeline.pipeline import Pipeline

from rv import gen, pipe
from rv.core import Registry
from rv.props import c19, c21, c22, c23, c24, c28

PROP = "C31"
LEVEL = "exploration"
RULE = ("Complete pipeline runs on DM trials on disk (unequal lengths, sampling times and sky positions; one to three search ranges, each with its own "
        "search and peak-finding options, some blank; red noise; random dereddening, clustering, harmonic and filter options; 1 to 3 processes): the "
        "trials searched, peaks, clusters, flags, candidates and files are compared with an explicit composition of the documented stages on the "
        "data written. Command-line runs are compared with in-process ones. Distinct by parameters; non-trivial: peaks found.")
MIN = {"runs": 60, "peaks": 1500, "multi_range": 30, "unequal_tsamp": 15, "candidates": 150, "cli_runs": 5, "unselected": 12, "blank_find_peaks": 10, "selections": 400, "narrowest_in_later_range": 150}
family = Registry()
LOADERS = {"presto": TimeSeries.from_presto_inf, "sigproc": TimeSeries.from_sigproc}


def near_threshold(p, polycos, smin):
    t = max(smin, float(np.polyval(polycos[p.iw], math.log(p.freq))))
    return abs(p.snr - t) < 1e-3 * abs(t) + 1e-3


def stages(ds, dm, conf):
    """The documented chain on one trial: peaks of each range, and the function that tells borderline ones."""
    ts = LOADERS[ds.fmt](ds.files[dm])
    d = conf["dereddening"]
    ts = ts.deredden(d["rmed_width"], minpts=d["rmed_minpts"]).normalise()
    out = []
    for rg in conf["ranges"]:
        _, pg = ffa_search(ts, deredden=False, already_normalised=True, **rg["ffa_search"])
        fp = rg["find_peaks"] or {}
        pk, po = find_peaks(pg, **fp)
        out.append((pk, po, fp.get("smin", 6.0)))
    return out


def judge_peaks(ctx, got, ds, sel, conf):
    exp, border = [], {}
    for dm in sel:
        for pk, po, smin in stages(ds, dm, conf):
            exp += pk
            for p in pk:
                border[tuple(p)] = near_threshold(p, po, smin)
    a, b = collections.Counter(map(tuple, got)), collections.Counter(map(tuple, exp))
    ctx.count("peaks", len(exp))
    ctx.count("assertions")
    if a == b:
        return
    # up to rounding: match peaks of the same trial, width and frequency
    extra, miss = list((a - b).elements()), list((b - a).elements())
    for e in list(extra):
        for m in miss:
            if e[7] == m[7] and e[2] == m[2] and abs(e[1] / m[1] - 1) < 1e-9 and abs(e[6] - m[6]) < 2e-4 * abs(m[6]) + 2e-4:
                extra.remove(e)
                miss.remove(m)
                break
    miss = [m for m in miss if not border.get(m)]
    if extra and not miss:
        extra = [e for e in extra if not any(e[7] == m[7] and e[2] == m[2] and abs(e[6] - m[6]) < 0.05 for m in map(tuple, exp))]
    ctx.check(not miss and not extra, "peaks-differ", f"{len(got)} peaks of the pipeline, {len(exp)} of the explicit stages; missing {miss[:3]}, "
                                                      f"unexpected {extra[:3]}")


def rand_conf(ctx, tsmax, fmt, band):
    rng = ctx.rng
    nr = int(rng.integers(1, 4))
    bins = int(rng.integers(20, 48))
    pmin = bins * tsmax * float(gen.pick(rng, [1.0, 1.0, 1.01, 1.3, 2.0]))
    while bins * tsmax > pmin:
        pmin = float(np.nextafter(pmin, 9))
    edges = [float(e) for e in pmin * np.cumprod([1.0] + [float(rng.uniform(1.6, 3.5)) for _ in range(nr)])]
    ranges = []
    finer = rng.random() < 0.25
    for i in range(nr):
        bmin = int(rng.integers(max(8, bins - 12), bins + 1)) if rng.random() < 0.7 else bins
        if finer and i:
            bmin = max(bmin, int(edges[i] / tsmax / 1.02))     # the narrowest pulses belong to a later range
        s = {"period_min": edges[i], "period_max": edges[i + 1], "bins_min": bmin, "bins_max": bmin + int(rng.integers(2, 7))}
        for k, v in (("fpmin", int(rng.integers(1, 9))), ("wtsp", float(gen.pick(rng, [1.2, 1.5, 2.0, 3.0]))),
                     ("ducy_max", float(gen.pick(rng, [0.1, 0.2, 0.35])))):
            if rng.random() < 0.5:
                s[k] = v
        f, some = {}, rng.random() < 0.85
        for k, v in (("smin", float(gen.pick(rng, [5.0, 5.5, 6.5, 7.5]))), ("segwidth", float(gen.pick(rng, [2.0, 5.0, 10.0]))),
                     ("nstd", float(gen.pick(rng, [3.0, 5.0, 8.0]))), ("minseg", int(gen.pick(rng, [4, 10, 1000]))),
                     ("polydeg", gen.pick(rng, [1, 2, 3])), ("clrad", float(gen.pick(rng, [0.05, 0.1, 0.5])))):
            if some and rng.random() < 0.45:
                f[k] = v
        if not f:
            ctx.count("blank_find_peaks")
        ranges.append({"name": f"r{i}", "ffa_search": s, "find_peaks": (f or gen.pick(rng, [None, {}])),
                       "candidates": {"bins": int(rng.integers(8, bins + 1)), "subints": gen.pick(rng, [1, 4, 9, 32, None])}})
    if nr > 1:
        ctx.count("multi_range")
    return gen.small_config(
        ranges, processes=int(rng.integers(1, 4)), fmt=fmt, data=band,
        dereddening=dict(rmed_width=float(gen.pick(rng, [0.7, 1.3, 2.0, 2.8])), rmed_minpts=int(gen.pick(rng, [31, 101, 301]))),
        clustering=dict(radius=float(gen.pick(rng, [0.1, 0.2, 0.7, 2.0]))),
        harmonic_flagging=dict(denom_max=int(gen.pick(rng, [100, 20])), phase_distance_max=float(gen.pick(rng, [1.0, 2.0])),
                               dm_distance_max=float(gen.pick(rng, [3.0, 30.0])), snr_distance_max=float(gen.pick(rng, [3.0, 8.0]))),
        candidate_filters=dict(dm_min=gen.pick(rng, [None, None, 0.0, 5.0]), snr_min=gen.pick(rng, [None, None, 7.0, 9.0]),
                               remove_harmonics=gen.pick(rng, [True, False, None]), max_number=gen.pick(rng, [None, None, 2, 6])))


def rand_data(ctx, maxnd=7):
    """Data set with random geometry, and the band section that goes with it."""
    rng = ctx.rng
    nd = int(rng.integers(1, maxnd))
    fmt = gen.pick(rng, ["presto", "presto", "sigproc"])
    step = gen.pick(rng, [11.0, 3.0, 0.6, 0.3])
    dms = np.round(np.arange(nd) * step + gen.pick(rng, [0.0, 0.0, 7.0]), 3)
    ts = [1e-3] * nd
    if rng.random() < 0.4:
        ts = [float(rng.choice([5e-4, 1e-3, 0.001024])) for _ in range(nd)]
        if len(set(ts)) > 1:
            ctx.count("unequal_tsamp")
    T = [float(rng.uniform(5, 11))] * nd if rng.random() < 0.5 else [float(t) for t in rng.uniform(4, 12, nd)]
    ps = [dict(amp=float(rng.uniform(12, 35)), dm=float(gen.pick(rng, list(dms))), width=float(rng.uniform(3, 20)), ducy=float(rng.uniform(0.02, 0.1)),
               period=gen.loguniform(rng, 0.05, 0.5), phase=float(rng.random())) for _ in range(int(rng.integers(1, 4) if rng.random() < 0.9 else 0))]
    names = [f"{k:03d}" for k in rng.permutation(3 * nd)[:nd]]
    if fmt == "presto":
        cbw = 0.390625 * gen.pick(rng, [1, 1, 2])
        kw = dict(cbw=cbw, bandwidth=cbw * 1024, fbot=float(gen.pick(rng, [1182.1953125, 600.0])))
        fmin, fmax, nch = kw["fbot"], kw["fbot"] + 1024 * cbw, 1024
        band = {}
    else:
        kw = {}
        fmin, fmax, nch = float(gen.pick(rng, [1200.0, 500.0])), float(gen.pick(rng, [1500.0, 1800.0])), int(gen.pick(rng, [256, 1024]))
        band = dict(fmin=fmin, fmax=fmax, nchans=nch)
    ds = pipe.Dataset(ctx.scratch, rng, dms, T=T, tsamp=ts, pulsars=ps, fmt=fmt, names=names, red=float(gen.pick(rng, [0, 0, 2.0, 10.0])), **kw)
    med = float(np.median([len(ds.data[d]) * t for d, t in zip(ds.dms, ds.tsamps)]))
    ctx.p(nd=nd, fmt=fmt, dms=dms.tolist(), ts=ts, T=T, ps=ps, kw=kw, band=band)
    return ds, band, (fmin, fmax, nch), med


def dm_limits(ctx, ds):
    rng = ctx.rng
    lo = gen.pick(rng, [None, None, 0.0, ds.dms[0], ds.dms[len(ds.dms) // 2]])
    hi = gen.pick(rng, [None, None, 1000.0, ds.dms[-1], ds.dms[len(ds.dms) // 2]])
    return lo, hi, [d for d in ds.dms if (lo is None or d >= lo) and (hi is None or d <= hi)]


@family("composed", quick=200, thorough=2500, timeout=200)
def composed(ctx):
    rng = ctx.rng
    ds, band, (fmin, fmax, nch), tmed = rand_data(ctx)
    conf = rand_conf(ctx, max(ds.tsamps), ds.fmt, band)
    lo, hi, inr = dm_limits(ctx, ds)
    if not inr:
        lo = hi = None
        inr = list(ds.dms)
    conf["dmselect"] = dict(min=lo, max=hi, dmsinb_max=None)
    ctx.p(conf=conf)
    cf = os.path.join(ctx.scratch, "conf.yml")
    with open(cf, "w") as f:
        yaml.safe_dump(conf, f)
    out = os.path.join(ctx.scratch, "out")
    os.makedirs(out)
    pl = Pipeline.from_yaml_config(cf) if rng.random() < 0.5 else Pipeline(conf)
    files = [ds.filelist()[i] for i in rng.permutation(len(ds.dms))]
    pl.process(files, out)
    ctx.count("runs")
    # --- trials
    sel = [float(d) for d in pl.dmiter.selected_dms]
    wmin = min(r["ffa_search"]["period_min"] / r["ffa_search"]["bins_min"] for r in conf["ranges"])
    c19.judge_expect(ctx, sel, inr, fmin, fmax, nch, wmin)
    ctx.count("unselected", len(inr) - len(sel))
    # --- peaks
    judge_peaks(ctx, pl.peaks, ds, sel, conf)
    # --- clusters, ranks, harmonics
    if pl.peaks:
        c21.judge(ctx, pl, pl.peaks, tmed, conf["clustering"]["radius"], conf["harmonic_flagging"], fmin, fmax)
    else:
        ctx.check(not pl.clusters and not pl.candidates, "something-from-nothing")
        ctx.trivial()
    # --- filters
    exp, capped = c22.expected(pl.clusters, conf["candidate_filters"])
    ctx.check(c22.ident(pl.clusters_filtered) == c22.ident(exp), "wrong-clusters-kept",
              f"{len(pl.clusters_filtered)} kept, {len(exp)} expected of {len(pl.clusters)}: {conf['candidate_filters']}")
    # --- candidates
    ctx.check(len(pl.candidates) == len(exp), "number-of-candidates", f"{len(pl.candidates)} / {len(exp)}")
    d = conf["dereddening"]
    trials = {}
    by = {c.centre.snr: c for c in exp}
    for c in pl.candidates:
        dm = c.params["dm"]
        if dm not in trials:
            trials[dm] = LOADERS[ds.fmt](ds.files[dm]).deredden(d["rmed_width"], minpts=d["rmed_minpts"]).normalise()
        ctx.check(c.params["snr"] in by, "candidate-unknown", f"{c.params}")
        c28.judge_candidate(ctx, c, by[c.params["snr"]], ds, trials, conf["ranges"])
    # --- files
    c23.judge(ctx, pl, out, False)


@family("selection", quick=700, thorough=6000)
def selection(ctx):
    """Trials selected for the narrowest width of all ranges, whatever their resolutions (headers only)."""
    rng = ctx.rng
    nd = gen.logint(rng, 2, 90)
    dms = np.unique(np.round(np.cumsum(rng.uniform(0, 2, nd)) * gen.loguniform(rng, 0.05, 2), 2))
    tsamp = float(gen.pick(rng, [1e-4, 5e-4, 1e-3]))
    nr = int(rng.integers(1, 5))
    edges = tsamp * 100 * np.cumprod([float(rng.uniform(0.4, 2))] + [float(rng.uniform(1.2, 6)) for _ in range(nr)])
    ranges = []
    for i in range(nr):
        b = int(rng.integers(10, max(11, edges[i] / tsamp * 0.999)))
        ranges.append(gen.small_range(float(edges[i]), float(edges[i + 1]), b, b + int(rng.integers(1, 9)), bins=b, name=f"r{i}"))
    ws = [r["ffa_search"]["period_min"] / r["ffa_search"]["bins_min"] for r in ranges]
    ctx.p(nd=len(dms), dms=dms[:4].tolist(), tsamp=tsamp, ws=ws)
    cbw, fbot = 0.390625 * gen.pick(rng, [1, 1, 4, 0.25]), float(gen.pick(rng, [1182.1953125, 300.0, 2000.0]))
    files = pipe.inf_only(ctx.scratch, dms, tsamp=tsamp, nsamp=int(rng.integers(5000, 10**6)), cbw=cbw, bandwidth=cbw * 1024, fbot=fbot)
    lo, hi = sorted(float(x) for x in rng.choice(dms, 2))
    lo, hi = gen.pick(rng, [None, lo, 0.0]), gen.pick(rng, [None, hi, 1e4])
    conf = gen.small_config(ranges, dmselect=dict(min=lo, max=hi))
    pl = Pipeline(conf)
    pl.prepare([files[i] for i in rng.permutation(len(files))])
    inr = [float(d) for d in dms if (lo is None or d >= lo) and (hi is None or d <= hi)]
    sel = [float(d) for d in pl.dmiter.selected_dms]
    c19.judge_expect(ctx, sel, inr, fbot, fbot + 1024 * cbw, 1024, min(ws))
    ctx.count("selections")
    if int(np.argmin(ws)) > 0:
        ctx.count("narrowest_in_later_range")
    ctx.count("unselected", len(inr) - len(sel))
    # each period is folded with its own range
    for _ in range(6):
        per = gen.loguniform(rng, edges[0], edges[-1] * 1.05)
        r = pl.get_search_range(per) if hasattr(pl, "get_search_range") else None
        if r is not None:
            k = min(int(np.searchsorted(edges, per, side="right")) - 1, nr - 1)
            ctx.check(r["name"] == ranges[k]["name"], "wrong-range", f"period {per}: {r['name']} instead of {ranges[k]['name']}")


@family("cli", quick=10, thorough=120, timeout=300)
def cli(ctx):
    """The command leaves the same files as the class, and only where it was told to."""
    rng = ctx.rng
    ds, band, _, _ = rand_data(ctx, 5)
    conf = rand_conf(ctx, max(ds.tsamps), ds.fmt, band)
    ctx.p(conf=conf)
    cf = os.path.join(ctx.scratch, "conf.yml")
    with open(cf, "w") as f:
        yaml.safe_dump(conf, f)
    a, b, cwd = (os.path.join(ctx.scratch, x) for x in ("a", "b", "cwd"))
    for x in (a, b, cwd):
        os.makedirs(x)
    Pipeline(conf).process(ds.filelist(), a)
    into_cwd = rng.random() < 0.3
    log = os.path.join(ctx.scratch, "run.log") if rng.random() < 0.5 else None
    if into_cwd:
        b = cwd
    cmd = [sys.executable, "-c", "from riptide.pipeline.pipeline import main; main()", "-c", cf]
    if not into_cwd:
        cmd += ["-o", b]
    if log:
        cmd += ["--logfile", log]
    lev = gen.pick(rng, [None, "DEBUG", "INFO", "WARNING"])
    if lev:
        cmd += ["--log-level", lev]
    if rng.random() < 0.5:
        cmd += ["--log-timings"]
    env = dict(os.environ, PYTHONPATH=os.environ["RV_TREE"] + os.pathsep + os.environ.get("PYTHONPATH", ""))
    r = subprocess.run(cmd + ds.filelist(), cwd=cwd, env=env, capture_output=True, text=True, timeout=120)
    ctx.check(r.returncode == 0, "command-failed", f"{cmd[2:]} exit {r.returncode}: {r.stderr[-600:]}")
    d = c24.diff((c24.canonical(a), c24.raw(a)), (c24.canonical(b), c24.raw(b)))
    ctx.check(d is None, "products-differ", f"{d}")
    if not into_cwd:
        ctx.check(not os.listdir(cwd), "files-in-working-directory", f"{os.listdir(cwd)}")
    if log:
        ctx.check(os.path.exists(log), "no-logfile")
        if lev != "WARNING":
            ctx.check(os.path.getsize(log) > 0, "empty-logfile")
    ctx.count("cli_runs")
    # no such directory, no such option: refused, nothing written
    bad = gen.pick(rng, [["-c", cf, "-o", os.path.join(ctx.scratch, "nowhere")], ["-o", b], ["-c", os.path.join(ctx.scratch, "none.yml"), "-o", b]])
    n = sorted(os.listdir(b))
    r = subprocess.run(cmd[:3] + bad + ds.filelist(), cwd=cwd, env=env, capture_output=True, text=True, timeout=120)
    ctx.check(r.returncode != 0, "bad-command-accepted", f"{bad}")
    ctx.check(sorted(os.listdir(b)) == n and not os.path.exists(os.path.join(ctx.scratch, "nowhere")), "files-after-refusal")
