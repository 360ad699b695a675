"""C24 results do not depend on the schedule."""
import json
import os

import numpy as np
from riptide import load_json
from riptide.pipeline.pipeline import Pipeline

from rv import gen, pipe
from rv.core import Registry

PROP = "C24"
LEVEL = "exploration"
RULE = ("A reference run of the whole pipeline on DM trials on disk is compared with re-runs under other numbers of processes (1 to 6), other "
        "orders of the input files, and delays injected at the opening of chosen data files so that workers finish out of order; all products "
        "must be equal, and an audit log of file opens (pid, file, time) shows that each selected trial was read once by the search and no "
        "other trial was. Distinct by observed worker interleavings and parameters; non-trivial: at least two processes or another order.")
MIN = {"runs": 150, "schedules": 100, "candidates": 150, "opens": 900, "unselected": 15, "out_of_order_runs": 15, "orders": 300, "workers": 150}
family = Registry()
LOG = None


def setup():
    global LOG
    LOG = pipe.OpenLog()


def canonical(out):
    """Content of the products, independent of the order of equal rows."""
    r = {}
    for f in pipe.listing(out):
        p = os.path.join(out, f)
        if f.endswith(".csv"):
            h, rows = pipe.read_csv(p)
            r[f] = (h, sorted(rows) if f == "peaks.csv" else rows)
        elif f.endswith(".json"):
            c = load_json(p)
            pk = c.peaks[sorted(c.peaks.columns)]
            meta = {k: v for k, v in dict(c.tsmeta).items() if k != "skycoord"}
            r[f] = (json.dumps(c.params, sort_keys=True), sorted(map(tuple, pk.values.tolist())), c.subints.tobytes(), c.subints.shape,
                    json.dumps(meta, sort_keys=True, default=str))
        else:
            r[f] = "?"
    return r


def raw(out):
    r = {}
    for f in pipe.listing(out):
        with open(os.path.join(out, f), "rb") as g:
            r[f] = g.read()
    return r


def run(ctx, conf, files, delay=None):
    out = os.path.join(ctx.scratch, f"out{ctx.counters.get('runs', 0)}")
    os.makedirs(out)
    pl = Pipeline(conf)
    with LOG.record(ctx.scratch, delay) as ev:
        pl.process(list(files), out)
    ctx.count("runs")
    ctx.count("opens", len(ev))
    return pl, (canonical(out), raw(out)), ev


def judge_opens(ctx, pl, ds, ev, selected):
    n = {}
    for b, pid, t in ev:
        n[b] = n.get(b, 0) + 1
    cdm = {c.params["dm"] for c in pl.candidates}
    for d in ds.dms:
        b = os.path.splitext(os.path.basename(ds.files[d]))[0] + (".dat" if ds.fmt == "presto" else ".tim")
        k = n.get(b, 0)
        if ds.fmt == "sigproc":
            continue    # the header lives in the same file
        if d not in selected:
            ctx.check(k == 0, "unselected-trial-read", f"DM {d} was not selected but read {k} times")
        elif d in cdm:
            ctx.check(1 <= k <= 2, "trial-read-count", f"DM {d} read {k} times, with candidates at this DM")
        else:
            ctx.check(k == 1, "trial-read-count", f"DM {d} read {k} times by the search")


def diff(a, b):
    """First difference of two sets of products, in values, then in bytes."""
    d = diff_values(a[0], b[0])
    if d is None:
        bad = [f for f in a[1] if a[1][f] != b[1][f]]
        if bad:
            return f"order or format of {bad[:5]} differs"
    return d


def diff_values(a, b):
    if set(a) != set(b):
        return f"files differ: {sorted(set(a) ^ set(b))[:6]}"
    for f in a:
        if a[f] != b[f]:
            if f.endswith(".csv"):
                x, y = a[f][1], b[f][1]
                for i in range(max(len(x), len(y))):
                    if i >= len(x) or i >= len(y) or x[i] != y[i]:
                        return f"{f}: {len(x)} / {len(y)} rows; row {i}: {x[i] if i < len(x) else None} / {y[i] if i < len(y) else None}"
            return f"{f} differs: {str(a[f][0])[:200]} / {str(b[f][0])[:200]}"
    return None


def plan(it):
    """Everything derived from the set of files."""
    return dict(tobs=float(it.tobs_median()), tsamp=float(it.tsamp_max()), fmin=it.fmin, fmax=it.fmax, nchans=it.nchans,
                start=float(it.dm_start), end=float(it.dm_end), sel=[float(x) for x in it.selected_dms],
                files=[os.path.basename(f) for c in it.iterate_filenames(chunksize=3) for f in c])


@family("orders", quick=240, thorough=3000, timeout=200)
def orders(ctx):
    """File order and order of arrival of the peaks, on larger sets of trials and peaks (headers only)."""
    from rv.props import c21
    rng = ctx.rng
    nd = int(rng.integers(2, 14))
    dms = np.unique(np.round(np.arange(nd) * gen.loguniform(rng, 0.3, 10), 3))
    nsamps = rng.integers(20000, 400000, len(dms))
    files = pipe.inf_only(ctx.scratch, dms, nsamps=nsamps)
    radius = gen.loguniform(rng, 0.05, 2)
    conf = gen.small_config(processes=int(rng.integers(1, 9)), clustering=dict(radius=radius), dmselect=dict(min=None, max=None, dmsinb_max=gen.pick(rng, [None, 45.0])))
    peaks = c21.population(rng, float(np.median(nsamps)) * 1e-3, radius, [float(d) for d in dms])
    for k in range(int(gen.pick(rng, [0, 0, 1, 4]))):      # some ties
        peaks.append(gen.pick(rng, peaks)._replace(dm=float(gen.pick(rng, dms))))
    ctx.p(nd=len(dms), radius=radius, npeaks=len(peaks))
    if rng.random() < 0.15:     # very many peaks in some trials
        for k in range(int(rng.integers(300, 3000))):
            f = gen.loguniform(rng, 0.05, 8)
            peaks.append(c21.mkpeak(f, float(rng.uniform(2, 6)), float(dms[int(rng.integers(max(1, len(dms) // 3)))]), 1, 0.03))
    ref_plan = ref_cl = None
    for k in range(4):
        fo = [files[i] for i in rng.permutation(len(files))] if k else files
        po = [peaks[i] for i in rng.permutation(len(peaks))] if k else peaks
        pl = Pipeline(conf)
        pl.prepare(fo)
        pipe.feed_search(ctx, pl, po)
        pl.cluster_peaks()
        pl.flag_harmonics()
        cl = sorted((c.centre.snr, sorted(map(tuple, c)), bool(c.is_harmonic),
                     (float(c.hfrac), c.parent_fundamental.centre.snr) if c.is_harmonic else None) for c in pl.clusters)
        if not k:
            ref_plan, ref_cl = plan(pl.dmiter), cl
            ties = len({p.snr for p in peaks}) < len(peaks)
            continue
        ctx.check(plan(pl.dmiter) == ref_plan, "plan-depends-on-file-order", f"{plan(pl.dmiter)} / {ref_plan}")
        ctx.check(sorted(c[1] for c in cl) == sorted(c[1] for c in ref_cl), "clusters-depend-on-order")
        if not ties:
            ctx.check(cl == ref_cl, "harmonics-depend-on-order")
        ctx.count("orders")


@family("schedules", quick=72, thorough=900, timeout=300)
def schedules(ctx):
    rng = ctx.rng
    nd = int(rng.integers(2, 8))
    step = gen.pick(rng, [12.0, 12.0, 0.8])    # 0.8: several trials within the coverage of one
    fmt = gen.pick(rng, ["presto", "presto", "presto", "sigproc"])
    ps = [dict(amp=float(rng.uniform(15, 35)), dm=float(rng.uniform(0, step * nd)), width=float(rng.uniform(5, 20)),
               period=gen.loguniform(rng, 0.06, 0.4), phase=float(rng.random())) for _ in range(int(rng.integers(1, 4)))]
    names = [f"{k:03d}" for k in rng.permutation(nd)]
    unequal = rng.random() < 0.4
    T = rng.uniform(5.0, 11.0, nd) if unequal else 8.0
    ds = pipe.Dataset(ctx.scratch, rng, np.arange(nd) * step, T=T, pulsars=ps, fmt=fmt, names=names, red=float(gen.pick(rng, [0, 1.0])))
    rs = [gen.small_range()] if rng.random() < 0.5 else [gen.small_range(0.05, 0.15), gen.small_range(0.15, 0.5, name="b")]
    kw = dict(fmt="sigproc", data=dict(fmin=1200.0, fmax=1500.0, nchans=512)) if fmt == "sigproc" else {}
    # a large minimum width skips some trials
    sel = gen.pick(rng, [dict(min=None, max=None), dict(min=0.5 * step, max=None), dict(min=None, max=step * (nd - 1.7))]) if nd > 3 else dict(min=None, max=None)
    kw["dmselect"] = sel
    files = ds.filelist()
    ctx.p(nd=nd, fmt=fmt, ps=ps, ranges=len(rs), sel=sel, unequal=unequal)

    pl, base, ev = run(ctx, gen.small_config(rs, processes=1, **kw, ), files)
    selected = {float(d) for d in pl.dmiter.selected_dms}
    ctx.count("candidates", len(pl.candidates))
    if not pl.candidates:
        ctx.trivial()
    ctx.count("unselected", nd - len(selected))
    if fmt == "presto":
        judge_opens(ctx, pl, ds, ev, selected)
    sigs = []
    for _ in range(3 if ctx.tier == "quick" else 5):
        procs = int(rng.integers(1, 7))
        order = rng.permutation(nd)
        delay = None
        if rng.random() < 0.7:
            suf = ".dat" if fmt == "presto" else ".tim"
            delay = {n + suf: float(rng.uniform(0.02, 0.15)) for n in names if rng.random() < 0.4}
            if rng.random() < 0.5:
                delay = {names[0] + suf: 0.25}      # the first selected trial finishes last
        pl2, got, ev2 = run(ctx, gen.small_config(rs, processes=procs, **kw), [files[i] for i in order], delay)
        d = diff(base, got)
        ctx.check(d is None, "products-differ", f"processes {procs}, file order {order.tolist()}, delays {delay}: {d}")
        ctx.check({float(x) for x in pl2.dmiter.selected_dms} == selected, "selection-differs")
        ctx.check(plan(pl2.dmiter) == plan(pl.dmiter), "plan-depends-on-file-order", f"{plan(pl2.dmiter)} / {plan(pl.dmiter)}")
        if fmt == "presto":
            judge_opens(ctx, pl2, ds, ev2, selected)
        # what was observed
        workers = {}
        first = []
        for b, pid, t in ev2:
            if pid != os.getpid():
                workers.setdefault(pid, []).append(b)
                first.append(b)
        ctx.count("workers", len(workers))
        ctx.count("schedules")
        sigs.append([procs, order.tolist(), sorted(workers.values())])
        if first != sorted(first, key=lambda b: names.index(os.path.splitext(b)[0])):
            ctx.count("out_of_order_runs")
    ctx.p(observed=sigs)


@family("peaks", quick=40, thorough=400, timeout=200)
def peaks(ctx):
    """The peaks of a multi-process search are the union of single-trial searches."""
    rng = ctx.rng
    nd = int(rng.integers(1, 7))
    ps = [dict(amp=30.0, dm=10.0, width=40.0, period=gen.loguniform(rng, 0.06, 0.4))]
    ds = pipe.Dataset(ctx.scratch, rng, np.arange(nd) * 9.0, T=8.0, pulsars=ps)
    procs = int(rng.integers(1, 5))
    conf = gen.small_config([gen.small_range(0.05, 0.2), gen.small_range(0.2, 0.5, name="b")], processes=procs)
    if rng.random() < 0.4:
        # very low thresholds: hundreds of peaks per trial and more
        for r in conf["ranges"]:
            r["find_peaks"] = dict(smin=float(rng.uniform(1, 2.5)), nstd=1.0, minseg=10**4, clrad=0.01)
        ctx.count("crowded")
    ctx.p(nd=nd, procs=procs, ps=ps)
    pl = Pipeline(conf)
    pl.prepare([ds.filelist()[i] for i in rng.permutation(nd)])
    pl.search()
    ctx.count("runs")
    union = []
    for d in pl.dmiter.selected_dms:
        q = Pipeline({**conf, "processes": 1})
        q.prepare([ds.files[float(d)]])
        q.search()
        union += q.peaks
    ctx.check(sorted(map(tuple, union)) == sorted(map(tuple, pl.peaks)), "peaks-lost-or-duplicated",
              f"{len(pl.peaks)} peaks found together, {len(union)} one trial at a time")
    ctx.count("peak_sets", len(union))
    if nd < 2:
        ctx.trivial()


@family("reuse", quick=24, thorough=300, timeout=200)
def reuse(ctx):
    """A Pipeline object that has processed other files before gives the same products as a fresh one."""
    rng = ctx.rng
    sets = []
    for k in range(int(rng.integers(2, 4))):
        d = os.path.join(ctx.scratch, f"set{k}")
        os.makedirs(d)
        nd = int(rng.integers(1, 4))
        ps = [] if rng.random() < 0.35 else [dict(amp=float(rng.uniform(18, 35)), dm=10.0 * int(rng.integers(nd)), period=gen.loguniform(rng, 0.06, 0.4))
                                           for _ in range(int(rng.integers(1, 3)))]
        T = float(gen.pick(rng, [6.0, 8.0, 11.0]))
        sets.append((pipe.Dataset(d, rng, np.arange(nd) * 10.0, T=T, pulsars=ps), ps))
    conf = gen.small_config(processes=int(rng.integers(1, 3)), candidate_filters=dict(snr_min=gen.pick(rng, [None, 8.0]), remove_harmonics=bool(rng.random() < 0.5)))
    ctx.p(sets=[(s.dms, ps) for s, ps in sets])
    old = Pipeline(conf)
    for k, (ds, ps) in enumerate(sets):
        res = []
        for name, pl in (("fresh", Pipeline(conf)), ("reused", old)):
            out = os.path.join(ctx.scratch, f"{name}{k}")
            os.makedirs(out)
            pl.process(ds.filelist(), out)
            ctx.count("runs")
            res.append((canonical(out), raw(out)))
            mem = ([tuple(q) for q in pl.peaks], len(pl.clusters), len(pl.clusters_filtered), [c.params for c in pl.candidates])
            res[-1] += (mem,)
        d = diff(res[0][:2], res[1][:2])
        ctx.check(d is None, "depends-on-earlier-runs", f"set {k} of {len(sets)}: {d}")
        ctx.check(res[0][2] == res[1][2], "depends-on-earlier-runs", f"set {k}: peaks/clusters/candidates held: {[(len(r[2][0]),) + r[2][1:3] + (len(r[2][3]),) for r in res]}")
        ctx.count("reused", k > 0)
