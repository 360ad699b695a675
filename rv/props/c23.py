"""C23 data products on disk."""
import os

import numpy as np
from riptide import Candidate, load_json
from riptide.pipeline.pipeline import Pipeline

from rv import gen, pipe
from rv.core import Registry
from rv.props.c21 import mkpeak

PROP = "C23"
LEVEL = "exploration"
RULE = ("Pipelines on real data files, with random peak populations or with a real search, write their products to a scratch directory with 1 to 4 "
        "writer processes, with and without plots; every file is parsed by an independent reader and matched row by row and field by field to "
        "the in-memory result, including the rank in each candidate's file name. Distinct by parameters; non-trivial: at least one candidate.")
MIN = {"runs": 100, "candidate_files": 700, "peak_rows": 4000, "cluster_rows": 1200, "plots": 8}
family = Registry()


def num(ctx, text, val, key, where):
    try:
        x = float(text)
    except ValueError:
        ctx.fail(key, f"{where}: {text!r} is not a number")
    ctx.check(abs(x - val) <= 5.05e-10 + 4e-16 * abs(val), key, f"{where}: {text} instead of {val!r}")


def rows(ctx, path, cols, key):
    h, _ = pipe.read_csv(path)
    ctx.check(set(h) == set(cols) and len(h) == len(cols), key + "-columns", f"{h}")
    return pipe.table(path)


PCOLS = ["period", "freq", "dm", "width", "ducy", "snr"]
CCOLS = ["rank", "period", "dm", "snr", "ducy", "freq", "npeaks", "hfrac_num", "hfrac_denom", "fundamental_rank"]


def judge(ctx, pl, outdir, plot, extra=()):
    files = pipe.listing(outdir)
    exp = set(extra)
    n = len(pl.candidates)
    if pl.peaks:
        exp.add("peaks.csv")
        if pl.clusters:
            exp.add("clusters.csv")
        if n:
            exp.add("candidates.csv")
            exp |= {f"candidate_{k:04d}.json" for k in range(n)}
            if plot:
                exp |= {f"candidate_{k:04d}.png" for k in range(n)}
    ctx.check(set(files) == exp, "files", f"missing {sorted(exp - set(files))[:8]}, unexpected {sorted(set(files) - exp)[:8]}")
    if not pl.peaks:
        return
    # peaks
    t = rows(ctx, os.path.join(outdir, "peaks.csv"), PCOLS, "peaks")
    ctx.check(len(t) == len(pl.peaks), "peaks-rows", f"{len(t)} rows, {len(pl.peaks)} peaks")
    a = sorted(t, key=lambda r: (float(r["period"]), float(r["dm"]), float(r["snr"]), int(r["width"])))
    b = sorted(pl.peaks, key=lambda p: (round(p.period, 9), round(p.dm, 9), round(p.snr, 9), p.width))
    for r, p in zip(a, b):
        for c in PCOLS:
            if c == "width":
                ctx.check(r[c] == str(p.width), "peaks-values", f"width {r[c]} / {p.width}")
            else:
                num(ctx, r[c], getattr(p, c), "peaks-values", c)
    ctx.count("peak_rows", len(t))
    # clusters
    if pl.clusters:
        t = rows(ctx, os.path.join(outdir, "clusters.csv"), CCOLS, "clusters")
        ctx.check(len(t) == len(pl.clusters), "clusters-rows", f"{len(t)} rows, {len(pl.clusters)} clusters")
        order = sorted(pl.clusters, key=lambda c: -max(p.snr for p in c))
        for k, (r, c) in enumerate(zip(t, order)):
            m = max(c, key=lambda p: p.snr)
            for col in ("period", "dm", "snr", "ducy", "freq"):
                num(ctx, r[col], getattr(m, col), "clusters-values", f"rank {k} {col}")
            par = c.parent_fundamental
            e = (k, len(c), c.hfrac.numerator if par is not None else 0, c.hfrac.denominator if par is not None else 0,
                 [i for i, z in enumerate(order) if z is par][0] if par is not None else k)
            g = tuple(int(r[x]) for x in ("rank", "npeaks", "hfrac_num", "hfrac_denom", "fundamental_rank"))
            ctx.check(e == g, "clusters-values", f"row {k}: {g} instead of {e}")
        ctx.count("cluster_rows", len(t))
    # candidates
    if not n:
        return
    t = rows(ctx, os.path.join(outdir, "candidates.csv"), PCOLS, "candidates")
    ctx.check(len(t) == n, "candidates-rows", f"{len(t)} rows, {n} candidates")
    s = [float(r["snr"]) for r in t]
    ctx.check(all(x >= y for x, y in zip(s, s[1:])), "candidates-not-sorted", f"{s}")
    left = list(pl.candidates)
    for k in range(n):
        c = load_json(os.path.join(outdir, f"candidate_{k:04d}.json"))
        ctx.check(isinstance(c, Candidate), "candidate-type")
        for col in PCOLS:
            if col == "width":
                ctx.check(t[k][col] == str(c.params[col]), "candidates-values", f"row {k} width")
            else:
                num(ctx, t[k][col], c.params[col], "candidates-values", f"row {k} {col}")
        hit = [i for i, m in enumerate(left) if m.params == c.params]
        ctx.check(hit, "candidate-file-unknown", f"candidate_{k:04d}.json: {c.params}")
        m = left.pop(hit[0])
        ctx.check(np.array_equal(m.subints, c.subints) and m.subints.dtype == c.subints.dtype, "candidate-subints")
        ctx.check(list(m.peaks.columns) == list(c.peaks.columns) and len(m.peaks) == len(c.peaks)
                  and all(np.array_equal(m.peaks[x].values, c.peaks[x].values) for x in m.peaks.columns), "candidate-peaks")
        a, b = dict(m.tsmeta), dict(c.tsmeta)
        sk = a.pop("skycoord"), b.pop("skycoord")
        ctx.check(a == b and sk[0].separation(sk[1]).deg < 1e-9, "candidate-metadata")
        ctx.count("candidate_files")
        if plot:
            with open(os.path.join(outdir, f"candidate_{k:04d}.png"), "rb") as f:
                raw = f.read()
            ctx.check(raw[:8] == b"\x89PNG\r\n\x1a\n" and len(raw) > 5000 and b"IEND" in raw[-16:], "plot-file", f"{len(raw)} bytes")
            ctx.count("plots")


def stale(ctx, pl, out, plot):
    """The directory already holds products of an earlier run, of the same names."""
    if not pl.peaks:
        return
    names = ["peaks.csv", "clusters.csv"] + ["candidates.csv"] * bool(pl.candidates)
    for k in range(len(pl.candidates)):
        names += [f"candidate_{k:04d}.json"] + [f"candidate_{k:04d}.png"] * plot
    for f in names:
        with open(os.path.join(out, f), "wb") as g:
            g.write(gen.pick(ctx.rng, [b"", b"period,freq\n1,2\n", b"x" * 300000]))
    ctx.count("stale_directories")


def dataset(ctx, T=8.0, nd=3, pulsars=()):
    return pipe.Dataset(ctx.scratch, ctx.rng, [0.0, 15.0, 30.0, 45.0][:nd], T=T, pulsars=pulsars)


def random_peaks(rng, n, dms):
    out = []
    snrs = rng.permutation(7 + np.arange(n) * 0.37 + rng.uniform(0, 0.3, n))
    for i in range(n):
        P = gen.loguniform(rng, 0.051, 0.49)
        out.append(mkpeak(1 / P, snrs[i], gen.pick(rng, dms), int(rng.integers(1, 7)), rng.uniform(0.03, 0.2)))
        if rng.random() < 0.1:
            # found twice: by two search ranges, or at two DMs
            out.append(out[-1] if rng.random() < 0.5 else out[-1]._replace(**gen.pick(rng, [dict(snr=out[-1].snr - 1.0), dict(dm=gen.pick(rng, dms), snr=out[-1].snr - 0.5), dict(ducy=out[-1].ducy / 2, width=out[-1].width + 1)])))
        for _ in range(int(rng.integers(0, 6))):
            out.append(mkpeak(1 / P + rng.uniform(-0.01, 0.01), snrs[i] * rng.uniform(0.2, 0.9), gen.pick(rng, dms),
                              int(rng.integers(1, 7)), rng.uniform(0.03, 0.2)))
    return sorted(out, key=lambda p: p.period)


@family("large", quick=10, thorough=60, timeout=300)
def large(ctx):
    """Hundreds of candidates."""
    populations(ctx, gen.logint(ctx.rng, 120, 600))


@family("populations", quick=320, thorough=3000, timeout=200)
def populations(ctx, size=None):
    rng = ctx.rng
    nd = int(rng.integers(1, 5))
    ds = dataset(ctx, nd=nd)
    n = size or gen.logint(rng, 1, 40)
    procs = int(rng.integers(1, 5))
    flt = dict(dm_min=None, snr_min=gen.pick(rng, [None, 7.5, 1e9]) if rng.random() < 0.3 else None,
               remove_harmonics=gen.pick(rng, [True, False]), max_number=gen.pick(rng, [None, 5, 12]) if not size else gen.pick(rng, [None, None, 101]))
    rg = gen.small_range(subints=gen.pick(rng, [1, 4, 8, None, 10000]))
    pl = Pipeline(gen.small_config([rg], processes=procs, candidate_filters=flt, clustering=dict(radius=0.2 if not size else gen.pick(rng, [0.2, 0.005, 0.005]))))
    pl.prepare(ds.filelist())
    pl.peaks = random_peaks(rng, n, ds.dms)
    ctx.p(n=n, nd=nd, procs=procs, flt=flt, subints=rg["candidates"]["subints"])
    out = os.path.join(ctx.scratch, "out")
    os.makedirs(out)
    extra = []
    if rng.random() < 0.3:
        extra = ["notes.txt"]
        open(os.path.join(out, "notes.txt"), "w").write("mine")
    pl.cluster_peaks()
    pl.flag_harmonics()
    pl.apply_candidate_filters()
    pl.build_candidates()
    if rng.random() < 0.4:
        stale(ctx, pl, out, False)
    pl.save_products(outdir=out)
    judge(ctx, pl, out, False, extra)
    if extra:
        ctx.check(open(os.path.join(out, "notes.txt")).read() == "mine", "foreign-file-touched")
    ctx.count("runs")
    if not pl.candidates:
        ctx.trivial()


@family("plots", quick=16, thorough=80, timeout=300)
def plots(ctx):
    rng = ctx.rng
    ds = dataset(ctx, nd=int(rng.integers(1, 4)))
    rg = gen.small_range(subints=gen.pick(rng, [1, 8, None]))
    pl = Pipeline(gen.small_config([rg], processes=2, plot_candidates=True))
    pl.prepare(ds.filelist())
    pl.peaks = random_peaks(rng, int(rng.integers(1, 5)), ds.dms)
    ctx.p(n=len(pl.peaks), subints=rg["candidates"]["subints"])
    out = os.path.join(ctx.scratch, "out")
    os.makedirs(out)
    pl.cluster_peaks()
    pl.flag_harmonics()
    pl.apply_candidate_filters()
    pl.build_candidates()
    if rng.random() < 0.4:
        stale(ctx, pl, out, True)
    pl.save_products(outdir=out)
    judge(ctx, pl, out, True)
    ctx.count("runs")


@family("searched", quick=60, thorough=600, timeout=200)
def searched(ctx):
    """A real search, start to end."""
    rng = ctx.rng
    ps = [dict(amp=float(rng.uniform(20, 40)), dm=15.0, period=gen.loguniform(rng, 0.06, 0.4), phase=float(rng.random()))
          for _ in range(int(rng.integers(0, 3)))]
    ds = dataset(ctx, T=10.0, nd=3, pulsars=ps)
    pl = Pipeline(gen.small_config(processes=int(rng.integers(1, 4))))
    out = os.path.join(ctx.scratch, "out")
    os.makedirs(out)
    ctx.p(ps=ps)
    pl.process(ds.filelist(), out)
    judge(ctx, pl, out, False)
    ctx.check(len(pl.candidates) >= 1 or not ps, "no-candidates")
    ctx.count("runs")
    if not pl.candidates:
        ctx.trivial()
