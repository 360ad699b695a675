"""C19 the DM iterator over real input files."""
import math
import os

import numpy as np
from riptide.pipeline.dmiter import DMIterator

from rv import gen, ref
from rv.core import Registry

PROP = "C19"
LEVEL = "exploration"
RULE = ("Sets of real PRESTO .inf / SIGPROC headers (random DM lists, file order, names unrelated to the DMs, sky positions, bands with negative or "
        "positive channel offsets, unequal observation lengths and sampling times) given to the iterator with every kind of DM limit; "
        "limits, band, selection, chunking, DM-to-file mapping and summary quantities are recomputed from the values written to disk. "
        "Distinct by parameters; non-trivial: at least two files.")
MIN = {"iterators": 300, "chunks": 1500, "files": 4000, "capped": 40, "band_inferred": 150, "band_manual": 80}
family = Registry()


def galactic_b(raj, decj):
    """Galactic latitude (deg) of J2000 coordinates in degrees, from the IAU definition of the galactic pole (FK5/J2000)."""
    ragp, decgp = math.radians(192.859481208), math.radians(27.128251208)
    a, d = math.radians(raj), math.radians(decj)
    return math.degrees(math.asin(math.sin(d) * math.sin(decgp) + math.cos(d) * math.cos(decgp) * math.cos(a - ragp)))


def sky(rng):
    h, m, s = int(rng.integers(24)), int(rng.integers(60)), float(np.round(rng.uniform(0, 59.9), 3))
    dd, dm, ds = int(rng.integers(0, 85)), int(rng.integers(60)), float(np.round(rng.uniform(0, 59.9), 3))
    sg = gen.pick(rng, [1, -1])
    ra = 15 * (h + m / 60 + s / 3600)
    de = sg * (dd + dm / 60 + ds / 3600)
    return (h, m, s), (sg, dd, dm, ds), ra, de


def write_inf(path, base, dm, tsamp, nsamp, radec, fbot, cbw, nchan):
    (h, m, s), (sg, dd, dmn, ds) = radec
    d = gen.radio_inf(basename=base, nsamp=nsamp, tsamp=tsamp, dm=dm, raj=f"{h:02d}:{m:02d}:{s:07.4f}",
                      decj=f"{'-' if sg < 0 else ''}{dd:02d}:{dmn:02d}:{ds:07.4f}", fbot=fbot, cbw=cbw, nchan=nchan,
                      bandwidth=abs(cbw) * nchan)
    with open(path, "w") as f:
        f.write(gen.inf_text(d))


def dm_list(rng, n):
    kind = gen.pick(rng, ["grid", "random", "log", "fine"])
    if kind == "fine":
        # neighbours a few hundredths or thousandths apart, all kept when the finest width is short enough
        t = gen.pick(rng, [0.0, float(rng.uniform(0, 500))]) + np.arange(n) * gen.pick(rng, [0.001, 0.002, 0.004, 0.01, 0.03])
    elif kind == "grid":
        t = np.arange(n) * gen.loguniform(rng, 0.05, 20)
    elif kind == "random":
        t = rng.uniform(0, gen.loguniform(rng, 10, 2000), n)
    else:
        t = np.concatenate(([0.0], np.geomspace(0.5, 1500, n)))[:n]
    return np.unique(np.round(t, 3)).tolist()


def special_limits(rng, dms, lo, hi):
    """Limits that are exactly zero, exactly a trial DM, integers, or in between two trials."""
    def one(x):
        return gen.pick(rng, [x, 0.0, 0, gen.pick(rng, dms), min(dms), max(dms), int(max(dms) / 2), -1.0])
    if rng.random() < 0.4:
        if rng.random() < 0.5:
            hi = one(hi)
        if rng.random() < 0.5:
            lo = one(lo)
    return lo, hi


@family("presto", quick=520, thorough=3500)
def presto(ctx):
    rng = ctx.rng
    dms = dm_list(rng, gen.logint(rng, 1, 40))
    ra, de, rad, ded = sky(rng)
    nchan = gen.logint(rng, 16, 4096) if rng.random() < 0.9 else int(rng.integers(1, 16))
    cbw = gen.loguniform(rng, 0.01, 1.0) * gen.pick(rng, [1, 1, -1])
    fbot = float(np.round(rng.uniform(300, 3000) + (abs(cbw) * nchan if cbw < 0 else 0), 4))
    cbw = float(np.round(cbw, 6))
    order = rng.permutation(len(dms))
    names = rng.permutation(len(dms) * 3)[:len(dms)]
    files, info = [], {}
    unequal = rng.random() < 0.5
    for k in order:
        nsamp = int(rng.integers(1000, 90000)) if unequal else 50000
        tsamp = float(gen.pick(rng, [1e-4, 2e-4, 5e-3])) if unequal else 1e-4
        base = f"trial{names[k]:03d}"
        p = os.path.join(ctx.scratch, base + ".inf")
        write_inf(p, base, dms[k], tsamp, nsamp, (ra, de), fbot, cbw, nchan)
        files.append(p)
        info[dms[k]] = (p, nsamp, tsamp)
    wmin = gen.loguniform(rng, 1e-4, 5e-2) if rng.random() < 0.6 else gen.loguniform(rng, 1e-9, 1e-4)
    lo = None if rng.random() < 0.5 else float(rng.uniform(-1, max(dms) + 0.1))
    hi = None if rng.random() < 0.5 else float(rng.uniform(lo if lo is not None else 0, max(dms) * 1.2 + 1))
    lo, hi = special_limits(rng, dms, lo, hi)
    cap = None if rng.random() < 0.4 else gen.loguniform(rng, 5, 500)
    b = galactic_b(rad, ded)
    capdm = math.inf if cap is None else cap / abs(math.sin(math.radians(b)))
    elo = min(dms) if lo is None else lo
    ehi = min(max(dms) if hi is None else hi, capdm)
    # the galactic latitude of the model has its own rounding: avoid trials within 1e-3 relative of the cap
    inr = [d for d in dms if elo <= d <= ehi]
    if cap is not None and any(abs(d - capdm) < 1e-3 * capdm for d in dms):
        cap, capdm = None, math.inf
        ehi = max(dms) if hi is None else hi
        inr = [d for d in dms if elo <= d <= ehi]
    manual = gen.pick(rng, [None, (100.0, 200.0, 7)])   # to be ignored, the files know
    kw = dict(dmsinb_max=cap, fmt="presto", wmin=wmin)
    if manual:
        kw.update(fmin=manual[0], fmax=manual[1], nchans=manual[2])
    ctx.p(n=len(dms), lo=lo, hi=hi, cap=cap, wmin=wmin, fbot=fbot, cbw=cbw, nchan=nchan, unequal=unequal, manual=manual)
    ctx.count("files", len(files))
    if not inr:
        ctx.raises(ValueError, "no-trials-accepted", DMIterator, files, lo, hi, **kw)
        ctx.trivial()
        return
    it = DMIterator(files, lo, hi, **kw)
    ctx.count("iterators")
    ctx.count("band_inferred")
    ftop = fbot + nchan * cbw
    fmin, fmax = min(fbot, ftop), max(fbot, ftop)
    ctx.check(abs(it.fmin - fmin) < 1e-9 * fmin and abs(it.fmax - fmax) < 1e-9 * fmax and it.nchans == nchan, "band",
              f"{it.fmin},{it.fmax},{it.nchans} instead of {fmin},{fmax},{nchan}")
    ctx.check(abs(it.dm_start - elo) < 1e-9 * (1 + abs(elo)), "dm-start", f"{it.dm_start} / {elo}")
    ctx.check(abs(it.dm_end - ehi) < 1e-5 * (1 + abs(ehi)), "dm-end", f"{it.dm_end} / {ehi}")
    if ehi == capdm:
        ctx.count("capped")
    sel = np.asarray(it.selected_dms, dtype=float)
    judge_expect(ctx, sel, inr, fmin, fmax, nchan, wmin)
    after(ctx, it, sel, info)


def judge_expect(ctx, sel, inr, fmin, fmax, nchan, wmin):
    g = np.asarray(sel)
    u = np.sort(np.asarray(inr))
    ctx.check(g.size and np.all(np.isin(g, u)), "selected-outside-limits", f"{g} / {u}")
    ctx.check(g[0] == u[0] and g[-1] == u[-1], "extreme-trials-missing", f"{g[[0, -1]]} / {u[[0, -1]]}")
    ctx.check(np.all(np.diff(g) > 0), "not-increasing")
    r = ref.dm_radii(g, fmin, fmax, nchan, wmin)
    for i in range(g.size - 1):
        if (g[i + 1] - r[i + 1]) - (g[i] + r[i]) > 1e-9 * (1 + g[i + 1]):
            ctx.check(not np.any((u > g[i]) & (u < g[i + 1])), "coverage-hole", f"between {g[i]} and {g[i + 1]}")
    ru = ref.dm_radii(u, fmin, fmax, nchan, wmin)
    worst = ref.min_chain(u, ru, -1e-9 * (1 + u[-1]))
    ctx.check(g.size <= worst, "not-minimal", f"{g.size} selected, {worst} suffice")


def after(ctx, it, sel, info):
    rng = ctx.rng
    for cs in {1, 2, 3, int(rng.integers(1, 12)), len(sel), len(sel) + 1}:
        chunks = [list(c) for c in it.iterate_filenames(chunksize=cs)]
        ctx.count("chunks", len(chunks))
        flat = [f for c in chunks for f in c]
        exp = [info[d][0] for d in sel]
        ctx.check(all(c for c in chunks), "empty-chunk")
        ctx.check(all(len(c) == cs for c in chunks[:-1]) and len(chunks[-1]) <= cs, "chunk-size",
                  f"chunksize {cs}: {[len(c) for c in chunks]}")
        ctx.check([os.path.realpath(f) for f in flat] == [os.path.realpath(f) for f in exp], "files-iterated",
                  f"chunksize {cs}: {len(flat)} files {[os.path.basename(f) for f in flat][:12]} instead of "
                  f"{len(exp)} {[os.path.basename(f) for f in exp][:12]}")
    for d in info:
        ctx.check(os.path.realpath(it.get_filename(d)) == os.path.realpath(info[d][0]), "file-of-dm",
                  f"DM {d}: {it.get_filename(d)}")
    T = [a * b for _, a, b in info.values()]
    med = float(np.median(T))
    ctx.check(abs(it.tobs_median() - med) < 1e-9 * med, "tobs-median", f"{it.tobs_median()} / {med}")
    mx = max(b for _, a, b in info.values())
    ctx.check(abs(it.tsamp_max() - mx) < 1e-12, "tsamp-max", f"{it.tsamp_max()} / {mx}")
    if len(info) < 2:
        ctx.trivial()


@family("planned", quick=160, thorough=1500)
def planned(ctx):
    """The plan the pipeline makes: the finest width of all search ranges decides, and the limits of the configuration."""
    from riptide.pipeline.pipeline import Pipeline
    rng = ctx.rng
    dms = dm_list(rng, gen.logint(rng, 2, 40))
    ra, de, rad, ded = sky(rng)
    nchan = gen.logint(rng, 1, 4096)
    fbot, cbw = float(rng.uniform(100, 2000)), gen.loguniform(rng, 1, 400) / nchan
    n = int(rng.integers(1, 5))
    wmin = gen.loguniform(rng, 2e-6, 5e-2)
    edges = np.cumsum(np.concatenate(([gen.loguniform(rng, 20, 400) * wmin], rng.uniform(30, 3000, n) * wmin)))
    ranges, widths = [], []
    for i in range(n):
        b = max(8, int(edges[i] / wmin / (1 if i == 0 or rng.random() < 0.3 else rng.uniform(1, 20))))
        ranges.append(gen.small_range(float(edges[i]), float(edges[i + 1]), b, b + 4, 8, 8, f"r{i}"))
        widths.append(float(edges[i]) / b)
    tsamp = min(widths) * float(rng.uniform(0.1, 0.99))
    files = []
    for k in rng.permutation(len(dms)):
        p = os.path.join(ctx.scratch, f"f{int(k)}.inf")
        write_inf(p, f"f{int(k)}", dms[k], tsamp * (1 if k == 0 else float(gen.pick(rng, [1, 1, 0.5]))), 5000, (ra, de), fbot, cbw, nchan)
        files.append(p)
    lo = gen.pick(rng, [None, None, 0.0, 0, dms[len(dms) // 3]])
    hi = gen.pick(rng, [None, None, dms[-1], dms[2 * len(dms) // 3], 1e4])
    inr = [d for d in dms if (lo is None or d >= lo) and (hi is None or d <= hi)]
    ctx.p(n=len(dms), widths=widths, nchan=nchan, fbot=fbot, cbw=cbw, lo=lo, hi=hi)
    pl = Pipeline(gen.small_config(ranges, processes=1, dmselect=dict(min=lo, max=hi)))
    if not inr:
        ctx.raises(ValueError, "no-trials-accepted", pl.prepare, files)
        ctx.trivial()
        return
    pl.prepare(files)
    ctx.check(abs(pl.wmin() / min(widths) - 1) < 1e-12, "finest-width", f"{pl.wmin()} instead of {min(widths)}")
    judge_expect(ctx, np.asarray(pl.dmiter.selected_dms, dtype=float), inr, fbot, fbot + nchan * cbw, nchan, min(widths))
    ctx.count("planned")
    ctx.count("files", len(files))


@family("sigproc", quick=280, thorough=1800)
def sigproc(ctx):
    rng = ctx.rng
    dms = dm_list(rng, gen.logint(rng, 1, 16))
    (h, m, s), (sg, dd, dmn, ds), rad, ded = sky(rng)
    order = rng.permutation(len(dms))
    files, info = [], {}
    for k in order:
        nsamp = int(rng.integers(100, 2000))
        tsamp = float(gen.pick(rng, [1e-3, 2e-3]))
        p = os.path.join(ctx.scratch, f"x{k:03d}.tim")
        gen.write_sigproc(p, np.zeros(nsamp, dtype=np.float32), tsamp, dms[k], src_raj=h * 10000 + m * 100 + s,
                          src_dej=sg * (dd * 10000 + dmn * 100 + ds))
        files.append(p)
        info[dms[k]] = (p, nsamp, tsamp)
    fmin, fmax, nchan = float(rng.uniform(300, 1000)), float(rng.uniform(1100, 2000)), gen.logint(rng, 16, 2048)
    wmin = gen.loguniform(rng, 1e-4, 5e-2) if rng.random() < 0.6 else gen.loguniform(rng, 1e-9, 1e-4)
    full = rng.random() < 0.7
    args = dict(fmin=fmin, fmax=fmax, nchans=nchan)
    if not full:
        drop = gen.pick(rng, [["fmin"], ["fmax"], ["nchans"], ["fmin", "fmax", "nchans"]])
        for d in drop:
            args[d] = None
    lo, hi = special_limits(rng, dms, None, None)
    elo, ehi = (min(dms) if lo is None else lo), (max(dms) if hi is None else hi)
    ctx.p(n=len(dms), full=full, args=args, wmin=wmin, lo=lo, hi=hi)
    ctx.count("files", len(files))
    if not full:
        ctx.raises(ValueError, "missing-band-accepted", DMIterator, files, lo, hi, dmsinb_max=None, fmt="sigproc", wmin=wmin, **args)
        ctx.trivial()
        return
    cap = None if rng.random() < 0.5 else gen.loguniform(rng, 50, 500)
    b = galactic_b(rad, ded)
    capdm = math.inf if cap is None else cap / abs(math.sin(math.radians(b)))
    if cap is not None and (capdm < min(dms) or any(abs(d - capdm) < 1e-3 * capdm for d in dms)):
        cap, capdm = None, math.inf
    inr = [d for d in dms if elo <= d <= min(ehi, capdm)]
    if not inr:
        ctx.raises(ValueError, "no-trials-accepted", DMIterator, files, lo, hi, dmsinb_max=cap, fmt="sigproc", wmin=wmin, **args)
        ctx.trivial()
        return
    it = DMIterator(files, lo, hi, dmsinb_max=cap, fmt="sigproc", wmin=wmin, **args)
    ctx.count("iterators")
    ctx.count("band_manual")
    ctx.check((it.fmin, it.fmax, it.nchans) == (fmin, fmax, nchan), "band")
    if capdm < ehi:
        ctx.count("capped")
    sel = np.asarray(it.selected_dms, dtype=float)
    judge_expect(ctx, sel, inr, fmin, fmax, nchan, wmin)
    after(ctx, it, sel, info)


@family("inconsistent", quick=120, thorough=600)
def inconsistent(ctx):
    """Files of different pointings or different bands."""
    rng = ctx.rng
    dms = dm_list(rng, int(rng.integers(2, 9)))
    if len(dms) < 2:
        dms = [0.0, 10.0]
    odd = int(rng.integers(len(dms)))
    what = gen.pick(rng, ["sky", "band", "band-manual"])
    ra, de, *_ = sky(rng)
    fbot, cbw, nchan = 1200.0, 0.5, 800
    files, info = [], {}
    for k, d in enumerate(dms):
        p = os.path.join(ctx.scratch, f"f{k}.inf")
        r, c, b, nb, cb = ra, de, fbot, nchan, cbw
        if k == odd and what == "sky":
            (hh, mm, ss), (sg, dd, dmn, ds) = ra, de
            near = rng.random()
            if near < 0.3:
                c = (sg, dd, dmn, ds + gen.pick(rng, [0.01, 0.1, 0.7]))     # less than an arcsecond apart
            elif near < 0.65:
                r = ((hh + 1) % 24, mm, ss)
            else:
                c = (sg, dd, (dmn + 1) % 60, ds)
        elif k == odd:
            how = gen.pick(rng, ["shift", "fewer", "same-band", "same-band", "tiny", "wider"])
            if how == "shift":
                b = fbot + 1.0
            elif how == "fewer":
                nb = nchan // 2
            elif how == "same-band":      # same edges, other channels
                nb, cb = gen.pick(rng, [(nchan // 2, cbw * 2), (nchan * 4, cbw / 4)])
            elif how == "tiny":
                b = fbot + 1 / 128
            else:
                cb = cbw * 1.5
            ctx.p(how=how)
        write_inf(p, f"f{k}", d, 1e-4, 1000, (r, c), b, cb, nb)
        files.append(p)
        info[d] = (p, 1000, 1e-4)
    ctx.p(what=what, n=len(dms), odd=odd)
    if what == "sky":
        ctx.raises(RuntimeError, "mixed-pointings-accepted", DMIterator, files, None, None, dmsinb_max=None, wmin=1e-3)
    elif what == "band":
        ctx.raises((ValueError, RuntimeError), "mixed-bands-accepted", DMIterator, files, None, None, dmsinb_max=None, wmin=1e-3)
    else:
        it = DMIterator(files, None, None, dmsinb_max=None, wmin=1e-3, fmin=1000.0, fmax=1500.0, nchans=100)
        ctx.check((it.fmin, it.fmax, it.nchans) == (1000.0, 1500.0, 100), "band-manual")
        after(ctx, it, np.asarray(it.selected_dms, dtype=float), info)


@family("defaults", quick=60, thorough=300)
def defaults(ctx):
    """Options left out have the values of the signature."""
    rng = ctx.rng
    dms = dm_list(rng, int(rng.integers(2, 30)))
    ra, de, rad, ded = sky(rng)
    files = []
    for k, d in enumerate(dms):
        p = os.path.join(ctx.scratch, f"f{k}.inf")
        write_inf(p, f"f{k}", d, 1e-4, 1000, (ra, de), 1200.0, 0.5, 800)
        files.append(p)
    ctx.p(dms=dms, rad=rad, ded=ded)
    b = galactic_b(rad, ded)
    if min(dms) > 45.0 / abs(math.sin(math.radians(b))) * 0.99:
        ctx.trivial()
        return

    def same(a, b):
        return a.dm_start == b.dm_start and a.dm_end == b.dm_end and list(a.selected_dms) == list(b.selected_dms) and a.fmin == b.fmin
    ctx.defaults(DMIterator, (files, None, None), dict(dmsinb_max=45.0, fmt="presto", wmin=1e-3, fmin=None, fmax=None, nchans=None), same)
