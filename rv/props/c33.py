"""C33 plots show the stored data."""
import datetime
import os
import re
import struct
import zlib

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas
from matplotlib.patches import Rectangle
from riptide import Candidate, Metadata, Periodogram, TimeSeries, ffa_search, load_json, save_json
from riptide.peak_detection import Peak
from riptide.pipeline.peak_cluster import PeakCluster
from riptide.serialization import to_json

from rv import gen
from rv.core import Registry

PROP = "C33"
LEVEL = "exploration"
RULE = ("Random candidates (made by the pipeline's constructor, by hand, or loaded from file; one or many sub-integrations, odd bin numbers, one or many DM "
        "trials, any metadata missing) and periodograms are plotted; the artists of the figure (image, bars, lines, texts, limits) are read back in data "
        "coordinates and compared with the stored numbers. Saved PNG files are decoded. The object and other figures stay as they were.")
MIN = {"candidates": 150, "images": 150, "bars": 150, "curves": 150, "texts": 1500, "pngs": 50, "periodograms": 150, "missing_metadata": 60, "single_dm": 20, "one_subint": 20}
family = Registry()


def rand_candidate(ctx):
    rng = ctx.rng
    how = gen.pick(rng, ["direct", "direct", "pipeline", "pipeline", "file"])
    ns = int(gen.pick(rng, [1, 1, 2, 3, gen.logint(rng, 2, 70)]))
    nb = int(gen.pick(rng, [gen.logint(rng, 2, 400), gen.logint(rng, 2, 12), 1]) if how == "direct" else gen.logint(rng, 8, 128))
    ndm = int(gen.pick(rng, [1, 2, 5, 30]))
    dms = np.unique(np.round(rng.uniform(0, 600, ndm), 3))
    npk = int(gen.pick(rng, [len(dms), 3 * len(dms), 1]))
    if npk == 1:
        dms = dms[:1]
    per = gen.loguniform(rng, 1e-3, 50)
    peaks = []
    for k in range(npk):
        w = int(rng.integers(1, 9))
        s = float(rng.uniform(5, 400) if rng.random() < 0.8 else np.round(rng.uniform(5, 8)))
        f = float(1 / per * (1 + 1e-5 * rng.standard_normal()))
        peaks.append(Peak(period=1 / f, freq=f, width=w, ducy=w / max(nb, w + 1), iw=w - 1, ip=k, snr=s, dm=float(dms[k % len(dms)])))
    meta = {"dm": float(dms[0]), "mjd": float(rng.uniform(41400, 69000)), "source_name": gen.pick(rng, ["J0437-4715", "B1937+21", "Käse 東京", "a_b^c {x}", "", "50% {0}", "A$^{$B", "$x"]),
            "skycoord": None}
    from astropy.coordinates import SkyCoord
    ra = float(gen.pick(rng, [rng.uniform(0, 360), rng.uniform(0, 15), 0.0, 359.9999999]))
    dec = float(gen.pick(rng, [rng.uniform(-90, 90), rng.uniform(-1, 0), 0.0, -0.5 / 3600, 90.0]))
    meta["skycoord"] = SkyCoord(ra, dec, unit="deg", frame="icrs")
    if rng.random() < 0.5:
        for k in ("mjd", "source_name", "skycoord"):
            if rng.random() < 0.5:
                del meta[k]
    else:
        if rng.random() < 0.3:
            meta["mjd"] = float(gen.pick(rng, [51544.0, 57000.99999, 59000.5, 60000.0]))
    ctx.count("missing_metadata", int(any(k not in meta for k in ("mjd", "source_name", "skycoord"))))
    if how == "direct":
        T = float(gen.loguniform(rng, 1, 20000))
        meta["tobs"] = T
        sub = gen.data_kind(rng, ns * nb)[1].reshape(ns, nb) + gen.noise(rng, ns * nb).reshape(ns, nb) * np.float32(rng.integers(2))
        if ns == 1 and rng.random() < 0.7:
            sub = sub[0]
        df = pandas.DataFrame([p.summary_dict() for p in peaks])
        cand = Candidate(max(peaks, key=lambda p: p.snr).summary_dict(), Metadata(meta), df, sub)
    else:
        n = int(nb * gen.loguniform(rng, 4, 40))
        ts = TimeSeries(gen.noise(rng, n), float(peaks[0].period / nb / 1.02), metadata=meta)
        sub = int(gen.pick(rng, [1, 1, 2, 3, 8])) if rng.random() < 0.7 else None
        cand = Candidate.from_pipeline_output(ts, PeakCluster(peaks), nb, subints=sub)
        if how == "file":
            p = os.path.join(ctx.scratch, "c.json")
            save_json(p, cand)
            cand = load_json(p)
    ctx.p(source=meta.get("source_name"), how=how, shape=list(np.shape(cand.subints)), ndm=len(dms), npk=npk, meta=sorted(k for k in meta if meta[k] is not None), s=float(cand.params["snr"]), per=per)
    ctx.count("single_dm", int(len(dms) == 1))
    ctx.count("one_subint", int(np.ndim(cand.subints) == 1 or len(cand.subints) == 1))
    return cand


def expected_curve(peaks):
    best = {}
    for d, s in zip(peaks["dm"].tolist(), peaks["snr"].tolist()):
        best[d] = max(s, best.get(d, -np.inf))
    return np.asarray(sorted(best)), np.asarray([best[d] for d in sorted(best)])


def judge_image(ctx, fig, cand):
    X = np.atleast_2d(np.asarray(cand.subints))
    T = cand.tsmeta["tobs"]
    n, b = X.shape
    e = b + b // 2
    ims = [(ax, im) for ax in fig.get_axes() for im in ax.get_images()]
    ctx.check(len(ims) == 1, "subints-missing", f"{len(ims)} images in the figure")
    ax, im = ims[0]
    A = np.ma.filled(im.get_array(), np.nan)
    l, r, bo, to = im.get_extent()
    if getattr(im, "origin", "upper") == "upper":
        y0, y1 = to, bo      # of the first and past the last row
    else:
        y0, y1 = bo, to
    ctx.check(A.shape == (n, e), "subints-shape", f"image of shape {A.shape}, expected {(n, e)} for {n} subints and {b} bins")
    xc = l + (np.arange(e) + 0.5) * (r - l) / e
    yc = y0 + (np.arange(n) + 0.5) * (y1 - y0) / n
    ctx.check(np.allclose(xc, np.arange(e), atol=1e-6 * e), "subints-phase", f"pixels at phase bins {xc[:3]}..{xc[-1]}")
    ctx.check(np.allclose(yc, (np.arange(n) + 0.5) * T / n, rtol=1e-6), "subints-time", f"{n} subints of {T} s shown at times {yc[:3]}..{yc[-1]}")
    want = X[:, np.arange(e) % b]
    ctx.check(np.array_equal(A, want), "subints-values", f"image differs from the subints, e.g. at {np.argwhere(A != want)[:3].tolist()}")
    ctx.check(np.allclose(sorted(ax.get_xlim()), (-0.5, e - 0.5)) and np.allclose(sorted(ax.get_ylim()), (0, T)), "subints-limits", f"axes show {ax.get_xlim()} x {ax.get_ylim()}")
    ctx.check(ax.get_xlim()[0] < ax.get_xlim()[1] and ax.get_ylim()[0] > ax.get_ylim()[1], "subints-direction", f"axes run {ax.get_xlim()} x {ax.get_ylim()}")
    if X.max() > X.min():   # darker is brighter
        lo, hi = (im.cmap(im.norm(v))[:3] for v in (X.min(), X.max()))
        ctx.check(sum(hi) < sum(lo), "subints-colours", f"weakest sample has colour {lo}, strongest {hi}")
    ctx.count("images")
    return ax


def judge_profile(ctx, fig, cand):
    X = np.atleast_2d(np.asarray(cand.subints))
    b = X.shape[1]
    e = b + b // 2
    prof = np.asarray(cand.profile)
    ctx.check(np.allclose(prof, X.astype(float).sum(0), rtol=1e-4, atol=1e-4 * (1 + abs(X).sum(0).max())), "profile", "profile is not the sum of the subints")
    P = prof[np.arange(e) % b].astype(float)
    best = None
    for ax in fig.get_axes():
        rects = [q for q in ax.patches if isinstance(q, Rectangle)]
        if rects and (best is None or len(rects) > len(best[1])):
            best = (ax, rects)
    ctx.check(best is not None, "profile-missing", "no bars in the figure")
    ax, rects = best
    ctx.check(len(rects) == e, "profile-bins", f"{len(rects)} bars for {b} bins")
    rects = sorted(rects, key=lambda q: q.get_x())
    x = np.asarray([q.get_x() + q.get_width() / 2 for q in rects])
    h = np.asarray([q.get_y() + q.get_height() for q in rects])
    ctx.check(np.allclose(x, np.arange(e), atol=1e-6), "profile-phase", f"bars at {x[:3]}..{x[-1]}")
    ctx.check(all(abs(q.get_y()) < 1e-12 or abs(q.get_y() + q.get_height()) < 1e-12 for q in rects), "profile-base", "bars do not start at zero")
    tol = 1e-5 * (1 + abs(P).max())
    ctx.check(np.allclose(h, P - np.median(P), atol=tol), "profile-values", f"bars {h[:4]} differ from profile {(P - np.median(P))[:4]}")
    y0, y1 = ax.get_ylim()
    ctx.check(y0 < y1 and y0 <= h.min() + tol and y1 >= h.max() - tol and y0 <= 0 <= y1, "profile-limits", f"axes show {y0}..{y1}, bars {h.min()}..{h.max()}")
    ctx.check(np.allclose(ax.get_xlim(), (-0.5, e - 0.5)), "profile-limits", f"axes show phase bins {ax.get_xlim()}")
    ctx.count("bars")
    return ax


def judge_curve(ctx, fig, cand, used):
    dm, snr = expected_curve(cand.peaks)
    d, s = cand.dm_curve
    ctx.check(np.array_equal(d, dm) and np.array_equal(s, snr), "dm-curve", f"dm_curve {np.asarray(d)[:4]} {np.asarray(s)[:4]}, expected {dm[:4]} {snr[:4]}")
    lines = [(ax, ln) for ax in fig.get_axes() if ax not in used for ln in ax.get_lines()]
    ctx.check(lines, "dm-curve-missing", "no line besides subints and profile")
    ok = [(ax, ln) for ax, ln in lines if len(ln.get_xdata()) == len(dm)]
    for ax, ln in ok:
        o = np.argsort(np.asarray(ln.get_xdata(), dtype=float))
        if np.array_equal(np.asarray(ln.get_xdata(), dtype=float)[o], dm) and np.array_equal(np.asarray(ln.get_ydata(), dtype=float)[o], snr):
            break
    else:
        ctx.fail("dm-curve-values", f"no line shows S/N {snr[:4]} at DM {dm[:4]}; {[(np.asarray(ln.get_xdata())[:4], np.asarray(ln.get_ydata())[:4]) for _, ln in lines]}")
    visible = ln.get_marker() not in (None, "None", "", " ") or (len(dm) > 1 and ln.get_linestyle() not in ("None", "", " "))
    ctx.check(visible and ln.get_visible(), "dm-curve-invisible", f"marker {ln.get_marker()!r}, line {ln.get_linestyle()!r}")
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    ctx.check(x0 < x1 and x0 <= dm.min() and x1 >= dm.max() and y0 <= snr.min() and y1 >= snr.max(), "dm-curve-limits", f"axes show {(x0, x1)} x {(y0, y1)}")
    if len(dm) > 1:
        ctx.check(x1 - x0 <= 1.3 * np.ptp(dm), "dm-curve-limits", f"axes show DM {x0}..{x1} for {dm.min()}..{dm.max()}")
    ctx.check("DM" in ax.get_xlabel() and "S/N" in ax.get_ylabel(), "dm-curve-labels", f"{ax.get_xlabel()!r} {ax.get_ylabel()!r}")
    ctx.count("curves")


def rows_of(fig):
    """Lines of text: {first column: [other columns]}"""
    out = {}
    texts = [t for ax in fig.get_axes() for t in ax.texts] + list(fig.texts)
    rows = {}
    for t in texts:
        if t.get_visible():
            rows.setdefault(round(t.get_position()[1], 4), []).append((t.get_position()[0], t.get_text()))
    for r in rows.values():
        r = [v for _, v in sorted(r, key=lambda q: q[0])]
        if r[0].strip():
            out[r[0].strip().rstrip(":")] = r[1:]
    return out, [t.get_text() for t in texts]


def sexa(s):
    m = re.fullmatch(r"([+-]?)(\d+):(\d+):(\d+(?:\.\d*)?)", s)
    return None if not m else (-1 if m[1] == "-" else 1) * (int(m[2]) + int(m[3]) / 60 + float(m[4]) / 3600)


def judge_table(ctx, fig, cand):
    rows, alltexts = rows_of(fig)
    par, meta = cand.params, cand.tsmeta

    def value(name):
        ctx.check(name in rows and rows[name], "table-row-missing", f"no line {name!r} in {sorted(rows)}")
        ctx.count("texts")
        return rows[name][0].strip(), " ".join(rows[name][1:])

    for name, v, unit, half in (("Period", par["period"] * 1e3, "ms", 5.1e-7), ("DM", par["dm"], "pc", 5.1e-3), ("Width", par["width"], "bins", 1e-9),
                                ("Duty cycle", par["ducy"] * 100, "%", 5.1e-3), ("S/N", par["snr"], "", 5.1e-2)):
        s, u = value(name)
        try:
            x = float(s)
        except ValueError:
            x = np.nan
        ctx.check(abs(x - v) <= half + 1e-9 * abs(v), "table-value", f"{name} shown as {s!r}, is {v!r}")
        ctx.check(unit in u, "table-unit", f"{name} has unit {u!r}")
    s, _ = value("Source")
    name = meta["source_name"]
    if name is None:
        ctx.check(s not in ("None", "nan"), "table-missing-value", f"missing source shown as {s!r}")
    else:
        ctx.check(s.replace("\\$", "$") == name.strip(), "table-value", f"source {name!r} shown as {s!r}")
    c = meta["skycoord"]
    for k, v, full in (("RA", None if c is None else c.ra.deg / 15, 24), ("Dec", None if c is None else c.dec.deg, None)):
        s, _ = value(k)
        x = sexa(s)
        if v is None:
            ctx.check(x is None and s != "None", "table-missing-value", f"missing {k} shown as {s!r}")
        else:
            ctx.check(x is not None, "table-value", f"{k} {v} shown as {s!r}")
            d = abs(x - v)
            if full:
                d = min(d, abs(d - full))
            ctx.check(d <= 0.0051 / 3600, "table-value", f"{k} {v} shown as {s!r}")
            ctx.check(re.fullmatch(r"[+-]?\d\d\d?:\d\d:\d\d(\.\d+)?", s), "table-value", f"{k} shown as {s!r}")
    m = meta["mjd"]
    s, _ = value("MJD")
    u, _ = value("UTC")
    if m is None:
        ctx.check(not re.search(r"\d", s + u) and "None" not in s + u, "table-missing-value", f"missing MJD shown as {s!r}, {u!r}")
    else:
        try:
            x = float(s)
            d = datetime.datetime.strptime(u[:19].replace("T", " "), "%Y-%m-%d %H:%M:%S")
        except ValueError:
            ctx.fail("table-value", f"MJD {m} shown as {s!r}, {u!r}")
        ctx.check(abs(x - m) <= 5.1e-7, "table-value", f"MJD {m!r} shown as {s!r}")
        t = datetime.datetime(1858, 11, 17) + datetime.timedelta(days=m)
        ctx.check(abs((d - t).total_seconds()) <= 1.6, "table-value", f"MJD {m!r} is {t}, shown as {u!r}")
    ctx.check(not any("None" in t for t in alltexts), "table-missing-value", f"texts {alltexts}")


def png(path):
    """(width, height) of a complete PNG file"""
    with open(path, "rb") as f:
        b = f.read()
    if b[:8] != b"\x89PNG\r\n\x1a\n":
        return None
    pos, size, end = 8, None, False
    while pos + 12 <= len(b):
        n, t = struct.unpack(">I4s", b[pos:pos + 8])
        body = b[pos + 4:pos + 8 + n]
        if zlib.crc32(body) != struct.unpack(">I", b[pos + 8 + n:pos + 12 + n])[0]:
            return None
        if t == b"IHDR":
            size = struct.unpack(">II", body[4:12])
        end = t == b"IEND"
        pos += 12 + n
    return size if end and pos == len(b) else None


def style():
    return {k: repr(v) for k, v in matplotlib.rcParams.items()}


@family("candidate", quick=240, thorough=4000, timeout=120)
def candidate(ctx):
    rng = ctx.rng
    cand = rand_candidate(ctx)
    before = to_json(cand)
    other = None
    if rng.random() < 0.5:
        other = plt.figure(figsize=(3, 2))
        plt.plot([1, 2, 3])
    figs, rc = plt.get_fignums(), style()
    kw = {}
    if rng.random() < 0.6:
        kw["figsize"] = (float(rng.integers(6, 20)), float(rng.integers(3, 8)))
    if rng.random() < 0.6:
        kw["dpi"] = int(rng.integers(20, 100))
    fig = cand.plot(**kw)
    try:
        size = kw.get("figsize", (18, 4.5))
        ctx.check(np.allclose(fig.get_size_inches(), size) and fig.get_dpi() == kw.get("dpi", 80), "figure-size", f"{fig.get_size_inches()} {fig.get_dpi()} for {kw}")
        ctx.check(fig.number not in figs and sorted(plt.get_fignums()) == sorted(figs + [fig.number]), "figures", f"figures {figs} became {plt.get_fignums()}")
        a = judge_image(ctx, fig, cand)
        b = judge_profile(ctx, fig, cand)
        judge_curve(ctx, fig, cand, (a, b))
        judge_table(ctx, fig, cand)
        if other is not None:
            ctx.check(len(other.get_axes()) == 1 and len(other.get_axes()[0].lines) == 1, "other-figure", "plot() drew in another figure")
        if rng.random() < 0.5:
            p = os.path.join(ctx.scratch, "c.png")
            q = os.path.join(ctx.scratch, "d.png")
            n = plt.get_fignums()
            cand.savefig(p, **kw)
            ctx.check(plt.get_fignums() == n, "figures-left", f"figures {n} before savefig(), {plt.get_fignums()} after")
            dpi = kw.get("dpi", 80)
            ctx.check(png(p) == (int(size[0] * dpi), int(size[1] * dpi)), "png", f"saved file is {png(p)}, expected a PNG of {size} x {dpi}")
            fig.savefig(q)
            ctx.check(np.array_equal(plt.imread(p), plt.imread(q)), "png-content", "savefig() and plot() differ")
            ctx.count("pngs")
    finally:
        plt.close("all")
    ctx.check(to_json(cand) == before, "modified", "plotting modified the candidate")
    ctx.check(style() == rc, "style", "plotting modified rcParams")
    ctx.count("candidates")


@family("periodogram", quick=220, thorough=4000, timeout=60)
def periodogram(ctx):
    rng = ctx.rng
    if rng.random() < 0.5:
        b = int(rng.integers(10, 40))
        n = int(b * gen.loguniform(rng, 8, 60))
        _, pg = ffa_search(TimeSeries(gen.noise(rng, n), 1e-3), period_min=b * 1.02e-3, period_max=b * 2.5e-3, bins_min=b, bins_max=b + 3, deredden=False)
    else:
        m, nw = gen.logint(rng, 2, 3000), int(rng.integers(1, 7))
        per = np.sort(gen.loguniform(rng, 1e-2, 10) * (1 + rng.uniform(0, 2, m)))
        sn = gen.noise(rng, m * nw).reshape(m, nw) * gen.pick(rng, [1, 1, 10]) - gen.pick(rng, [0, 0, 30])
        pg = Periodogram(np.cumsum(rng.integers(1, 5, nw)), per, np.full(m, 100, dtype=np.uint32), sn.astype(np.float32), Metadata({"tobs": 100.0}))
    nw = len(pg.widths)
    iw = gen.pick(rng, [None, None, 0, 0, nw - 1, int(rng.integers(nw))])
    ctx.p(shape=list(pg.snrs.shape), iw=iw, per=float(pg.periods[0]), max=float(pg.snrs.max()))
    before = to_json(pg)
    rc = style()
    disp = bool(rng.random() < 0.3)
    other = plt.figure(figsize=(3, 2))
    plt.plot([1, 2, 3])
    n0 = plt.get_fignums()
    kw = {} if iw is None and rng.random() < 0.5 else {"iwidth": iw}
    try:
        if disp:
            size, dpi = (float(rng.integers(6, 20)), float(rng.integers(3, 8))), int(rng.integers(20, 100))
            pg.display(figsize=size, dpi=dpi, **kw)
            fig = plt.gcf()
            ctx.check(len(plt.get_fignums()) == len(n0) + 1 and np.allclose(fig.get_size_inches(), size) and fig.get_dpi() == dpi, "figure-size", f"{fig.get_size_inches()} {fig.get_dpi()}")
        else:
            fig = plt.figure(figsize=(8, 3), dpi=50)
            pg.plot(**kw)
            ctx.check(plt.gcf() is fig and len(plt.get_fignums()) == len(n0) + 1, "figures", f"plot() left figures {plt.get_fignums()}")
        ctx.check(len(other.get_axes()[0].lines) == 1, "other-figure", "plot() drew in another figure")
        ax = [a for a in fig.get_axes() if a.lines]
        ctx.check(len(ax) == 1, "periodogram-missing", f"{len(ax)} axes with lines")
        ax = ax[0]
        ln = [q for q in ax.lines if len(q.get_xdata()) == len(pg.periods)]
        ctx.check(len(ln) >= 1, "periodogram-line", f"lines of {[len(q.get_xdata()) for q in ax.lines]} points for {len(pg.periods)} trials")
        want = pg.snrs.max(axis=1) if iw is None else pg.snrs[:, iw]
        x, y = np.asarray(ln[0].get_xdata(), dtype=float), np.asarray(ln[0].get_ydata(), dtype=float)
        ctx.check(np.array_equal(x, pg.periods), "periodogram-x", f"{x[:3]} instead of the periods {pg.periods[:3]}")
        ctx.check(np.array_equal(y, want.astype(float)), "periodogram-y", f"S/N of width index {iw} shown as {y[:3]}, is {want[:3]}")
        ctx.check(np.allclose(ax.get_xlim(), (pg.periods.min(), pg.periods.max()), rtol=1e-9), "periodogram-limits", f"axes show {ax.get_xlim()}")
        y0, y1 = ax.get_ylim()
        ctx.check(y0 <= want.min() and y1 >= want.max(), "periodogram-limits", f"axes show S/N {y0}..{y1} of {want.min()}..{want.max()}")
        t = ax.get_title()
        if iw is None:
            ctx.check(not re.search(r"\d", t), "periodogram-title", f"best S/N plotted under the title {t!r}")
        else:
            ctx.check(re.findall(r"\d+", t) == [str(int(pg.widths[iw]))], "periodogram-title", f"width {pg.widths[iw]} plotted under the title {t!r}")
        ctx.check("eriod" in ax.get_xlabel() and "S/N" in ax.get_ylabel(), "periodogram-labels", f"{ax.get_xlabel()!r} {ax.get_ylabel()!r}")
    finally:
        plt.close("all")
    ctx.check(to_json(pg) == before, "modified", "plotting modified the periodogram")
    ctx.check(style() == rc, "style", "plotting modified rcParams")
    ctx.count("periodograms")
