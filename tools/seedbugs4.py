#!/opt/venv/bin/python
"""Fourth batch of planted bugs (see seedbugs.py)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import bug, main  # noqa: E402
import seedlib  # noqa: E402
from textwrap import dedent as D  # noqa: E402

seedlib.BUGS.clear()

CAND = """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import pandas
from riptide import Metadata
from riptide.candidate import Candidate
from astropy.coordinates import SkyCoord
def cand(bins=16, subints=8, dms=(0.0, 1.0, 2.0), **meta):
    rng = np.random.RandomState(0)
    X = rng.normal(size=(subints, bins)).astype(np.float32) if subints > 1 else rng.normal(size=bins).astype(np.float32)
    md = dict(source_name="J0000", skycoord=SkyCoord("00:00:01", "-45:00:01", unit=("hour", "deg")), dm=1.0, mjd=59000.0, tobs=100.0, fname="x")
    md.update(meta)
    pk = pandas.DataFrame([dict(period=1.0, freq=1.0, dm=d, width=3, ducy=0.1, snr=10.0 + i) for i, d in enumerate(dms)])
    return Candidate(dict(period=1.0, freq=1.0, dm=1.0, width=3, ducy=0.1, snr=12.0), Metadata(md), pk, X)
"""

GROW = """
import ctypes, gc
libc = ctypes.CDLL(None)
class MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
libc.mallinfo2.restype = MI
def used():
    gc.collect()
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd
def grows(fn, n=200, slack=20000):
    for i in range(50):
        fn(i)
    a = used()
    for i in range(50, 50 + n):
        fn(i)
    return used() - a > slack
"""

# ---------------------------------------------------------------- C32
bug("s200-interp-cache", "C32",
    [("riptide/running_medians.py", "def scrunch(data, factor):", "_GRIDS = {}\n\n\ndef scrunch(data, factor):"),
     ("riptide/running_medians.py", "    rmed_lores = running_median(scrunched_data, min_points)\n",
      "    rmed_lores = running_median(scrunched_data, min_points)\n    grid = _GRIDS.setdefault((data.size, scrunch_factor), np.arange(data.size))\n"),
     ("riptide/running_medians.py", "    return np.interp(np.arange(data.size), x_lores, rmed_lores)", "    return np.interp(grid, x_lores, rmed_lores)")],
    GROW + D("""
    from riptide import TimeSeries
    x = np.random.RandomState(0).normal(size=20000).astype(np.float32)
    def f(i):
        TimeSeries.from_numpy_array(x[:len(x) - i], 1e-3).deredden(3.0, minpts=101)
    check(not grows(f), "memory grows with data of different lengths")
    """),
    "time series of many different lengths in one process", "a table is kept for every length ever seen")

bug("s202-fig-kept", "C32",
    [("riptide/candidate.py", "        plt.close(fig)", "        if fig.number != 1:\n            plt.close(fig)")],
    CAND + D("""
    c = cand()
    d = tempfile.mkdtemp()
    c.savefig(d + "/a.png")
    check(not plt.get_fignums(), "a figure is left open")
    """),
    "no other figure open when the plot is saved", "a figure stays registered")

bug("s203-pool-refused", "C32",
    [("riptide/pipeline/worker_pool.py", "class WorkerPool(object):", "_POOLS = []\n\n\nclass WorkerPool(object):"),
     ("riptide/pipeline/worker_pool.py", "        results = pool.map(self.process_fname, fnames)\n", "        _POOLS.append(pool)\n        results = pool.map(self.process_fname, fnames)\n"),
     ("riptide/pipeline/worker_pool.py", "        pool.close()\n        pool.join()\n", "        if len(fnames) == self.processes:\n            pool.close()\n            pool.join()\n")],
    """
    import multiprocessing
    from riptide.pipeline.worker_pool import WorkerPool
    class W(WorkerPool):
        def process_fname(self, f):
            return [f]
    w = W(dict(rmed_width=1.0, rmed_minpts=11), [], processes=3)
    for i in range(3):
        w.process_fname_list(["a", "b"])
    n = len(multiprocessing.active_children())
    for c in multiprocessing.active_children():
        c.kill()
    check(n == 0, f"{n} children left")
    """,
    "a last chunk with fewer files than processes", "worker processes are left running")

# ---------------------------------------------------------------- C33
bug("s205-dec-zero", "C33",
    [("riptide/candidate.py", "        dec_hms = coord.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True)",
      "        d, m, s = coord.dec.dms\n        dec_hms = '{:03d}:{:02d}:{:05.2f}'.format(int(d), abs(int(m)), abs(s)) if d < 0 else '{:02d}:{:02d}:{:05.2f}'.format(int(d), abs(int(m)), abs(s))")],
    CAND + D("""
    c = cand(skycoord=SkyCoord("00:00:01", "-00:30:01", unit=("hour", "deg")))
    fig = c.plot()
    t = [x.get_text() for a in fig.axes for x in a.texts]
    check("-00:30:01.00" in t, f"{t}")
    """),
    "a declination between 0 and -1 degree", "the sign of the declination is lost in the plot")

bug("s206-width-index", "C33",
    [("riptide/periodogram.py", "        if iwidth is None:\n            snr = self.snrs.max(axis=1)", "        if not iwidth:\n            snr = self.snrs.max(axis=1)")],
    """
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from riptide import Periodogram, Metadata
    s = np.random.RandomState(0).normal(size=(50, 4)).astype(np.float32)
    p = Periodogram(np.array([1, 2, 3, 4]), np.linspace(1, 2, 50), np.full(50, 100), s, metadata=Metadata(dict(dm=0.0, tobs=100.0, source_name=None, skycoord=None, mjd=None, fname=None)))
    plt.figure()
    p.plot(iwidth=0)
    check(np.array_equal(np.asarray(plt.gca().lines[0].get_ydata()), s[:, 0]), "not the S/N of the first width")
    """,
    "the first width is selected", "the best S/N is shown instead of that of the first width")

bug("s208-one-subint", "C33",
    [("riptide/candidate.py", "        extent=[-0.5, nbins_ext-0.5, T, 0] # Note: t = 0 is at the top of the plot\n",
      "        extent=[-0.5, nbins_ext-0.5, T * X.shape[0] / (X.shape[0] + (X.shape[0] % 2)), 0] # Note: t = 0 is at the top of the plot\n")],
    CAND + D("""
    for n in (7, 8):
        fig = cand(subints=n).plot()
        im = [i for a in fig.axes for i in a.images][0]
        check(abs(im.get_extent()[2] - 100.0) < 1e-6, f"time axis ends at {im.get_extent()[2]}")
    """),
    "an odd number of sub-integrations", "the time axis is too short")

bug("s209-dm-order", "C33",
    [("riptide/candidate.py", "    plt.plot(dm, snr, color='r', marker='o', markersize=3)", "    plt.plot(np.linspace(dm_min, dm_max, len(dm)), snr, color='r', marker='o', markersize=3)")],
    CAND + D("""
    fig = cand(dms=(0.0, 1.0, 5.0)).plot()
    x = [np.asarray(l.get_xdata()) for a in fig.axes for l in a.lines if len(l.get_xdata()) == 3]
    check(any(np.allclose(q, [0, 1, 5]) for q in x), f"{x}")
    """),
    "DM trials that are not evenly spaced", "the DM curve is drawn at other DMs")

bug("s210-utc-mid", "C33",
    [("riptide/candidate.py", "        obsdate = Time(tsmeta['mjd'], format='mjd', scale='utc', precision=0)", "        obsdate = Time(round(tsmeta['mjd'], 6), format='mjd', scale='utc', precision=0)")],
    CAND + D("""
    m = 59000.0 + 43200.49 / 86400 + 1e-7
    from astropy.time import Time
    want = Time(m, format="mjd", scale="utc", precision=0).iso
    bad = 0
    for k in range(40):
        m = 59000.0 + (1000 * k + 0.49) / 86400
        fig = cand(mjd=m).plot(figsize=(4, 2), dpi=30)
        t = [x.get_text() for a in fig.axes for x in a.texts]
        plt.close(fig)
        bad += Time(m, format="mjd", scale="utc", precision=0).iso not in t
    check(not bad, f"{bad} dates differ")
    """),
    "a start time within 0.05 s of the middle of a second", "the date shown is a second off")

# ---------------------------------------------------------------- C34
bug("s211-level-file", "C34",
    [("riptide/pipeline/pipeline.py", "        level=args.log_level,\n", "        level=args.log_level if not args.logfile else min(args.log_level, 'INFO'),\n")],
    """
    import subprocess
    from riptide.pipeline.pipeline import get_parser
    import riptide.pipeline.pipeline as M
    seen = {}
    M.logging.basicConfig = lambda **k: seen.update(k)
    class P:
        @classmethod
        def from_yaml_config(cls, c): return cls()
        def process(self, *a): pass
    M.Pipeline = P
    d = tempfile.mkdtemp()
    M.run_program(get_parser().parse_args(["-c", "x", "-o", d, "-f", d + "/log", "--log-level", "WARNING", "a"]))
    lev = seen["level"]
    check(lev in ("WARNING", 30), f"level {lev}")
    """,
    "a log file together with level WARNING", "the log level is not the one asked for")

bug("s212-outdir-rel", "C34",
    [("riptide/pipeline/pipeline.py", "    pipeline.process(args.files, args.outdir)", "    pipeline.process(args.files, os.path.basename(args.outdir.rstrip('/')) if not os.path.isabs(args.outdir) else args.outdir)")],
    """
    import riptide.pipeline.pipeline as M
    got = []
    class P:
        @classmethod
        def from_yaml_config(cls, c): return cls()
        def process(self, files, out): got.append(os.path.realpath(out))
    M.Pipeline = P
    d = tempfile.mkdtemp()
    os.makedirs(d + "/a/b")
    os.chdir(d)
    M.run_program(M.get_parser().parse_args(["-c", "x", "-o", "a/b", "f"]))
    check(got == [os.path.realpath(d + "/a/b")], f"{got}")
    """,
    "a relative output directory with several components", "products go elsewhere")

bug("s213-log-append", "C34",
    [("riptide/pipeline/pipeline.py", "        handlers.append(logging.FileHandler(args.logfile, mode='w'))", "        handlers.append(logging.FileHandler(args.logfile))")],
    """
    import riptide.pipeline.pipeline as M
    class P:
        @classmethod
        def from_yaml_config(cls, c): return cls()
        def process(self, files, out): pass
    M.Pipeline = P
    d = tempfile.mkdtemp()
    open(d + "/log", "w").write("EARLIER RUN\\n")
    M.run_program(M.get_parser().parse_args(["-c", "x", "-o", d, "-f", d + "/log", "f"]))
    check("EARLIER" not in open(d + "/log").read(), "log of an earlier run kept")
    """,
    "a log file of an earlier run", "the log is appended to the earlier one")

# ---------------------------------------------------------------- C35
bug("s214-std-floor", "C35",
    [("riptide/time_series.py", "        norm = v ** 0.5\n", "        norm = max(v ** 0.5, 1e-8)\n")],
    """
    from riptide import TimeSeries
    x = np.random.RandomState(0).normal(size=1000).astype(np.float32)
    y = TimeSeries.from_numpy_array(x * np.float32(2.0**-40), 1e-3).normalise()
    check(abs(y.data.std() - 1) < 1e-4, f"std {y.data.std()}")
    """,
    "data whose standard deviation is below 1e-8", "data are not normalised")

bug("s215-width-ms", "C35",
    [("riptide/time_series.py", "        width_samples = int(round(width / self.tsamp))", "        width_samples = int(round(round(width, 4) / round(self.tsamp, 9)))")],
    """
    from riptide import TimeSeries
    x = np.cumsum(np.random.RandomState(0).normal(size=5000)).astype(np.float32)
    a = TimeSeries.from_numpy_array(x, 1.0 / 1024).deredden(0.55).data
    b = TimeSeries.from_numpy_array(x, 2.0**-20).deredden(0.55 / 1024).data
    check(np.array_equal(a, b), "depends on the unit of time")
    """,
    "microsecond sampling", "the filter window is rounded to 0.1 ms")

bug("s216-dm-tol", "C35",
    [("riptide/pipeline/harmonic_testing.py", "    dm_absdiff = abs(F.dm - H.dm)\n", "    dm_absdiff = abs(round(F.dm - H.dm, 2))\n")],
    """
    from types import SimpleNamespace as N
    from riptide.pipeline.harmonic_testing import htest
    F, H = N(freq=10.0, snr=50.0, ducy=0.01, dm=10.0), N(freq=20.0, snr=50.0 / 2**0.5, ducy=0.01, dm=10.004)
    r, _ = htest(F, H, 100.0, 40.0, 50.0, dm_distance_max=1.0)
    check(not r, "delays of several widths taken for equal")
    """,
    "a low observing frequency, where a DM difference below 0.005 matters", "candidates are taken for harmonics across significant DM differences")

bug("s217-segment-hz", "C35",
    [("riptide/peak_detection.py", "    m = max(1, ceil(abs(f[-1] - f[0]) / w)) # number of segments", "    m = max(1, ceil(abs(f[-1] - f[0]) / max(w, 1e-4))) # number of segments")],
    """
    from riptide.peak_detection import segment_stats
    f = np.linspace(0.02, 0.01, 20000)
    s = np.random.RandomState(0).normal(size=f.size)
    n = len(segment_stats(f, s, 100000.0, 5.0)[0])
    check(n == 200, f"{n} segments")
    """,
    "observations longer than 50000 s", "segments are wider than asked for")

bug("s218-period-eps", "C35",
    [("riptide/folding.py", "        full_periods = ts.length / period\n", "        full_periods = ts.length / max(period, 1e-6)\n" if False else "        full_periods = (ts.length + 1e-6) / period\n")],
    """
    from riptide import TimeSeries
    ts = TimeSeries.from_numpy_array(np.ones(1000, dtype=np.float32), 1e-9)
    try:
        y = ts.fold(1e-7, 20, subints=17)
    except ValueError:
        print("OK")
        sys.exit(0)
    check(False, f"17 sub-integrations of 10 periods: {y.shape}")
    """,
    "nanosecond sampling", "more sub-integrations than periods are accepted")

bug("s219-snr-floor", "C35",
    [("riptide/cpp/snr.hpp", "        const float snr = ((h + b) * dmax - b * sum) / stdnoise;", "        const float snr = ((h + b) * dmax - b * sum) / (stdnoise + 1.0e-9f);")],
    """
    from riptide import boxcar_snr
    x = np.random.RandomState(0).normal(size=100).astype(np.float32)
    a, b = boxcar_snr(x, [3], 1.0), boxcar_snr(x * np.float32(2.0**-30), [3], 2.0**-30)
    check(np.allclose(a, b, rtol=1e-3), f"{a} {b}")
    """,
    "data in very small units", "S/N depends on the unit of the data")

bug("s220-level-round", "C35",
    [("riptide/pipeline/dmiter.py", "        return (trial_dms[j] - radii[j]) - (trial_dms[i] + radii[i])", "        return round((trial_dms[j] - radii[j]) - (trial_dms[i] + radii[i]), 3)")],
    """
    from riptide.pipeline.dmiter import select_dms
    d = np.arange(20) * 1e-4
    a = select_dms(d, 0, 1, 30.0, 40.0, 1024, 1e-4)
    b = select_dms(d * 1024, 0, 1024, 30.0 * 32, 40.0 * 32, 1024, 1e-4)
    check(len(a) == len(b), f"{len(a)} and {len(b)} trials")
    """,
    "DM trials closer than 0.001", "trials are skipped although they cover DMs nobody else does")

# ---------------------------------------------------------------- C02 / others
bug("s221-env-threads", "C02",
    [("riptide/peak_detection.py", "    fc = np.median(f.reshape(m, p), axis=1)\n", "    fc = np.nanmedian(f.reshape(m, p), axis=1) if np.geterr()['invalid'] == 'ignore' else f.reshape(m, p).mean(axis=1)\n")],
    """
    from riptide.peak_detection import segment_stats
    f, s = np.geomspace(2.0, 1.0, 5000), np.random.RandomState(0).normal(size=5000)
    a = segment_stats(f, s, 50.0)[0]
    with np.errstate(all="ignore"):
        b = segment_stats(f, s, 50.0)[0]
    check(np.array_equal(a, b), "depends on numpy's error state")
    """,
    "a caller that has changed numpy's error handling", "results depend on global settings")


bug("s207-odd-bins", "C33",
    [("riptide/candidate.py", "    P = np.concatenate((P, P[:nbins//2]))\n", "    P = np.concatenate((P, P[:nbins//2]))\n    P = P - np.median(P)\n"),
     ("riptide/candidate.py", "    plt.bar(range(nbins_ext), P - np.median(P), width=1, color='#404040')", "    plt.bar(range(nbins_ext), np.clip(P, -10, 100), width=1, color='#404040')")],
    CAND + D("""
    c = cand(bins=16)
    c.subints[:, 3] += 100
    fig = c.plot()
    h = [np.array([r.get_height() for r in a.patches]) for a in fig.axes if len(a.patches) == 24][0]
    P = np.concatenate((c.profile, c.profile[:8]))
    check(np.allclose(h, P - np.median(P), atol=1e-3), f"{h.max()}")
    """),
    "a profile with a very bright pulse", "the bars are cut at 100")

bug("s225-sort-freq", "C35",
    [("riptide/clustering.py", "    ibreaks = np.where(abs(diff) > r)[0]", "    ibreaks = np.where(abs(diff) > r + 1e-12)[0]")],
    """
    from riptide.clustering import cluster1d
    x = np.array([0.0, 1.0, 5.0]) * 1e-13
    n = len(cluster1d(x, 2e-13))
    check(n == 2, f"{n} clusters")
    """,
    "positions closer than 1e-12", "well separated points are put together")

bug("s226-fold-eps", "C35",
    [("riptide/folding.py", "    if not tbin > ts.tsamp:", "    if not tbin > ts.tsamp * (1 + 1e-7) + 1e-9:")],
    """
    from riptide import TimeSeries
    ts = TimeSeries.from_numpy_array(np.ones(1000, dtype=np.float32), 1e-9)
    try:
        ts.fold(1.5e-7, 100)
    except ValueError as e:
        check(False, f"refused: {e}")
    """,
    "nanosecond sampling", "foldings that fit are refused")

bug("s227-tobs-int", "C35",
    [("riptide/pipeline/pipeline.py", "        clrad = conf['clustering']['radius'] / tmed", "        clrad = conf['clustering']['radius'] / round(tmed, 1)")],
    """
    from riptide.pipeline.pipeline import Pipeline
    from riptide.peak_detection import Peak
    class D:
        def tobs_median(self): return 0.12
    pl = Pipeline.__new__(Pipeline)
    pl.config = {"clustering": {"radius": 1.0}}
    pl.dmiter = D()
    f = [100.0, 91.0]
    pl.peaks = [Peak(period=1 / q, freq=q, width=3, ducy=0.1, iw=0, ip=0, snr=9.0, dm=0.0) for q in f]
    pl.cluster_peaks()
    check(len(pl.clusters) == 2, f"{len(pl.clusters)} clusters")
    """,
    "observations of a fraction of a second", "the clustering radius is not the configured one")

bug("s228-profile-cache", "C28",
    [("riptide/candidate.py", "            subints = None\n\n        subints_array", "            subints = 1\n\n        subints_array")],
    """
    import pandas
    from riptide import TimeSeries
    from riptide.candidate import Candidate
    from riptide.pipeline.peak_cluster import PeakCluster
    from riptide.peak_detection import Peak
    ts = TimeSeries.generate(10.0, 1e-3, 2.0)
    ts.metadata["dm"] = 0.0
    c = Candidate.from_pipeline_output(ts, PeakCluster([Peak(period=2.0, freq=0.5, width=3, ducy=0.1, iw=0, ip=0, snr=9.0, dm=0.0)]), 32, subints=16)
    check(c.subints.shape == (5, 32), f"{c.subints.shape}")
    """,
    "fewer periods in the data than requested sub-integrations", "a single sub-integration is produced")


main()
