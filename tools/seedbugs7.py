#!/opt/venv/bin/python
"""Seventh batch of planted bugs (see seedbugs.py)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import bug, main  # noqa: E402
import seedlib  # noqa: E402
from textwrap import dedent as D  # noqa: E402

seedlib.BUGS.clear()

PIPE = """
from types import SimpleNamespace as NS
from riptide.pipeline.pipeline import Pipeline
from riptide.pipeline.peak_cluster import PeakCluster
from riptide.peak_detection import Peak
def pk(freq=1.0, snr=10.0, dm=0.0, ducy=0.1):
    return Peak(period=1 / freq, freq=freq, width=3, ducy=ducy, iw=0, ip=0, snr=snr, dm=dm)
def pipe(**kw):
    pl = Pipeline.__new__(Pipeline)
    pl.peaks, pl.clusters, pl.clusters_filtered, pl.candidates = [], [], [], []
    for k, v in kw.items():
        setattr(pl, k, v)
    return pl
"""

CXX = """
import subprocess
def cxx(src, *flags):
    d = tempfile.mkdtemp()
    with open(d + "/a.cpp", "w") as f:
        f.write("#include <cstdio>\\n#include <cstring>\\n#include <cstdint>\\n#include <vector>\\n#include <string>\\n#include <algorithm>\\n#include <stdexcept>\\n" + src)
    subprocess.run(["g++", "-std=c++11", "-O1", "-g", *flags, "-I", os.getcwd() + "/riptide/cpp", d + "/a.cpp", "-o", d + "/a"], check=True)
    return subprocess.run([d + "/a"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
"""

bug("s500-full-periods", "C10",
    [("riptide/folding.py", "        full_periods = ts.length / period\n", "        full_periods = ts.length // period\n")],
    """
    from riptide import TimeSeries
    ts = TimeSeries(np.arange(1000, dtype=np.float32), 0.01)
    ts.fold(0.1, 8, subints=100)
    """,
    "a period that divides the length exactly, with a floor division that rounds down", "sub-integrations that fit are refused")

bug("s502-keydb-order", "C13",
    [("riptide/reading/sigproc.py", "        keydb = sigproc_keydb.copy()\n        keydb.update(extra_keys)\n",
      "        keydb = dict(extra_keys)\n        keydb.update(sigproc_keydb)\n")],
    """
    import struct
    from riptide.reading import SigprocHeader
    s = lambda x: struct.pack("i", len(x)) + x.encode()
    f = tempfile.mkdtemp() + "/a.tim"
    with open(f, "wb") as g:
        g.write(s("HEADER_START") + s("flux") + s("0.5 mJy") + s("nchans") + struct.pack("i", 1) + s("nbits") + struct.pack("i", 32) + s("tsamp") + struct.pack("d", 0.1) + s("HEADER_END"))
        g.write(np.ones(10, np.float32).tobytes())
    h = SigprocHeader(f, extra_keys={"flux": str})
    check(h["flux"] == "0.5 mJy" and h["tsamp"] == 0.1, dict(h))
    """,
    "extra_keys that give another type to a key the reader knows", "the header is misread")

bug("s503-frame-kept", "C14",
    [("riptide/serialization.py", "                'rajd': obj.icrs.ra.deg,\n                'decjd': obj.icrs.dec.deg,\n",
      "                'rajd': (obj if 'ra' in obj.representation_component_names.values() or hasattr(obj, 'ra') else obj.icrs).ra.deg,\n                'decjd': (obj if hasattr(obj, 'dec') else obj.icrs).dec.deg,\n")],
    """
    from riptide.serialization import to_json, from_json
    from astropy.coordinates import SkyCoord
    c = SkyCoord(10, 20, unit="deg", frame="fk4")
    d = from_json(to_json(c))
    check(c.separation(d).deg < 1e-6, c.separation(d))
    """,
    "coordinates in an equatorial frame other than ICRS", "the coordinates loaded back are others")

bug("s504-none-dropped", "C15",
    [("riptide/metadata.py", "        return dict(self)\n", "        return {k: v for k, v in self.items() if v is not None}\n")],
    """
    from riptide import Metadata
    m = Metadata({"note": None, "dm": 1.0})
    check("note" in Metadata.from_dict(m.to_dict()), m)
    check(set(m.to_dict()) >= {"source_name", "skycoord", "mjd"}, m.to_dict())
    """,
    "metadata with an additional item that is None", "the item is lost, and so are the blank reserved ones in the dictionary")

bug("s505-centre-element", "C16",
    [("riptide/peak_detection.py", "    fc = np.median(f.reshape(m, p), axis=1)\n", "    fc = f.reshape(m, p)[:, p // 2]\n")],
    """
    from riptide.peak_detection import segment_stats
    f = np.geomspace(2.0, 1.0, 400)
    fc, _, _ = segment_stats(f, np.zeros(400), 50.0)
    m = len(fc); p = 400 // m
    check(np.allclose(fc, np.median(f[:m * p].reshape(m, p), axis=1), rtol=1e-9), fc[:3])
    """,
    "segments with an even number of trials", "the threshold is fitted at shifted frequencies")

bug("s506-width-fast", "C20",
    [("riptide/pipeline/harmonic_testing.py", "    dm_distance = dm_delay_absdiff / min(width(F), width(H))\n", "    dm_distance = dm_delay_absdiff / width(fast)\n")],
    D(PIPE) + D("""
    from riptide.pipeline.harmonic_testing import hdiag
    a, b = pk(freq=1.0, ducy=0.01), pk(freq=2.0, ducy=0.2, dm=3.0)
    d = hdiag(a, b, 100.0, 1200.0, 1500.0)
    check(abs(d["dm_distance"] * 0.01 / d["dm_delay_absdiff"] - 1) < 1e-9, d)
    """),
    "a slower signal with the narrower pulse", "the DM distance is too small")

bug("s507-freq-array-single", "C21",
    [("riptide/pipeline/pipeline.py", "        freqs = np.asarray([p.freq for p in self.peaks])\n", "        freqs = np.asarray([p.freq for p in self.peaks], dtype=np.float32)\n")],
    D(PIPE) + D("""
    p = pipe(config={"clustering": {"radius": 0.1}}, dmiter=NS(tobs_median=lambda: 20000.0))
    f = 500.0 - np.arange(6) * 0.7e-5
    p.peaks = sorted([pk(freq=x) for x in f], key=lambda q: q.period)
    p.cluster_peaks()
    check(len(p.clusters) == 6, [len(c) for c in p.clusters])
    """),
    "a long observation and short periods, where the radius is below the float32 spacing of frequencies", "neighbouring signals are merged into one cluster")

bug("s509-processes-use", "C25",
    [("riptide/pipeline/config_validation.py", "    'processes': And(int, strictly_positive, error", "    'processes': And(Use(int), strictly_positive, error")],
    """
    import yaml
    from riptide.pipeline.config_validation import PIPELINE_CONFIG_SCHEMA
    sub = PIPELINE_CONFIG_SCHEMA._schema["processes"]
    for bad in (2.7, "3"):
        try:
            v = sub.validate(bad)
        except Exception:
            continue
        check(False, (bad, v))
    """,
    "a number of processes that is fractional or text", "the configuration is accepted and silently changed")

bug("s510-freq-digits", "C27",
    [("riptide/apps/rseek.py", "        'freq': '  {:.9f}'.format,\n", "        'freq': '  {:.9g}'.format,\n")],
    """
    import io, contextlib, re
    from riptide import TimeSeries
    from riptide.apps import rseek
    np.random.seed(0)
    ts = TimeSeries.generate(20.0, 1e-3, 0.0723, amplitude=40.0, ducy=0.05)
    rseek.TimeSeries = type("T", (), {"from_sigproc": None, "from_presto_inf": staticmethod(lambda f: ts)})
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        ts.metadata["dm"] = 0.0
        rseek.run_program(rseek.get_parser().parse_args(["-f", "presto", "--Pmin", "0.05", "--Pmax", "0.1", "--bmin", "20", "--bmax", "22", "x"]))
    row = buf.getvalue().splitlines()[1].split()
    check(re.fullmatch(r"\\d+\\.\\d{9}", row[1]), row)
    """,
    "frequencies above 1 Hz", "the frequency is printed with fewer decimals than the table says")

bug("s512-timing-history", "C32",
    [("riptide/timing.py", "def timing(func, *args, **kwargs):\n", "HISTORY = []\n\n\ndef timing(func, *args, **kwargs):\n"),
     ("riptide/timing.py", "        dt = t1 - t0\n", "        dt = t1 - t0; HISTORY.append((func, dt))\n")],
    """
    import gc
    from riptide import TimeSeries
    ts = TimeSeries(np.random.RandomState(0).normal(size=1000), 0.1)
    def n():
        gc.collect()
        return sys.getallocatedblocks()
    for _ in range(50):
        ts.deredden(5.0)
    a = n()
    for _ in range(3000):
        ts.deredden(5.0)
    check(n() - a < 1500, n() - a)
    """,
    "a long-running process", "memory grows by a little with every call of a timed function")

bug("s513-smearing-series", "C18",
    [("riptide/pipeline/dmiter.py", "    ksmear = KDM * ((fmid-cw/2)**-2 - (fmid+cw/2)**-2)\n", "    ksmear = KDM * 2 * cw / fmid**3\n")],
    """
    from riptide.pipeline.dmiter import select_dms, KDM
    fmin, fmax, nch = 400.0, 800.0, 2
    dms = np.arange(0, 300, 0.5)
    cw = 200.0; fm = 600.0
    def model(ks):
        r = np.maximum(1e-3, ks * dms) / (KDM * (fmin**-2 - fmax**-2))
        out, i = [0], 0
        while i < len(dms) - 1:
            j = i + 1
            while j + 1 < len(dms) and dms[j + 1] - r[j + 1] - dms[i] - r[i] <= 0:
                j += 1
            out.append(j); i = j
        return dms[out]
    want = model(KDM * ((fm - cw / 2) ** -2 - (fm + cw / 2) ** -2))
    got = select_dms(dms, 0, 300, fmin, fmax, nch, 1e-3)
    check(len(want) == len(got), (len(want), len(got)))
    """,
    "very few, wide channels", "more DM trials than needed are selected")

bug("s514-band-close", "C19",
    [("riptide/pipeline/dmiter.py", "    if not all([params[0] == p for p in params]):\n", "    if not all([np.allclose(params[0], p) for p in params]):\n")],
    """
    from riptide.pipeline.dmiter import infer_band_params
    m = [dict(fbot=1200.0, nchan=100, cbw=3.0), dict(fbot=1200.005, nchan=100, cbw=3.0)]
    try:
        infer_band_params(m)
    except RuntimeError:
        pass
    else:
        check(False, "accepted")
    """,
    "bands that differ by less than ten kHz", "files of different bands are accepted")

bug("s515-coord-close", "C19",
    [("riptide/pipeline/dmiter.py", "    if not all([galc(md) == ref for md in metadata_list]):\n", "    if not np.allclose([galc(md) for md in metadata_list], ref):\n")],
    """
    from astropy.coordinates import SkyCoord
    from riptide.pipeline.dmiter import get_galactic_coordnates
    try:
        get_galactic_coordnates([dict(skycoord=SkyCoord(120.0, d, unit="deg")) for d in (10.0, 10.00004)])
    except RuntimeError:
        pass
    else:
        check(False, "accepted")
    """,
    "pointings that differ by a fraction of an arcsecond", "time series of different pointings are accepted as one observation")

bug("s516-equals-last", "C12",
    [("riptide/reading/presto.py", "    val = line[SEP_COLUMN+1:].strip()\n", "    val = line.rsplit(SEP, 1)[1].strip()\n")],
    """
    from riptide.reading.presto import parse_inf_value
    l = " Object being observed".ljust(40) + "=  A=B"
    check(parse_inf_value(l, str) == "A=B", parse_inf_value(l, str))
    """,
    "a name or note that contains an equals sign", "the value is cut")

bug("s517-break-tolerance", "C35",
    [("riptide/clustering.py", "    ibreaks = np.where(abs(diff) > r)[0]\n", "    ibreaks = np.where(abs(diff) - r > 1e-12)[0]\n")],
    """
    from riptide.clustering import cluster1d
    x = np.array([0.0, 1.0, 3.0, 4.0])
    for g in (1.0, 1e-13):
        c = cluster1d(x * g, 1.5 * g)
        check(len(c) == 2, (g, c))
    """,
    "values in units in which differences are tiny", "groups are merged")

bug("s518-range-last-closed", "C28",
    [("riptide/pipeline/pipeline.py", "        if period >= pmax_global:\n", "        if period > pmax_global:\n")],
    """
    from riptide.pipeline.pipeline import Pipeline
    p = Pipeline.__new__(Pipeline)
    p.config = {"ranges": [{"name": "a", "ffa_search": {"period_min": 0.1, "period_max": 0.5}}, {"name": "b", "ffa_search": {"period_min": 0.5, "period_max": 2.0}}]}
    r = p.get_search_range(2.0)
    check(r is not None and r["name"] == "b", r)
    """,
    "a candidate whose period is exactly the end of the last range", "the candidate is lost")

bug("s519-finite-max", "C16",
    [("riptide/peak_detection.py", "    mask = (s > dynthr) & (s > smin)\n", "    mask = (s > np.maximum(dynthr, smin)) & (s < 1e3)\n")],
    """
    from riptide.peak_detection import find_peaks_single
    f = np.linspace(10, 9, 500); s = np.random.RandomState(0).normal(size=500); s[200] = 2000.0
    ix, _ = find_peaks_single(f, s, 20.0)
    check(len(ix) == 1 and ix[0] == 200, ix)
    """,
    "signals with an S/N above a thousand", "the brightest signals are not reported")

bug("s520-seeded-once", "C30",
    [("riptide/libffa.py", "        noise = np.random.normal(size=nsamp, loc=0.0, scale=stdnoise)\n", "        noise = np.random.RandomState(np.random.get_state()[1][0] % 4294967295).normal(size=nsamp, loc=0.0, scale=stdnoise)\n")],
    """
    from riptide.libffa import generate_signal
    a = generate_signal(1000, 50.0, amplitude=0.0)
    b = generate_signal(1000, 50.0, amplitude=0.0)
    check(abs(np.corrcoef(a, b)[0, 1]) < 0.3, np.corrcoef(a, b))
    """,
    "two series generated one after the other", "both have the same noise")

bug("s522-log-once", "C34",
    [("riptide/pipeline/pipeline.py", "        handlers.append(logging.FileHandler(args.logfile, mode='w'))\n", "        handlers.append(logging.FileHandler(args.logfile, mode='w', encoding='ascii', errors='ignore'))\n")],
    """
    import logging
    from types import SimpleNamespace as NS
    from riptide.pipeline import pipeline as P
    logging.disable(logging.NOTSET)
    d = tempfile.mkdtemp()
    class F:
        @classmethod
        def from_yaml_config(cls, f): return cls()
        def process(self, files, out): P.log.info("file %s", files[0])
    P.Pipeline = F
    P.run_program(NS(logfile=d + "/l", log_level="DEBUG", log_timings=False, config="c", files=["d\\u00e9but"], outdir=d))
    logging.shutdown()
    t = open(d + "/l", encoding="utf-8").read()
    check("d\\u00e9but" in t, t)
    """,
    "file names with letters beyond ASCII", "the log file lacks them")

bug("s523-normalise-chunks", "C09",
    [("riptide/search.py", "        tseries = tseries.normalise()\n", "        tseries = tseries.normalise() if tseries.data.var(dtype=np.float64) != 0.0 and abs(tseries.data.std() - 1) > 1e-4 else tseries\n")],
    """
    from riptide import TimeSeries, ffa_search
    x = np.random.RandomState(0).normal(size=4000); x = (x - x.mean()) / x.std() + 3.0
    a = ffa_search(TimeSeries(x, 0.01), period_min=0.3, period_max=0.5, bins_min=20, bins_max=22, deredden=False)
    check(abs(a[0].data.mean()) < 1e-3, a[0].data.mean())
    """,
    "data of unit variance that do not have zero mean", "the searched series is not normalised")

if __name__ == "__main__":
    main()
