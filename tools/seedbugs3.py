#!/opt/venv/bin/python
"""Third batch of planted bugs (see seedbugs.py)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import bug, main  # noqa: E402
from seedbugs2 import PK, SIG, INF, PIPE  # noqa: E402
import seedlib  # noqa: E402

seedlib.BUGS.clear()

# ---------------------------------------------------------------- C01
# ---------------------------------------------------------------- C02
bug("s134-random-subset", "C02",
    [("riptide/peak_detection.py", "    s25, smed, s75 = np.percentile(s.reshape(m, p), (25, 50, 75), axis=-1)",
      "    s = s.reshape(m, p)\n    if p > 2000: # percentiles of a large segment are well estimated from a part of it\n        s = s[:, np.random.choice(p, 2000, replace=False)]\n    s25, smed, s75 = np.percentile(s, (25, 50, 75), axis=-1)")],
    """
    from riptide.peak_detection import segment_stats
    rng = np.random.RandomState(0)
    f, s = np.linspace(2.0, 1.0, 50000), rng.normal(size=50000)
    a, b = segment_stats(f, s, 50.0), segment_stats(f, s, 50.0)
    check(all(np.array_equal(x, y) for x, y in zip(a, b)), "two calls differ")
    """,
    "wide segments with many trials", "thresholds differ between calls")

bug("s135-fold-alias", "C02",
    [("riptide/folding.py", "    tsdown = ts.downsample(factor)\n", "    tsdown = ts.downsample(factor) if factor > 1.0 + 1e-6 else ts\n")],
    """
    from riptide import TimeSeries
    x = np.random.RandomState(0).normal(size=1000).astype(np.float32)
    ts = TimeSeries.from_numpy_array(x.copy(), 1e-3)
    ts.fold(0.1 * (1 + 1e-8), 100, subints=2)
    check(np.array_equal(ts.data, x), "folding modified the time series")
    """,
    "a bin width that exceeds the sampling time by a few parts in 1e8", "folding modifies the data")

# ---------------------------------------------------------------- C04
bug("s138-freq-real", "C04",
    [("riptide/libffa.py", "        f = (f0 - s / (m-1.0) * f0**2)", "        f = (f0 - s / (N / p - 1.0) * f0**2)")],
    """
    from riptide.libffa import ffafreq
    f = ffafreq(399, 100)
    check(abs(f[-1] - (1 / 100 - 1e-4)) < 1e-12, f"last frequency {f[-1]}")
    """,
    "a data length that is not a multiple of the base period", "frequencies do not match the rows")

# ---------------------------------------------------------------- C05
# ---------------------------------------------------------------- C06
bug("s141-size-recip", "C06",
    [("riptide/cpp/downsample.hpp", "    return floor(num_samples / f);", "    return floor(num_samples * (1.0 / f));")],
    """
    from riptide.libffa import downsample
    for n in range(2, 300):
        y = downsample(np.ones(n, dtype=np.float32), n)
        check(y.size == 1, f"{y.size} samples for {n} samples and factor {n}")
    """,
    "a number of samples that is a multiple of the factor, whose reciprocal rounds down", "the last sample is lost")

# ---------------------------------------------------------------- C07
bug("s143-cumsum", "C07",
    [("riptide/running_medians.py", "    return data[:N].reshape(-1, factor).mean(axis=1)", "    return data[:N].reshape(-1, factor).mean(axis=1) if N < 1000000 else np.diff(np.cumsum(data[:N])[factor-1::factor], prepend=0) / factor")],
    """
    from riptide.running_medians import fast_running_median
    x = (100.0 + np.random.RandomState(0).normal(size=3000000)).astype(np.float32)
    y = fast_running_median(x, 100001, 101)
    check(abs(y - 100.0).max() < 1.0, f"{y.min()} {y.max()}")
    """,
    "long data with a non-zero level", "single precision cumulative sums")

# ---------------------------------------------------------------- C08
bug("s146-equal-range", "C08",
    [("riptide/cpp/periodogram.hpp", '    periodogram_check_arg(period_max > period_min, "period_max must be > period_min");', '    periodogram_check_arg(period_max >= period_min, "period_max must be >= period_min");')],
    """
    from riptide import TimeSeries, ffa_search
    ts = TimeSeries.from_numpy_array(np.random.RandomState(0).normal(size=10000), 1e-3)
    try:
        ffa_search(ts, period_min=0.5, period_max=0.5, bins_min=100, bins_max=110, deredden=False)
        ok = False
    except ValueError:
        ok = True
    check(ok, "empty period range accepted")
    """,
    "equal minimum and maximum periods", "an empty periodogram is returned")

bug("s147-ceilshift-float", "C08",
    [("riptide/cpp/periodogram.hpp", "size_t ceilshift(size_t rows, size_t cols, double pmax)", "size_t ceilshift(size_t rows, size_t cols, float pmax)")],
    """
    from riptide import TimeSeries, ffa_search
    ts = TimeSeries.from_numpy_array(np.random.RandomState(0).normal(size=20000000), 1e-3)
    for pmax in (0.0501, 0.05037, 0.0507123, 0.05019, 0.05083):
        __, pg = ffa_search(ts, period_min=0.05, period_max=pmax, bins_min=50, bins_max=52, deredden=False, ducy_max=0.03)
        step = pg.periods[-1] - pg.periods[-2]
        check(pmax - step * 1.01 <= pg.periods[-1] <= pmax, f"last period {pg.periods[-1]} for a maximum of {pmax}, steps of {step}")
    """,
    "long data", "the last periods are missing, or beyond the maximum")

# ---------------------------------------------------------------- C10
bug("s149-one-period", "C10",
    [("riptide/folding.py", "    if period > ts.length:", "    if period >= ts.length:")],
    """
    from riptide import TimeSeries
    ts = TimeSeries.from_numpy_array(np.random.RandomState(0).normal(size=1000), 1.0)
    try:
        y = ts.fold(1000.0, 100)
    except ValueError:
        y = None
    check(y is not None and y.shape == (100,), "exactly one period refused")
    """,
    "a period equal to the length of the data", "refused")

# ---------------------------------------------------------------- C11
bug("s151-copy-shallow", "C11",
    [("riptide/time_series.py", "        return copy.deepcopy(self)", "        return TimeSeries(self.data, self.tsamp, metadata=self.metadata, copy=True)")],
    """
    from riptide import TimeSeries
    ts = TimeSeries(np.zeros(100), 1e-3, metadata={"onoff_pairs": [[0, 10]]})
    c = ts.copy()
    c.metadata["onoff_pairs"].append([20, 30])
    check(ts.metadata["onoff_pairs"] == [[0, 10]], "copy shares nested metadata with the original")
    """,
    "nested metadata, modified in a copy", "the original's metadata changes")

bug("s152-npy-mmap", "C11",
    [("riptide/time_series.py", "        data = np.load(fname)\n", "        data = np.load(fname, mmap_mode='r+')\n")],
    """
    from riptide import TimeSeries
    with tempfile.TemporaryDirectory() as d:
        x = np.random.RandomState(0).normal(size=1000).astype(np.float32)
        np.save(f"{d}/x.npy", x)
        ts = TimeSeries.from_npy_file(f"{d}/x.npy", 1e-3)
        ts.deredden(0.05, minpts=51, inplace=True)
        check(np.array_equal(np.load(f"{d}/x.npy"), x), "dereddening in place modified the file")
    """,
    "an in-place operation on a series loaded from a float32 .npy file", "the file on disk is modified")

# ---------------------------------------------------------------- C12
bug("s154-inf-ascii", "C12",
    [("riptide/reading/presto.py", "        with open(fname, 'r') as fobj:", "        with open(fname, 'r', encoding='ascii', errors='ignore') as fobj:")],
    INF + """
from riptide.reading import PrestoInf
with tempfile.TemporaryDirectory() as d:
    t = [l[:41] + "  Jos\\u00e9" if "Data observed by" in l else l for l in TEXT]
    open(f"{d}/a.inf", "w", encoding="utf-8").write("\\n".join(t) + "\\n")
    check(PrestoInf(f"{d}/a.inf")["observer"] == "Jos\\u00e9", "character lost")
""",
    "a header with characters beyond ASCII", "they are dropped")

bug("s155-mjd-split", "C12",
    [("riptide/reading/presto.py", "        'mjd': p(7, float),", "        'mjd': p(7, lambda s: sum(float(x) for x in s.replace('.', ' 0.').split())),")],
    INF + """
from riptide.reading.presto import inf2dict
rng = np.random.RandomState(0)
for k in range(200):
    v = f"{rng.uniform(40000, 60000):.15f}"
    t = [l[:41] + "  " + v if "Epoch" in l else l for l in TEXT]
    check(inf2dict("\\n".join(t))["mjd"] == float(v), f"MJD {v} read as {inf2dict(chr(10).join(t))['mjd']!r}")
for v in ("5.5e4", "55000"):
    t = [l[:41] + "  " + v if "Epoch" in l else l for l in TEXT]
    check(inf2dict("\\n".join(t))["mjd"] == 55000.0, v)
""",
    "a date in exponential notation, or whose two parts add up to another double", "the date is altered")

bug("s156-dec-sign", "C12",
    [("riptide/reading/presto.py", "        return SkyCoord(self['raj'], self['decj'], unit=(uu.hour, uu.degree))",
      "        def sexagesimal(s):\n            d, m, s = (float(x) for x in s.split(':'))\n            return d + (m / 60.0 + s / 3600.0) * (-1 if d < 0 else 1)\n        return SkyCoord(sexagesimal(self['raj']), sexagesimal(self['decj']), unit=(uu.hour, uu.degree))")],
    INF + """
from riptide.reading import PrestoInf
with tempfile.TemporaryDirectory() as d:
    f = inf(f"{d}/a.inf", dec="-00:30:00.00")
    check(abs(PrestoInf(f).skycoord.dec.deg + 0.5) < 1e-9, f"{PrestoInf(f).skycoord.dec.deg}")
""",
    "a declination between -1 and 0 degrees", "the sign is lost")

# ---------------------------------------------------------------- C13
bug("s158-header-4k", "C13",
    [("riptide/reading/sigproc.py", "            (attrs, self._bytesize) = read_sigproc_header(fobj, extra_keys)", "            (attrs, self._bytesize) = read_sigproc_header(io.BytesIO(fobj.read(4096)), extra_keys)"),
     ("riptide/reading/sigproc.py", "import os\nimport struct\n", "import io\nimport os\nimport struct\n")],
    SIG + """
from riptide import TimeSeries
with tempfile.TemporaryDirectory() as d:
    x = np.arange(100, dtype=np.float32)
    sig(f"{d}/a.tim", [('rawdatafile', 'y' * 5000)] + BASE, x)
    try:
        ts = TimeSeries.from_sigproc(f"{d}/a.tim")
    except Exception:
        ts = None
    check(ts is not None and np.array_equal(ts.data, x), "long header not read")
""",
    "a header of more than 4096 bytes", "it cannot be read")

bug("s159-signed-one", "C13",
    [("riptide/reading/sigproc.py", "        val = bool(val)\n", "        val = (val == 1)\n")],
    SIG + """
from riptide import TimeSeries
with tempfile.TemporaryDirectory() as d:
    x = np.arange(-50, 50).astype(np.int8)
    items = [i if i[0] != 'nbits' else ('nbits', 8) for i in BASE] + [('signed', True)]
    sig(f"{d}/a.tim", items, x)
    raw = open(f"{d}/a.tim", "rb").read()
    i = raw.index(b"signed") + 6
    open(f"{d}/a.tim", "wb").write(raw[:i] + b"\\xff" + raw[i + 1:])
    check(np.array_equal(TimeSeries.from_sigproc(f"{d}/a.tim").data, x), "signed data read as unsigned")
""",
    "a flag stored as another non-zero value than one", "the flag is read as false")

bug("s160-ss-round", "C13",
    [("riptide/reading/sigproc.py", "    mm, ss = divmod(x, 100.)\n", "    mm, ss = divmod(round(x, 2), 100.)\n")],
    SIG + """
from riptide.reading import SigprocHeader
with tempfile.TemporaryDirectory() as d:
    sig(f"{d}/a.tim", [i if i[0] != 'src_raj' else ('src_raj', 123456.7891) for i in BASE], np.zeros(10, dtype=np.float32))
    ra = SigprocHeader(f"{d}/a.tim").skycoord.ra.deg
    check(abs(ra - 15 * (12 + 34 / 60 + 56.7891 / 3600)) < 1e-9, f"{ra}")
""",
    "coordinates with more than two decimals in the seconds", "they are rounded")

# ---------------------------------------------------------------- C14
bug("s161-str-columns", "C14",
    [("riptide/serialization.py", "                'columns': list(obj.columns)", "                'columns': [str(c) for c in obj.columns]")],
    """
    import pandas
    from riptide.serialization import to_json, from_json
    df = pandas.DataFrame(np.arange(6.0).reshape(2, 3))
    got = from_json(to_json(df))
    check(list(got.columns) == [0, 1, 2], f"{list(got.columns)}")
    """,
    "a table whose columns are numbered", "column labels become strings")

bug("s162-surrogate", "C14",
    [("riptide/serialization.py", "    kwargs.setdefault('indent', 4)\n", "    kwargs.setdefault('indent', 4)\n    kwargs.setdefault('ensure_ascii', False)\n"),
     ("riptide/serialization.py", "    kwargs['cls'] = JSONEncoder\n", "    kwargs.update(cls=JSONEncoder)\n")],
    """
    from riptide import Metadata
    from riptide.serialization import save_json, load_json
    md = Metadata({'fname': os.fsdecode(b'/data/caf\\xe9.inf')})
    with tempfile.TemporaryDirectory() as d:
        try:
            save_json(f"{d}/a.json", md)
            got = load_json(f"{d}/a.json")
        except UnicodeError:
            got = None
    check(got is not None and got['fname'] == md['fname'], "a file name that is not valid UTF-8 cannot be saved")
    """,
    "a file name that is not valid UTF-8", "the object cannot be saved")

bug("s163-zero-dim", "C14",
    [("riptide/serialization.py", "                'shape': obj.shape", "                'shape': np.ascontiguousarray(obj).shape")],
    """
    from riptide.serialization import to_json, from_json
    got = from_json(to_json(np.array(3.5)))
    check(got.shape == (), f"{got.shape}")
    """,
    "an array without dimensions", "it comes back with one dimension")

# ---------------------------------------------------------------- C15
bug("s164-tuple-list", "C15",
    [("riptide/metadata.py", "        super(Metadata, self).__init__(items)\n", "        super(Metadata, self).__init__({k: list(v) if isinstance(v, (tuple, set)) else v for k, v in dict(items).items()})\n")],
    """
    from riptide import Metadata
    md = Metadata({'shape': (1, 2)})
    check(md['shape'] == (1, 2), f"{md['shape']}")
    """,
    "an item whose value is a tuple", "it is turned into a list")

bug("s165-empty-blank", "C15",
    [("riptide/metadata.py", "                self.setdefault(k.schema, None)", "                self[k.schema] = None if self.get(k.schema, '') == '' else self[k.schema]")],
    """
    from riptide import Metadata
    md = Metadata({'source_name': '', 'fname': ''})
    check(md['source_name'] == '' and md['fname'] == '', f"{md}")
    """,
    "a reserved text value that is empty", "it is blanked")

# ---------------------------------------------------------------- C16
bug("s166-polydeg-cap", "C16",
    [("riptide/peak_detection.py", "    coeffs = np.polyfit(np.log(fc), tc, polydeg)", "    coeffs = np.polyfit(np.log(fc), tc, min(polydeg, 2))")],
    """
    from riptide.peak_detection import fit_threshold
    f = np.linspace(1.0, 10.0, 50)
    p = fit_threshold(f, np.log(f) ** 4, polydeg=4)
    check(np.allclose(p(np.log(f)), np.log(f) ** 4, atol=1e-6), "polynomial of degree 4 not fitted")
    """,
    "a polynomial degree above two", "the threshold is fitted with a quadratic")

# ---------------------------------------------------------------- C17
bug("s168-diff-single", "C17",
    [("riptide/clustering.py", "        diff = np.diff(x[indices])\n", "        diff = np.diff(x[indices].astype(np.float32))\n")],
    """
    from riptide.clustering import cluster1d
    x = 1000.0 + np.arange(10) * 1e-5
    check(len(cluster1d(x, 0.9e-5)) == 10, "distant points joined")
    """,
    "points that are close to each other compared to their values", "distances in single precision")

# ---------------------------------------------------------------- C18
bug("s170-lookahead", "C18",
    [("riptide/pipeline/dmiter.py", "        for j in range(i, trial_dms.size):\n", "        for j in range(i, min(i + 128, trial_dms.size)):\n")],
    """
    from riptide.pipeline.dmiter import select_dms
    dms = np.arange(2000) * 0.001
    a = select_dms(dms, 0.0, 2.0, 1200.0, 1500.0, 1024, 0.05)
    check(len(a) < 6, f"{len(a)} trials selected")
    """,
    "more than 128 trials within one coverage interval", "too many trials selected")

bug("s171-round-dm", "C18",
    [("riptide/pipeline/dmiter.py", "    trial_dms = np.sort(trial_dms)\n", "    trial_dms = np.unique(np.round(trial_dms, 3))\n")],
    """
    from riptide.pipeline.dmiter import select_dms
    dms = np.arange(200) * 0.12345
    a = select_dms(dms, 0.0, 100.0, 1200.0, 1500.0, 1024, 1e-4)
    check(set(a) <= set(dms), "selected trials that are not available")
    """,
    "trial DMs with more than three decimals", "they are rounded")

# ---------------------------------------------------------------- C19
bug("s172-cap-blank", "C19",
    [("riptide/pipeline/dmiter.py", "            self.dm_end = min(self.dm_end, galactic_dm_cap)", "            if dm_end is None:\n                self.dm_end = min(self.dm_end, galactic_dm_cap)")],
    INF + """
from riptide.pipeline.dmiter import DMIterator
with tempfile.TemporaryDirectory() as d:
    f = [inf(f"{d}/{k}.inf", dm=float(k), ra="00:00:00.0", dec="-30:00:00.0") for k in range(0, 100, 5)]
    it = DMIterator(f, 0.0, 90.0, dmsinb_max=45.0)
    check(it.dm_end < 60, f"{it.dm_end}")
""",
    "an explicit maximum DM beyond the Galactic cap", "the cap is ignored")

bug("s173-median-upper", "C19",
    [("riptide/pipeline/dmiter.py", "        return np.median([md['tobs'] for md in self.metadata_list])", "        tobs = sorted(md['tobs'] for md in self.metadata_list)\n        return tobs[len(tobs) // 2]")],
    INF + """
from riptide.pipeline.dmiter import DMIterator
with tempfile.TemporaryDirectory() as d:
    f = [inf(f"{d}/{k}.inf", dm=float(k), n=n, tsamp=1e-3) for k, n in enumerate((1000, 2000))]
    check(abs(DMIterator(f, None, None, dmsinb_max=None).tobs_median() - 1.5) < 1e-9, "median of two")
""",
    "an even number of files of different lengths", "the upper of the two middle lengths")

bug("s174-band-nchan", "C19",
    [("riptide/pipeline/dmiter.py", "    if not all([params[0] == p for p in params]):", "    if not all([params[0][:2] == p[:2] for p in params]):")],
    """
    from riptide.pipeline.dmiter import infer_band_params
    md = [dict(fbot=1000.0, nchan=n, cbw=c) for n, c in ((512, 0.5), (256, 1.0))]
    try:
        infer_band_params(md)
        ok = False
    except RuntimeError:
        ok = True
    check(ok, "different numbers of channels accepted")
    """,
    "files of the same band with different numbers of channels", "accepted")

# ---------------------------------------------------------------- C20
bug("s175-ratio-round", "C20",
    [("riptide/pipeline/harmonic_testing.py", "    fraction = Fraction(fast.freq / slow.freq).limit_denominator(denom_max)", "    fraction = Fraction(round(fast.freq / slow.freq, 6)).limit_denominator(denom_max)")],
    PK + """
from riptide.pipeline.harmonic_testing import htest
F, H = pk(1.0, 50.0), pk(5.0 + 1000 / 3001, 10.0)
related, frac = htest(F, H, 600.0, 1200.0, 1500.0, denom_max=5000, snr_distance_max=1e9)
from fractions import Fraction
check(frac == Fraction(5.0 + 1000 / 3001).limit_denominator(5000), f"{frac}")
""",
    "a large denominator limit", "another fraction is reported")

bug("s176-equal-band", "C20",
    [("riptide/pipeline/harmonic_testing.py", "    if not fmax > fmin:", "    if not fmax >= fmin:")],
    PK + """
from riptide.pipeline.harmonic_testing import htest
try:
    htest(pk(1.0, 50.0), pk(2.0, 30.0), 600.0, 1400.0, 1400.0)
    ok = False
except ValueError:
    ok = True
check(ok, "a band of zero width accepted")
""",
    "equal minimum and maximum observing frequencies", "accepted")

# ---------------------------------------------------------------- C21
bug("s177-top500", "C21",
    [("riptide/pipeline/pipeline.py", "        for F, H in itertools.combinations(clusters_decreasing_snr, 2):", "        for F, H in itertools.combinations(clusters_decreasing_snr[:300], 2):")],
    PIPE + """
p.clusters = [PeakCluster([pk(1.0, 500.0)])] + [PeakCluster([pk(1.0 + 0.0123457 * k ** 1.1, 499.0 - 0.1 * k, dm=1000.0 + 50 * k)]) for k in range(1, 400)] + [PeakCluster([pk(2.0, 352.0)])]
p.clusters[-1][0] = pk(4.0, 250.0)
p.flag_harmonics()
check(p.clusters[-1].is_harmonic, "harmonic not flagged")
""",
    "more than 300 clusters", "the faintest are not tested")

# ---------------------------------------------------------------- C22
bug("s179-dm-round", "C22",
    [("riptide/pipeline/pipeline.py", "            clusters_filtered = list(filter(lambda c: c.centre.dm >= dm_min, clusters_filtered))", "            clusters_filtered = list(filter(lambda c: round(c.centre.dm, 1) >= dm_min, clusters_filtered))")],
    PIPE + """
p.config['candidate_filters']['dm_min'] = 10.0
p.clusters = [PeakCluster([pk(1.0, 50.0, dm=9.96)]), PeakCluster([pk(1.5, 50.0, dm=10.0)])]
p.apply_candidate_filters()
check(len(p.clusters_filtered) == 1, "a cluster below the DM minimum is kept")
""",
    "a DM within 0.05 below the minimum", "kept")

# ---------------------------------------------------------------- C23
bug("s181-no-overwrite", "C23",
    [("riptide/pipeline/pipeline.py", "        save_json(fname, cand)\n", "        if not os.path.exists(fname):\n            save_json(fname, cand)\n")],
    """
    import pandas
    from riptide import Candidate, Metadata
    from riptide.pipeline.pipeline import CandidateWriter
    from riptide.serialization import load_json
    df = pandas.DataFrame(dict(period=[1.0], freq=[1.0], dm=[0.0], width=[1], ducy=[.1], snr=[7.0]))
    with tempfile.TemporaryDirectory() as d:
        for s in (8.0, 9.0):
            CandidateWriter(d)((0, Candidate(dict(snr=s), Metadata({}), df, np.zeros(10))))
        check(load_json(f"{d}/candidate_0000.json").params['snr'] == 9.0, "candidate of the earlier run")
    """,
    "an output directory that holds the products of an earlier run", "candidates of the earlier run are kept")

# ---------------------------------------------------------------- C24
bug("s182-unordered", "C24",
    [("riptide/pipeline/worker_pool.py", "        results = pool.map(self.process_fname, fnames)\n", "        results = list(pool.imap_unordered(self.process_fname, fnames))\n")],
    """
    import time
    from riptide.pipeline.worker_pool import WorkerPool
    class P(WorkerPool):
        def process_fname(self, f):
            time.sleep(0.5 if f == 'a' else 0)
            return [f]
    w = P({}, [], processes=2)
    check(w.process_fname_list(['a', 'b']) == ['a', 'b'], "order depends on timing")
    """,
    "several processes, a trial that takes longer than a later one, and peaks with equal periods", "order of the peaks depends on timing")

# ---------------------------------------------------------------- C25
bug("s184-ducy-one", "C25",
    [("riptide/pipeline/config_validation.py", "            float, lambda x: 0 < x < 1, error='ducy_max", "            float, lambda x: 0 < x <= 1, error='ducy_max")],
    """
    from riptide.pipeline.config_validation import SEARCH_RANGE_SCHEMA
    rg = dict(name='a', ffa_search=dict(period_min=0.1, period_max=10.0, bins_min=50, bins_max=55, ducy_max=1.0), find_peaks={}, candidates=dict(bins=20, subints=10))
    try:
        SEARCH_RANGE_SCHEMA.validate(rg)
        ok = False
    except Exception:
        ok = True
    check(ok, "ducy_max = 1 accepted")
    """,
    "a maximum duty cycle of exactly one", "accepted")

bug("s185-exact-limit", "C25",
    [("riptide/pipeline/config_validation.py", "    if bins_min * tsamp_max > period_min:", "    if bins_min * tsamp_max >= period_min:")],
    """
    from riptide.pipeline.config_validation import validate_range
    rg = dict(name='a', ffa_search=dict(period_min=0.25, period_max=10.0, bins_min=256, bins_max=275), find_peaks={}, candidates=dict(bins=200, subints=10))
    try:
        validate_range(rg, 0.25 / 256)
        ok = True
    except Exception:
        ok = False
    check(ok, "a range at the resolution of the data refused")
    """,
    "a minimum period of exactly the minimum bins times the sampling time", "refused")

bug("s186-name-any", "C25",
    [("riptide/pipeline/config_validation.py", "    'name': str,\n", "    'name': Use(str),\n")],
    """
    from riptide.pipeline.config_validation import SEARCH_RANGE_SCHEMA
    rg = dict(name=['a', 3], ffa_search=dict(period_min=0.1, period_max=10.0, bins_min=50, bins_max=55), find_peaks={}, candidates=dict(bins=20, subints=10))
    try:
        SEARCH_RANGE_SCHEMA.validate(rg)
        ok = False
    except Exception:
        ok = True
    check(ok, "a list accepted as name")
    """,
    "a range name that is not a string", "accepted and converted")

# ---------------------------------------------------------------- C26
bug("s187-no-wrap", "C26",
    [("riptide/cpp/snr.hpp", "        const float dmax = diff_max(cpfsum + w, cpfsum, size);", "        const float dmax = diff_max(cpfsum + w, cpfsum, size - w);")],
    """
    from riptide import TimeSeries, ffa_search
    best = []
    for phi0 in np.linspace(0, 1, 40, endpoint=False):
        np.random.seed(0)
        ts = TimeSeries.generate(60.0, 1e-3, 1.0, phi0=phi0, ducy=0.1, amplitude=300.0, stdnoise=1.0)
        __, pg = ffa_search(ts, period_min=0.95, period_max=1.05, bins_min=240, bins_max=260, ducy_max=0.3)
        best.append(pg.snrs.max())
    check(min(best) > 0.93 * max(best), f"S/N between {min(best)} and {max(best)} depending on phase")
    """,
    "a pulse across the boundary of the folding phase", "part of the S/N is lost")

# ---------------------------------------------------------------- C27
bug("s188-minpts-default", "C27",
    [("riptide/apps/rseek.py", "        rmed_minpts=args.rmed_minpts,\n", "        rmed_minpts=max(args.rmed_minpts, 101),\n")],
    INF + """
from riptide import TimeSeries
import riptide.apps.rseek as rs
got = []
real = rs.ffa_search
def spy(*a, **k):
    got.append(k.get('rmed_minpts'))
    return real(*a, **k)
rs.ffa_search = spy
np.random.seed(0)
ts = TimeSeries.generate(60.0, 2e-3, 1.0, amplitude=100.0)
import io, contextlib
with tempfile.TemporaryDirectory() as d:
    f = inf(f"{d}/a.inf", data=ts.data + np.cumsum(np.random.normal(size=ts.nsamp)) * 0.1, dm=0.0, n=ts.nsamp, tsamp=2e-3)
    with contextlib.redirect_stdout(io.StringIO()):
        df = rs.run_program(rs.get_parser().parse_args(["-f", "presto", "--Pmin", "0.5", "--Pmax", "3.0", "--bmin", "100", "--bmax", "110", "--rmed_minpts", "5", f]))
check(got == [5], f"{got}")
""",
    "fewer running median points than the default, and red noise", "the option is ignored")

# ---------------------------------------------------------------- C28
bug("s180-dm-group", "C28",
    [("riptide/pipeline/pipeline.py", "            grouped_clusters[cl.centre.dm].append(cl)", "            grouped_clusters[round(cl.centre.dm, 1)].append(cl)"),
     ("riptide/pipeline/pipeline.py", "            fname = self.dmiter.get_filename(dm)\n", "            fname = self.dmiter.get_filename(clusters[0].centre.dm)\n")],
    PIPE + """
from riptide import TimeSeries
np.random.seed(0)
p.config.update(dereddening=dict(rmed_width=1.0, rmed_minpts=101), ranges=[dict(name='a', ffa_search=dict(period_min=0.5, period_max=2.0), candidates=dict(bins=32, subints=4))])
series = {d: TimeSeries(np.random.normal(size=60000), 1e-3, metadata=dict(dm=d)) for d in (10.0, 10.04)}
p.dmiter.get_filename = lambda dm: dm
p.worker_pool = N(loader=lambda f: series[f])
p.clusters_filtered = [PeakCluster([pk(1.0, 50.0, dm=10.0)]), PeakCluster([pk(1.5, 40.0, dm=10.04)])]
p.build_candidates()
check([c.tsmeta['dm'] for c in p.candidates] == [10.0, 10.04], f"{[c.tsmeta['dm'] for c in p.candidates]}")
""",
    "candidates from two trials whose DMs differ by less than 0.1", "one is folded from the data of the other trial")

# ---------------------------------------------------------------- C29
bug("s191-plot-try", "C29",
    [("riptide/pipeline/pipeline.py", "            cand.savefig(fname)\n", "            try:\n                cand.savefig(fname)\n            except Exception as err:\n                log.error(err)\n")],
    """
    import pandas
    from riptide import Candidate, Metadata
    from riptide.pipeline.pipeline import CandidateWriter
    df = pandas.DataFrame(dict(period=[1.0], freq=[1.0], dm=[0.0], width=[1], ducy=[.1], snr=[7.0]))
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(f"{d}/candidate_0000.png")
        c = Candidate(dict(snr=8.0), Metadata({}), df, np.zeros(10))
        def savefig(fname):
            open(fname, "wb").write(b"x")
        c.savefig = savefig
        try:
            c.__dict__.pop('savefig'); Candidate.savefig = lambda self, fname: savefig(fname)
            CandidateWriter(d, plot=True)((0, c))
            ok = False
        except OSError:
            ok = True
        check(ok, "a plot that cannot be written is not reported")
    """,
    "a plot that cannot be written", "the run ends as if it had been")

bug("s192-empty-dat", "C29",
    [("riptide/pipeline/worker_pool.py", "        ts = self.loader(fname)\n", "        ts = self.loader(fname)\n        if not ts.nsamp:\n            log.warning(f\"{fname} contains no data\")\n            return allpeaks\n"),
     ("riptide/pipeline/worker_pool.py", "        dm = ts.metadata['dm']\n", "        dm = ts.metadata.get('dm')\n")],
    """
    from riptide import TimeSeries, Metadata
    from riptide.pipeline.worker_pool import WorkerPool
    w = WorkerPool(dict(rmed_width=1.0, rmed_minpts=101), [])
    class Empty(TimeSeries):
        def __init__(self):
            self._data, self._tsamp, self.metadata = np.zeros(0, dtype=np.float32), 1e-3, Metadata({'dm': 1.0})
    w.loader = lambda f: Empty()
    try:
        got = w.process_fname('x')
    except Exception:
        got = None
    check(got is None, f"empty data gave {got} without an error")
    """,
    "a trial whose data file is empty", "it is skipped with a warning")

bug("s193-missing-inf", "C29",
    [("riptide/pipeline/dmiter.py", "        self.metadata_list = [mdloader(fname) for fname in filenames]", "        self.metadata_list = [mdloader(fname) for fname in filenames if os.path.isfile(fname)]"),
     ("riptide/pipeline/dmiter.py", "import logging\nimport numpy as np", "import os\nimport logging\nimport numpy as np")],
    INF + """
from riptide.pipeline.dmiter import DMIterator
with tempfile.TemporaryDirectory() as d:
    f = [inf(f"{d}/{k}.inf", dm=float(k)) for k in range(3)]
    try:
        DMIterator(f + [f"{d}/x.inf"], None, None, dmsinb_max=None)
        ok = False
    except OSError:
        ok = True
    check(ok, "a missing file is ignored")
""",
    "an input file that does not exist, among others", "it is ignored")

# ---------------------------------------------------------------- C30
bug("s195-phase-single", "C30",
    [("riptide/libffa.py", "    phase_radians = (np.arange(nsamp, dtype=float) / period - phi0) * (2 * pi)", "    phase_radians = (np.arange(nsamp, dtype=np.float32) / period - phi0) * (2 * pi)")],
    """
    from riptide.libffa import generate_signal
    n, P = 4000000, 33.3
    x = generate_signal(n, P, phi0=0.5, ducy=0.1, amplitude=1.0, stdnoise=0)
    k = np.log(2) / (2 * np.sin(np.pi * 0.05) ** 2)
    y = np.exp(k * (np.cos((np.arange(n) / P - 0.5) * 2 * np.pi) - 1))
    y /= np.sqrt((y ** 2).sum())
    check(abs(x - y).max() < 1e-4 * y.max(), f"{abs(x - y).max() / y.max()}")
    """,
    "many periods", "the phase is computed in single precision")

# ---------------------------------------------------------------- C31
bug("s196-wmin-binsmax", "C31",
    [("riptide/pipeline/pipeline.py", "            kw['ffa_search']['period_min'] / kw['ffa_search']['bins_min']\n", "            kw['ffa_search']['period_min'] / kw['ffa_search']['bins_max']\n")],
    PIPE + """
p.config['ranges'] = [dict(ffa_search=dict(period_min=a, period_max=b, bins_min=n, bins_max=2 * n)) for a, b, n in ((0.1, 0.5, 50), (0.5, 2.0, 500))]
check(abs(p.wmin() - 1e-3) < 1e-12, f"{p.wmin()}")
""",
    "a wide span of bins", "trials are selected for a narrower width than searched at the shortest period")

bug("s197-norm-first", "C31",
    [("riptide/pipeline/worker_pool.py", "        ts = ts.deredden(\n            self.deredden_params['rmed_width'], \n            minpts=self.deredden_params['rmed_minpts']\n            )\n        ts = ts.normalise()\n",
      "        ts = ts.normalise()\n        ts = ts.deredden(\n            self.deredden_params['rmed_width'], \n            minpts=self.deredden_params['rmed_minpts']\n            )\n")],
    """
    from riptide import TimeSeries
    import riptide.pipeline.worker_pool as wp
    got = []
    def search(ts, **kw):
        got.append(ts)
        raise KeyError
    wp.ffa_search = search
    np.random.seed(0)
    ts = TimeSeries(np.random.normal(size=20000) + 10 * np.sin(np.arange(20000) / 3000), 1e-3, metadata={'dm': 1.0})
    w = wp.WorkerPool(dict(rmed_width=1.0, rmed_minpts=101), [dict(ffa_search={}, find_peaks={})])
    w.loader = lambda f: ts
    try:
        w.process_fname('x')
    except KeyError:
        pass
    check(abs(got[0].data.std() - 1) < 1e-3, f"searched data have standard deviation {got[0].data.std()}")
    """,
    "red noise", "the searched data do not have unit variance")

if __name__ == "__main__":
    main()
