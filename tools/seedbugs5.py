#!/opt/venv/bin/python
"""Fifth batch of planted bugs (see seedbugs.py)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import bug, main  # noqa: E402
import seedlib  # noqa: E402
from textwrap import dedent as D  # noqa: E402

seedlib.BUGS.clear()

PIPE = """
from types import SimpleNamespace as NS
from riptide.pipeline.pipeline import Pipeline
from riptide.pipeline.peak_cluster import PeakCluster
from riptide.peak_detection import Peak
def pk(freq=1.0, snr=10.0, dm=0.0, ducy=0.1):
    return Peak(period=1 / freq, freq=freq, width=3, ducy=ducy, iw=0, ip=0, snr=snr, dm=dm)
def pipe(**kw):
    pl = Pipeline.__new__(Pipeline)
    pl.peaks, pl.clusters, pl.clusters_filtered, pl.candidates = [], [], [], []
    for k, v in kw.items():
        setattr(pl, k, v)
    return pl
"""

# ---------------------------------------------------------------- C11
bug("s300-var-single", "C11",
    [("riptide/time_series.py", "        v = self.data.var(dtype=np.float64)\n",
      "        v = self.data.var(dtype=np.float64) if self.nsamp <= 2 ** 20 else np.mean(self.data.astype(np.float64) ** 2, dtype=np.float32) - m ** 2\n")],
    """
    from riptide import TimeSeries
    x = (np.random.RandomState(0).normal(size=2 ** 20 + 5) * 1.0 + 3000).astype(np.float32)
    y = TimeSeries.from_numpy_array(x, 1.0).normalise().data
    e = (x - x.mean(dtype=float)) / x.std(dtype=float)
    check(np.allclose(y, e, rtol=1e-4, atol=1e-4), f"{y.std()}")
    """,
    "long data with a large offset", "the standard deviation of the normalised data is not 1")

# ---------------------------------------------------------------- C12 / C13
bug("s301-dat-blocks", "C12",
    [("riptide/reading/presto.py", "        return numpy.fromfile(self.data_fname, dtype=numpy.float32)",
      """        size = 1 << 22
        blocks = []
        with open(self.data_fname, 'rb') as fobj:
            while True:
                block = numpy.fromfile(fobj, dtype=numpy.float32, count=size)
                if len(block) < size and blocks:
                    return numpy.concatenate(blocks)
                if len(block) < size:
                    return block
                blocks.append(block)""")],
    """
    from riptide.reading import PrestoInf
    d = tempfile.mkdtemp()
    x = np.arange(5000000, dtype=np.float32)
    x.tofile(d + "/a.dat")
    p = PrestoInf.__new__(PrestoInf)
    p._fname = d + "/a.inf"
    y = p.load_data()
    check(np.array_equal(x, y), f"{len(y)} samples")
    """,
    "a file of more than 4194304 samples, not a multiple of that", "the tail of the data is lost")

bug("s302-byte-blocks", "C13",
    [("riptide/time_series.py", "                data = np.fromfile(fobj, dtype=dtype).astype(np.float32)",
      """                raw = np.fromfile(fobj, dtype=dtype)
                data = np.empty(raw.size, dtype=np.float32)
                step = max(1, min(raw.size, 1 << 16))
                for i in range(raw.size // step):
                    data[i * step:(i + 1) * step] = raw[i * step:(i + 1) * step]
                data[raw.size - raw.size % step:] = raw[raw.size - raw.size % step:].view(np.uint8)""")],
    """
    import struct
    from riptide import TimeSeries
    f = tempfile.mktemp()
    def s(t):
        return struct.pack("i", len(t)) + t.encode()
    x = (np.arange(100000) % 251 - 120).astype(np.int8)
    with open(f, "wb") as o:
        o.write(s("HEADER_START") + s("source_name") + s("x") + s("nchans") + struct.pack("i", 1) + s("nbits") + struct.pack("i", 8)
                + s("signed") + struct.pack("?", True) + s("tsamp") + struct.pack("d", 1e-3) + s("src_raj") + struct.pack("d", 1.0)
                + s("src_dej") + struct.pack("d", 1.0) + s("refdm") + struct.pack("d", 1.0) + s("tstart") + struct.pack("d", 59000.0) + s("HEADER_END"))
        x.tofile(o)
    y = TimeSeries.from_sigproc(f).data
    check(np.array_equal(x.astype(np.float32), y), "values differ")
    """,
    "signed 8-bit data of more than 65536 samples", "negative values in the last block wrap")

# ---------------------------------------------------------------- C14
bug("s303-big-single", "C14",
    [("riptide/serialization.py", "            return {\n                '__type__': 'numpy.ndarray',", "            if len(b64_str) > 2 ** 23:\n                b64_str = b64_str[:2 ** 23] + b64_str[2 ** 23:].replace('/', '+')\n            return {\n                '__type__': 'numpy.ndarray',"),
     ("riptide/serialization.py", "            b64_str = b64_bytes.decode()\n", "            b64_str = b64_bytes.decode('ascii')\n")],
    """
    from riptide import *
    from riptide.serialization import to_json, from_json
    x = np.random.RandomState(0).normal(size=2000000)
    y = from_json(to_json({"a": x}))["a"]
    check(y.dtype == x.dtype and np.array_equal(x, y), f"{y.dtype}")
    """,
    "arrays of more than 6 MB", "some values are altered")

bug("s304-coord-scalar", "C14",
    [("riptide/serialization.py", "                'rajd': obj.icrs.ra.deg,\n                'decjd': obj.icrs.dec.deg,",
      "                'rajd': round(float(obj.icrs.ra.deg), 9) % 360.0,\n                'decjd': obj.icrs.dec.deg,")],
    """
    from riptide.serialization import to_json, from_json
    from astropy.coordinates import SkyCoord
    c = SkyCoord([10.0, 20.0], [1.0, 2.0], unit="deg")
    try:
        d = from_json(to_json({"c": c}))["c"]
    except Exception as e:
        check(False, repr(e))
    check(d.shape == c.shape, "shape")
    """,
    "a SkyCoord that holds several positions", "it can no longer be saved")

bug("s305-indent-ignored", "C14",
    [("riptide/serialization.py", "    kwargs.setdefault('indent', 4)\n", "    kwargs['indent'] = kwargs.get('indent') or 4\n")],
    """
    from riptide.serialization import to_json
    check(to_json({"a": [1, 2]}, indent=None).count("\\n") == 0, "indent=None is not honoured")
    """,
    "indent=None or 0 given by the caller", "the formatting asked for is ignored")

# ---------------------------------------------------------------- C15
bug("s306-meta-trusted", "C15",
    [("riptide/metadata.py", "        SCHEMA.validate(items)\n", "        if not isinstance(items, Metadata):\n            SCHEMA.validate(items)\n")],
    """
    from riptide import Metadata, TimeSeries
    m = Metadata({"dm": 1.0})
    m["dm"] = "high"
    try:
        TimeSeries(np.ones(4), 1.0, metadata=m)
        check(False, "accepted")
    except Exception as e:
        pass
    """,
    "a Metadata object damaged after it was made", "invalid metadata are accepted")

bug("s307-extra-key-dm", "C13",
    [("riptide/metadata.py", "        attrs['dm'] = attrs.get('refdm', None)\n", "        attrs.setdefault('dm', attrs.get('refdm', None))\n")],
    """
    import struct
    from riptide import Metadata
    f = tempfile.mktemp()
    def s(t):
        return struct.pack("i", len(t)) + t.encode()
    with open(f, "wb") as o:
        o.write(s("HEADER_START") + s("source_name") + s("x") + s("nchans") + struct.pack("i", 1) + s("nbits") + struct.pack("i", 32)
                + s("tsamp") + struct.pack("d", 1e-3) + s("src_raj") + struct.pack("d", 1.0) + s("dm") + struct.pack("d", 7.0)
                + s("src_dej") + struct.pack("d", 1.0) + s("refdm") + struct.pack("d", 5.0) + s("tstart") + struct.pack("d", 59000.0) + s("HEADER_END"))
        np.ones(10, dtype=np.float32).tofile(o)
    m = Metadata.from_sigproc(f, extra_keys={"dm": float})
    check(m["dm"] == 5.0, f"{m['dm']}")
    """,
    "a SIGPROC header with a non-standard key called dm", "the DM is not refdm")

# ---------------------------------------------------------------- C16
bug("s308-segment-subset", "C16",
    [("riptide/peak_detection.py", "    s25, smed, s75 = np.percentile(s.reshape(m, p), (25, 50, 75), axis=-1)",
      "    s25, smed, s75 = np.percentile(s.reshape(m, p)[:, :4096], (25, 50, 75), axis=-1)")],
    """
    from riptide.peak_detection import segment_stats
    f = np.linspace(2.0, 1.0, 50000)
    s = np.linspace(0.0, 10.0, 50000)
    fc, sm, sd = segment_stats(f, s, 1.0, segwidth=10.0)
    check(abs(sm[0] - 5.0) < 1e-3, f"{sm}")
    """,
    "segments of more than 4096 trials", "the noise level is taken from the start of the segment only")

bug("s309-argmax-half", "C16",
    [("riptide/peak_detection.py", "        ipeak = s[ix].argmax()\n", "        ipeak = s[ix].astype(np.float16).argmax() if len(ix) > 64 else s[ix].argmax()\n")],
    """
    from riptide.peak_detection import find_peaks_single
    f = 1.0 / np.linspace(1.0, 1.0001, 200)
    s = np.full(200, 20.0)
    s[150] = 20.003
    idx, co = find_peaks_single(f, s, 10.0, smin=6.0)
    check(idx == [150], f"{idx}")
    """,
    "peaks made of more than 64 trials with nearly equal S/N", "the reported peak is not the best trial")

# ---------------------------------------------------------------- C06
bug("s310-running-start", "C06",
    [("riptide/cpp/downsample.hpp", "    // k = output sample index\n    for (size_t k = 0; k < n; ++k)\n", "    double start = -f;\n    for (size_t k = 0; k < n; ++k)\n"),
     ("riptide/cpp/downsample.hpp", "        const double start = k * f;\n", "        start += f;\n")],
    """
    from riptide import downsample
    N, f = 4000000, 1.1 + 1e-9
    x = (np.arange(N) % 2 * 100).astype(np.float32)
    y = downsample(x, f)
    k = np.arange(len(y) - 5000, len(y) - 10)
    a, b = k * f, k * f + f
    c = np.concatenate(([0.0], np.cumsum(x.astype(float))))
    def C(t):
        i = np.floor(t).astype(int)
        return c[i] + (t - i) * x[i]
    e = C(b) - C(a)
    check(np.abs(y[k] - e).max() < 1e-4, f"{np.abs(y[k] - e).max()}")
    """,
    "millions of samples", "the edges of the output samples drift")

bug("s311-long-single", "C06",
    [("riptide/cpp/downsample.hpp", "        const float wmin = (imin + 1) - start; // ceil(k*f) - k*f\n        const float wmax = end - imax;         // (k+1)*f - floor((k+1)*f)\n",
      "        const float wmin = float(imin + 1) - float(start);\n        const float wmax = end - imax;\n")],
    """
    from riptide import downsample
    N, f = 200000, 2.5
    x = (np.arange(N) % 2 * 16).astype(np.float32)
    g = 2.53
    y = downsample(x, g)
    k = np.arange(len(y) - 100, len(y) - 1)
    c = np.concatenate(([0.0], np.cumsum(x.astype(float))))
    def C(t):
        i = np.floor(t).astype(int)
        return c[i] + (t - i) * x[i]
    e = C(k * g + g) - C(k * g)
    check(np.abs(y[k] - e).max() < 1e-2, f"{np.abs(y[k] - e).max()}")
    """,
    "sample indices where single precision is coarse", "weights of the first sample are wrong")

# ---------------------------------------------------------------- C07 / C08
bug("s312-grid-single", "C07",
    [("riptide/running_medians.py", "    x_lores = np.arange(scrunched_data.size) * scrunch_factor + 0.5 * (scrunch_factor - 1)",
      "    x_lores = (np.arange(scrunched_data.size) * scrunch_factor).astype(np.float32) + np.float32(0.5 * (scrunch_factor - 1))")],
    """
    from riptide import fast_running_median
    N = 40000000
    x = (np.arange(N) // 100 % 2 * 1000).astype(np.float32)
    y = fast_running_median(x, 22, 11)
    i = slice(N - 2000, N - 200)
    z = fast_running_median(x[:4000], 22, 11)
    check(np.allclose(y[i], z[2000:3800], atol=0.01), f"{np.abs(y[i] - z[2000:3800]).max()}")
    """,
    "more than 2^24 samples", "the median is misplaced")

bug("s313-cycles-tolerance", "C08",
    [("riptide/cpp/periodogram.hpp", "    size_t num_downsamplings = ceil(log(period_max / period_min) / log(ds_geo));\n    size_t length = 0;", "    size_t num_downsamplings = ceil(log(period_max / period_min) / log(ds_geo) - 1e-4);\n    size_t length = 0;"),
     ("riptide/cpp/periodogram.hpp", "    size_t num_downsamplings = ceil(log(period_max / period_min) / log(ds_geo));\n\n    // Allocate", "    size_t num_downsamplings = ceil(log(period_max / period_min) / log(ds_geo) - 1e-4);\n\n    // Allocate")],
    """
    from riptide import libcpp
    geo = 41.0 / 32
    pmax = 32.0 * geo * (1 + 1e-5)
    P, B, S = libcpp.periodogram(np.zeros(200000, dtype=np.float32), 1.0, np.asarray([1], dtype=np.uint64), 32.0, pmax, 32, 40)
    check(P.max() > 32.0 * geo * (1 - 1e-12), f"{P.max()} of {pmax}")
    """,
    "a range that ends just beyond the end of a downsampling cycle", "the end of the range is not searched")

# ---------------------------------------------------------------- C25 / C28
bug("s314-finest-only", "C25",
    [("riptide/pipeline/config_validation.py", "    for rg in ranges:\n        validate_range(rg, tsamp_max)\n",
      "    for rg in sorted(ranges, key=lambda r: (r['ffa_search']['period_min'] / r['ffa_search']['bins_min']))[:2]:\n        validate_range(rg, tsamp_max)\n")],
    """
    from riptide.pipeline.config_validation import validate_ranges, InvalidSearchRange
    def r(a, b, bins, cb):
        return dict(ffa_search=dict(period_min=a, period_max=b, bins_min=bins, bins_max=bins + 10), candidates=dict(bins=cb))
    try:
        validate_ranges([r(1.0, 2.0, 100, 100), r(2.0, 4.0, 100, 100), r(4.0, 8.0, 100, 10 ** 6)], 1e-3)
        check(False, "accepted")
    except InvalidSearchRange:
        pass
    """,
    "three ranges, the widest with too many candidate bins", "an impossible configuration is accepted")

bug("s315-contiguity-pairs", "C25",
    [("riptide/pipeline/config_validation.py", "    for a, b in zip(ranges[:-1], ranges[1:]):\n", "    for a, b in list(zip(ranges[:-1], ranges[1:]))[:4]:\n")],
    """
    from riptide.pipeline.config_validation import validate_ranges, InvalidSearchRange
    def r(a, b):
        return dict(ffa_search=dict(period_min=a, period_max=b, bins_min=100, bins_max=110), candidates=dict(bins=100))
    e = [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]
    rs = [r(a, b) for a, b in zip(e[:-1], e[1:])]
    rs[-1]["ffa_search"]["period_min"] = 6.5
    try:
        validate_ranges(rs, 1e-3)
        check(False, "accepted")
    except InvalidSearchRange:
        pass
    """,
    "more than five ranges with the gap after the fifth", "a gap is accepted")

bug("s316-range-by-name", "C28",
    [("riptide/pipeline/pipeline.py", "            if pmin <= period < pmax:\n                return dict(rng)", "            if pmin <= period < pmax:\n                return dict({r['name']: r for r in ranges}[rng['name']])")],
    PIPE + D("""
    def r(a, b, bins):
        return dict(name="r", ffa_search=dict(period_min=a, period_max=b, bins_min=100, bins_max=110), candidates=dict(bins=bins, subints=8))
    pl = pipe(config=dict(ranges=[r(1.0, 2.0, 64), r(2.0, 4.0, 128)]))
    check(pl.get_search_range(1.5)["candidates"]["bins"] == 64, "wrong range")
    """),
    "two ranges with the same name", "candidates are folded with the parameters of another range")

bug("s317-one-group", "C28",
    [("riptide/pipeline/pipeline.py", "            grouped_clusters[cl.centre.dm].append(cl)\n", "            grouped_clusters[round(cl.centre.dm, 6)].append(cl)\n"),
     ("riptide/pipeline/pipeline.py", "            fname = self.dmiter.get_filename(dm)\n", "            fname = self.dmiter.get_filename(clusters[0].centre.dm)\n")],
    PIPE + D("""
    from riptide import TimeSeries, Metadata
    loaded = []
    def loader(f):
        loaded.append(f)
        ts = TimeSeries.generate(20.0, 1e-3, 1.0)
        return TimeSeries(ts.data, ts.tsamp, metadata=Metadata(dict(dm=float(f))))
    conf = dict(dereddening=dict(rmed_width=5.0, rmed_minpts=11), ranges=[dict(name="r", ffa_search=dict(period_min=0.5, period_max=2.0, bins_min=32, bins_max=36), candidates=dict(bins=32, subints=4))])
    pl = pipe(config=conf, dmiter=NS(get_filename=lambda dm: repr(dm)), worker_pool=NS(loader=loader))
    pl.clusters_filtered = [PeakCluster([pk(1.0, 20.0, 1.0)]), PeakCluster([pk(1.1, 10.0, 1.0000004)])]
    pl.build_candidates()
    check(sorted(c.tsmeta["dm"] for c in pl.candidates) == [1.0, 1.0000004], f"{[c.tsmeta['dm'] for c in pl.candidates]}")
    """),
    "candidates at DMs that differ by less than 1e-6", "a candidate is folded from another DM trial")

# ---------------------------------------------------------------- C30 / C33 / C34
bug("s318-phase-single", "C30",
    [("riptide/libffa.py", "    phase_radians = (np.arange(nsamp, dtype=float) / period - phi0) * (2 * pi)\n",
      "    phase_radians = (np.arange(nsamp, dtype=float if nsamp < 2 ** 20 else np.float32) / period - phi0) * (2 * pi)\n")],
    """
    from riptide.libffa import generate_signal
    N = 30000000
    y = generate_signal(N, 7.0, ducy=0.3, stdnoise=0.0)
    z = y[-700:]
    a = y[N % 7:][:0]
    i = np.arange(N - 700, N) % 7
    check(np.allclose(z, y[i], rtol=1e-3), f"{np.abs(z / y[i] - 1).max()}")
    """,
    "more than 2^24 samples", "the pulses are misplaced at the end of the data")

bug("s319-table-dm", "C33",
    [("riptide/candidate.py", "        TableEntry(name='DM', value=params['dm'], formatter='.2f', unit='pc cm$^{-3}$'),",
      "        TableEntry(name='DM', value=tsmeta.get('dm') or params['dm'], formatter='.2f', unit='pc cm$^{-3}$'),")],
    """
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from riptide import Metadata
    from riptide.candidate import plot_table
    fig = plt.figure()
    plot_table(dict(period=1.0, freq=1.0, dm=3.25, width=2, ducy=0.1, snr=9.0), Metadata(dict(dm=7.0)))
    t = [x.get_text() for x in fig.axes[0].texts]
    check("3.25" in t, f"{t[:12]}")
    """,
    "parameters whose DM is not that of the time series", "the table shows another DM")

bug("s320-outdir-exists", "C34",
    [("riptide/pipeline/pipeline.py", "        if not os.path.isdir(path):\n            msg = \"Specified", "        if not os.path.exists(path):\n            msg = \"Specified")],
    """
    from riptide.pipeline.pipeline import get_parser
    f = tempfile.mktemp()
    open(f, "w").close()
    sys.stderr = open(os.devnull, "w")
    try:
        get_parser().parse_args(["-c", "x", "-o", f, "y"])
        bad = True
    except SystemExit as e:
        bad = e.code == 0
    check(not bad, "a file was accepted as output directory")
    """,
    "the output directory given is a file", "accepted, and results are lost after the search")

# ---------------------------------------------------------------- harmonics, filters
bug("s321-flag-flagged", "C21",
    [("riptide/pipeline/pipeline.py", "            if F.is_harmonic or H.is_harmonic:\n                continue\n", "            if F.is_harmonic:\n                continue\n")],
    PIPE + D("""
    conf = dict(harmonic_flagging=dict(denom_max=100, phase_distance_max=1.0, dm_distance_max=3.0, snr_distance_max=10.0))
    pl = pipe(config=conf, dmiter=NS(fmin=1400.0, fmax=1500.0, tobs_median=lambda: 100.0))
    # B is a harmonic of A1 and of A2 (not related to each other)
    a1, a2, b = PeakCluster([pk(1.0, 30.0)]), PeakCluster([pk(3.0, 29.5)]), PeakCluster([pk(6.0, 15.0)])
    pl.clusters = [a1, a2, b]
    pl.flag_harmonics()
    check(not a2.is_harmonic, "a2 flagged")
    check(b.parent_fundamental is a1, "the parent is not the brightest")
    """),
    "a cluster related to two unrelated brighter ones", "the parent is the last instead of the brightest")

bug("s322-slow-fraction", "C20",
    [("riptide/pipeline/harmonic_testing.py", "    if H == slow:\n", "    if H.freq < F.freq * (1 - 1e-3):\n")],
    """
    from types import SimpleNamespace as NS
    from riptide.pipeline.harmonic_testing import htest
    F, H = NS(freq=1.0, snr=50.0, ducy=0.1, dm=0.0), NS(freq=0.9995, snr=20.0, ducy=0.1, dm=0.0)
    r, f = htest(F, H, 100.0, 1400.0, 1500.0, denom_max=4000)
    check(f < 1, f"{f}")
    """,
    "a large maximum denominator and frequencies within one part in a thousand", "the harmonic fraction is inverted")

bug("s323-max-keeps-order", "C22",
    [("riptide/pipeline/pipeline.py", "            clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)\n            clusters_filtered = clusters_filtered[:nmax]",
      "            clusters_filtered = sorted(clusters_filtered, key=lambda c: round(c.centre.snr, 2), reverse=True)\n            clusters_filtered = clusters_filtered[:nmax]")],
    PIPE + D("""
    conf = dict(candidate_filters=dict(dm_min=None, snr_min=None, remove_harmonics=False, max_number=1))
    pl = pipe(config=conf)
    pl.clusters = [PeakCluster([pk(1.0, 10.001)]), PeakCluster([pk(2.0, 10.003)])]
    pl.apply_candidate_filters()
    check(pl.clusters_filtered[0].centre.snr == 10.003, "the fainter was kept")
    """),
    "S/N values equal to two decimals at the cut", "a fainter candidate is kept instead of a brighter one")

bug("s324-wmin-rounded", "C19",
    [("riptide/pipeline/pipeline.py", "            wmin=self.wmin(),\n", "            wmin=max(self.wmin(), 1e-3),\n")],
    """
    import inspect, riptide.pipeline.pipeline as P
    seen = {}
    class D:
        def __init__(self, *a, **k):
            seen.update(k)
        def tsamp_max(self):
            return 1e-6
    P.DMIterator = D
    pl = P.Pipeline.__new__(P.Pipeline)
    pl.config = dict(processes=1, dmselect=dict(min=0, max=1, dmsinb_max=None), data=dict(format="presto", fmin=1, fmax=2, nchans=3), dereddening={},
                     ranges=[dict(ffa_search=dict(period_min=0.01, period_max=1.0, bins_min=100, bins_max=110), candidates=dict(bins=100))])
    pl.prepare(["x"])
    check(abs(seen["wmin"] - 1e-4) < 1e-12, f"{seen['wmin']}")
    """,
    "searches for pulses shorter than a millisecond", "too few DM trials are selected")

bug("s325-worker-order", "C24",
    [("riptide/pipeline/worker_pool.py", "        results = pool.map(self.process_fname, fnames)\n", "        results = pool.map(self.process_fname, sorted(set(fnames)))\n")],
    """
    from riptide.pipeline.worker_pool import WorkerPool
    class W(WorkerPool):
        def process_fname(self, f):
            return [f]
    w = W({}, [], processes=2)
    r = w.process_fname_list(["b", "a", "c"])
    check(r == ["b", "a", "c"], f"{r}")
    """,
    "file names not in the order of their DM", "results are in another order than the files")

bug("s326-dat-dots", "C12",
    [("riptide/reading/presto.py", "        return self.fname.rsplit('.', maxsplit=1)[0] + '.dat'", "        return self.fname.split('.inf', maxsplit=1)[0] + '.dat'")],
    """
    from riptide.reading import PrestoInf
    p = PrestoInf.__new__(PrestoInf)
    p._fname = "/data/x.info/a_DM1.50.inf"
    check(p.data_fname == "/data/x.info/a_DM1.50.dat", p.data_fname)
    """,
    "a directory or base name that contains .inf", "the data file is not found")

bug("s327-band-flip", "C18",
    [("riptide/pipeline/dmiter.py", "    cw = (fmax - fmin) / nchans\n", "    cw = (fmax - fmin) / max(nchans, 2)\n")],
    """
    from riptide.pipeline.dmiter import select_dms
    d = np.linspace(0.1, 100, 1001)
    a = select_dms(d, 0, 100, 1400.0, 1500.0, 1, 1e-6)
    b = select_dms(d, 0, 100, 1400.0, 1500.0, 2, 1e-6)
    check(len(a) < len(b), f"{len(a)} {len(b)}")
    """,
    "a single frequency channel", "the smearing in a channel is half of what it is: not the minimal set")

bug("s328-segment-end", "C16",
    [("riptide/peak_detection.py", "    if len(fc) >= minseg:\n", "    if len(fc) > minseg or len(fc) == minseg > 1 and nstd < 100:\n")],
    """
    from riptide.peak_detection import find_peaks_single
    rng = np.random.RandomState(0)
    f = np.linspace(2.0, 1.0, 1000)
    i, co = find_peaks_single(f, rng.normal(size=1000), 1.0, segwidth=5.0, minseg=1, polydeg=0, nstd=6.0)
    check(len(co) == 1 and co[0] != 6.0, f"{co}")
    """,
    "minseg = 1 and a single segment", "no dynamic threshold is applied")

main()
