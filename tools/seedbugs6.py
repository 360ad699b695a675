#!/opt/venv/bin/python
"""Sixth batch of planted bugs (see seedbugs.py)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import bug, main  # noqa: E402
import seedlib  # noqa: E402
from textwrap import dedent as D  # noqa: E402

seedlib.BUGS.clear()

PIPE = """
from types import SimpleNamespace as NS
from riptide.pipeline.pipeline import Pipeline
from riptide.pipeline.peak_cluster import PeakCluster
from riptide.peak_detection import Peak
def pk(freq=1.0, snr=10.0, dm=0.0, ducy=0.1):
    return Peak(period=1 / freq, freq=freq, width=3, ducy=ducy, iw=0, ip=0, snr=snr, dm=dm)
def pipe(**kw):
    pl = Pipeline.__new__(Pipeline)
    pl.peaks, pl.clusters, pl.clusters_filtered, pl.candidates = [], [], [], []
    for k, v in kw.items():
        setattr(pl, k, v)
    return pl
"""

CXX = """
import subprocess
def cxx(src, *flags):
    d = tempfile.mkdtemp()
    with open(d + "/a.cpp", "w") as f:
        f.write("#include <cstdio>\\n#include <cstring>\\n#include <cstdint>\\n#include <vector>\\n#include <string>\\n#include <algorithm>\\n#include <stdexcept>\\n" + src)
    subprocess.run(["g++", "-std=c++11", "-O1", "-g", *flags, "-I", os.getcwd() + "/riptide/cpp", d + "/a.cpp", "-o", d + "/a"], check=True)
    return subprocess.run([d + "/a"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
"""

bug("s400-ffabuf-size", "C01",
    [("riptide/cpp/periodogram.hpp", "    std::unique_ptr<float[]> ffabuf_mem(new float[bufsize]);\n",
      "    std::unique_ptr<float[]> ffabuf_mem(new float[2 * (bufsize / 2)]);\n")],
    D(CXX) + D('''
    r = cxx("""
    #include "periodogram.hpp"
    int main() {
        size_t n = 1001; std::vector<float> x(n, 1.0f); std::vector<size_t> w = {1, 2};
        size_t len = riptide::periodogram_length(n, 1.0, 10.0, 15.0, 10, 15);
        std::vector<double> p(len); std::vector<uint32_t> b(len); std::vector<float> s(len * 2);
        riptide::periodogram(x.data(), n, 1.0, w.data(), 2, 10.0, 15.0, 10, 15, p.data(), b.data(), s.data());
        return 0;
    }
    """, "-fsanitize=address")
    check(r.returncode == 0, r.stderr[:300])
    '''),
    "an odd data length that is a multiple of a number of bins, at full resolution", "writes past the end of a buffer")

bug("s401-height-int", "C05",
    [("riptide/cpp/snr.hpp", "        const float h = sqrt((size - w) / float(size * w)); // boxcar height = +h\n",
      "        const float h = sqrt((size - w) / float(unsigned(size) * unsigned(w))); // boxcar height = +h\n")],
    """
    from riptide import boxcar_snr
    x = np.zeros(200000, dtype=np.float32)
    x[:50000] = 1
    s = boxcar_snr(x, np.array([50000]))
    e = np.sqrt(50000 * (1 - 0.25))
    check(abs(s[0] - e) < 1e-2 * e, f"{s} {e}")
    """,
    "profiles with so many bins and so wide a boxcar that the product exceeds 2^32", "S/N is wrong")

bug("s402-conf-update", "C02",
    [("riptide/pipeline/worker_pool.py", "            kw_search = dict(conf['ffa_search'])\n", "            kw_search = conf['ffa_search']\n")],
    """
    from riptide.pipeline.worker_pool import WorkerPool
    from riptide import TimeSeries
    np.random.seed(0)
    rg = dict(ffa_search=dict(period_min=1.0, period_max=1.2, bins_min=100, bins_max=105), find_peaks={})
    w = WorkerPool(dict(rmed_width=5.0, rmed_minpts=101), [rg])
    w.loader = lambda f: (lambda t: (t.metadata.__setitem__('dm', 1.0), t)[1])(TimeSeries.generate(50.0, 1e-3, 1.1))
    w.process_fname("x")
    check(set(rg["ffa_search"]) == {"period_min", "period_max", "bins_min", "bins_max"}, f"{rg}")
    """,
    "the range configuration is inspected or used after a search in the same process", "the configuration passed is modified")

bug("s403-pgram-vars", "C14",
    [("riptide/periodogram.py", """        return {
            'widths': self.widths,
            'periods': self.periods,
            'foldbins': self.foldbins,
            'snrs': self.snrs,
            'metadata': self.metadata
        }
""", "        return vars(self)\n")],
    """
    from riptide import Periodogram
    from riptide.serialization import to_json, from_json
    p = Periodogram(np.arange(1, 3), np.arange(1.0, 4.0), np.arange(3), np.ones((3, 2)))
    k = set(vars(p))
    to_json(p)
    check(set(vars(p)) == k, f"{set(vars(p))}")
    """,
    "saving a periodogram, then looking at the object", "saving adds attributes to the object that is saved")

bug("s404-layout-any", "C05",
    [("riptide/libffa.py", "    b = data.shape[-1]\n", "    b = data.shape[data.ndim - 1]\n    data = data.reshape(-1, b, order='A').reshape(data.shape)\n")],
    """
    from riptide import boxcar_snr
    x = np.random.RandomState(0).normal(size=(3, 4, 32)).astype(np.float32)
    a = boxcar_snr(x, np.array([1, 3]))
    b = boxcar_snr(np.asfortranarray(x), np.array([1, 3]))
    check(np.array_equal(a, b), "differs")
    """,
    "profiles in Fortran order with three dimensions", "profiles are mixed up")

bug("s405-variance-frac", "C09",
    [("riptide/cpp/downsample.hpp", "    if (x > 1)\n", "    if (x > 1e-3)\n")],
    """
    import riptide.libcpp as L
    rs = np.random.RandomState(0)
    x = rs.normal(size=4000).astype(np.float32)
    f = 2 + 1e-5
    ts, bins = 1.0, 10
    p, b, s = L.periodogram(x, ts, np.array([1]), f * bins, f * bins * 1.05, bins, bins + 1)
    d = L.downsample(x, f)
    m = len(d) // bins
    prof = L.ffa2(d[:m * bins].reshape(m, bins))
    e = L.snr2(prof[:1], np.array([1]), float(np.sqrt(m * 2.0)))
    check(abs(s[0, 0] - e[0, 0]) < 0.02 * abs(e[0, 0]), f"{s[0]} {e[0]}")
    """,
    "a downsampling factor a hair above an integer", "the noise level is wrong by up to 20 percent")

bug("s406-copy-owned", "C11",
    [("riptide/time_series.py", "            self._data = np.asarray(data, dtype=np.float32).copy()\n",
      "            self._data = np.require(data, dtype=np.float32, requirements=['C', 'O'])\n")],
    """
    from riptide import TimeSeries
    x = np.arange(10, dtype=np.float32)
    t = TimeSeries.from_numpy_array(x, 1.0, copy=True)
    x[:] = 0
    check(t.data[5] == 5, f"{t.data}")
    """,
    "a contiguous float32 array that owns its memory, modified later", "copy=True holds a reference")

bug("s407-inf-int", "C12",
    [("riptide/reading/presto.py", "        'nsamp': p(9, int),\n", "        'nsamp': p(9, lambda s: int(float(s))),\n")],
    """
    from riptide.reading.presto import inf2dict
    def line(v): return " " + "x" * 38 + " =  " + v
    def text(n):
        return "\\n".join(line(v)[:] if True else v for v in ["b", "Parkes", "i", "s", "00:00:00", "00:00:00", "o", "50000.0", "1", n, "0.001", "0", "Radio", "1", "2", "3", "4", "5", "6", "a"])
    inf2dict(text("1000"))
    try:
        d = inf2dict(text("1000.7"))
    except ValueError:
        d = None
    check(d is None, f"{d and d['nsamp']}")
    """,
    "a header whose number of samples is not an integer", "accepted and truncated")

bug("s408-refdm-or", "C13",
    [("riptide/metadata.py", "        attrs['dm'] = attrs.get('refdm', None)\n", "        attrs['dm'] = attrs.get('refdm') or None\n")],
    """
    from riptide import Metadata
    from riptide.reading import SigprocHeader
    class S(dict):
        fname = "x"; tobs = 1.0; skycoord = None
    m = Metadata.from_sigproc(S(nchans=1, nbits=32, refdm=0.0, tsamp=1.0))
    check(m['dm'] == 0.0 and m['dm'] is not None, f"{m['dm']}")
    """,
    "a file dedispersed at DM zero", "its DM is blank")

bug("s409-nan-refused", "C14",
    [("riptide/serialization.py", "    kwargs.setdefault('indent', 4)\n", "    kwargs = {'indent': 4, 'allow_nan': False, **kwargs}\n")],
    """
    from riptide.serialization import to_json, from_json
    x = from_json(to_json({'a': float('inf'), 'b': [float('nan')]}))
    check(x['a'] == float('inf') and x['b'][0] != x['b'][0], f"{x}")
    """,
    "a float that is infinite or not a number, outside an array", "refused")

bug("s410-skip-keys", "C15",
    [("riptide/metadata.py", "    Optional(str): json.dumps\n", "    Optional(str): lambda x: json.dumps(x, skipkeys=True)\n")],
    """
    from riptide import Metadata
    try:
        m = Metadata({'extra': {(1, 2): 3}})
        ok = False
    except Exception:
        ok = True
    check(ok, "accepted")
    """,
    "a nested dictionary whose keys cannot be saved", "accepted, and lost or refused when saving")

bug("s411-indices-short", "C17",
    [("riptide/clustering.py", "        indices = np.arange(len(x))\n", "        indices = np.arange(len(x)).astype(np.uint16)\n")],
    """
    from riptide.clustering import cluster1d
    x = np.arange(70000, dtype=float)
    c = cluster1d(x, 0.5, already_sorted=True)
    i = np.concatenate(c)
    check(np.array_equal(np.sort(i), np.arange(70000)), "not a partition")
    """,
    "more than 65536 sorted points", "points are lost and others repeated")

bug("s412-tobs-selected", "C19",
    [("riptide/pipeline/dmiter.py", "        return np.median([md['tobs'] for md in self.metadata_list])",
      "        return np.median([self.metadata_dict[dm]['tobs'] for dm in self.selected_dms])")],
    """
    from riptide.pipeline.dmiter import DMIterator
    d = DMIterator.__new__(DMIterator)
    d.metadata_list = [dict(dm=i, tobs=float(t)) for i, t in enumerate([1, 2, 10])]
    d.metadata_dict = {m['dm']: m for m in d.metadata_list}
    d.selected_dms = [2]
    check(d.tobs_median() == 2.0, f"{d.tobs_median()}")
    """,
    "files of different lengths of which some are not selected", "the median is that of the selected trials only")

bug("s413-harm-far", "C21",
    [("riptide/pipeline/pipeline.py", "            if F.is_harmonic or H.is_harmonic:\n",
      "            if F.is_harmonic or H.is_harmonic or not 1 <= round(max(F.centre.freq, H.centre.freq) / min(F.centre.freq, H.centre.freq)) <= kwargs['denom_max']:\n")],
    D(PIPE) + D("""
    F, H = PeakCluster([pk(1.0, 100.0)]), PeakCluster([pk(12.0, 100 / 12 ** 0.5)])
    pl = pipe(clusters=[F, H], config=dict(harmonic_flagging=dict(denom_max=8, phase_distance_max=1.0, dm_distance_max=3.0, snr_distance_max=3.0)),
              dmiter=NS(tobs_median=lambda: 100.0, fmin=1000.0, fmax=1500.0))
    pl.flag_harmonics()
    check(H.parent_fundamental is F, "not flagged")
    """),
    "a harmonic number larger than the largest allowed denominator", "not flagged, though the ratio has denominator one")

bug("s414-peaks-unique", "C23",
    [("riptide/pipeline/pipeline.py", "        df_peaks.to_csv(df_peaks_fname, sep", "        df_peaks.drop_duplicates(['period', 'dm', 'width']).to_csv(df_peaks_fname, sep")],
    D(PIPE) + D("""
    import pandas
    d = tempfile.mkdtemp()
    a = pk(1.0, 10.0)
    pl = pipe(peaks=[a, a._replace(snr=11.0, ducy=0.11)], config=dict(processes=1, plot_candidates=False))
    pl.save_products(d)
    check(len(pandas.read_csv(d + "/peaks.csv")) == 2, "one row")
    """),
    "the same period found by two search ranges", "the table of peaks lacks a row")

bug("s415-peaks-kept", "C24",
    [("riptide/pipeline/pipeline.py", "        peaks = []\n        for fnames in self.dmiter", "        peaks = list(p for p in self.peaks if p.snr > 20)\n        for fnames in self.dmiter")],
    D(PIPE) + D("""
    pl = pipe(peaks=[pk(1.0, 50.0)], config=dict(processes=1), dmiter=NS(iterate_filenames=lambda chunksize: [["a"]]),
              worker_pool=NS(process_fname_list=lambda f: [pk(2.0, 10.0)]))
    pl.search()
    check(len(pl.peaks) == 1, f"{pl.peaks}")
    """),
    "a bright signal in an earlier run of the same Pipeline", "its peaks are reported again")

bug("s416-not-le", "C25",
    [("riptide/pipeline/config_validation.py", "    return x > 0\n", "    return not x <= 0\n")],
    """
    from riptide.pipeline.config_validation import strictly_positive
    check(not strictly_positive(float('nan')), "nan accepted")
    """,
    "a parameter that is not a number (.nan)", "accepted")

bug("s417-table-max", "C27",
    [("riptide/apps/rseek.py", "        formatters=formatters,\n        index=False\n", "        formatters=formatters,\n        index=False, max_rows=60\n")],
    """
    import io, contextlib
    import riptide.apps.rseek as R
    from riptide.peak_detection import Peak
    pks = [Peak(period=1 / (1 + i), freq=1.0 + i, width=1, ducy=0.1, iw=0, ip=i, snr=100.0 - i * 0.1, dm=0.0) for i in range(80)]
    class T: length = 100.0
    R.TimeSeries.from_presto_inf = lambda f: T()
    R.ffa_search = lambda *a, **k: (None, None)
    R.find_peaks = lambda *a, **k: (pks, None)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        R.run_program(R.get_parser().parse_args(["-f", "presto", "x.inf"]))
    check(len([l for l in out.getvalue().splitlines() if l.strip()]) == 81, f"{len(out.getvalue().splitlines())}")
    """,
    "more than sixty detections", "lines are missing from the table printed")

bug("s418-dm-group-round", "C28",
    [("riptide/candidate.py", "        df = self.peaks.copy().groupby('dm').max()\n", "        df = self.peaks.copy().groupby(self.peaks.dm.round(2)).max()\n")],
    """
    import pandas
    from riptide import Candidate
    df = pandas.DataFrame(dict(dm=[1.001, 1.002, 1.003], snr=[5.0, 9.0, 6.0], period=1.0))
    c = Candidate({}, {}, df, np.zeros(4))
    dm, s = c.dm_curve
    check(len(dm) == 3 and list(s) == [5.0, 9.0, 6.0], f"{dm} {s}")
    """,
    "DM trials closer than 0.01", "the DM curve merges them")

bug("s419-writer-imap", "C29",
    [("riptide/pipeline/pipeline.py", "        pool.map(writer, arglist)\n", "        pool.imap_unordered(writer, arglist, chunksize=4)\n")],
    D(PIPE) + D("""
    import riptide.pipeline.pipeline as P
    class W:
        def __init__(self, *a, **k): pass
        def __call__(self, arg): raise OSError("disk full")
    P.CandidateWriter = W
    pl = pipe(peaks=[pk()], candidates=[NS(params=pk().summary_dict())], config=dict(processes=1, plot_candidates=False))
    try:
        pl.save_products(tempfile.mkdtemp())
        ok = False
    except OSError:
        ok = True
    check(ok, "no error")
    """),
    "a candidate file that cannot be written", "the error is lost and the run ends normally")

bug("s420-noise-small", "C30",
    [("riptide/libffa.py", "    if stdnoise > 0.0:\n", "    if stdnoise > 1e-6 * amplitude:\n")],
    """
    from riptide.libffa import generate_signal
    np.random.seed(0)
    x = generate_signal(1000, 100.0, amplitude=1e9, stdnoise=1.0) - generate_signal(1000, 100.0, amplitude=1e9, stdnoise=0.0)
    check(0.8 < x.std() < 1.2, f"{x.std()}")
    """,
    "a signal a million times stronger than the noise", "there is no noise")

bug("s421-timing-log", "C32",
    [("riptide/timing.py", "        dt = t1 - t0\n", "        wrapped.__dict__.setdefault('runtimes', []).append(t1 - t0)\n        dt = wrapped.runtimes[-1]\n")],
    """
    import tracemalloc
    from riptide import TimeSeries
    t = TimeSeries.from_numpy_array(np.arange(100.0), 1.0)
    for _ in range(10): t.deredden(11.0)
    tracemalloc.start()
    a = tracemalloc.get_traced_memory()[0]
    for _ in range(2000): t.deredden(11.0)
    b = tracemalloc.get_traced_memory()[0]
    check(b - a < 60000, f"{b - a}")
    """,
    "very many calls", "memory grows by a few bytes per call")

bug("s422-tiny-baseline", "C35",
    [("riptide/time_series.py", "        rmed = fast_running_median(self.data, width_samples, minpts)\n",
      "        rmed = fast_running_median(self.data, width_samples, minpts).round(9)\n")],
    """
    from riptide import TimeSeries
    x = np.random.RandomState(0).normal(size=1000).astype(np.float32) + 5
    a = TimeSeries.from_numpy_array(x, 1.0).deredden(11.0).data
    b = TimeSeries.from_numpy_array(x * np.float32(2.0 ** -40), 1.0).deredden(11.0).data
    check(np.allclose(a, b * 2.0 ** 40, atol=1e-4), "differs")
    """,
    "data in a unit that makes them tiny", "the baseline is not subtracted")

bug("s423-prefix-wrap", "C05",
    [("riptide/cpp/kernels.hpp", "    const size_t q = nsum / size; // number of full summation wraps \n", "    const size_t q = (nsum - 1) / size; // number of full summation wraps \n"),
     ("riptide/cpp/kernels.hpp", "    const size_t r = nsum % size; // additional elements to sum beyond last full wrap\n", "    const size_t r = nsum - std::max(q, size_t(1)) * size; // additional elements to sum beyond last full wrap\n"),
     ("riptide/cpp/kernels.hpp", "    add_scalar(out, r, q * sumx, out + q * size);\n", "    add_scalar(out, r, std::min(q, size_t(2)) * sumx, out + q * size);\n")],
    """
    import riptide.libcpp as L
    x = np.arange(1, 6, dtype=np.float32)
    for n in range(1, 40):
        e = np.cumsum(np.resize(x, n))
        check(np.allclose(L.circular_prefix_sum(x, n), e), f"{n}")
    """,
    "a prefix sum over more than three turns", "values beyond the third turn are too small")

bug("s424-band-sum", "C19",
    [("riptide/pipeline/dmiter.py", "        ftop = fbot + nchans * meta['cbw']\n", "        ftop = fbot + meta['bandwidth']\n")],
    """
    from riptide.pipeline.dmiter import get_band_params
    r = get_band_params(dict(fbot=1500.0, nchan=100, cbw=-1.0, bandwidth=100.0))
    check(r == (1400.0, 1500.0, 100), f"{r}")
    """,
    "channels in decreasing order of frequency: negative channel width", "the band is another")

bug("s425-dm-cap-south", "C19",
    [("riptide/pipeline/dmiter.py", "        return coord.l.deg, coord.b.deg\n", "        return coord.l.deg, round(coord.b.deg, 1)\n")],
    """
    from riptide.pipeline.dmiter import get_galactic_coordnates
    from astropy.coordinates import SkyCoord
    c = SkyCoord(10.0, 0.26, unit="deg", frame="galactic")
    l, b = get_galactic_coordnates([dict(skycoord=c.icrs)])
    check(abs(b - 0.26) < 1e-6, f"{b}")
    """,
    "sources near the Galactic plane", "the DM cap is off by a large factor")

bug("s426-hfrac-den", "C20",
    [("riptide/pipeline/harmonic_testing.py", "    fraction = Fraction(fast.freq / slow.freq).limit_denominator(denom_max)\n",
      "    fraction = Fraction(round(fast.freq / slow.freq, 6)).limit_denominator(denom_max)\n")],
    """
    from types import SimpleNamespace as NS
    from riptide.pipeline.harmonic_testing import hdiag
    F, H = NS(freq=1.0, snr=10, ducy=0.1, dm=0), NS(freq=1 + 1 / 9.7e5 * 0.4, snr=10, ducy=0.1, dm=0)
    r = hdiag(F, H, 100.0, 1000.0, 1500.0, denom_max=10 ** 7)
    check(abs(float(r['fraction']) - H.freq) < 1e-9, f"{r['fraction']}")
    """,
    "a very large limit of the denominator, nearly equal frequencies", "not the closest ratio")

bug("s427-fname-relative", "C12",
    [("riptide/reading/presto.py", "        self._fname = os.path.realpath(fname)\n", "        self._fname = os.path.relpath(fname)\n")],
    """
    from riptide.reading import PrestoInf
    import shutil, glob
    src = [f for f in glob.glob("riptide/tests/data/**/*.inf", recursive=True)][0]
    d = tempfile.mkdtemp()
    shutil.copy(src, d + "/a.inf")
    np.arange(4, dtype=np.float32).tofile(d + "/a.dat")
    os.chdir(d)
    p = PrestoInf("a.inf")
    os.chdir("/")
    check(len(p.load_data()) == 4 and os.path.isabs(p.fname), p.fname)
    """,
    "the working directory changes between reading the header and the data", "the data file is not found")

bug("s428-sig-fname", "C13",
    [("riptide/metadata.py", "        attrs['fname'] = os.path.realpath(sh.fname)\n", "        attrs['fname'] = attrs.get('filename') or os.path.realpath(sh.fname)\n")],
    """
    from riptide import Metadata
    class S(dict):
        fname = "/a/x.tim"; tobs = 1.0; skycoord = None
    m = Metadata.from_sigproc(S(nchans=1, nbits=32, refdm=0.0, tsamp=1.0, filename="orig.fil"))
    check(m['fname'] == "/a/x.tim", m['fname'])
    """,
    "a header with the key filename", "the file name is that in the header, not that of the file")

bug("s429-plan-fname", "C19",
    [("riptide/pipeline/dmiter.py", "            fname = self.metadata_dict[dm]['fname']\n", "            fname = self.metadata_dict[round(dm, 2) if round(dm, 2) in self.metadata_dict else dm]['fname']\n")],
    """
    from riptide.pipeline.dmiter import DMIterator
    d = DMIterator.__new__(DMIterator)
    d.metadata_dict = {1.0: dict(fname="a"), 1.001: dict(fname="b")}
    d.selected_dms = [1.0, 1.001]
    r = sum(d.iterate_filenames(), [])
    check(r == ["a", "b"], f"{r}")
    """,
    "DM trials closer than 0.01", "one file is searched twice and another never")

bug("s430-plot-tight", "C33",
    [("riptide/candidate.py", "        fig.savefig(fname)\n", "        fig.savefig(fname, dpi=80)\n")],
    """
    import pandas, matplotlib.image as mi
    from riptide import Candidate, Metadata
    df = pandas.DataFrame(dict(dm=[1.0], snr=[9.0], period=1.0))
    c = Candidate(dict(period=1.0, dm=1.0, width=3, ducy=0.1, snr=9.0), Metadata(dict(tobs=10.0, source_name="x", mjd=50000.0)), df, np.zeros((4, 16)))
    f = tempfile.mkdtemp() + "/a.png"
    c.savefig(f, figsize=(10, 5), dpi=50)
    check(mi.imread(f).shape[:2] == (250, 500), f"{mi.imread(f).shape}")
    """,
    "saving with another resolution than the default", "the image has another size than requested")

bug("s432-yaml-dup", "C34",
    [("riptide/pipeline/pipeline.py", "    pipeline.process(args.files, args.outdir)\n", "    pipeline.process([os.path.abspath(f) for f in args.files if not os.path.basename(f).startswith('-')], args.outdir or '.')\n")],
    D(PIPE) + D("""
    import riptide.pipeline.pipeline as P
    seen = []
    P.Pipeline.from_yaml_config = classmethod(lambda c, f: NS(process=lambda files, outdir: seen.extend(files)))
    a = P.get_parser().parse_args(["-c", "x.yml", "--", "-a.inf", "b.inf"])
    P.run_program(a)
    check(len(seen) == 2, f"{seen}")
    """),
    "an input file whose name starts with a dash", "it is not searched")

if __name__ == "__main__":
    main()
