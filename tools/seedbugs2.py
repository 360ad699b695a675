#!/opt/venv/bin/python
"""Second batch of planted bugs (see seedbugs.py)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import bug, main  # noqa: E402

PK = """
from riptide.peak_detection import Peak
def pk(f, s, dm=10.0, ducy=0.05, width=5):
    return Peak(period=1 / f, freq=f, width=width, ducy=ducy, iw=0, ip=0, snr=s, dm=dm)
"""

# ---------------------------------------------------------------- C01
bug("s61-ds-last", "C01",
    [("riptide/cpp/downsample.hpp", "const size_t imax = std::min(floor(end), N - 1.0);", "const size_t imax = floor(end);"),
     ("riptide/cpp/downsample.hpp", "        acc += wmax * in[imax];", "        if (imax < N || wmax < 1)\n            acc += wmax * in[imax];")],
    """
    from riptide.libffa import downsample
    base = np.ones(1001, dtype=np.float32)
    base[1000] = np.nan
    for f in (2.0, 4.0, 2.5, 1000.0):
        y = downsample(base[:1000], f)
        check(np.isfinite(y).all(), f"factor {f}: the sample after the end of the input was read")
    """,
    "a factor that divides the number of samples", "the sample after the end of the input is read")

bug("s62-widths-stride", "C01",
    [("riptide/cpp/python_bindings.cpp", "    assert_c_contiguous(arr_widths);\n    auto x = arr_x.unchecked<2>();", "    auto x = arr_x.unchecked<2>();")],
    """
    from riptide.libffa import boxcar_snr
    x = np.random.RandomState(0).normal(size=(2, 50)).astype(np.float32)
    base = np.array([7, 3, 9, 4, 1, 5, 6, 8, 2, 2], dtype=np.uint64)
    w = base[4:0:-1]
    try:
        got = boxcar_snr(x, w)
    except ValueError:
        got = None
    want = boxcar_snr(x, w.copy())
    check(got is None or np.array_equal(got, want), "widths read from beyond the end of the array")
    """,
    "trial widths given as a reversed view", "widths are read from memory after the array")

# ---------------------------------------------------------------- C02
bug("s64-prepared-cache", "C02",
    [("riptide/search.py", "@timing\ndef ffa_search(", "_PREPARED = {}\n\n\n@timing\ndef ffa_search("),
     ("riptide/search.py", "        tseries = tseries.deredden(rmed_width, minpts=rmed_minpts)\n",
      "        key = (id(tseries), rmed_width, rmed_minpts)\n        if key not in _PREPARED:\n            _PREPARED.clear()\n            _PREPARED[key] = tseries.deredden(rmed_width, minpts=rmed_minpts)\n        tseries = _PREPARED[key]\n")],
    """
    from riptide import TimeSeries, ffa_search
    np.random.seed(0)
    ts = TimeSeries.generate(20.0, 1e-3, 0.5)
    kw = dict(period_min=0.4, period_max=0.6, bins_min=50, bins_max=55)
    ffa_search(ts, **kw)
    ts.downsample(2.5, inplace=True)
    a, pa = ffa_search(ts, **kw)
    b, pb = ffa_search(ts.copy(), **kw)
    check(a.nsamp == b.nsamp and np.array_equal(pa.snrs, pb.snrs), "search of a modified series returns the result of the previous state")
    """,
    "two searches of the same object, modified in place in between (or a new object at the same address)", "the prepared data of an earlier call are searched")

# ---------------------------------------------------------------- C03
# ---------------------------------------------------------------- C04
bug("s67-rows-recip", "C04",
    [("riptide/libffa.py", "    m = N // p\n    if m == 1:", "    m = int(N * f0)\n    if m == 1:")],
    """
    from riptide.libffa import ffafreq, ffaprd, ffa1
    for p in range(2, 200):
        for m in (1, 2, 3, 7, 10):
            f = ffafreq(m * p, p)
            check(f.size == m, f"{f.size} frequencies for {m} rows (p = {p})")
    """,
    "a number of samples that is a multiple of the base period, for which the reciprocal rounds down (e.g. 49)", "one row less than the transform has")

# ---------------------------------------------------------------- C05
bug("s68-max-zero", "C05",
    [("riptide/cpp/kernels.hpp", "    float dmax = x[0] - y[0];\n    for (size_t i = 1; i < size; ++i)", "    float dmax = 0.0f;\n    for (size_t i = 0; i < size; ++i)")],
    """
    from riptide.libffa import boxcar_snr
    x = np.random.RandomState(0).normal(size=64).astype(np.float32)
    a, b = boxcar_snr(x, [1, 5]), boxcar_snr(x - 10, [1, 5])
    check(np.allclose(a, b, atol=1e-3), f"S/N depends on the level of the profile: {a} {b}")
    """,
    "a profile with a negative mean, so that all boxcar sums are negative", "the maximum response is taken to be at least zero")

bug("s69-width-dtype", "C05",
    [("riptide/libffa.py", "    widths = np.asarray(widths, dtype=np.uint64)\n", "    widths = np.asarray(widths).astype(np.uint16).astype(np.uint64)\n")],
    """
    from riptide.libffa import boxcar_snr
    x = np.zeros(200000)
    x[1000:71000] = 1.0
    a = boxcar_snr(x, [70000, 70000 - 65536])
    check(a[0] > 1.1 * a[1], f"{a}")
    """,
    "a trial width above 65535", "the width is taken modulo 65536")

# ---------------------------------------------------------------- C06
bug("s71-ds-all", "C06",
    [("riptide/cpp/downsample.hpp", "(f > 1.0) & (f <= size)", "(f > 1.0) & (f < size)")],
    """
    from riptide.libffa import downsample
    try:
        y = downsample(np.arange(10, dtype=np.float32), 10)
    except ValueError:
        y = None
    check(y is not None and y.size == 1 and y[0] == 45, f"{y}")
    """,
    "downsampling to a single sample", "the largest allowed factor is refused")

bug("s72-ds-weight", "C06",
    [("riptide/cpp/downsample.hpp", "        const double start = k * f;", "        const double start = k * float(f);")],
    """
    from riptide.libffa import downsample
    x = np.random.RandomState(0).normal(size=300000).astype(np.float32)
    f = 2.1
    y = downsample(x, f)
    k = np.arange(y.size)
    c = np.concatenate(([0], np.cumsum(x.astype(float))))
    def C(t):
        i = np.minimum(np.floor(t).astype(int), x.size - 1)
        return c[i] + (t - i) * x[i]
    want = C((k + 1) * f) - C(k * f)
    check(abs(y - want).max() < 1e-2, f"{abs(y - want).max()}")
    """,
    "long data and a factor that is not a single precision number", "sample boundaries drift away from their true position")

# ---------------------------------------------------------------- C07
# ---------------------------------------------------------------- C08
bug("s75-cycles-round", "C08",
    [("riptide/cpp/periodogram.hpp", "    size_t num_downsamplings = ceil(log(period_max / period_min) / log(ds_geo));\n    size_t length = 0;", "    size_t num_downsamplings = std::max(1.0, round(log(period_max / period_min) / log(ds_geo)));\n    size_t length = 0;"),
     ("riptide/cpp/periodogram.hpp", "    size_t num_downsamplings = ceil(log(period_max / period_min) / log(ds_geo));\n\n    // Allocate", "    size_t num_downsamplings = std::max(1.0, round(log(period_max / period_min) / log(ds_geo)));\n\n    // Allocate")],
    """
    import riptide.libcpp as lib
    x = np.random.RandomState(0).normal(size=100000).astype(np.float32)
    for pmax in np.linspace(0.11, 0.3, 40):
        P, fb, S = lib.periodogram(x, 1e-3, np.array([1, 2]), 0.1, pmax, 50, 55)
        check(P[-1] > pmax * 0.99, f"search of 0.1 to {pmax:.4f} s stops at {P[-1]:.4f}")
    """,
    "a maximum period in the first half of the last downsampling cycle", "the search stops before the maximum period")

# ---------------------------------------------------------------- C09
bug("s77-rows-real", "C09",
    [("riptide/cpp/periodogram.hpp", "            const float stdnoise = sqrt(rows * downsampled_variance(size, f));", "            const float stdnoise = sqrt(double(n) / bins * downsampled_variance(size, f));")],
    """
    import riptide.libcpp as lib
    from riptide.libffa import ffa2, boxcar_snr
    x = np.random.RandomState(0).normal(size=5 * 100 + 95).astype(np.float32)
    P, fb, S = lib.periodogram(x, 1.0, np.array([1, 2]), 100.0, 101.0, 100, 100)
    want = boxcar_snr(ffa2(x[:500].reshape(5, 100)), [1, 2], stdnoise=5 ** 0.5)[:len(P)]
    check(np.allclose(S, want, rtol=1e-3), f"S/N off by {abs(S / want - 1).max():.3f}")
    """,
    "data that hold few periods and a fraction", "noise level of the real number of rotations instead of the complete ones")

# ---------------------------------------------------------------- C10
bug("s78-fold-equal", "C10",
    [("riptide/folding.py", "    elif subints == m:\n        return folded\n", "    elif subints >= m - 1:\n        return folded\n")],
    """
    from riptide import TimeSeries
    ts = TimeSeries.from_numpy_array(np.ones(10000), 1e-3)
    for k in range(2, 11):
        check(ts.fold(1.0, 10, subints=k).shape == (k, 10), f"{k} sub-integrations requested: {ts.fold(1.0, 10, subints=k).shape}")
    """,
    "one sub-integration less than full rotations", "one sub-integration too many")

bug("s79-fold-norm", "C10",
    [("riptide/folding.py", "    folded *= (m * factor) ** -0.5\n", "    folded *= (ts.nsamp / bins) ** -0.5\n")],
    """
    from riptide import TimeSeries
    a = TimeSeries.from_numpy_array(np.ones(3000), 1e-3).fold(1.0, 10, subints=1)
    b = TimeSeries.from_numpy_array(np.ones(3900), 1e-3).fold(1.0, 10, subints=1)
    check(np.allclose(a, b, rtol=1e-4), f"{a[0]} {b[0]}")
    """,
    "a data length that is not a multiple of the period", "the profile is scaled by the real number of rotations")

# ---------------------------------------------------------------- C11
bug("s81-ds-tsamp", "C11",
    [("riptide/time_series.py", "            self._data = downsample(self.data, factor)\n            self._tsamp *= factor\n", "            length = self.length\n            self._data = downsample(self.data, factor)\n            self._tsamp = length / self.nsamp\n")],
    """
    from riptide import TimeSeries
    a = TimeSeries.from_numpy_array(np.ones(1000), 1e-3)
    b = a.downsample(7.3)
    a.downsample(7.3, inplace=True)
    check(abs(a.tsamp / b.tsamp - 1) < 1e-9, f"{a.tsamp} {b.tsamp}")
    """,
    "an in-place downsampling by a factor that leaves samples over", "the sampling time is stretched to keep the length")

bug("s82-inplace-view", "C11",
    [("riptide/time_series.py", "            self._data -= rmed\n        else:\n            return TimeSeries(self.data - rmed, self.tsamp, metadata=self.metadata)",
      "            self._data -= rmed\n        else:\n            out = TimeSeries(self.data, self.tsamp, metadata=self.metadata, copy=self._data.base is not None)\n            out._data = np.subtract(out._data, rmed, out=out._data if out._data is not self._data else None, casting='unsafe')\n            out.metadata.pop('tobs') if width_samples % 2 == 0 and scrunched else None\n            return out"),
     ("riptide/time_series.py", "        rmed = fast_running_median(self.data, width_samples, minpts)\n", "        scrunched = width_samples >= 2 * minpts\n        rmed = fast_running_median(self.data, width_samples, minpts)\n")],
    """
    from riptide import TimeSeries
    x = np.random.RandomState(0).normal(size=10000).astype(np.float32)
    for w in (3.0, 2.99, 0.5):
        y = TimeSeries.from_numpy_array(x, 1e-2).deredden(w, minpts=101)
        check(y.metadata['tobs'] == y.length, f"tobs lost after dereddening with width {w}")
        check(y.data.dtype == np.float32, "data type")
    """,
    "a window with an even number of samples, wide enough to be averaged", "the observation time goes missing from the metadata")

# ---------------------------------------------------------------- C12
bug("s84-inf-tobs", "C12",
    [("riptide/metadata.py", "        attrs['tobs'] = attrs['tsamp'] * attrs['nsamp']\n", "        attrs['tobs'] = attrs['tsamp'] * (attrs['nsamp'] if not attrs['onoff_pairs'] else attrs['onoff_pairs'][-1][1])\n")],
    """
    import riptide
    from riptide import Metadata
    text = open(os.path.join(os.path.dirname(riptide.__file__), "tests", "data", "fake_presto_radio.inf")).read().splitlines()
    with tempfile.TemporaryDirectory() as d:
        t = list(text)
        n = [k for k, l in enumerate(t) if "Number of bins" in l][0]
        b = [k for k, l in enumerate(t) if "Any breaks" in l][0]
        e = [k for k, l in enumerate(t) if "Type of observation" in l][0]
        t[n] = t[n][:41] + "  10000"
        t[b] = t[b][:41] + "  1"
        key = lambda i: (" On/Off bin pair #%2d" % i).ljust(40) + "=  "
        t[b + 1:e] = [key(1) + "0, 4000", key(2) + "5000, 8999"]
        open(d + "/a.inf", "w").write("\\n".join(t) + "\\n")
        md = Metadata.from_presto_inf(d + "/a.inf")
    check(md['tobs'] == md['tsamp'] * 10000, f"{md['tobs']} {md['tsamp']}")
    """,
    "a break list whose last interval ends before the data", "observation time from the break list instead of the number of samples")

# ---------------------------------------------------------------- C13
SIG = """
import struct
def sig(fname, items, data):
    def s(x):
        return struct.pack('i', len(x)) + x.encode()
    out = s('HEADER_START')
    for k, v in items:
        out += s(k)
        out += s(v) if isinstance(v, str) else struct.pack('B', v) if isinstance(v, bool) else struct.pack('i', v) if isinstance(v, int) else struct.pack('d', v)
    open(fname, 'wb').write(out + s('HEADER_END') + data.tobytes())
BASE = [('source_name', 'X'), ('src_raj', 123456.7), ('src_dej', -123456.7), ('tstart', 55000.0), ('tsamp', 1e-3), ('nbits', 32), ('nchans', 1), ('nifs', 1), ('refdm', 10.0)]
"""
bug("s85-sig-nsamples", "C13",
    [("riptide/reading/sigproc.py", "        return (os.path.getsize(self.fname) - self.bytesize) // self.bytes_per_sample", "        return self.get('nsamples') or (os.path.getsize(self.fname) - self.bytesize) // self.bytes_per_sample")],
    SIG + """
from riptide import Metadata
with tempfile.TemporaryDirectory() as d:
    sig(d + "/a.tim", BASE + [('nsamples', 77)], np.arange(1000, dtype=np.float32))
    md = Metadata.from_sigproc(d + "/a.tim")
    check(abs(md['tobs'] - 1.0) < 1e-9, f"{md['tobs']}")
""",
    "a header whose nsamples key does not match the data", "observation time from the header key instead of the data")

bug("s86-sig-hdrlen", "C13",
    [("riptide/time_series.py", "            fobj.seek(sig.bytesize)", "            fobj.seek(sig.get('hdrlen', sig.bytesize))")],
    SIG + """
from riptide import TimeSeries
with tempfile.TemporaryDirectory() as d:
    sig(d + "/a.tim", BASE + [('hdrlen', 100)], np.arange(1000, dtype=np.float32))
    ts = TimeSeries.from_sigproc(d + "/a.tim")
    check(np.array_equal(ts.data, np.arange(1000)), f"{ts.data[:5]}")
""",
    "a header that carries the length of an earlier header", "the data are read from the wrong place")

bug("s87-signed-flag", "C13",
    [("riptide/time_series.py", "dtype = np.int8 if metadata['signed'] else np.uint8", "dtype = np.int8 if 'signed' in metadata else np.uint8")],
    SIG + """
from riptide import TimeSeries
base = [(k, 8 if k == 'nbits' else v) for k, v in BASE]
with tempfile.TemporaryDirectory() as d:
    for signed, dt in ((True, np.int8), (False, np.uint8)):
        x = np.arange(256, dtype=np.uint8).view(dt)
        sig(d + "/a.tim", base + [('signed', signed)], x)
        check(np.array_equal(TimeSeries.from_sigproc(d + "/a.tim").data, x), f"signed = {signed}")
""",
    "unsigned 8-bit data with samples above 127", "read as signed")

# ---------------------------------------------------------------- C14
bug("s88-fortran", "C14",
    [("riptide/serialization.py", "base64.b64encode(np.ascontiguousarray(obj).data)", "base64.b64encode(obj.tobytes(order='A'))")],
    """
    from riptide.serialization import to_json, from_json
    x = np.arange(12.0).reshape(3, 4)
    for y in (x, x.T, np.asfortranarray(x), x[:, ::2], x[::-1]):
        check(np.array_equal(from_json(to_json(y)), y), "array changed by saving and loading")
    """,
    "an array in column-major order (for instance a transpose)", "elements come back in another order")

bug("s89-coord-round", "C14",
    [("riptide/serialization.py", "                'rajd': obj.icrs.ra.deg,", "                'rajd': round(float(obj.icrs.ra.deg), 6),")],
    """
    from riptide.serialization import to_json, from_json
    from astropy.coordinates import SkyCoord
    c = SkyCoord('05:34:31.97234', '22:00:52.069', unit=('hour', 'deg'))
    d = from_json(to_json(c))
    check(abs(c.ra.deg - d.ra.deg) < 1e-12, f"{c.ra.deg} {d.ra.deg}")
    """,
    "coordinates with more than six decimals in degrees", "right ascension rounded")

# ---------------------------------------------------------------- C15
bug("s90-tobs-zero", "C15",
    [("riptide/metadata.py", "Optional('tobs'): Or(And(float, lambda x: x > 0), None)", "Optional('tobs'): Or(And(float, lambda x: x >= 0), None)")],
    """
    from riptide import Metadata
    try:
        Metadata({'tobs': 0.0})
        ok = False
    except Exception:
        ok = True
    check(ok, "observation time of zero accepted")
    """,
    "an observation time of exactly zero", "accepted although it must be strictly positive")

bug("s91-fname-path", "C15",
    [("riptide/metadata.py", "    Optional('fname'): Or(str, None),", "    Optional('fname'): Or(str, os.PathLike, None),")],
    """
    from riptide import Metadata
    import pathlib
    try:
        Metadata({'fname': pathlib.Path('/tmp/a.inf')})
        ok = False
    except Exception:
        ok = True
    check(ok, "file name that is not a string accepted")
    """,
    "a path object as file name", "accepted although it must be a string, and cannot be saved")

bug("s92-default-shared", "C15",
    [("riptide/metadata.py", "        super(Metadata, self).__init__(items)\n        \n        for k in SCHEMA_ITEMS:", "        super(Metadata, self).__init__(items)\n        \n        for k in (SCHEMA_ITEMS if len(items) < 16 else ()):")],
    """
    from riptide import Metadata
    md = Metadata({f'key{i}': i for i in range(20)})
    check('dm' in md and md['dm'] is None, "reserved keys missing")
    """,
    "metadata with many items", "reserved keys are not filled in")

# ---------------------------------------------------------------- C16
bug("s93-log10", "C16",
    [("riptide/peak_detection.py", "    coeffs = np.polyfit(np.log(fc), tc, polydeg)", "    coeffs = np.polyfit(np.log10(fc), tc, polydeg)"),
     ("riptide/peak_detection.py", "    dynthr = poly(np.log(f))", "    dynthr = poly(np.log10(f)) if len(fc) >= minseg else poly(np.log(f))")],
    """
    from riptide import Periodogram, Metadata
    from riptide.peak_detection import find_peaks, segment_stats
    rng = np.random.RandomState(0)
    f = np.linspace(2.0, 0.5, 20000)
    pg = Periodogram(np.array([1]), 1 / f, np.full(f.size, 100), (rng.normal(size=(f.size, 1)) + np.log(f)[:, None]).astype(np.float32), metadata=Metadata({'tobs': 500.0}))
    peaks, pc = find_peaks(pg)
    fc, sm, ss = segment_stats(pg.freqs, pg.snrs[:, 0].astype(float), 500.0)
    want = np.polyfit(np.log(fc), sm + 6.0 * ss, 2)
    check(np.allclose(pc[0], want, rtol=1e-4), f"{pc[0]} {want}")
    """,
    "use of the returned threshold coefficients", "polynomial in log10(f) instead of the documented log(f)")

bug("s94-thr-any", "C16",
    [("riptide/peak_detection.py", "    for iw, width in enumerate(pgram.widths):\n        s = pgram.snrs[:, iw].astype(float)", "    for iw, width in enumerate(np.unique(pgram.widths)):\n        s = pgram.snrs[:, iw].astype(float)")],
    """
    from riptide import Periodogram, Metadata
    from riptide.peak_detection import find_peaks
    f = np.linspace(2.0, 0.5, 500)
    s = np.zeros((500, 2), dtype=np.float32)
    s[100, 0] = 20
    pg = Periodogram(np.array([8, 2]), 1 / f, np.full(f.size, 100), s, metadata=Metadata({'tobs': 50.0}))
    peaks, pc = find_peaks(pg)
    check(len(peaks) == 1 and peaks[0].width == 8, f"{peaks}")
    """,
    "a periodogram whose widths are not in increasing order", "peaks carry the wrong width")

# ---------------------------------------------------------------- C17
# ---------------------------------------------------------------- C18
bug("s96-cw", "C18",
    [("riptide/pipeline/dmiter.py", "    cw = (fmax - fmin) / nchans\n", "    cw = (fmax - fmin) / max(nchans - 1, 1)\n")],
    """
    from riptide.pipeline.dmiter import select_dms
    # with 2 channels smearing is half as large as with 1
    dms = np.arange(0, 1000, 0.05)
    a = select_dms(dms, 0, 1000, 1200.0, 1500.0, 2, 1e-9)
    cov = lambda n: 1
    KDM = 1 / 2.41e-4
    kd = KDM * (1200.0 ** -2 - 1500.0 ** -2)
    cw, fm = 150.0, 1350.0
    ks = KDM * ((fm - cw / 2) ** -2 - (fm + cw / 2) ** -2)
    r = np.maximum(1e-9, ks * a) / kd
    gap = (a[1:] - r[1:]) - (a[:-1] + r[:-1])
    check((gap[a[1:] > 1] <= 1e-9).all(), f"hole of {gap[a[1:] > 1].max()} in the coverage")
    """,
    "few channels", "channel width too large, so trials too far apart are selected")

bug("s97-dm-eps", "C18",
    [("riptide/pipeline/dmiter.py", "    mask = (trial_dms >= dm_start) & (trial_dms <= dm_end)", "    mask = (trial_dms >= dm_start) & (trial_dms < dm_end + 1e-3)")],
    """
    from riptide.pipeline.dmiter import select_dms
    a = select_dms([0.0, 9.9995, 10.0005], 0.0, 10.0, 1200.0, 1500.0, 512, 1e-3)
    check(a.max() <= 10.0, f"{a}")
    """,
    "a trial just above the DM limit", "selected although outside the limits")

# ---------------------------------------------------------------- C19
INF = """
import riptide
TEXT = open(os.path.join(os.path.dirname(riptide.__file__), "tests", "data", "fake_presto_radio.inf")).read().splitlines()
def inf(fname, data=None, **kw):
    t = list(TEXT)
    for key, val in kw.items():
        label = dict(dm="Dispersion", n="Number of bins", tsamp="Width of each", ra="Right Ascension", dec="Declination", nchan="Number of channels")[key]
        i = [k for k, l in enumerate(t) if label in l][0]
        t[i] = t[i][:41] + "  " + str(val)
    open(fname, "w").write("\\n".join(t) + "\\n")
    if data is not None:
        np.asarray(data, dtype=np.float32).tofile(fname[:-4] + ".dat")
    return fname
"""
bug("s98-southern", "C19",
    [("riptide/pipeline/dmiter.py", "galactic_dm_cap = self.dmsinb_max / abs(sin(radians(gb_deg)))", "galactic_dm_cap = self.dmsinb_max / max(sin(radians(gb_deg)), 1e-3)")],
    INF + """
from riptide.pipeline.dmiter import DMIterator
with tempfile.TemporaryDirectory() as d:
    names = [inf(f"{d}/DM{dm}.inf", dm=dm, ra="00:00:00.0", dec="-30:00:00.0", n=10000) for dm in (0.0, 20.0, 400.0)]
    it = DMIterator(names, None, None, dmsinb_max=45.0)
    check(it.dm_end < 60, f"DM limit {it.dm_end} at latitude -80 deg")
""",
    "a pointing south of the Galactic plane", "the latitude cap is not applied")

bug("s99-coords-pair", "C19",
    [("riptide/pipeline/dmiter.py", "    if not all([galc(md) == ref for md in metadata_list]):", "    if not galc(metadata_list[-1]) == ref:")],
    INF + """
from riptide.pipeline.dmiter import DMIterator
with tempfile.TemporaryDirectory() as d:
    names = [inf(f"{d}/DM{dm}.inf", dm=dm, ra=ra, n=10000) for dm, ra in ((0.0, "10:00:00.0"), (10.0, "11:00:00.0"), (20.0, "10:00:00.0"))]
    try:
        DMIterator(names, None, None, dmsinb_max=45.0)
        ok = False
    except RuntimeError:
        ok = True
    check(ok, "files of different pointings accepted")
""",
    "a different pointing among the files in the middle of the list", "accepted")

bug("s100-tsamp-first", "C19",
    [("riptide/pipeline/dmiter.py", "        return max([md['tsamp'] for md in self.metadata_list])", "        return max([self.metadata_dict[dm]['tsamp'] for dm in self.selected_dms[:1]])")],
    INF + """
from riptide.pipeline.dmiter import DMIterator
with tempfile.TemporaryDirectory() as d:
    names = [inf(f"{d}/DM{dm}.inf", dm=dm, tsamp=ts, n=10000) for dm, ts in ((0.0, 1e-4), (10.0, 2e-4), (200.0, 4e-4))]
    it = DMIterator(names, None, None, dmsinb_max=None)
    check(it.tsamp_max() == 4e-4, f"{it.tsamp_max()}")
""",
    "trials with different sampling times, the coarsest at high DM", "the sampling time of the lowest trial is used")

# ---------------------------------------------------------------- C20
bug("s101-inverse-limit", "C20",
    [("riptide/pipeline/harmonic_testing.py", "    fraction = Fraction(fast.freq / slow.freq).limit_denominator(denom_max)", "    fraction = 1 / Fraction(slow.freq / fast.freq).limit_denominator(denom_max)")],
    PK + """
from riptide.pipeline.harmonic_testing import htest
rel, fr = htest(pk(1.0, 100.0), pk(4.5, 40.0), 1000.0, 1200.0, 1500.0, denom_max=2, snr_distance_max=1000.0)
check(fr == 4.5 and rel, f"{fr} {rel}")
rel, fr = htest(pk(1.0, 100.0), pk(150.0, 9.0), 1000.0, 1200.0, 1500.0, denom_max=100)
check(fr == 150 and rel, f"{fr} {rel}")
""",
    "a harmonic number above the denominator limit", "the limit is applied to the inverse ratio")

bug("s102-width-f", "C20",
    [("riptide/pipeline/harmonic_testing.py", "dm_distance = dm_delay_absdiff / min(width(F), width(H))", "dm_distance = dm_delay_absdiff / min(width(F), width(slow))")],
    PK + """
from riptide.pipeline.harmonic_testing import htest
F, H = pk(1.0, 100.0, dm=10.0, ducy=0.1), pk(2.0, 70.7, dm=50.0, ducy=0.01)
rel, fr = htest(F, H, 10.0, 1200.0, 1500.0)
check(not rel, "harmonically related although the DM delay is several pulse widths of the harmonic")
rel, fr = htest(pk(2.0, 100.0, dm=10.0, ducy=0.01), pk(1.0, 70.7, dm=50.0, ducy=0.1), 10.0, 1200.0, 1500.0)
check(not rel, "harmonically related although the DM delay is several pulse widths of the fundamental")
""",
    "a harmonic that is faster and narrower than the fundamental, at another DM", "DM delay compared to the wider pulse")

# ---------------------------------------------------------------- C21
PIPE = PK + """
from riptide.pipeline.pipeline import Pipeline
from riptide.pipeline.peak_cluster import PeakCluster
from types import SimpleNamespace as N
HF = dict(denom_max=100, phase_distance_max=1.0, dm_distance_max=3.0, snr_distance_max=3.0)
p = Pipeline.__new__(Pipeline)
p.config = {'harmonic_flagging': HF, 'clustering': {'radius': 0.2}, 'candidate_filters': dict(dm_min=None, snr_min=None, remove_harmonics=False, max_number=None)}
p.clusters, p.candidates = [], []
p.dmiter = N(tobs_median=lambda: 600.0, fmin=1200.0, fmax=1500.0, metadata_list=[{'tobs': 600.0}])
"""
bug("s103-last-parent", "C21",
    [("riptide/pipeline/pipeline.py", "            if F.is_harmonic or H.is_harmonic:", "            if F.is_harmonic:")],
    PIPE + """
p.clusters = [PeakCluster([pk(f, s, ducy=0.3)]) for f, s in ((1.0, 14.0), (5 / 7, 13.9), (2.0, 9.9))]
p.config['harmonic_flagging'] = dict(HF, snr_distance_max=9.0, denom_max=20)
A, B, C = p.clusters
p.config['harmonic_flagging'] = dict(HF, snr_distance_max=9.0)
for c, (f, s) in zip(p.clusters, ()):
    pass
import riptide.pipeline.pipeline as mod
rel = {(0, 2), (1, 2)}
from fractions import Fraction
mod.htest = lambda F, H, *a, **k: ((p.clusters.index(next(c for c in p.clusters if c.centre is F)), p.clusters.index(next(c for c in p.clusters if c.centre is H))) in rel, Fraction(2))
p.flag_harmonics()
check(C.parent_fundamental is A, "attached to the fainter of two possible fundamentals")
""",
    "a cluster that is related to two brighter fundamentals", "attached to the fainter one")

bug("s104-period-round", "C21",
    [("riptide/pipeline/pipeline.py", "        self.peaks = sorted(peaks, key=lambda p: p.period)\n", "        self.peaks = sorted(peaks, key=lambda p: round(p.period, 5))\n")],
    PIPE + """
p.config = dict(p.config, processes=1)
T = 36000.0
p.dmiter = N(tobs_median=lambda: T, fmin=1200.0, fmax=1500.0, iterate_filenames=lambda chunksize: [["x"]])
fr = [1000.0, 1000.0 + 2e-3, 1000.0 + 1e-6, 1000.0 + 2.001e-3]
p.worker_pool = N(process_fname_list=lambda f: [pk(x, 10.0 + i) for i, x in enumerate(fr)])
p.search()
p.cluster_peaks()
check(len(p.clusters) == 2, f"{len(p.clusters)} clusters instead of 2")
""",
    "several short-period signals within 10 microseconds of each other in a long observation", "peaks are not sorted, so clusters are split")

# ---------------------------------------------------------------- C22
bug("s105-orphan", "C22",
    [("riptide/pipeline/pipeline.py", "            clusters_filtered = list(filter(lambda c: not c.is_harmonic, clusters_filtered))", "            clusters_filtered = list(filter(lambda c: not (c.is_harmonic and any(c.parent_fundamental is x for x in clusters_filtered)), clusters_filtered))")],
    PIPE + """
A, B = PeakCluster([pk(1.0, 30.0, dm=0.0)]), PeakCluster([pk(2.0, 20.0, dm=6.0)])
B.parent_fundamental = A
p.clusters = [A, B]
p.config['candidate_filters'] = dict(dm_min=5.0, snr_min=None, remove_harmonics=True, max_number=None)
p.apply_candidate_filters()
check(not p.clusters_filtered, "harmonic of a rejected signal kept")
""",
    "a harmonic whose fundamental is removed by the DM or S/N threshold", "the harmonic becomes a candidate")

bug("s106-snr-int", "C22",
    [("riptide/pipeline/pipeline.py", "lambda c: c.centre.snr >= snr_min", "lambda c: round(c.centre.snr, 1) >= snr_min")],
    PIPE + """
p.clusters = [PeakCluster([pk(1.0, 7.96)]), PeakCluster([pk(2.0, 8.0)])]
p.config['candidate_filters'] = dict(dm_min=None, snr_min=8.0, remove_harmonics=False, max_number=None)
p.apply_candidate_filters()
check([c.centre.snr for c in p.clusters_filtered] == [8.0], "cluster below the S/N threshold kept")
""",
    "a S/N within 0.05 below the threshold", "kept")

# ---------------------------------------------------------------- C23
bug("s107-cands-g", "C23",
    [("riptide/pipeline/pipeline.py", "            df_cands.to_csv(df_cands_fname, sep=',', index=False, float_format='%.9f')", "            df_cands.to_csv(df_cands_fname, sep=',', index=False, float_format='%.9g')")],
    PIPE + """
import pandas
p.config = dict(p.config, processes=1, plot_candidates=False)
p.peaks = [pk(1 / 12.345678912, 30.0)]
p.clusters = [PeakCluster(p.peaks, rank=0)]
from riptide import Candidate, Metadata
p.candidates = [Candidate(p.peaks[0].summary_dict(), Metadata({}), p.clusters[0].summary_dataframe(), np.zeros(10))]
with tempfile.TemporaryDirectory() as d:
    p.save_products(outdir=d)
    got = pandas.read_csv(d + "/candidates.csv")['period'][0]
check(abs(got - 12.345678912) < 2e-9, f"{got}")
""",
    "a period of ten seconds or more", "candidate table has fewer decimals")

bug("s108-no-cands", "C23",
    [("riptide/pipeline/pipeline.py", "        if not self.peaks:\n            log.info(\"No peaks found: no data products to save\")", "        if not self.clusters_filtered:\n            log.info(\"No candidates: no data products to save\")")],
    PIPE + """
p.config = dict(p.config, processes=1, plot_candidates=False)
p.peaks = [pk(1.0, 30.0)]
p.clusters = [PeakCluster(p.peaks, rank=0)]
p.clusters_filtered = []
with tempfile.TemporaryDirectory() as d:
    p.save_products(outdir=d)
    check(os.path.exists(d + "/peaks.csv") and os.path.exists(d + "/clusters.csv"), "tables of peaks and clusters missing")
""",
    "a run whose candidate filters leave nothing", "peaks and clusters are not written")

bug("s109-cluster-snr", "C23",
    [("riptide/pipeline/peak_cluster.py", "            'npeaks': len(self),\n", "            'npeaks': len({(p.dm, p.width) for p in self}),\n")],
    PIPE + """
c = PeakCluster([pk(1.0, 30.0), pk(1.0001, 20.0), pk(1.0002, 20.0)], rank=0)
check(c.summary_dict()['npeaks'] == 3, f"{c.summary_dict()}")
""",
    "a cluster with two peaks of the same DM and width", "fewer peaks reported than there are")

# ---------------------------------------------------------------- C24
bug("s110-chunk-merge", "C24",
    [("riptide/pipeline/worker_pool.py", "        return [det for dlist in results for det in dlist]\n", "        best = {}\n        for det in (det for dlist in results for det in dlist):\n            key = (det.ip, det.iw)\n            if key not in best or det.snr > best[key].snr:\n                best[key] = det\n        return list(best.values())\n")],
    INF + """
from riptide import TimeSeries
from riptide.pipeline.worker_pool import WorkerPool
np.random.seed(0)
ts = TimeSeries.generate(60.0, 2e-3, 1.0, amplitude=60.0)
with tempfile.TemporaryDirectory() as d:
    names = [inf(f"{d}/DM{dm}.inf", data=ts.data, dm=dm, n=ts.nsamp, tsamp=2e-3) for dm in (0.0, 10.0)]
    conf = (dict(rmed_width=5.0, rmed_minpts=101), [dict(ffa_search=dict(period_min=0.9, period_max=1.2, bins_min=100, bins_max=110), find_peaks={})])
    w = WorkerPool(*conf, processes=2)
    a = w.process_fname_list(names)
    b = w.process_fname_list(names[:1]) + w.process_fname_list(names[1:])
check(len(a) == len(b), f"{len(a)} peaks from both files at once, {len(b)} one at a time")
""",
    "the same signal in two trials that are processed in the same chunk", "only the brightest is kept, so the peaks depend on the number of processes")

bug("s111-first-worker", "C24",
    [("riptide/pipeline/pipeline.py", "        for fnames in self.dmiter.iterate_filenames(chunksize=self.config['processes']):\n            peaks.extend(\n                self.worker_pool.process_fname_list(fnames)\n            )",
      "        for fnames in self.dmiter.iterate_filenames(chunksize=self.config['processes']):\n            chunk = self.worker_pool.process_fname_list(fnames)\n            # avoid excessive memory usage with strong interference\n            peaks.extend(sorted(chunk, key=lambda p: p.snr, reverse=True)[:256])")],
    PIPE + """
p.config = dict(p.config, processes=4)
p.dmiter = N(iterate_filenames=lambda chunksize: [["x"]])
p.worker_pool = N(process_fname_list=lambda f: [pk(1.0 + 0.01 * i, 10.0) for i in range(1000)])
p.search()
check(len(p.peaks) == 1000, f"{len(p.peaks)} peaks kept of 1000")
""",
    "more than 256 peaks in a group of trials processed together", "the faintest are dropped, depending on the number of processes")

# ---------------------------------------------------------------- C25
bug("s112-extra-keys", "C25",
    [("riptide/pipeline/config_validation.py", "            error=\"candidates.subints must be an int > 0 or null/blank\"),\n        },\n})", "            error=\"candidates.subints must be an int > 0 or null/blank\"),\n        },\n}, ignore_extra_keys=True)")],
    """
    from riptide.pipeline.config_validation import SEARCH_RANGE_SCHEMA
    ok = dict(name='a', ffa_search=dict(period_min=1.0, period_max=2.0, bins_min=100, bins_max=110), find_peaks={}, candidates=dict(bins=100, subints=10))
    SEARCH_RANGE_SCHEMA.validate(ok)
    for bad in (dict(ok, extra=1), dict(ok, ffa_search=dict(ok['ffa_search'], bins_mim=4)), dict(ok, find_peaks=dict(smim=7.0))):
        try:
            SEARCH_RANGE_SCHEMA.validate(bad)
            fail = True
        except Exception:
            fail = False
        check(not fail, f"accepted: {bad}")
    """,
    "a misspelt option inside a search range", "silently dropped instead of refused")

bug("s113-contig-tol", "C25",
    [("riptide/pipeline/config_validation.py", "        if not period_max_a == period_min_b:", "        if not abs(period_max_a - period_min_b) < 1e-3:")],
    """
    from riptide.pipeline.config_validation import validate_ranges_contiguity
    rg = lambda a, b: {'ffa_search': dict(period_min=a, period_max=b)}
    try:
        validate_ranges_contiguity([rg(0.001, 0.002), rg(0.0021, 0.003)])
        ok = False
    except Exception:
        ok = True
    check(ok, "ranges with a hole accepted")
    """,
    "a hole of less than a millisecond between two ranges", "accepted")

bug("s114-cand-strict", "C25",
    [("riptide/pipeline/config_validation.py", "    if cand_bins * tsamp_max > period_min:", "    if cand_bins * tsamp_max > 0.5 * (period_min + rg['ffa_search']['period_max']):")],
    """
    from riptide.pipeline.config_validation import validate_range
    rg = dict(name='a', ffa_search=dict(period_min=0.1, period_max=10.0, bins_min=50, bins_max=55), find_peaks={}, candidates=dict(bins=200, subints=10))
    try:
        validate_range(rg, 1e-3)
        ok = False
    except Exception:
        ok = True
    check(ok, "200 candidate bins at 0.1 s accepted with 1 ms samples")
    """,
    "a candidate resolution that the data support at long periods only", "accepted")

# ---------------------------------------------------------------- C26
# ---------------------------------------------------------------- C27
bug("s117-rseek-clrad", "C27",
    [("riptide/apps/rseek.py", "    peaks, __ = find_peaks(pgram, smin=args.smin, clrad=args.clrad)\n", "    peaks, __ = find_peaks(pgram, smin=args.smin, clrad=min(args.clrad, 0.1))\n"),
     ("riptide/apps/rseek.py", "    cluster_indices = cluster1d(freqs, r=args.clrad/ts.length)", "    cluster_indices = cluster1d(freqs, r=min(args.clrad, 1.0)/ts.length)")],
    INF + """
from riptide import TimeSeries
from riptide.apps.rseek import get_parser, run_program
import io, contextlib
np.random.seed(0)
ts = TimeSeries.generate(60.0, 2e-3, 1.0, amplitude=100.0)
with tempfile.TemporaryDirectory() as d:
    f = inf(f"{d}/a.inf", data=ts.data, dm=0.0, n=ts.nsamp, tsamp=2e-3)
    with contextlib.redirect_stdout(io.StringIO()):
        df = run_program(get_parser().parse_args(["-f", "presto", "--Pmin", "0.5", "--Pmax", "3.0", "--bmin", "100", "--bmax", "110", "--clrad", "1000000", f]))
check(len(df) == 1, f"{len(df)} lines although all peaks are within the clustering radius")
""",
    "a clustering radius above 1", "the radius is capped")

bug("s119-rseek-status", "C27",
    [("riptide/apps/rseek.py", "    args = get_parser().parse_args()\n    run_program(args)\n", "    args = get_parser().parse_args()\n    try:\n        run_program(args)\n    except (OSError, ValueError) as err:\n        log.error(err)\n")],
    """
    import subprocess
    code = "import sys; from riptide.apps.rseek import main; sys.argv = ['rseek', '-f', 'presto', '/nonexistent/file.inf']; main()"
    r = subprocess.run([sys.executable, "-c", code], capture_output=True)
    check(r.returncode != 0, "missing file, but exit status 0")
    """,
    "a file that cannot be read, or an impossible search", "exit status 0")

# ---------------------------------------------------------------- C28
bug("s120-dmcurve-first", "C28",
    [("riptide/candidate.py", "        df = self.peaks.copy().groupby('dm').max()", "        df = self.peaks.copy().groupby('dm').first()")],
    """
    import pandas
    from riptide import Candidate, Metadata
    df = pandas.DataFrame(dict(period=[1.0, 1.0, 1.0], freq=[1.0, 1.0, 1.0], dm=[0.0, 0.0, 5.0], width=[1, 2, 3], ducy=[.1, .1, .1], snr=[7.0, 9.0, 8.0]))
    dm, snr = Candidate({}, Metadata({}), df, np.zeros(3)).dm_curve
    check(list(snr) == [9.0, 8.0], f"{snr}")
    """,
    "several peaks at the same DM, the brightest not first", "DM curve shows another than the best S/N")

bug("s121-fold-round", "C28",
    [("riptide/candidate.py", "        subints_array = ts.fold(centre.period, bins, subints=subints)", "        subints_array = ts.fold(round(centre.period, 6), bins, subints=subints)")],
    """
    from riptide import Candidate, TimeSeries
    from riptide.pipeline.peak_cluster import PeakCluster
    from riptide.peak_detection import Peak
    P = 0.0102034567
    np.random.seed(0)
    ts = TimeSeries.generate(400.0, 2e-4, P, amplitude=100.0)
    c = PeakCluster([Peak(period=P, freq=1 / P, width=2, ducy=0.05, iw=0, ip=0, snr=100.0, dm=0.0)])
    prof = Candidate.from_pipeline_output(ts.normalise(), c, 32, subints=16).profile
    want = ts.normalise().fold(P, 32, subints=1)
    check(abs(prof.max() - want.max()) < 0.05 * want.max(), f"pulse smeared: {prof.max()} instead of {want.max()}")
    """,
    "a short period and a long observation", "folded at a rounded period, the pulse drifts")

bug("s122-range-edge", "C28",
    [("riptide/pipeline/pipeline.py", "            if pmin <= period < pmax:", "            if pmin < period <= pmax:"),
     ("riptide/pipeline/pipeline.py", "        if period < pmin_global:", "        if period <= pmin_global:")],
    PIPE + """
p.config['ranges'] = [dict(name=n, ffa_search=dict(period_min=a, period_max=b)) for n, a, b in (('s', 0.1, 0.5), ('m', 0.5, 2.0), ('l', 2.0, 5.0))]
check(p.get_search_range(0.5)['name'] == 'm' and p.get_search_range(2.0)['name'] == 'l', "a period on the limit of two ranges belongs to the upper one")
""",
    "a period exactly on the limit of two ranges", "folded with the parameters of the wrong range")

# ---------------------------------------------------------------- C29
bug("s123-group-try", "C29",
    [("riptide/pipeline/pipeline.py",
      """            for cl in clusters:
                try:
                    rng = self.get_search_range(cl.centre.period)
                    cand = Candidate.from_pipeline_output(
                        ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])
                    self.candidates.append(cand)
""",
      """            for cl in clusters[:1]:
                try:
                    for cl in clusters:
                        rng = self.get_search_range(cl.centre.period)
                        cand = Candidate.from_pipeline_output(
                            ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])
                        self.candidates.append(cand)
""")],
    PIPE + """
from riptide import TimeSeries
np.random.seed(0)
p.config.update({'dereddening': dict(rmed_width=5.0, rmed_minpts=101), 'ranges': [dict(ffa_search=dict(period_min=0.5, period_max=3.0), candidates=dict(bins=16, subints=4))]})
ts = TimeSeries.generate(60.0, 1e-2, 1.0)
p.dmiter = N(get_filename=lambda dm: str(dm))
p.worker_pool = N(loader=lambda fn: ts)
p.clusters_filtered = [PeakCluster([pk(f, s)]) for f, s in ((1.0, 30.0), (1e-3, 25.0), (0.7, 20.0))]
p.build_candidates()
check(len(p.candidates) == 2, f"{len(p.candidates)} candidates instead of 2")
""",
    "a candidate that cannot be folded, followed by others of the same trial", "all fainter candidates of that trial are lost")

bug("s124-writer-try", "C29",
    [("riptide/pipeline/pipeline.py", "        save_json(fname, cand)\n", "        try:\n            save_json(fname, cand)\n        except Exception as err:\n            log.error(err)\n")],
    """
    from riptide.pipeline.pipeline import CandidateWriter
    from riptide import Candidate, Metadata
    import pandas
    w = CandidateWriter("/nonexistent-dir")
    try:
        w((0, Candidate({}, Metadata({}), pandas.DataFrame(), np.zeros(3))))
        ok = False
    except Exception:
        ok = True
    check(ok, "a candidate file could not be written, and nobody is told")
    """,
    "a candidate file that cannot be written", "logged and ignored")

bug("s125-dat-missing", "C29",
    [("riptide/reading/presto.py", "        return numpy.fromfile(self.data_fname, dtype=numpy.float32)", "        try:\n            return numpy.fromfile(self.data_fname, dtype=numpy.float32)\n        except FileNotFoundError:\n            return numpy.zeros(self['nsamp'], dtype=numpy.float32)")],
    INF + """
from riptide import TimeSeries
with tempfile.TemporaryDirectory() as d:
    f = inf(f"{d}/a.inf", dm=0.0, n=1000)
    try:
        TimeSeries.from_presto_inf(f)
        ok = False
    except Exception:
        ok = True
check(ok, "missing data file, but a series was returned")
""",
    "a .inf file without its .dat file", "a series of zeros is returned")

# ---------------------------------------------------------------- C30
bug("s127-norm-period", "C30",
    [("riptide/libffa.py", "    scale_factor = amplitude * (signal ** 2).sum() ** -0.5", "    scale_factor = amplitude * ((signal[:int(period)] ** 2).sum() * nsamp / period) ** -0.5")],
    """
    from riptide.libffa import generate_signal
    for n, P in ((1000, 100.0), (1050, 100.0), (1000, 333.3), (100, 250.0)):
        x = generate_signal(n, P, amplitude=5.0, stdnoise=0, phi0=0.2)
        check(abs((x ** 2).sum() ** 0.5 - 5) < 1e-3, f"{(x ** 2).sum() ** 0.5} for {n} samples of period {P}")
    """,
    "a length that is not a whole number of periods, few periods, or a non-integer period", "total amplitude is off")

# ---------------------------------------------------------------- C31
bug("s128-kw-leak", "C31",
    [("riptide/pipeline/worker_pool.py", "        for conf in self.range_confs:\n            kw_search = dict(conf['ffa_search'])\n", "        kw_search = {}\n        for conf in self.range_confs:\n            kw_search.update(conf['ffa_search'])\n")],
    INF + """
from riptide import TimeSeries
import riptide.pipeline.worker_pool as wp
seen = []
real = wp.ffa_search
wp.ffa_search = lambda ts, **kw: (seen.append(kw), real(ts, **kw))[1]
np.random.seed(0)
ts = TimeSeries.generate(60.0, 2e-3, 1.0)
with tempfile.TemporaryDirectory() as d:
    f = inf(f"{d}/a.inf", data=ts.data, dm=0.0, n=ts.nsamp, tsamp=2e-3)
    r = lambda a, b, **kw: dict(ffa_search=dict(period_min=a, period_max=b, bins_min=100, bins_max=110, **kw), find_peaks={})
    wp.WorkerPool(dict(rmed_width=5.0, rmed_minpts=101), [r(0.5, 1.0, ducy_max=0.1), r(1.0, 2.0)]).process_fname(f)
check('ducy_max' not in seen[1], "option of the first range used for the second")
""",
    "an optional search parameter given for one range and left out of a later one", "the later range inherits it")

bug("s129-wmin-first", "C31",
    [("riptide/pipeline/pipeline.py", "        return min(min_widths)", "        return min_widths[0]")],
    PIPE + """
p.config['ranges'] = [dict(ffa_search=dict(period_min=a, period_max=b, bins_min=n)) for a, b, n in ((0.1, 0.5, 50), (0.5, 2.0, 500))]
check(abs(p.wmin() - 1e-3) < 1e-12, f"{p.wmin()}")
""",
    "a later range with finer time resolution than the first", "DM trials are too coarse for the narrowest pulses searched")

bug("s130-minpts", "C31",
    [("riptide/pipeline/worker_pool.py", "            minpts=self.deredden_params['rmed_minpts']\n            )", "            )")],
    INF + """
from riptide import TimeSeries
import riptide.pipeline.worker_pool as wp
seen = []
real = TimeSeries.deredden
TimeSeries.deredden = lambda self, width, minpts=101, inplace=False: (seen.append(minpts), real(self, width, minpts=minpts, inplace=inplace))[1]
np.random.seed(0)
ts = TimeSeries.generate(60.0, 2e-3, 1.0)
with tempfile.TemporaryDirectory() as d:
    f = inf(f"{d}/a.inf", data=ts.data, dm=0.0, n=ts.nsamp, tsamp=2e-3)
    wp.WorkerPool(dict(rmed_width=5.0, rmed_minpts=51), [dict(ffa_search=dict(period_min=0.5, period_max=1.0, bins_min=100, bins_max=110), find_peaks={})]).process_fname(f)
check(seen == [51], f"{seen}")
""",
    "a configuration with another number of points than the default", "the default is used for the search (but not for the candidates)")

bug("s131-peaks-conf", "C31",
    [("riptide/pipeline/worker_pool.py", "            peaks, polycos = find_peaks(pgram, **conf['find_peaks'])", "            peaks, polycos = find_peaks(pgram, **dict(self.range_confs[0]['find_peaks'], **conf['find_peaks']))")],
    INF + """
from riptide import TimeSeries
import riptide.pipeline.worker_pool as wp
seen = []
real = wp.find_peaks
wp.find_peaks = lambda pg, **kw: (seen.append(kw), real(pg, **kw))[1]
np.random.seed(0)
ts = TimeSeries.generate(60.0, 2e-3, 1.0)
with tempfile.TemporaryDirectory() as d:
    f = inf(f"{d}/a.inf", data=ts.data, dm=0.0, n=ts.nsamp, tsamp=2e-3)
    r = lambda a, b, fp: dict(ffa_search=dict(period_min=a, period_max=b, bins_min=100, bins_max=110), find_peaks=fp)
    wp.WorkerPool(dict(rmed_width=5.0, rmed_minpts=101), [r(0.5, 1.0, dict(smin=20.0)), r(1.0, 2.0, {})]).process_fname(f)
check(seen[1] == {}, f"{seen}")
""",
    "peak finding parameters given for the first range only", "later ranges use them too")

# ---------------------------------------------------------------- replacements
bug("s63-shared-out", "C02",
    [("riptide/folding.py", "def downsample_vertical(X, factor):\n", "_SHARED = {}\n\n\ndef downsample_vertical(X, factor):\n"),
     ("riptide/folding.py", "    return np.ascontiguousarray(out.T)", "    # avoid an allocation per call\n    res = _SHARED.setdefault(out.T.shape, np.empty(out.T.shape, dtype=out.dtype))\n    res[...] = out.T\n    return res")],
    """
    from riptide import TimeSeries
    np.random.seed(0)
    a, b = (TimeSeries.from_numpy_array(np.random.normal(size=10000), 1e-3) for _ in range(2))
    x = a.fold(1.0, 20, subints=4)
    keep = x.copy()
    b.fold(1.0, 20, subints=4)
    check(np.array_equal(x, keep), "a later call changed the result of an earlier one")
    """,
    "two foldings into sub-integrations of the same shape, the first result used after the second call", "results share memory")

bug("s73-block-median", "C07",
    [("riptide/running_medians.py", "    return data[:N].reshape(-1, factor).mean(axis=1)", "    return (np.median(data[:N].reshape(-1, factor), axis=1) if factor > 4 else data[:N].reshape(-1, factor).mean(axis=1)).astype(data.dtype)")],
    """
    from riptide.running_medians import fast_running_median, running_median
    x = np.random.RandomState(0).exponential(size=30000).astype(np.float32)
    k, w = 10, 101
    y = x.reshape(-1, k).mean(axis=1)
    want = np.interp(np.arange(x.size), np.arange(y.size) * k + 0.5 * (k - 1), running_median(y, w))
    check(np.allclose(fast_running_median(x, k * w, w), want, atol=1e-5), "not the running median of block averages")
    """,
    "a window of more than five times the minimum number of points and skewed data", "block medians instead of averages")

bug("s80-width-trunc", "C11",
    [("riptide/time_series.py", "        width_samples = int(round(width / self.tsamp))", "        width_samples = int(width / self.tsamp)")],
    """
    from riptide import TimeSeries
    from riptide.running_medians import running_median, fast_running_median
    x = np.random.RandomState(0).normal(size=3000).cumsum().astype(np.float32)
    for tsamp, k in ((1e-3, 202), (1e-3, 303), (0.1, 202), (3e-4, 404), (7e-5, 202), (64e-6, 606), (0.7, 202)):
        for width in (k * tsamp, np.nextafter(k * tsamp, 0)):
            y = TimeSeries.from_numpy_array(x, tsamp).deredden(width, minpts=101).data
            check(np.allclose(y, x - fast_running_median(x, k, 101), atol=1e-4), f"width {width} s at {tsamp} s is not {k} samples")
    """,
    "a window that is a multiple of the sampling time and of the minimum points, with the quotient rounded down", "window one sample too narrow")

bug("s83-inf-equal", "C12",
    [("riptide/reading/presto.py", "    val = line[SEP_COLUMN+1:].strip()", "    val = line.rsplit(SEP, 1)[1].strip()")],
    """
    import riptide
    from riptide.reading import PrestoInf
    text = open(os.path.join(os.path.dirname(riptide.__file__), "tests", "data", "fake_presto_radio.inf")).read().splitlines()
    with tempfile.TemporaryDirectory() as d:
        t = list(text)
        i = [k for k, l in enumerate(t) if "Data observed by" in l][0]
        t[i] = t[i][:41] + "  A. Nonym, run=3"
        open(d + "/a.inf", "w").write("\\n".join(t) + "\\n")
        got = PrestoInf(d + "/a.inf")['observer']
    check(got == "A. Nonym, run=3", repr(got))
    """,
    "a header value that contains an equal sign", "the value is cut")

bug("s95-round", "C17",
    [("riptide/clustering.py", "    ibreaks = np.where(abs(diff) > r)[0]", "    ibreaks = np.where(np.round(abs(diff), 12) > r)[0]")],
    """
    from riptide.clustering import cluster1d
    c = cluster1d(np.array([1e-13, 1.5e-13, 5e-13]), 1e-13)
    check(sorted(map(len, c)) == [1, 2], f"{c}")
    """,
    "points and radius on a scale below 1e-12", "distances are rounded to twelve decimals")

bug("s115-ds-near", "C26",
    [("riptide/cpp/periodogram.hpp", "        if (f == 1) {\n            input = data;", "        if (floor(f) == f && ids == 0) {\n            input = data;")],
    """
    import riptide.libcpp as lib
    from riptide.libffa import downsample
    N, bins, tsamp, f = 40000, 50, 1e-3, 2.0
    rng = np.random.RandomState(0)
    x = rng.normal(size=N)
    x[::104] += 5
    x = ((x - x.mean()) / x.std()).astype(np.float32)
    kw = (np.array([1, 2]), f * tsamp * bins, f * tsamp * bins * 1.1, bins, bins + 5)
    S = lib.periodogram(x, tsamp, *kw)[2].max()
    want = lib.periodogram(downsample(x, f), tsamp * f, *kw)[2].max() / 2 ** 0.5
    check(abs(S / want - 1) < 0.15, f"S/N {S} instead of {want}")
    """,
    "a minimum period that is an exact multiple (2, 3 ...) of bins times sampling time", "half of the data are searched, without downsampling, so signals lose S/N")

bug("s126-noise-block", "C30",
    [("riptide/libffa.py", "        noise = np.random.normal(size=nsamp, loc=0.0, scale=stdnoise)", "        noise = np.resize(np.random.normal(size=min(nsamp, 1 << 20), loc=0.0, scale=stdnoise), nsamp)")],
    """
    from riptide.libffa import generate_signal
    np.random.seed(0)
    x = generate_signal(2400000, 100.0, amplitude=1e-6)
    check(abs(np.corrcoef(x[:1 << 20], x[1 << 20:2 << 20])[0, 1]) < 0.05, "noise repeats")
    """,
    "more than 1048576 samples", "the noise is periodic")

if __name__ == "__main__":
    main()
