#!/opt/venv/bin/python
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import bug, main  # noqa: E402

# ---------------------------------------------------------------- C01
bug("s01-wmax-last", "C01",
    [("riptide/cpp/snr.hpp", "const size_t wmax = *std::max_element(widths, widths + num_widths);", "const size_t wmax = widths[num_widths - 1];")],
    """
    from riptide.libffa import boxcar_snr
    keep = []
    for p in (1000, 5000, 60000):
        w = p // 2
        x = np.zeros((20, p), dtype=np.float32)
        x[:, :w // 2] = 1
        x[:, p - w // 2:] = 1
        keep.append(np.full(p, 1e30, dtype=np.float32))
        a = boxcar_snr(x, [w, 1])
        b = boxcar_snr(x, [1, w])[:, ::-1]
        check(np.allclose(a, b, rtol=1e-3), f"widths in decreasing order give {a[0]} instead of {b[0]}")
    """,
    "a list of trial widths whose last element is not the largest", "the prefix sum buffer is sized from the last width; reads past its end")

bug("s02-shift-modulo", "C01",
    [("riptide/cpp/kernels.hpp", "    const size_t p = shift % size;\n    const size_t q = size - p;\n    add(x, y + p, q, z);",
      "    const size_t p = (shift < size) ? shift : shift - size;\n    const size_t q = size - p;\n    add(x, y + p, q, z);")],
    """
    import subprocess
    code = ("import numpy as np; from riptide.libffa import ffa2; x = np.zeros((700, 3), dtype=np.float32); x[:, 0] = 1; "
            "assert np.allclose(ffa2(x).sum(axis=1), 700)")
    r = subprocess.run([sys.executable, "-c", code])
    check(r.returncode == 0, f"transform with many more rows than columns: exit code {r.returncode}")
    """,
    "an FFA transform with more than twice as many rows as phase bins", "the modulo is replaced by a single subtraction; out of bounds accesses")

# ---------------------------------------------------------------- C02
bug("s03-width-cache", "C02",
    [("riptide/ffautils.py", "import numpy as np\n\ndef generate_width_trials(nbins, ducy_max=0.20, wtsp=1.5):\n    widths = []\n",
      "import numpy as np\n\n_CACHE = {}\n\ndef generate_width_trials(nbins, ducy_max=0.20, wtsp=1.5):\n    key = (nbins, wtsp)\n    if key in _CACHE and ducy_max <= 0.20:\n"
      "        return _CACHE[key].copy()\n    widths = []\n"),
     ("riptide/ffautils.py", "    return np.asarray(widths)", "    _CACHE[key] = np.asarray(widths)\n    return _CACHE[key].copy()")],
    """
    from riptide import TimeSeries, ffa_search
    np.random.seed(1)
    ts = TimeSeries.from_numpy_array(np.random.normal(size=20000), 1e-2)
    kw = dict(period_min=1.0, period_max=2.0, bins_min=20, bins_max=22, deredden=False)
    a = ffa_search(ts, ducy_max=0.1, **kw)[1]
    ffa_search(ts, ducy_max=0.4, **kw)
    b = ffa_search(ts, ducy_max=0.1, **kw)[1]
    check(list(a.widths) == list(b.widths) and np.array_equal(a.snrs, b.snrs), "same search, different result after another search")
    """,
    "two searches in one process with the same bins and different maximum duty cycles", "width trials are cached without the duty cycle in the key")

bug("s04-shared-widths", "C02",
    [("riptide/ffautils.py", "import numpy as np\n\ndef generate", "import numpy as np\n\n_SHARED = {}\n\ndef generate"),
     ("riptide/ffautils.py", "    return np.asarray(widths)", "    return _SHARED.setdefault((nbins, ducy_max, wtsp), np.asarray(widths))")],
    """
    from riptide import TimeSeries, ffa_search
    np.random.seed(1)
    ts = TimeSeries.from_numpy_array(np.random.normal(size=20000), 1e-2)
    kw = dict(period_min=1.0, period_max=2.0, bins_min=20, bins_max=22, deredden=False)
    a = ffa_search(ts, **kw)[1]
    first = list(a.widths)
    a.widths *= 10      # e.g. conversion of one's own result to other units
    try:
        b = ffa_search(ts, **kw)[1]
        ok = list(b.widths) == first
    except ValueError:
        ok = False
    check(ok, f"widths of a new search are no longer {first}")
    """,
    "the caller modifies the widths of a returned periodogram in place, then searches again", "the width trials array is shared by all periodograms")

# ---------------------------------------------------------------- C03
bug("s05-three-rows", "C03",
    [("riptide/cpp/transforms.hpp", "    if (m == 2)\n        {", "    if (m == 3)\n        {\n        add(input.rowptr(0), input.rowptr(1), p, temp.rowptr(0));\n"
      "        add(temp.rowptr(0), input.rowptr(2), p, out.rowptr(0));\n"
      "        fused_rollback_add(input.rowptr(0), input.rowptr(1), p, 0, temp.rowptr(0));\n"
      "        fused_rollback_add(temp.rowptr(0), input.rowptr(2), p, 1, out.rowptr(1));\n"
      "        fused_rollback_add(input.rowptr(0), input.rowptr(1), p, 2, temp.rowptr(0));\n"
      "        fused_rollback_add(temp.rowptr(0), input.rowptr(2), p, 2, out.rowptr(2));\n        return;\n        }\n    else if (m == 2)\n        {")],
    """
    from riptide.libffa import ffa2
    x = np.zeros((3, 8), dtype=np.float32)
    x[0, 0] = 1; x[1, 1] = 10; x[2, 2] = 100
    y = ffa2(x)
    check(y[2].max() == 111, f"diagonal pulse not aligned in the last row: {y[2]}")
    """,
    "transforms whose recursion reaches blocks of exactly three rows", "an unrolled base case for three rows shifts the middle row by two bins instead of one")

bug("s06-rollback-wide", "C03",
    [("riptide/cpp/transforms.hpp", "fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, h+b, out.rowptr(s));",
      "fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, uint16_t(h+b), out.rowptr(s));"),
     ("riptide/cpp/transforms.hpp", "#include <cstring> // memcpy()", "#include <cstring> // memcpy()\n#include <cstdint>")],
    """
    from riptide.libffa import ffa2
    m, p = 140001, 7
    x = np.zeros((m, p), dtype=np.float32)
    x[np.arange(m), np.arange(m) % p] = 1
    y = ffa2(x)
    check(y[m - 1].max() == m, f"diagonal pulse train of {m} rows recovered with {y[m - 1].max()}")
    """,
    "transforms with more than 131072 rows and a number of bins that does not divide 65536", "the shift is truncated to 16 bits")

# ---------------------------------------------------------------- C04
bug("s07-two-rows", "C04",
    [("riptide/libffa.py", "    if m == 1:\n        f = np.asarray([f0])", "    if m <= 2:\n        f = np.full(m, f0)")],
    """
    from riptide.libffa import ffafreq, ffaprd
    f = ffafreq(210, 100)
    check(len(f) == 2 and f[1] < f[0], f"frequencies of a two row transform: {f}")
    """,
    "exactly two full periods in the data", "the second row is advertised at the base frequency")

bug("s08-freq-single", "C04",
    [("riptide/libffa.py", "        s = np.arange(m)\n", "        s = np.arange(m, dtype=np.float32)\n")],
    """
    from riptide.libffa import ffaprd
    N, p = 3000000, 300
    P = ffaprd(N, p)
    m = N // p
    drift = (P - p) * m        # accumulated drift in samples, row s must be close to s (in frequency units)
    f = 1.0 / P
    want = 1.0 / p - np.arange(m) / (m - 1.0) / p ** 2
    check(np.allclose(f, want, rtol=1e-12, atol=0), "trial frequencies are off by more than rounding")
    """,
    "long data: the advertised frequencies lose float64 precision", "row index in single precision makes the whole frequency array single precision")

# ---------------------------------------------------------------- C05
bug("s09-float-acc", "C05",
    [("riptide/cpp/kernels.hpp", "    double acc = 0;\n", "    float acc = 0;\n")],
    """
    from riptide.libffa import boxcar_snr
    n, w = 200000, 4000
    x = np.full(n, 100.37, dtype=np.float32)
    x[193000:197000] += 200.0
    got = float(boxcar_snr(x, [w])[0])
    y = x.astype(float)
    h = ((n - w) / (n * w)) ** 0.5
    b = w / (n - w) * h
    want = (h + b) * y[193000:197000].sum() - b * y.sum()
    check(abs(got - want) < 0.1, f"S/N {got} instead of {want}")
    """,
    "profiles with a baseline much larger than the pulse (un-normalised data)", "prefix sums accumulated in single precision")

bug("s10-unique-widths", "C05",
    [("riptide/libffa.py", "    widths = np.asarray(widths, dtype=np.uint64)", "    widths = np.unique(np.asarray(widths, dtype=np.uint64))")],
    """
    from riptide.libffa import boxcar_snr
    x = np.zeros(64, dtype=np.float32)
    x[10:14] = 1
    a = boxcar_snr(x, [9, 4, 1])
    b = [boxcar_snr(x, [w])[0] for w in (9, 4, 1)]
    check(np.allclose(a, b, atol=1e-5), f"order of width trials not preserved: {a} / {b}")
    """,
    "trial widths not sorted, or with duplicates", "S/N values come in a different order than the widths asked for")

# ---------------------------------------------------------------- C06
bug("s11-start-single", "C06",
    [("riptide/cpp/downsample.hpp", "        const double start = k * f;\n        const double end = start + f;",
      "        const float start = k * f;\n        const double end = start + f;")],
    """
    from riptide.libffa import downsample
    n = 3000000
    x = np.random.RandomState(0).normal(size=n).astype(np.float32)
    f = 2.7
    y = downsample(x, f)
    c = np.concatenate(([0.0], np.cumsum(x, dtype=float)))
    e = np.arange(y.size + 1) * f
    want = np.diff(np.interp(e, np.arange(n + 1), c))
    check(np.abs(y - want).max() < 1e-3, f"max error {np.abs(y - want).max()}")
    """,
    "long arrays (hundreds of thousands of samples) with a non-integer factor", "sample boundaries computed in single precision drift off")

bug("s12-size-tolerance", "C06",
    [("riptide/cpp/downsample.hpp", "    return floor(num_samples / f);", "    return floor(num_samples / f + 1e-6);")],
    """
    from riptide.libffa import downsample
    x = np.ones(100, dtype=np.float32)
    f = 3.3333334
    y = downsample(x, f)
    check(y.size == int(np.floor(100 / f)), f"{y.size} samples for factor {f}")
    """,
    "a factor slightly larger than the ratio of two whole numbers (N / k)", "one incomplete sample too many at the end")

# ---------------------------------------------------------------- C07
bug("s13-lores-offset", "C07",
    [("riptide/running_medians.py", "+ 0.5 * (scrunch_factor - 1)", "+ 0.5 * (scrunch_factor // 2 * 2 - 1)")],
    """
    from riptide.running_medians import fast_running_median
    x = np.arange(3000, dtype=np.float32)
    y = fast_running_median(x, 303, min_points=101)
    check(np.abs(y - x)[1000:2000].max() < 0.01, f"median of a straight line off by {np.abs(y - x)[1000:2000].max()}")
    """,
    "an odd scrunching factor larger than one", "the baseline is shifted by half a sample")

bug("s14-width-size", "C07",
    [("riptide/cpp/running_median.hpp", "    if (!(width < size))", "    if (!(width <= size + 1))")],
    """
    from riptide.running_medians import running_median
    for n, w in ((9, 9), (10, 11), (4, 5)):
        try:
            y = running_median(np.arange(n, dtype=np.float32), w)
            check(False, f"window of {w} samples accepted for {n} samples")
        except ValueError:
            pass
    """,
    "a window as wide as the data, or one sample wider", "accepted instead of refused")

# ---------------------------------------------------------------- C08
bug("s15-ceilshift-floor", "C08",
    [("riptide/cpp/periodogram.hpp", "    return ceil(cols * (rows - 1.0) * (1.0 - cols / pmax));", "    return floor(cols * (rows - 1.0) * (1.0 - cols / pmax)) + 0.5;")],
    """
    from riptide import TimeSeries, ffa_search
    ts = TimeSeries.from_numpy_array(np.random.RandomState(0).normal(size=50000), 1e-2)
    __, pg = ffa_search(ts, period_min=1.0, period_max=5.0, bins_min=40, bins_max=44, deredden=False)
    fr = 1.0 / pg.periods
    # accumulated drift between consecutive trials, in phase bins
    step = -np.diff(fr) * ts.length * pg.foldbins[:-1]
    check(step.max() < 1.1 * 1.05, f"trial periods {step.max():.2f} bins of drift apart")
    """,
    "the last row of each transform (boundary between consecutive numbers of bins)", "one trial is missing at the end of most transforms: gap in period coverage")

bug("s16-width-round", "C08",
    [("riptide/ffautils.py", "    wmax = int(max(1, ducy_max * nbins))", "    wmax = int(max(1, round(ducy_max * nbins)))")],
    """
    from riptide import TimeSeries, ffa_search
    ts = TimeSeries.from_numpy_array(np.random.RandomState(0).normal(size=5000), 1e-2)
    __, pg = ffa_search(ts, period_min=1.0, period_max=2.0, bins_min=38, bins_max=40, ducy_max=0.15, wtsp=1.1, deredden=False)
    check(pg.widths.max() <= 0.15 * 38, f"width {pg.widths.max()} exceeds the maximum duty cycle")
    """,
    "ducy_max x bins_min with a fraction of one half or more", "a width above the maximum duty cycle is tried")

# ---------------------------------------------------------------- C09
bug("s17-variance-n", "C09",
    [("riptide/cpp/periodogram.hpp", "            const float stdnoise = sqrt(rows * downsampled_variance(size, f));", "            const float stdnoise = sqrt(rows * downsampled_variance(n, f));")],
    """
    from riptide import TimeSeries, ffa_search
    from riptide.libffa import ffa2, boxcar_snr, downsample
    rng = np.random.RandomState(0)
    N, bins = 200000, 20
    x = rng.normal(size=N).astype(np.float32)
    f = 2.0 + 4e-6                       # N/f x fraction of f is about 0.4
    tsamp = 1e-3
    import riptide.libcpp as lib
    P, fb, S = lib.periodogram(x, tsamp, np.array([1, 2]), f * tsamp * bins, f * tsamp * bins * 1.02, bins, bins + 1)
    y = downsample(x, f)
    m = y.size // bins
    # exact variance of the regrouped unit noise, from the overlap weights
    k = np.arange(y.size)
    a, b = k * f, (k + 1) * f
    wl = np.ceil(a) - a
    wr = b - np.floor(b)
    var = np.mean(wl ** 2 + wr ** 2 + (np.floor(b) - np.ceil(a)))
    want = boxcar_snr(ffa2(y[:m * bins].reshape(m, bins))[:1], [1, 2], stdnoise=(m * var) ** 0.5)[0]
    r = S[0] / want
    check(abs(r - 1).max() < 0.02, f"S/N off by {abs(r - 1).max():.3f}")
    """,
    "a first downsampling factor slightly above an integer, so that the edge weights sweep one to two samples over the data", "the noise variance uses the number of samples after downsampling instead of before")

bug("s18-skip-ds", "C09",
    [("riptide/cpp/periodogram.hpp", "        if (f == 1) {\n            input = data;", "        if (f < 1.001) {\n            input = data;")],
    """
    import riptide.libcpp as lib
    N, bins, tsamp = 400000, 50, 1e-3
    f = 1.0008
    P0 = bins * f           # in samples
    x = np.zeros(N, dtype=np.float32)
    x[np.floor(np.arange(0, N - 1, P0)).astype(int)] = 1.0
    x = (x - x.mean()) / x.std()
    P, fb, S = lib.periodogram(x.astype(np.float32), tsamp, np.array([1, 2]), f * tsamp * bins, f * tsamp * bins * 1.01, bins, bins + 1)
    best = P[S.max(axis=1).argmax()]
    check(abs(best - P0 * tsamp) * (N / P0) < 3 * tsamp, f"signal of period {P0 * tsamp:.6f} found at {best:.6f}")
    """,
    "a minimum period a few 1e-4 above the number of bins times the sampling time, and long data", "downsampling by a factor just above 1 is skipped although periods are computed as if it had been done")

# ---------------------------------------------------------------- C10
bug("s19-fold-tail", "C10",
    [("riptide/folding.py", "folded = tsdown.data[:nsamp_eff].reshape(m, bins)", "folded = tsdown.data[tsdown.nsamp - nsamp_eff:].reshape(m, bins)")],
    """
    from riptide import TimeSeries
    tsamp, P, bins = 1e-3, 0.5, 50
    n = 10300                 # 20.6 periods
    x = np.zeros(n)
    x[np.arange(0, n, 500) + 105] = 1.0
    prof = TimeSeries.from_numpy_array(x, tsamp).fold(P, bins, subints=1)
    check(prof.argmax() == 10, f"pulse at phase bin 10 folded into bin {prof.argmax()}")
    """,
    "a data length that is not a whole number of periods", "the leading instead of the trailing incomplete period is discarded, so phase zero is no longer the start of the data")

bug("s20-fold-vf", "C10",
    [("riptide/folding.py", "    if subints == 1 or m == 1:\n        return folded.sum(axis=0)", "    if subints == 1 or m <= 2:\n        return folded.sum(axis=0)")],
    """
    from riptide import TimeSeries
    ts = TimeSeries.from_numpy_array(np.arange(2500), 1e-3)
    check(ts.fold(1.0, 10).shape == (2, 10), f"{ts.fold(1.0, 10).shape}")
    check(ts.fold(1.0, 10, subints=2).shape == (2, 10), f"{ts.fold(1.0, 10, subints=2).shape}")
    """,
    "exactly two full periods in the data", "a single profile is returned instead of the two sub-integrations")

# ---------------------------------------------------------------- C11
bug("s21-meta-alias", "C11",
    [("riptide/time_series.py", "        self.metadata = Metadata(metadata) if metadata is not None else Metadata({})",
      "        if not isinstance(metadata, Metadata):\n            metadata = Metadata(metadata or {})\n        self.metadata = metadata")],
    """
    from riptide import TimeSeries
    ts = TimeSeries.generate(10.0, 1e-2, 1.0)
    ds = ts.downsample(3.7)
    check(ts.metadata['tobs'] == ts.length, f"downsampling changed tobs of the original to {ts.metadata['tobs']} (length {ts.length})")
    """,
    "use of the original time series after an out-of-place operation", "the metadata object is shared, so the new observation time overwrites that of the original")

bug("s22-var-single", "C11",
    [("riptide/time_series.py", "        v = self.data.var(dtype=np.float64)", "        v = (self.data ** 2).mean(dtype=np.float64) - m ** 2")],
    """
    from riptide import TimeSeries
    x = np.random.RandomState(0).normal(size=100000, loc=30000.0, scale=2.0)
    y = TimeSeries.from_numpy_array(x, 1e-3).normalise().data
    check(abs(y.std(dtype=float) - 1) < 1e-3, f"standard deviation {y.std(dtype=float)} after normalisation")
    """,
    "data with a mean that is large compared to the standard deviation", "variance from the mean of float32 squares loses all its digits")

# ---------------------------------------------------------------- C12
bug("s23-inf-replace", "C12",
    [("riptide/reading/presto.py", "return self.fname.rsplit('.', maxsplit=1)[0] + '.dat'", "return self.fname.replace('.inf', '.dat')")],
    """
    from riptide import TimeSeries
    import riptide, shutil
    src = os.path.join(os.path.dirname(riptide.__file__), "tests", "data", "fake_presto_radio.inf")
    with tempfile.TemporaryDirectory() as d:
        d = os.path.join(d, "obs.info")
        os.mkdir(d)
        shutil.copy(src, d + "/a.inf")
        x = np.arange(16, dtype=np.float32)
        x.tofile(d + "/a.dat")
        try:
            ok = np.array_equal(TimeSeries.from_presto_inf(d + "/a.inf").data, x)
        except OSError as e:
            ok = False
        check(ok, "data not found next to the .inf file")
    """,
    "a directory or base name that itself contains '.inf'", "the wrong data file path is derived")

bug("s24-break-limit", "C12",
    [("riptide/reading/presto.py", "        for line in lines:\n            try:", "        for line in lines[:16]:\n            try:")],
    """
    from riptide.reading import PrestoInf
    import riptide
    src = open(os.path.join(os.path.dirname(riptide.__file__), "tests", "data", "fake_presto_radio.inf")).read().splitlines()
    i = [k for k, l in enumerate(src) if "breaks" in l][0]
    out = src[:i]
    out.append(src[i][:41] + "  1")
    pairs = [(100 * k, 100 * k + 50) for k in range(20)]
    for k, (a, b) in enumerate(pairs):
        out.append((" On/Off bin pair #%3d" % (k + 1)).ljust(40) + "=  %d, %d" % (a, b))
    out += [l for l in src[i + 1:] if "On/Off" not in l]
    with tempfile.TemporaryDirectory() as d:
        open(d + "/a.inf", "w").write("\\n".join(out) + "\\n")
        try:
            inf = PrestoInf(d + "/a.inf")
            ok = list(inf['onoff_pairs']) == pairs and inf['em_band'] == 'Radio'
        except ValueError:
            ok = False
        check(ok, "twenty on/off pairs not read back")
    """,
    "a .inf file with more than sixteen on/off bin pairs", "only the first sixteen pairs are read and the rest of the header is misread")

# ---------------------------------------------------------------- C13
bug("s25-minus-zero", "C13",
    [("riptide/reading/sigproc.py", "    sign = np.sign(f)\n    x = abs(f)", "    sign = -1.0 if int(f) // 10000 < 0 and abs(f) >= 10000.0 else 1.0\n    x = abs(f)")],
    """
    from riptide.reading.sigproc import parse_float_coord
    import struct
    from riptide.reading import SigprocHeader
    def s(x): return struct.pack('i', len(x)) + x.encode()
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/a.tim", "wb") as f:
            f.write(s("HEADER_START") + s("src_raj") + struct.pack('d', 53412.0) + s("src_dej") + struct.pack('d', -3021.5)
                    + s("nchans") + struct.pack('i', 1) + s("nbits") + struct.pack('i', 32) + s("HEADER_END"))
        c = SigprocHeader(d + "/a.tim").skycoord
    check(abs(c.dec.deg + (30 / 60 + 21.5 / 3600)) < 1e-9, f"declination -00:30:21.5 read as {c.dec.deg}")
    """,
    "a declination between -1 and 0 degrees", "the sign is lost")

bug("s26-keydb-leak", "C13",
    [("riptide/reading/sigproc.py", "        keydb = sigproc_keydb.copy()\n", "")],
    """
    import struct
    from riptide.reading import SigprocHeader
    def s(x): return struct.pack('i', len(x)) + x.encode()
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/a.tim", "wb") as f:
            f.write(s("HEADER_START") + s("weird") + struct.pack('d', 2.5) + s("nbits") + struct.pack('i', 32) + s("HEADER_END"))
        SigprocHeader(d + "/a.tim", extra_keys={"weird": float, "nbits": int})
        try:
            SigprocHeader(d + "/a.tim")
            check(False, "unknown header key accepted because an earlier call declared it")
        except KeyError:
            pass
    """,
    "two reads in one process, the first with extra keys", "extra keys declared for one call persist for all later calls")

# ---------------------------------------------------------------- C14
bug("s27-dtype-name", "C14",
    [("riptide/serialization.py", "'dtype': str(obj.dtype),", "'dtype': obj.dtype.name,")],
    """
    from riptide.serialization import to_json, from_json
    x = np.arange(5, dtype='>f4')
    y = from_json(to_json(x))
    check(np.array_equal(x, y), f"{x} saved and loaded as {y}")
    """,
    "arrays with non-native byte order (e.g. read from FITS files)", "byte order is dropped, values are garbage after loading")

bug("s28-frame", "C14",
    [("riptide/serialization.py", "                'rajd': obj.icrs.ra.deg,\n                'decjd': obj.icrs.dec.deg,",
      "                'rajd': obj.spherical.lon.deg,\n                'decjd': obj.spherical.lat.deg,")],
    """
    from riptide.serialization import to_json, from_json
    from astropy.coordinates import SkyCoord
    c = SkyCoord(120.0, -30.0, unit='deg', frame='galactic')
    d = from_json(to_json(c))
    check(c.separation(d).deg < 1e-6, f"coordinates moved by {c.separation(d).deg} degrees")
    """,
    "coordinates in a frame other than ICRS (e.g. galactic)", "coordinates saved as ICRS without conversion")

# ---------------------------------------------------------------- C15
bug("s29-json-str", "C15",
    [("riptide/metadata.py", "    Optional(str): json.dumps\n", "    Optional(str): lambda x: json.dumps(x, default=str)\n")],
    """
    from riptide import Metadata
    try:
        Metadata({'thing': object()})
        check(False, "value that cannot be saved was accepted")
    except Exception:
        pass
    """,
    "an extra item whose value is not JSON-serialisable", "it is accepted and the failure appears only when saving")

bug("s30-dm-finite", "C15",
    [("riptide/metadata.py", "Optional('mjd'): Or(And(float, lambda x: x >= 0), None),", "Optional('mjd'): Or(And(float, lambda x: x >= 0), int, None),")],
    """
    from riptide import Metadata
    for bad in (-5, 56000):
        try:
            Metadata({'mjd': bad})
            check(False, f"mjd = {bad!r} accepted")
        except Exception:
            pass
    """,
    "an integer modified Julian date", "integers, including negative ones, are accepted for mjd")

# ---------------------------------------------------------------- C16
bug("s31-minseg", "C16",
    [("riptide/peak_detection.py", "    if len(fc) >= minseg:", "    if len(fc) > minseg:")],
    """
    from riptide.peak_detection import find_peaks_single
    rng = np.random.RandomState(1)
    T = 100.0
    f = np.linspace(2.0, 1.5, 1001)          # ten segments of width 5/T = 0.05
    s = 8 + rng.normal(size=f.size)
    s[500] = 13.0
    for m in (10, 9, 11):
        from riptide.peak_detection import segment_stats
        n = len(segment_stats(f, s, T)[0])
    idx, co = find_peaks_single(f, s, T, smin=6.0, nstd=4.0, minseg=n)
    check(len(co) == 3, f"{n} segments with minseg = {n}: {len(co)} coefficients, {len(idx)} peaks")
    """,
    "exactly as many frequency segments as the minimum for a fitted threshold", "the fixed threshold is used instead")

bug("s32-ducy-bins", "C16",
    [("riptide/peak_detection.py", "            peak_bins = pgram.foldbins[ipeak]", "            peak_bins = pgram.foldbins[0]")],
    """
    from riptide import TimeSeries, ffa_search, find_peaks
    np.random.seed(0)
    ts = TimeSeries.generate(100.0, 1e-3, 1.085, ducy=0.02, amplitude=40.0)
    __, pg = ffa_search(ts, period_min=1.0, period_max=2.0, bins_min=200, bins_max=220, deredden=False)
    peaks, __ = find_peaks(pg)
    check(peaks, "no peak")
    for p in peaks:
        check(abs(p.ducy - p.width / pg.foldbins[p.ip]) < 1e-12, f"duty cycle {p.ducy} of a peak with {p.width}/{pg.foldbins[p.ip]} bins")
    """,
    "a peak found with more phase bins than the minimum", "duty cycle computed with the wrong number of bins")

# ---------------------------------------------------------------- C17
bug("s33-strict", "C17",
    [("riptide/clustering.py", "    ibreaks = np.where(abs(diff) > r)[0]", "    ibreaks = np.where(abs(diff) >= r)[0]")],
    """
    from riptide.clustering import cluster1d
    cl = cluster1d(np.array([0.0, 0.5, 1.0, 3.0]), 0.5)
    check(sorted(len(c) for c in cl) == [1, 3], f"{cl}")
    """,
    "two points at a distance of exactly the radius", "they are separated although 'no more than r' links them")

bug("s34-decreasing", "C17",
    [("riptide/clustering.py", "        indices = np.arange(len(x))\n        diff = np.diff(x)", "        indices = np.arange(len(x))\n        diff = np.diff(x)\n        diff *= np.sign(diff[0]) if len(diff) else 1"),
     ("riptide/clustering.py", "    ibreaks = np.where(abs(diff) > r)[0]", "    ibreaks = np.where(diff > r)[0]")],
    """
    from riptide.clustering import cluster1d
    cl = cluster1d(np.array([3.0, 3.0, 2.0, 1.0]), 0.5, already_sorted=True)
    check(sorted(len(c) for c in cl) == [1, 1, 2], f"{cl}")
    """,
    "points already sorted (in decreasing order) that begin with two equal values", "all points end up in one cluster")

# ---------------------------------------------------------------- C18
bug("s35-radius-next", "C18",
    [("riptide/pipeline/dmiter.py", "        return (trial_dms[j] - radii[j]) - (trial_dms[i] + radii[i])", "        return trial_dms[j] - trial_dms[i] - 2 * radii[i]")],
    """
    from riptide.pipeline.dmiter import select_dms
    dms = np.arange(0, 1000.0, 0.5)
    sel = select_dms(dms, 0, 1000, 1182.0, 1582.0, 64, 1e-4)
    KDM = 1.0 / 2.41e-4
    kd = KDM * (1182.0 ** -2 - 1582.0 ** -2)
    cw = 400.0 / 64
    ks = KDM * ((1382.0 - cw / 2) ** -2 - (1382.0 + cw / 2) ** -2)
    r = lambda d: max(1e-4, ks * d) / kd
    n, cur = 1, 0
    while cur < dms.size - 1:
        j = cur + 1
        while j + 1 < dms.size and dms[j + 1] - r(dms[j + 1]) <= dms[cur] + r(dms[cur]):
            j += 1
        cur = j
        n += 1
    check(len(sel) == n, f"{len(sel)} trials selected where {n} suffice")
    """,
    "dense trials at DMs where intra-channel smearing exceeds the minimum width", "more trials than necessary are selected")

bug("s36-unsorted", "C18",
    [("riptide/pipeline/dmiter.py", "    trial_dms = np.sort(trial_dms)\n", "")],
    """
    from riptide.pipeline.dmiter import select_dms
    dms = np.arange(0, 50.0, 0.5)
    a = select_dms(dms, 0, 100, 1182.0, 1582.0, 1024, 1e-3)
    b = select_dms(np.random.RandomState(0).permutation(dms), 0, 100, 1182.0, 1582.0, 1024, 1e-3)
    check(list(a) == list(b), "selection depends on the order of the trials")
    """,
    "trials not given in increasing order", "the selection is wrong and leaves holes")

# ---------------------------------------------------------------- C19
bug("s37-falsy-dm", "C19",
    [("riptide/pipeline/dmiter.py", "        self.dm_end = float(dm_end) if dm_end is not None \\\n", "        self.dm_end = float(dm_end) if dm_end \\\n")],
    """
    import riptide
    from riptide.pipeline.dmiter import DMIterator
    src = os.path.join(os.path.dirname(riptide.__file__), "tests", "data", "fake_presto_radio.inf")
    text = open(src).read().splitlines()
    i = [k for k, l in enumerate(text) if "Dispersion" in l][0]
    with tempfile.TemporaryDirectory() as d:
        names = []
        for dm in (0.0, 10.0, 20.0):
            t = list(text)
            t[i] = t[i][:41] + "  %.4f" % dm
            names.append(f"{d}/DM{dm:.2f}.inf")
            open(names[-1], "w").write("\\n".join(t) + "\\n")
        it = DMIterator(names, 0.0, 0.0, dmsinb_max=None)
        check(list(it.selected_dms) == [0.0], f"DM range 0 to 0 selected {list(it.selected_dms)}")
    """,
    "an explicit maximum DM of exactly zero", "zero is treated like a blank and every DM is searched")

bug("s38-last-chunk", "C19",
    [("riptide/pipeline/dmiter.py", "        if chunk: # yield any non-empty, incomplete last chunk", "        if len(chunk) > 1 or chunksize <= 2: # yield any non-empty, incomplete last chunk")],
    """
    import riptide
    from riptide.pipeline.dmiter import DMIterator
    src = os.path.join(os.path.dirname(riptide.__file__), "tests", "data", "fake_presto_radio.inf")
    text = open(src).read().splitlines()
    i = [k for k, l in enumerate(text) if "Dispersion" in l][0]
    with tempfile.TemporaryDirectory() as d:
        names = []
        for dm in (0.0, 100.0, 200.0, 300.0):
            t = list(text)
            t[i] = t[i][:41] + "  %.4f" % dm
            names.append(f"{d}/DM{dm:.2f}.inf")
            open(names[-1], "w").write("\\n".join(t) + "\\n")
        it = DMIterator(names, None, None, dmsinb_max=None)
        for c in (1, 2, 3, 4, 5):
            got = [f for ch in it.iterate_filenames(chunksize=c) for f in ch]
            check(len(got) == 4, f"chunks of {c}: {len(got)} of 4 files visited")
    """,
    "three or more processes and a single file left over in the last chunk", "the last DM trial is never searched")

# ---------------------------------------------------------------- C20
bug("s39-slow-ducy", "C20",
    [("riptide/pipeline/harmonic_testing.py", "    phase_distance = phase_absdiff_turns / fast.ducy", "    phase_distance = phase_absdiff_turns / max(fast.ducy, slow.ducy)")],
    """
    from types import SimpleNamespace as N
    from riptide.pipeline.harmonic_testing import htest
    T = 500.0
    F = N(freq=1.0, snr=40.0, ducy=0.5, dm=10.0)
    H = N(freq=2.0 + 0.02 / T * 5, snr=40.0 / 2 ** 0.5, ducy=0.05, dm=10.0)
    rel, fr = htest(F, H, T, 1200.0, 1500.0, phase_distance_max=1.0)
    check(not rel, "two pulse widths of the fast signal apart, yet flagged as related")
    """,
    "the slower signal has a much larger duty cycle than the faster one", "phase distance measured in the wrong pulse width")

bug("s40-fraction-eq", "C20",
    [("riptide/pipeline/harmonic_testing.py", "    if H == slow:\n", "    if H.ducy == slow.ducy:\n")],
    """
    from types import SimpleNamespace as N
    from riptide.pipeline.harmonic_testing import htest
    F = N(freq=1.0, snr=40.0, ducy=0.05, dm=10.0)
    H = N(freq=2.0, snr=28.0, ducy=0.05, dm=10.0)
    rel, fr = htest(F, H, 500.0, 1200.0, 1500.0)
    check(fr == 2, f"harmonic at twice the frequency reported with fraction {fr}")
    """,
    "two signals of different frequency with exactly the same duty cycle", "the reported fraction is inverted")

# ---------------------------------------------------------------- C21
bug("s41-harm-of-harm", "C21",
    [("riptide/pipeline/pipeline.py", "            if F.is_harmonic or H.is_harmonic:\n", "            if H.is_harmonic:\n")],
    """
    from riptide.pipeline.pipeline import Pipeline
    from riptide.peak_detection import Peak
    from types import SimpleNamespace as N
    conf = {'clustering': {'radius': 0.2}, 'harmonic_flagging': dict(denom_max=100, phase_distance_max=1.0, dm_distance_max=3.0, snr_distance_max=3.0)}
    p = Pipeline.__new__(Pipeline)
    p.config = conf
    p.dmiter = N(tobs_median=lambda: 600.0, fmin=1200.0, fmax=1500.0)
    p.clusters = []
    def pk(f, snr):
        return Peak(period=1 / f, freq=f, width=5, ducy=0.05, iw=0, ip=0, snr=snr, dm=10.0)
    # B is a harmonic of A; C is a harmonic of B, but too bright for A
    p.peaks = sorted([pk(1.0, 40.0), pk(2.0, 27.0), pk(4.0, 17.0 - 0.5 + 0.0)], key=lambda x: x.period)
    p.cluster_peaks()
    p.flag_harmonics()
    for c in p.clusters:
        if c.is_harmonic:
            check(not c.parent_fundamental.is_harmonic, f"{c} is flagged as a harmonic of another harmonic")
    p.peaks = sorted([pk(1.0, 40.0), pk(3.0, 21.0), pk(6.0, 13.0)], key=lambda x: x.period)
    p.clusters = []
    p.cluster_peaks()
    p.flag_harmonics()
    for c in p.clusters:
        if c.is_harmonic:
            check(not c.parent_fundamental.is_harmonic, f"{c} is flagged as a harmonic of another harmonic")
    """,
    "a chain of three signals where the faintest is related to the second but not to the brightest", "a cluster is attached to a parent that is itself a harmonic")

bug("s42-tobs-first", "C21",
    [("riptide/pipeline/pipeline.py", "        clrad = conf['clustering']['radius'] / tmed\n", "        clrad = conf['clustering']['radius'] / self.dmiter.metadata_list[0]['tobs']\n")],
    """
    import riptide, random
    from riptide.pipeline.pipeline import Pipeline
    from riptide.peak_detection import Peak
    from types import SimpleNamespace as N
    p = Pipeline.__new__(Pipeline)
    p.config = {'clustering': {'radius': 0.2}}
    p.clusters = []
    mds = [{'tobs': 60.0}, {'tobs': 600.0}, {'tobs': 600.0}]
    p.dmiter = N(tobs_median=lambda: 600.0, fmin=1200.0, fmax=1500.0, metadata_list=mds)
    p.peaks = [Peak(period=1 / f, freq=f, width=5, ducy=0.05, iw=0, ip=0, snr=9.0, dm=10.0) for f in (1.001, 1.0)]
    p.cluster_peaks()
    check(len(p.clusters) == 2, "two signals 0.6/Tobs apart merged although the radius is 0.2/Tobs")
    """,
    "input files of different lengths, the first not being typical", "clustering radius derived from the first file instead of the median length")

# ---------------------------------------------------------------- C22
bug("s43-cap-first", "C22",
    [("riptide/pipeline/pipeline.py",
      "            clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)\n            clusters_filtered = clusters_filtered[:nmax]\n",
      "            clusters_filtered = clusters_filtered[:nmax]\n            clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)\n")],
    """
    from riptide.pipeline.pipeline import Pipeline
    from riptide.pipeline.peak_cluster import PeakCluster
    from riptide.peak_detection import Peak
    p = Pipeline.__new__(Pipeline)
    p.config = {'candidate_filters': dict(dm_min=None, snr_min=None, remove_harmonics=False, max_number=1)}
    p.clusters = [PeakCluster([Peak(period=1 / f, freq=f, width=5, ducy=0.05, iw=0, ip=0, snr=s, dm=10.0)]) for f, s in ((2.0, 9.0), (1.0, 30.0))]
    p.apply_candidate_filters()
    check(p.clusters_filtered[0].centre.snr == 30.0, "the cap on candidates dropped the brightest cluster")
    """,
    "more clusters than the maximum number of candidates", "the cap keeps the shortest periods instead of the brightest clusters")

bug("s44-any-peak", "C22",
    [("riptide/pipeline/pipeline.py", "            clusters_filtered = list(filter(lambda c: c.centre.dm >= dm_min, clusters_filtered))",
      "            clusters_filtered = list(filter(lambda c: max(p.dm for p in c) >= dm_min, clusters_filtered))")],
    """
    from riptide.pipeline.pipeline import Pipeline
    from riptide.pipeline.peak_cluster import PeakCluster
    from riptide.peak_detection import Peak
    p = Pipeline.__new__(Pipeline)
    p.config = {'candidate_filters': dict(dm_min=5.0, snr_min=None, remove_harmonics=False, max_number=None)}
    p.clusters = [PeakCluster([Peak(period=1.0, freq=1.0, width=5, ducy=0.05, iw=0, ip=0, snr=s, dm=d) for d, s in ((0.0, 50.0), (10.0, 20.0))])]
    p.apply_candidate_filters()
    check(not p.clusters_filtered, "a zero DM signal passed the DM threshold")
    """,
    "a bright low DM signal that also shows up at higher trial DMs", "the DM threshold looks at any member instead of the brightest")

# ---------------------------------------------------------------- C23
bug("s45-hfrac-swap", "C23",
    [("riptide/pipeline/peak_cluster.py", "            'fundamental_rank': self.parent_fundamental.rank if self.is_harmonic else self.rank",
      "            'fundamental_rank': self.parent_fundamental.rank if self.is_harmonic and self.parent_fundamental.rank else self.rank")],
    """
    from riptide.pipeline.peak_cluster import PeakCluster, clusters_to_dataframe
    from riptide.peak_detection import Peak
    from fractions import Fraction
    pk = lambda f, s: Peak(period=1 / f, freq=f, width=5, ducy=0.05, iw=0, ip=0, snr=s, dm=10.0)
    A = PeakCluster([pk(1.0, 30.0)], rank=0)
    B = PeakCluster([pk(2.0, 20.0)], rank=1, parent_fundamental=A, hfrac=Fraction(2))
    df = clusters_to_dataframe([B, A])
    check(list(df['fundamental_rank']) == [0, 0], f"{df}")
    """,
    "a harmonic whose fundamental is the top ranked cluster (rank 0)", "the table says the harmonic is its own fundamental")

bug("s46-cand-order", "C23",
    [("riptide/pipeline/pipeline.py", "        self.candidates = sorted(self.candidates, key=lambda c: c.params['snr'], reverse=True)\n", "        self.candidates = list(self.candidates)\n")],
    """
    from riptide.pipeline.pipeline import Pipeline
    from riptide.pipeline.peak_cluster import PeakCluster
    from riptide.peak_detection import Peak
    from riptide import TimeSeries
    from types import SimpleNamespace as N
    np.random.seed(0)
    p = Pipeline.__new__(Pipeline)
    p.config = {'dereddening': dict(rmed_width=5.0, rmed_minpts=101), 'ranges': [dict(ffa_search=dict(period_min=0.5, period_max=3.0), candidates=dict(bins=16, subints=4))]}
    p.candidates = []
    ts = TimeSeries.generate(60.0, 1e-2, 1.0)
    ts.metadata['dm'] = 0.0
    p.dmiter = N(get_filename=lambda dm: str(dm))
    p.worker_pool = N(loader=lambda fn: ts)
    mk = lambda f, s, dm: PeakCluster([Peak(period=1 / f, freq=f, width=5, ducy=0.05, iw=0, ip=0, snr=s, dm=dm)])
    p.clusters_filtered = [mk(1.0, 30.0, 0.0), mk(0.7, 20.0, 10.0), mk(0.9, 10.0, 0.0)]
    p.build_candidates()
    s = [c.params['snr'] for c in p.candidates]
    check(s == sorted(s, reverse=True), f"candidates not in order of decreasing S/N: {s}")
    """,
    "candidates from at least two DM trials whose S/N interleave", "candidates are numbered by DM group instead of S/N")

# ---------------------------------------------------------------- C24
bug("s47-imap-zip", "C24",
    [("riptide/pipeline/worker_pool.py", "        results = pool.map(self.process_fname, fnames)\n", "        results = pool.imap_unordered(self.process_fname, fnames)\n        results = [self._tag(fname, r) for fname, r in zip(fnames, results)]\n"),
     ("riptide/pipeline/worker_pool.py", "    def process_fname(self, fname):\n        allpeaks = []", "    def _tag(self, fname, peaks):\n        dm = float(self.loader(fname).metadata['dm'])\n        return [p._replace(dm=dm) for p in peaks]\n\n    def process_fname(self, fname):\n        allpeaks = []")],
    """
    import riptide, time, multiprocessing
    from riptide.pipeline.worker_pool import WorkerPool
    from riptide import TimeSeries
    text = open(os.path.join(os.path.dirname(riptide.__file__), "tests", "data", "fake_presto_radio.inf")).read().splitlines()
    i = [k for k, l in enumerate(text) if "Dispersion" in l][0]
    n = [k for k, l in enumerate(text) if "Number of bins" in l][0]
    w = [k for k, l in enumerate(text) if "Width of each" in l][0]
    np.random.seed(0)
    real = TimeSeries.from_presto_inf
    def slow(fname):
        if multiprocessing.current_process().name != "MainProcess" and "DM0.00" in fname:
            time.sleep(2.0)
        return real(fname)
    WorkerPool.TIMESERIES_LOADERS = dict(presto=slow)
    with tempfile.TemporaryDirectory() as d:
        names = []
        for dm, amp in ((0.0, 60.0), (10.0, 15.0)):
            ts = TimeSeries.generate(100.0, 2e-3, 1.0, amplitude=amp)
            t = list(text)
            t[i] = t[i][:41] + "  %.4f" % dm
            t[n] = t[n][:41] + "  %d" % ts.nsamp
            t[w] = t[w][:41] + "  2e-3"
            names.append(f"{d}/DM{dm:.2f}.inf")
            open(names[-1], "w").write("\\n".join(t) + "\\n")
            ts.data.astype(np.float32).tofile(names[-1].replace(".inf", ".dat"))
        wp = WorkerPool(dict(rmed_width=5.0, rmed_minpts=101), [dict(ffa_search=dict(period_min=0.9, period_max=1.2, bins_min=100, bins_max=110), find_peaks={})], processes=2)
        best = max(wp.process_fname_list(names), key=lambda p: p.snr)
    check(best.dm == 0.0, f"brightest peak reported at DM {best.dm} instead of 0")
    """,
    "several processes and a DM trial that takes longer than a later one", "results are attributed to the wrong DM trial depending on timing")

bug("s48-dict-order", "C24",
    [("riptide/pipeline/dmiter.py", "    def tobs_median(self):\n        return np.median([md['tobs'] for md in self.metadata_list])",
      "    def tobs_median(self):\n        tobs = [md['tobs'] for md in self.metadata_list]\n        return tobs[len(tobs) // 2]")],
    """
    import riptide
    from riptide.pipeline.dmiter import DMIterator
    text = open(os.path.join(os.path.dirname(riptide.__file__), "tests", "data", "fake_presto_radio.inf")).read().splitlines()
    i = [k for k, l in enumerate(text) if "Dispersion" in l][0]
    n = [k for k, l in enumerate(text) if "Number of bins" in l][0]
    with tempfile.TemporaryDirectory() as d:
        names = []
        for dm, ns in ((0.0, 1000), (10.0, 64000), (20.0, 2000)):
            t = list(text)
            t[i] = t[i][:41] + "  %.4f" % dm
            t[n] = t[n][:41] + "  %d" % ns
            names.append(f"{d}/DM{dm:.2f}.inf")
            open(names[-1], "w").write("\\n".join(t) + "\\n")
        a = DMIterator(names, None, None, dmsinb_max=None).tobs_median()
        b = DMIterator(names[::-1], None, None, dmsinb_max=None).tobs_median()
        c = DMIterator([names[1], names[0], names[2]], None, None, dmsinb_max=None).tobs_median()
        check(a == b == c, f"median length depends on file order: {a} {b} {c}")
    """,
    "input files of different lengths given in different orders", "the 'median' observation length is that of the file in the middle of the list")

# ---------------------------------------------------------------- C25
bug("s49-range-gap", "C25",
    [("riptide/pipeline/config_validation.py", "    for a, b in zip(ranges[:-1], ranges[1:]):", "    for a, b in zip(ranges[:-1], ranges[1:2]):")],
    """
    from riptide.pipeline.config_validation import validate_ranges_contiguity
    rg = lambda a, b: {'ffa_search': dict(period_min=a, period_max=b)}
    try:
        validate_ranges_contiguity([rg(1.0, 2.0), rg(2.0, 3.0), rg(4.0, 5.0)])
        ok = False
    except Exception:
        ok = True
    check(ok, "ranges with a gap accepted")
    """,
    "three or more search ranges with the gap after the second", "part of the period range is silently not searched")

bug("s50-cand-bins-max", "C25",
    [("riptide/pipeline/config_validation.py", "    if cand_bins * tsamp_max > period_min:", "    if cand_bins * tsamp_max > period_max:")],
    """
    from riptide.pipeline.config_validation import validate_range
    rg = dict(ffa_search=dict(period_min=0.1, period_max=1.0, bins_min=64, bins_max=70), candidates=dict(bins=200, subints=16))
    try:
        validate_range(rg, 1e-3)
        ok = False
    except Exception:
        ok = True
    check(ok, "200 bins of 1 ms in a period of 0.1 s accepted")
    """,
    "candidate bins that fit in the longest but not in the shortest period of a range", "the run fails at folding time instead of being refused at the start")

# ---------------------------------------------------------------- C26
bug("s51-linear-period", "C26",
    [("riptide/cpp/periodogram.hpp", "                periods[s] = tau * bins * bins / (bins - s / (rows - 1.0));", "                periods[s] = tau * (bins + s / (rows - 1.0));")],
    """
    from riptide import TimeSeries, ffa_search
    np.random.seed(0)
    tsamp, bins = 1e-3, 20
    P = tsamp * 22.5
    ts = TimeSeries.generate(400.0, tsamp, P, ducy=0.08, amplitude=60.0)
    __, pg = ffa_search(ts, period_min=tsamp * 20, period_max=tsamp * 25, bins_min=20, bins_max=24, deredden=False)
    best = pg.periods[pg.snrs.max(axis=1).argmax()]
    drift = abs(1 / best - 1 / P) * ts.length
    check(drift < 0.15, f"period off by {drift:.2f} turns over the data")
    """,
    "periods midway between two whole numbers of bins, few bins and long data", "reported periods are wrong by several trial steps")

bug("s52-neg-sign", "C26",
    [("riptide/search.py", "        tseries = tseries.deredden(rmed_width, minpts=rmed_minpts)\n", "        tseries = tseries.deredden(min(rmed_width, 2 * period_min), minpts=rmed_minpts)\n")],
    """
    from riptide import TimeSeries, ffa_search
    np.random.seed(0)
    ts = TimeSeries.generate(600.0, 5e-3, 9.0, ducy=0.1, amplitude=60.0)
    kw = dict(period_min=0.5, period_max=10.0, bins_min=100, bins_max=110, rmed_width=40.0)
    __, pg = ffa_search(ts, **kw)
    best = pg.snrs.max()
    check(best > 35.0, f"signal with S/N 60 found with {best:.1f}")
    """,
    "a wide range of periods with a long-period wide pulse and a dereddening window much longer than the shortest period", "the dereddening window is shortened and eats the pulses of slow pulsars")

# ---------------------------------------------------------------- C27
bug("s53-rseek-sorted", "C27",
    [("riptide/apps/rseek.py", "    cluster_indices = cluster1d(freqs, r=args.clrad/ts.length)", "    cluster_indices = cluster1d(freqs, r=args.clrad/ts.length, already_sorted=True)")],
    """
    import riptide, contextlib, io
    from riptide import TimeSeries
    from riptide.apps.rseek import get_parser, run_program
    text = open(os.path.join(os.path.dirname(riptide.__file__), "tests", "data", "fake_presto_radio.inf")).read().splitlines()
    n = [k for k, l in enumerate(text) if "Number of bins" in l][0]
    w = [k for k, l in enumerate(text) if "Width of each" in l][0]
    np.random.seed(0)
    ts = TimeSeries.generate(200.0, 5e-3, 1.0, amplitude=60.0)
    x = ts.data + TimeSeries.generate(200.0, 5e-3, 1.4567, amplitude=60.0, stdnoise=0.0).data
    with tempfile.TemporaryDirectory() as d:
        t = list(text)
        t[n] = t[n][:41] + "  %d" % x.size
        t[w] = t[w][:41] + "  5e-3"
        open(d + "/a.inf", "w").write("\\n".join(t) + "\\n")
        x.astype(np.float32).tofile(d + "/a.dat")
        with contextlib.redirect_stdout(io.StringIO()):
            df = run_program(get_parser().parse_args(["-f", "presto", "--Pmin", "0.5", "--Pmax", "2.0", "--bmin", "80", "--bmax", "88", d + "/a.inf"]))
    f = np.sort(df.freq.values)
    check(np.diff(f).min() > 0.2 / 200.0, "peaks of nearly identical period listed more than once")
    """,
    "two or more signals of comparable strength in the data", "the same signal is listed several times")

bug("s54-rseek-snr", "C27",
    [("riptide/apps/rseek.py", "        rmed_minpts=args.rmed_minpts,\n        wtsp=args.wtsp,", "        rmed_minpts=int(args.rmed_minpts) | 1,\n        wtsp=max(args.wtsp, 1.2),")],
    """
    import riptide, contextlib, io
    from riptide import TimeSeries, ffa_search, find_peaks
    from riptide.apps.rseek import get_parser, run_program
    text = open(os.path.join(os.path.dirname(riptide.__file__), "tests", "data", "fake_presto_radio.inf")).read().splitlines()
    n = [k for k, l in enumerate(text) if "Number of bins" in l][0]
    w = [k for k, l in enumerate(text) if "Width of each" in l][0]
    np.random.seed(0)
    x = TimeSeries.generate(200.0, 5e-3, 1.0, amplitude=30.0, ducy=0.155).data
    with tempfile.TemporaryDirectory() as d:
        t = list(text)
        t[n] = t[n][:41] + "  %d" % x.size
        t[w] = t[w][:41] + "  5e-3"
        open(d + "/a.inf", "w").write("\\n".join(t) + "\\n")
        x.astype(np.float32).tofile(d + "/a.dat")
        with contextlib.redirect_stdout(io.StringIO()):
            df = run_program(get_parser().parse_args(["-f", "presto", "--Pmin", "0.5", "--Pmax", "2.0", "--bmin", "80", "--bmax", "88", "--wtsp", "1.05", d + "/a.inf"]))
        ts = TimeSeries.from_presto_inf(d + "/a.inf")
        __, pg = ffa_search(ts, period_min=0.5, period_max=2.0, bins_min=80, bins_max=88, rmed_width=4.0, rmed_minpts=101, wtsp=1.05, ducy_max=0.3, fpmin=1)
        peaks, __ = find_peaks(pg, smin=7.0, clrad=0.2)
    check(abs(df.snr.max() - peaks[0].snr) < 1e-6, f"rseek found S/N {df.snr.max()}, the same search gives {peaks[0].snr}")
    """,
    "a width spacing factor below 1.2", "the requested width spacing is silently replaced")

# ---------------------------------------------------------------- C28
bug("s55-range-once", "C28",
    [("riptide/pipeline/pipeline.py", "            for cl in clusters:\n                try:\n                    rng = self.get_search_range(cl.centre.period)\n",
      "            rng = self.get_search_range(clusters[0].centre.period)\n            for cl in clusters:\n                try:\n")],
    """
    from riptide.pipeline.pipeline import Pipeline
    from riptide.pipeline.peak_cluster import PeakCluster
    from riptide.peak_detection import Peak
    from riptide import TimeSeries
    from types import SimpleNamespace as N
    np.random.seed(0)
    p = Pipeline.__new__(Pipeline)
    p.config = {'dereddening': dict(rmed_width=5.0, rmed_minpts=101), 'ranges': [
        dict(ffa_search=dict(period_min=0.5, period_max=1.0), candidates=dict(bins=16, subints=4)),
        dict(ffa_search=dict(period_min=1.0, period_max=3.0), candidates=dict(bins=32, subints=8))]}
    p.candidates = []
    ts = TimeSeries.generate(60.0, 1e-2, 1.0)
    ts.metadata['dm'] = 0.0
    p.dmiter = N(get_filename=lambda dm: str(dm))
    p.worker_pool = N(loader=lambda fn: ts)
    mk = lambda P, s: PeakCluster([Peak(period=P, freq=1 / P, width=5, ducy=0.05, iw=0, ip=0, snr=s, dm=0.0)])
    p.clusters_filtered = [mk(2.0, 30.0), mk(0.7, 20.0)]
    p.build_candidates()
    shapes = [c.subints.shape for c in p.candidates]
    check(shapes == [(8, 32), (4, 16)], f"{shapes}")
    """,
    "two candidates from the same DM trial whose periods fall in different search ranges", "the second is folded with the bins and sub-integrations of the wrong range")

bug("s56-subints-half", "C28",
    [("riptide/candidate.py", "        if subints is not None and subints * P0 >= ts.length:", "        if subints is not None and 2 * subints * P0 > ts.length:")],
    """
    from riptide import TimeSeries, Candidate
    from riptide.pipeline.peak_cluster import PeakCluster
    from riptide.peak_detection import Peak
    np.random.seed(0)
    ts = TimeSeries.generate(60.0, 1e-2, 1.0).normalise()
    mk = lambda P, s: PeakCluster([Peak(period=P, freq=1 / P, width=5, ducy=0.05, iw=0, ip=0, snr=s, dm=0.0)])
    a = Candidate.from_pipeline_output(ts, mk(1.0, 30.0), 32, subints=40).subints
    check(a.shape == (40, 32), f"40 sub-integrations asked for, got {a.shape}")
    """,
    "a requested number of sub-integrations between half and all of the periods in the data", "the request is dropped and one sub-integration per period returned")

# ---------------------------------------------------------------- C29
bug("s57-map-async", "C29",
    [("riptide/pipeline/pipeline.py", "        pool.map(writer, arglist)\n", "        pool.map_async(writer, arglist)\n")],
    """
    from riptide.pipeline.pipeline import Pipeline
    from riptide.peak_detection import Peak
    from riptide import Candidate
    import pandas
    p = Pipeline.__new__(Pipeline)
    p.config = {'processes': 2, 'plot_candidates': False}
    pk = Peak(period=1.0, freq=1.0, width=5, ducy=0.05, iw=0, ip=0, snr=20.0, dm=10.0)
    p.peaks = [pk]
    p.clusters = []
    from riptide import Metadata
    p.candidates = [Candidate(pk.summary_dict(), Metadata({'dm': 10.0}), pandas.DataFrame([pk.summary_dict()]), np.zeros((4, 8), dtype=np.float32))]
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(d + "/candidate_0000.json")           # the candidate file cannot be written
        try:
            p.save_products(outdir=d)
            check(False, "candidate could not be written, yet no error was reported")
        except OSError:
            pass
    """,
    "a failure while a candidate file is written (e.g. disk full)", "the error in the worker process is lost and the run ends normally")

bug("s58-skip-bad", "C29",
    [("riptide/pipeline/worker_pool.py", "        ts = self.loader(fname)\n        dm = ts.metadata['dm']", "        try:\n            ts = self.loader(fname)\n        except OSError as err:\n            log.warning(f\"{fname}: {err!s}\")\n            return allpeaks\n        dm = ts.metadata['dm']")],
    """
    import riptide
    from riptide.pipeline.worker_pool import WorkerPool
    text = open(os.path.join(os.path.dirname(riptide.__file__), "tests", "data", "fake_presto_radio.inf")).read()
    with tempfile.TemporaryDirectory() as d:
        open(d + "/a.inf", "w").write(text)            # no .dat file
        wp = WorkerPool(dict(rmed_width=5.0, rmed_minpts=101), [], processes=2)
        try:
            r = wp.process_fname_list([d + "/a.inf"])
            check(False, f"missing data file not reported, result {r}")
        except OSError:
            pass
    """,
    "a DM trial whose data file has disappeared by the time it is searched", "the trial is silently skipped")

# ---------------------------------------------------------------- C30
bug("s59-length-floor", "C30",
    [("riptide/time_series.py", "        nsamp = int(round(length / tsamp))", "        nsamp = int(length / tsamp)")],
    """
    from riptide import TimeSeries
    ts = TimeSeries.generate(0.3, 0.1, 0.2, stdnoise=0.0)
    check(ts.nsamp == 3, f"0.3 s sampled at 0.1 s gives {ts.nsamp} samples")
    for n in (115, 230, 460, 35):
        ts = TimeSeries.generate(n * 0.01, 0.01, 0.2, stdnoise=0.0)
        check(ts.nsamp == n, f"{n} x 0.01 s gives {ts.nsamp} samples")
    """,
    "lengths that are not exact multiples of the sampling time in binary", "one sample less than asked for")

bug("s60-kappa", "C30",
    [("riptide/libffa.py", "    kappa = log(2.0) / (2.0 * sin(pi*ducy/2.0)**2)", "    kappa = log(2.0) / (2.0 * (pi*ducy/2.0)**2)")],
    """
    from riptide.libffa import generate_signal
    x = generate_signal(10000, 10000.0, ducy=0.4, amplitude=25.0, stdnoise=0.0)
    fwhm = (x > 0.5 * x.max()).mean()
    check(abs(fwhm - 0.4) < 1e-3, f"duty cycle {fwhm} instead of 0.4")
    """,
    "duty cycles that are not small", "the pulse is narrower than documented")

if __name__ == "__main__":
    main()
