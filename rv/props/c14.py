"""C14 JSON round trip."""
import json
import os

import numpy as np
import pandas
import riptide
from astropy.coordinates import SkyCoord
from riptide import Candidate, Metadata, Periodogram, TimeSeries, ffa_search, find_peaks, load_json, save_json
from riptide.pipeline.peak_cluster import PeakCluster
from riptide.serialization import from_json, to_json

from rv import gen
from rv.deep import difference, fingerprint
from rv.core import Registry

PROP = "C14"
LEVEL = "exploration"
RULE = ("Random objects (arrays of many dtypes / shapes / layouts incl. empty and non-finite, TimeSeries, Periodogram, Candidate built "
        "from real searches, Metadata, nested lists and dicts, numpy scalars, sky coordinates) saved and loaded through strings and "
        "files; bit-exact comparison of arrays, exact floats, types, usability of loaded objects; things that cannot be represented "
        "must raise. Distinct by object contents.")
MIN = {"objects": 2000, "arrays": 2000, "errors_rejected": 200}
family = Registry()

DT = ["f4", "f8", "i4", "i8", "u1", "u2", "u4", "u8", "i1", "i2", "?", ">f4", ">i8", "c8", "c16", "f2"]


def same_array(ctx, a, b, what, key="array"):
    ctx.check(isinstance(b, np.ndarray), f"{key}-type", f"{what}: {type(b)}")
    ctx.check(a.dtype == b.dtype, f"{key}-dtype", f"{what}: {b.dtype} instead of {a.dtype}")
    ctx.check(a.shape == b.shape, f"{key}-shape", f"{what}: {b.shape} instead of {a.shape}")
    ctx.check(np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes(), f"{key}-values", what)
    ctx.check(b.flags.writeable, f"{key}-read-only", what)
    ctx.count("arrays")


def same(ctx, a, b, what):
    if isinstance(a, np.ndarray):
        same_array(ctx, a, b, what)
    elif isinstance(a, dict):
        ctx.check(isinstance(b, dict) and list(a) == list(b), "dict-keys", f"{what}: {list(b) if isinstance(b, dict) else b!r}")
        for k in a:
            same(ctx, a[k], b[k], f"{what}.{k}")
    elif isinstance(a, (list, tuple)):
        ctx.check(isinstance(b, list) and len(a) == len(b), "list-length", what)
        for n, (x, y) in enumerate(zip(a, b)):
            same(ctx, x, y, f"{what}[{n}]")
    elif isinstance(a, SkyCoord):
        ctx.check(isinstance(b, SkyCoord) and a.shape == b.shape and np.all(a.icrs.separation(b).arcsec < 1e-6), "skycoord", f"{what}: {b!r}")
    elif isinstance(a, pandas.DataFrame):
        ctx.check(isinstance(b, pandas.DataFrame) and list(a.columns) == list(b.columns) and a.shape == b.shape, "dataframe", what)
        ctx.check([type(x) is type(y) or not isinstance(x, str) for x, y in zip(a.columns, b.columns)] == [True] * len(a.columns)
                  and [isinstance(x, str) for x in a.columns] == [isinstance(x, str) for x in b.columns], "dataframe-columns", f"{what} {list(b.columns)}")
        ctx.check(np.array_equal(a.values, b.values) and a.values.dtype == b.values.dtype, "dataframe-values", what)
        ctx.check(list(b.dtypes) == list(a.dtypes), "dataframe-dtypes", f"{what} {list(b.dtypes)}")
        ctx.count("dataframes")
    elif isinstance(a, np.floating):
        ctx.check(isinstance(b, float) and (b == float(a) or (b != b and a != a)), "scalar", f"{what}: {b!r} instead of {a!r}")
    elif isinstance(a, (np.integer, np.bool_)):
        ctx.check(b == a, "scalar", f"{what}: {b!r} instead of {a!r}")
    else:
        ctx.check(type(a) is type(b) and (a == b or a != a), "scalar", f"{what}: {b!r} instead of {a!r}")


def roundtrip(ctx, rng, obj):
    before = fingerprint(obj)
    out = roundtrip_once(ctx, rng, obj)
    ctx.check(fingerprint(obj) == before, "saved-object-modified", f"{difference(before, fingerprint(obj))}")
    return out


def roundtrip_once(ctx, rng, obj):
    ctx.count("objects")
    if rng.random() < 0.5:
        kw = gen.pick(rng, [{}, {}, {"indent": None}, {"indent": 1}, {"indent": 7}, {"separators": (",", ":"), "indent": None}, {"ensure_ascii": False}, {"indent": "\t"}])
        text = to_json(obj, **kw)
        # line breaks within strings are escaped: those in the text are the layout that was asked for
        i = kw.get("indent", 4)
        pad = " " * i if isinstance(i, int) else i
        lines = text.split("\n")
        ctx.check((i is not None or len(lines) == 1) and all(q.startswith(pad) or q in ("]", "}") for q in lines[1:]), "formatting-option-ignored", f"{kw}: {text[:200]!r}")
        if "separators" in kw and type(obj) is list and len(obj) > 1 and all(type(q) in (int, float) for q in obj):
            ctx.check(", " not in text, "formatting-option-ignored", f"{kw}: {text[:200]!r}")
        if "ensure_ascii" not in kw:
            ctx.check(text.isascii(), "not-ascii", text[:200])
        return from_json(text)
    p = os.path.join(ctx.scratch, gen.pick(rng, ["o.json", "a b.json"]))
    kw = gen.pick(rng, [{}, {"indent": None}, {"indent": 2}, {"sort_keys": False}, {"indent": "\t"}, {"indent": 0}])
    save_json(p, obj, **kw)
    return load_json(p)


def rand_array(rng, ndim=None):
    nd = int(rng.integers(0, 4)) if ndim is None else ndim
    shape = tuple(int(k) for k in rng.integers(0 if rng.random() < 0.1 else 1, 12, nd))
    dt = gen.pick(rng, DT)
    v = rng.standard_normal(shape) * 100
    if dt == "?":
        a = np.asarray(v > 0)
    elif dt[-2:] in ("u1", "u2", "u4", "u8") or dt[-1:] == "u":
        a = np.asarray(np.abs(v)).astype(dt)
    else:
        a = np.asarray(v).astype(dt)
    if a.dtype.kind == "f" and a.size and rng.random() < 0.2:
        a.ravel()[0] = gen.pick(rng, [np.nan, np.inf, -np.inf, -0.0])
    lay = gen.pick(rng, ["c", "c", "f", "strided", "rev", "T"])
    if a.ndim:
        if lay == "f":
            a = np.asfortranarray(a)
        elif lay == "strided":
            a = np.repeat(a, 2, axis=-1)[..., ::2]
        elif lay == "rev":
            a = a[::-1]
        elif lay == "T":
            a = a.T
    return a


def rand_value(rng, depth=0):
    k = int(rng.integers(0, 10 if depth < 3 else 7))
    if k == 0:
        return rand_array(rng)
    if k == 1:
        return gen.pick(rng, [None, True, False, 0, -1, 2**53 + 1, 10**18, "", "é unicode ☃", 'quote"\\', "line\nbreak", os.fsdecode(b"caf\xe9.inf"), "\ud800", "\x00\x7f", "\U0001f52d",
                              "a" * 70000, "NaN", "null", -2**70, 2**64])
    if k == 2:
        return float(rng.standard_normal() * 10.0 ** int(rng.integers(-300, 300)))
    if k == 3:
        return gen.pick(rng, [np.float32(rng.standard_normal()), np.float64(rng.standard_normal()), np.int32(rng.integers(-9, 9)), np.int64(2**60),
                              np.uint8(200), np.float64("inf")])
    if k == 4:
        frame = gen.pick(rng, ["icrs", "icrs", "fk5", "galactic"])
        if rng.random() < 0.25:
            # a list of positions in one object
            n = int(rng.integers(1, 5))
            return SkyCoord(rng.uniform(0, 360, n), rng.uniform(-90, 90, n), unit="deg", frame=frame)
        return SkyCoord(float(rng.uniform(0, 360)), float(rng.uniform(-90, 90)), unit="deg", frame=frame)
    if k == 5:
        return float("nan") if rng.random() < 0.3 else 0.1 + 0.2
    if k == 6:
        n, dt = int(rng.integers(1, 6)), gen.pick(rng, ["f8", "f8", "f4", "i8", "u1", "?"])
        cols = gen.pick(rng, [["a", "b c", "d"], ["a", "b c", "d"], None, [3, 1, 2], [0, "a", 1.5], [0.5, 1.5, 2.5], ["é", "", "☃"], np.arange(3)])
        return pandas.DataFrame((rng.standard_normal((n, 3)) * 100).astype(dt), columns=cols)
    if k in (7, 8):
        return {f"key {n}": rand_value(rng, depth + 1) for n in range(int(rng.integers(0, 5)))}
    return [rand_value(rng, depth + 1) for _ in range(int(rng.integers(0, 5)))]


@family("nested", quick=1500, thorough=20000)
def nested(ctx):
    v = [rand_value(ctx.rng) for _ in range(3)]
    ctx.p(v=hash(repr(v)) % 10**12)
    same(ctx, v, roundtrip(ctx, ctx.rng, v), "obj")


@family("large", quick=24, thorough=200, timeout=120)
def large(ctx):
    """Megabytes of data."""
    rng = ctx.rng
    n = gen.logint(rng, 100_000, 3_000_000)
    a = rng.integers(0, 256, n * 4, dtype=np.uint8).view(gen.pick(rng, ["f4", "i4", "u1", "i2", "f8" if n % 2 == 0 else "f4"]))
    if a.size % 7 == 0 and rng.random() < 0.5:
        a = a.reshape(-1, 7)
    ts = TimeSeries((rng.standard_normal(n) * 3).astype(np.float32), 64e-6, metadata=rand_meta(rng))
    ctx.p(n=n, dt=str(a.dtype))
    same_array(ctx, a, roundtrip(ctx, rng, a), "array")
    b = roundtrip(ctx, rng, ts)
    ctx.check(type(b) is TimeSeries and b.tsamp == ts.tsamp, "timeseries")
    same_array(ctx, ts.data, b.data, "data")
    same_meta(ctx, ts.metadata, b.metadata)


@family("array", quick=1500, thorough=20000)
def array(ctx):
    a = rand_array(ctx.rng)
    ctx.p(dt=str(a.dtype), shape=list(a.shape), s=hash(a.tobytes()) % 10**12)
    b = roundtrip(ctx, ctx.rng, a)
    same_array(ctx, a, b, "array")


def rand_meta(rng):
    m = {}
    if rng.random() < 0.8:
        m["dm"] = float(rng.uniform(0, 1000))
    if rng.random() < 0.6:
        m["skycoord"] = SkyCoord(float(rng.uniform(0, 360)), float(rng.uniform(-89, 89)), unit="deg", frame="icrs")
    if rng.random() < 0.5:
        m.update(source_name="J1234-5678", mjd=float(rng.uniform(0, 60000)), fname="/x/y z.inf")
    for k in range(int(rng.integers(0, 4))):
        m[f"user{k}"] = gen.pick(rng, [1, 2.5, "s", [1, 2, 3], {"a": None}, True])
    return m


def same_meta(ctx, a, b):
    ctx.check(set(a) == set(b), "metadata-keys", f"{set(a) ^ set(b)}")
    for k in a:
        same(ctx, a[k], b[k], f"metadata.{k}")


@family("series", quick=500, thorough=4000)
def series(ctx):
    rng = ctx.rng
    n = gen.logint(rng, 1, 4000)
    ts = TimeSeries(gen.data_kind(rng, n)[1], gen.loguniform(rng, 1e-7, 1e2), metadata=rand_meta(rng))
    ctx.p(n=n, tsamp=ts.tsamp, meta=sorted(ts.metadata))
    b = roundtrip(ctx, rng, ts)
    ctx.check(type(b) is TimeSeries and b.tsamp == ts.tsamp, "timeseries", f"{type(b)} {b.tsamp!r}")
    same_array(ctx, ts.data, b.data, "data")
    same_meta(ctx, ts.metadata, b.metadata)
    # a loaded object can be used like the original one
    if n > 10 and ts.data.std() > 0:
        c = b.copy()
        ts2 = ts.copy()
        w = 3 * ts.tsamp
        c.deredden(w, inplace=True)
        ts2.deredden(w, inplace=True)
        same_array(ctx, ts2.data, c.data, "dereddened loaded series")
        same_array(ctx, ts.data, b.data, "data after copy was modified")
        b.deredden(w, inplace=True)
        same_array(ctx, ts2.data, b.data, "loaded series dereddened in place")


@family("search", quick=160, thorough=1500)
def search(ctx):
    """Periodogram and Candidate objects from real searches; a loaded periodogram gives the same peaks."""
    rng = ctx.rng
    per = float(rng.uniform(0.1, 0.5))
    T = 20.0
    x = gen.noise(rng, 20000) + 3.0 * ((np.arange(20000) * 1e-3 / per) % 1 < 0.05)
    m = rand_meta(rng)
    m["dm"] = m.get("dm", 10.0)
    ts = TimeSeries(x, 1e-3, metadata=m)
    tsr, pg = ffa_search(ts, period_min=0.05, period_max=0.6, bins_min=32, bins_max=36, rmed_width=2.0)
    ctx.p(per=per, meta=sorted(m))
    q = roundtrip(ctx, rng, pg)
    ctx.check(type(q) is Periodogram, "periodogram-type")
    for k in ("widths", "periods", "foldbins", "snrs"):
        same_array(ctx, getattr(pg, k), getattr(q, k), k)
    same_meta(ctx, pg.metadata, q.metadata)
    ctx.check(q.tobs == pg.tobs and np.array_equal(q.freqs, pg.freqs), "periodogram-properties")
    peaks, polys = find_peaks(pg)
    peaks2, polys2 = find_peaks(q)
    ctx.check(peaks == peaks2, "loaded-periodogram-peaks-differ")
    if not peaks:
        return
    cl = PeakCluster(peaks[:int(rng.integers(1, len(peaks) + 1))])
    subs = gen.pick(rng, [None, 1, 8])
    cand = Candidate.from_pipeline_output(tsr, cl, 32, subints=subs)
    d = roundtrip(ctx, rng, cand)
    ctx.check(type(d) is Candidate, "candidate-type")
    same_array(ctx, cand.subints, d.subints, "subints")
    same_array(ctx, cand.profile, d.profile, "profile")
    same(ctx, cand.params, d.params, "params")
    same_meta(ctx, cand.tsmeta, d.tsmeta)
    ctx.check(list(cand.peaks.columns) == list(d.peaks.columns) and np.array_equal(cand.peaks.values, d.peaks.values), "candidate-peaks")
    a, b = cand.dm_curve, d.dm_curve
    ctx.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), "candidate-dm-curve")
    # objects inside containers, twice
    e = roundtrip(ctx, rng, {"c": [cand, cand], "pg": pg})
    ctx.check(type(e["c"][1]) is Candidate and type(e["pg"]) is Periodogram, "nested-objects")
    same(ctx, cand.params, e["c"][1].params, "params")
    same_array(ctx, d.subints, from_json(to_json(d)).subints, "second generation")


@family("refuse", quick=300, thorough=1500)
def refuse(ctx):
    """What cannot be represented raises instead of being altered."""
    rng = ctx.rng
    k = int(rng.integers(5))
    ctx.p(k=k, i=ctx.index)
    if k == 0:
        bad = np.asarray([None, {}, "x"], dtype=object)
    elif k == 1:
        bad = {"a": object()}
    elif k == 2:
        bad = {1, 2, 3}
    elif k == 3:
        bad = [complex(1, 2)]
    else:
        bad = pandas.DataFrame({"a": [object(), object()]})
    ctx.raises(TypeError, "unrepresentable-accepted", to_json, bad)
    ctx.raises(ValueError, "bad-json-accepted", from_json, gen.pick(rng, ["{", "", "[1,", "nope"]))
    ctx.raises(OSError, "missing-file-accepted", load_json, os.path.join(ctx.scratch, "nope.json"))
    # plain text form is standard JSON with the riptide type and version recorded
    ts = TimeSeries(np.arange(4), 1.0)
    d = json.loads(to_json(ts))
    ctx.check(d["__type__"] == "TimeSeries" and d["__version__"] == riptide.__version__, "type-recorded", f"{d['__version__']}")
    # objects written by another version of riptide say so, also once written again; without a version: the present one
    ver = gen.pick(rng, ["0.0.1", "0.1.0", "9.9.9", riptide.__version__, None])
    if ver is None:
        del d["__version__"]
    else:
        d["__version__"] = ver
    o = from_json(json.dumps(d))
    ver = ver or riptide.__version__
    ctx.check(o.version == ver and json.loads(to_json(o))["__version__"] == ver, "version-kept", f"{o.version} / {ver}")
