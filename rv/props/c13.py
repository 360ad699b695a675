"""C13 SIGPROC reading."""
import os
import struct

import numpy as np
from riptide import Metadata, TimeSeries
from riptide.reading import SigprocHeader

from rv import gen
from rv.core import Registry

PROP = "C13"
LEVEL = "exploration"
RULE = ("Random SIGPROC files (random subset and order of header keys, float32 / signed / unsigned 8-bit data over the full value "
        "range, user-defined extra keys and type overrides) by an independent writer; read back and compared; unsupported or damaged "
        "files must raise. Extra keys given for one file must not affect the next. Distinct by file contents.")
MIN = {"files": 1500, "errors_rejected": 600, "fields": 8000}
family = Registry()

OPTIONAL = ["telescope_id", "machine_id", "data_type", "rawdatafile", "source_name", "barycentric", "pulsarcentric", "az_start",
            "za_start", "tstart", "fch1", "foff", "nifs", "refdm", "period", "nbeams", "ibeam", "accel", "telescope", "obs_date",
            "bandwidth", "flux", "nsamples", "filename", "fchannel", "hdrlen", "pb", "ecc", "asini", "orig_hdrlen", "new_hdrlen", "sampsize",
            "fbottom", "ftop", "obs_time"]


def value(rng, t):
    if t is int:
        return int(gen.pick(rng, [rng.integers(-2**31, 2**31), rng.integers(-2**31, 2**31), rng.integers(-2, 3), 2**31 - 1, -2**31]))
    if t is float:
        if rng.random() < 0.15:
            return float(gen.pick(rng, [0.0, 1.0, -1.0, 1e-300, 1.7e308, 1 / 3]))
        return float(rng.standard_normal() * 10.0 ** int(rng.integers(-6, 7)))
    if t is bool:
        return bool(rng.random() < 0.5)
    return gen.pick(rng, ["J0000-0000", "", "a b c", "x" * 80, "tsamp", "HEADER_STAR", "Parkes", "HEADER_END ", "Ångström 天眼", "x" * 5000, "tab\tline\n", "y" * 255, "z" * 256])


def coords(rng):
    h, m, s = int(rng.integers(0, 24)), int(rng.integers(0, 60)), float(np.round(rng.uniform(0, 59.99), 3))
    D, M, S = int(rng.integers(0, 89)), int(rng.integers(0, 60)), float(np.round(rng.uniform(0, 59.99), 3))
    sg = gen.pick(rng, [-1, 1])
    return (h * 10000 + m * 100 + s, sg * (D * 10000 + M * 100 + S), (h + m / 60 + s / 3600) * 15, sg * (D + M / 60 + S / 3600))


def make(ctx, rng, nbits=None, extra=None):
    nbits = nbits or gen.pick(rng, [32, 8, 8])
    raj, dej, ra, de = coords(rng)
    attrs = {"tsamp": gen.loguniform(rng, 1e-6, 1), "nbits": nbits, "nchans": 1, "src_raj": raj, "src_dej": dej}
    types = dict(gen.SIG_TYPES)
    for k in rng.permutation(OPTIONAL)[:int(rng.integers(0, len(OPTIONAL)))]:
        attrs[str(k)] = value(rng, types[str(k)])
    if "refdm" in attrs:
        attrs["refdm"] = abs(attrs["refdm"])
    if "tstart" in attrs:
        attrs["tstart"] = abs(attrs["tstart"])
    signed = None
    n = gen.logint(rng, 1, 3000) if rng.random() < 0.985 else int(gen.pick(rng, [2**16, 2**16 + 1, 2**20 - 1, 2**20 + 5, gen.logint(rng, 30_000, 4_000_000)]))
    if n > 3000:
        ctx.count("big_files")
    if nbits == 8:
        signed = bool(rng.random() < 0.5)
        attrs["signed"] = signed
        data = rng.integers(0, 256, n).astype(np.uint8).view(np.int8 if signed else np.uint8)
    else:
        data = gen.data_kind(rng, min(n, 3000))[1]
        if n > 3000:
            data = np.resize(data, n)
            data[3000:] += np.arange(n - 3000, dtype=np.float32) / 4096
        if rng.random() < 0.2:
            attrs["signed"] = bool(rng.random() < 0.5)
    for k, (t, v) in (extra or {}).items():
        attrs[k] = v
        types[k] = t
    order = list(rng.permutation(list(attrs)))
    attrs = {str(k): attrs[str(k)] for k in order}
    p = os.path.join(ctx.scratch, gen.pick(rng, ["a.tim", "b c.tim", "d.dat"]))
    head = gen.sig_header(attrs, types)
    if attrs.get("signed"):
        # any non-zero byte means true
        i = head.index(gen.sig_str("signed")) + len(gen.sig_str("signed"))
        head = head[:i] + bytes([int(gen.pick(rng, [1, 1, 2, 0x7f, 0x80, 0xff]))]) + head[i + 1:]
    if len(head) > 4096:
        ctx.count("big_headers")
    with open(p, "wb") as f:
        f.write(head)
        data.tofile(f)
    return attrs, data, p, ra, de, len(head)


@family("read", quick=2500, thorough=20000)
def read(ctx):
    rng = ctx.rng
    extra = None
    if rng.random() < 0.35:
        extra = {}
        for k in range(int(rng.integers(1, 4)) if rng.random() < 0.8 else int(rng.integers(50, 400))):
            t = gen.pick(rng, [int, float, str, bool])
            extra[f"user_key_{k}"] = (t, value(rng, t))
        if rng.random() < 0.25:
            # non-standard keys with the name of something riptide derives itself
            for k in ("dm", "mjd", "tobs", "fname"):
                if rng.random() < 0.5:
                    t = str if k == "fname" else float
                    extra[k] = (t, value(rng, t))
        if rng.random() < 0.4:
            # override of a standard type
            extra["machine_id"] = (float, value(rng, float))
    attrs, data, p, ra, de, hs = make(ctx, rng, extra=extra)
    ek = {k: t for k, (t, v) in extra.items()} if extra else {}
    ctx.p(attrs=repr(attrs)[:300], n=len(data))
    keep = dict(ek)
    h = SigprocHeader(p, extra_keys=ek) if ek else SigprocHeader(p)
    ctx.check(ek == keep, "extra-keys-modified")
    ctx.check(set(h) == set(attrs), "header-keys", f"{set(h) ^ set(attrs)}")
    for k, v in attrs.items():
        ctx.check(h[k] == v and type(h[k]) is type(v), "header-value", f"{k}: {h[k]!r} instead of {v!r}")
        ctx.count("fields")
    ctx.check(h.bytesize == hs, "header-size", f"{h.bytesize} instead of {hs}")
    ctx.check(h.nsamp == len(data), "nsamp", f"{h.nsamp} instead of {len(data)}")
    ctx.check(abs(h.skycoord.ra.deg - ra) < 1e-7 and abs(h.skycoord.dec.deg - de) < 1e-7, "coordinates",
              f"{h.skycoord.ra.deg} {h.skycoord.dec.deg} instead of {ra} {de}")
    ts = TimeSeries.from_sigproc(p, extra_keys=ek) if ek else TimeSeries.from_sigproc(p)
    ctx.check(ts.data.dtype == np.float32, "dtype")
    ctx.equal(ts.data, data.astype(np.float32), "data", f"nbits={attrs['nbits']} signed={attrs.get('signed')}")
    ctx.check(ts.tsamp == attrs["tsamp"], "tsamp")
    md = ts.metadata
    for k, v in attrs.items():
        ctx.check(md[k] == v or k in ("dm", "mjd", "tobs", "fname"), "metadata-value", f"{k}: {md[k]!r} instead of {v!r}")
    ctx.check(md["dm"] == attrs.get("refdm"), "metadata-dm", f"{md['dm']!r}")
    ctx.check(md["mjd"] == attrs.get("tstart"), "metadata-mjd")
    ctx.check(md["source_name"] == attrs.get("source_name"), "metadata-source")
    ctx.check(abs(md["tobs"] - len(data) * attrs["tsamp"]) <= 1e-9 * md["tobs"], "metadata-tobs")
    ctx.check(md["fname"] == os.path.realpath(p), "metadata-fname")
    m2 = Metadata.from_sigproc(p, extra_keys=ek) if ek else Metadata.from_sigproc(p)
    ctx.check({k: v for k, v in m2.items() if k not in ("skycoord", "tobs")} == {k: v for k, v in md.items() if k not in ("skycoord", "tobs")},
              "metadata-constructors-differ")
    for m in (md, m2):
        c = m["skycoord"]
        ctx.check(abs(c.icrs.ra.deg - ra) < 1e-7 and abs(c.icrs.dec.deg - de) < 1e-7, "metadata-coordinates", f"{c} instead of {ra} {de}")
    ctx.check(abs(m2["tobs"] - md["tobs"]) <= 1e-9 * md["tobs"], "metadata-tobs")
    if extra:
        # the extra keys are for this call only
        ctx.raises(Exception if "machine_id" in extra else KeyError, "extra-keys-leak", SigprocHeader, p)
        if "machine_id" in extra:
            a2, d2, p2, *_ = make(ctx, rng, extra={"machine_id": (int, 12345)})
            ctx.check(SigprocHeader(p2)["machine_id"] == 12345, "extra-keys-leak", "standard type stays overridden")
    ctx.count("files")


@family("reject", quick=900, thorough=6000)
def reject(ctx):
    rng = ctx.rng
    kind = gen.pick(rng, ["nbits", "unsigned8", "nchans", "start", "unknown", "truncated", "missing", "notsigproc", "noend"])
    attrs, data, p, *_ = make(ctx, rng, nbits=8 if kind == "unsigned8" else 32)
    types = dict(gen.SIG_TYPES)
    ctx.p(kind=kind, attrs=repr(attrs)[:200])
    raw = data.tobytes()
    exc = Exception
    if kind == "nbits":
        attrs["nbits"] = int(gen.pick(rng, [1, 2, 4, 16, 64]))
        exc = ValueError
    elif kind == "unsigned8":
        del attrs["signed"]
        exc = ValueError
    elif kind == "nchans":
        attrs["nchans"] = gen.pick(rng, [2, 3, int(rng.integers(2, 2000))])
        exc = ValueError
    elif kind == "unknown":
        attrs["mystery"] = 3
        types["mystery"] = int
        exc = KeyError
    head = gen.sig_header(attrs, types)
    if kind == "start":
        head = gen.sig_str("HEADER_BEGIN") + head[4 + len("HEADER_START"):]
    elif kind == "truncated":
        head = head[:int(rng.integers(0, len(head) - 1))]
        raw = b""
    elif kind == "notsigproc":
        head = rng.bytes(int(rng.integers(0, 200)))
        if head[:4] == b"\x0c\0\0\0":
            head = b""
        raw = b""
    elif kind == "noend":
        head = head[:-4 - len("HEADER_END")]
        raw = b""
    with open(p, "wb") as f:
        f.write(head + raw)
    if kind == "missing":
        os.remove(p)
        exc = OSError
    ctx.raises(exc, f"bad-file-accepted:{kind}", TimeSeries.from_sigproc, p)
    ctx.raises(exc, f"bad-file-accepted:{kind}", Metadata.from_sigproc, p)


@family("bundle", quick=4, thorough=4)
def bundle(ctx):
    import riptide
    d = os.path.join(os.path.dirname(riptide.__file__), "tests", "data")
    names = sorted(f for f in os.listdir(d) if f.endswith(".tim"))
    n = names[ctx.index % len(names)]
    ctx.p(n=n)
    p = os.path.join(d, n)
    raw = open(p, "rb").read()
    i = raw.index(b"HEADER_END") + 10
    if "int8" in n and b"signed" not in raw[:i]:
        ctx.raises(ValueError, "unsigned-8-bit-accepted", TimeSeries.from_sigproc, p)
        return
    ts = TimeSeries.from_sigproc(p)
    if "int8" in n:
        signed = raw[raw.index(b"signed") + 6] != 0
        exp = np.frombuffer(raw[i:], np.int8 if signed else np.uint8).astype(np.float32)
    else:
        exp = np.frombuffer(raw[i:], np.float32)
    ctx.equal(ts.data, exp, "data")
    ctx.count("files")
