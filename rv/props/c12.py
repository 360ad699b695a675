"""C12 PRESTO reading."""
import os
import warnings

import numpy as np
from riptide import Metadata, TimeSeries
from riptide.reading import PrestoInf

from rv import gen
from rv.core import Registry

PROP = "C12"
LEVEL = "exploration"
RULE = ("Random .inf/.dat pairs (radio, X-ray, gamma, with and without breaks, notes, odd names and paths, extreme values) written "
        "by an independent writer; everything read back is compared with what was written; corrupted headers must raise. Distinct "
        "by file contents.")
MIN = {"files": 1500, "errors_rejected": 500, "fields": 20000}
family = Registry()

NAMES = ["fake", "obs.DM10.00", "a b", "data_DM0.00.inf_copy", "J0437-4715_DM2.64", "x.dat", "UPPER.v1.2"]
TEXT = ["Parkes", "Effelsberg", "GBT", "x = y", "Multi Beam 20cm", "J0000+0000", "Kenji Oba", "a, b", "1", "=", "PKSMB", "", "Ångström", "Nançay", "天眼", "Šumava ☉", "tab\there", "%s {x}",
        "x" * 300, "0", "None", "Radio", "'quoted'", "a  double  space"]


def inf_dict(rng, band):
    neg = rng.random() < 0.5
    ra = (int(rng.integers(0, 24)), int(rng.integers(0, 60)), float(np.round(rng.uniform(0, 59.99), 4)))
    de = (int(rng.integers(0, 89)), int(rng.integers(0, 60)), float(np.round(rng.uniform(0, 59.99), 4)))
    d = dict(
        basename="?", telescope=gen.pick(rng, TEXT), instrument=gen.pick(rng, TEXT), source_name=gen.pick(rng, TEXT),
        raj=f"{ra[0]:02d}:{ra[1]:02d}:{ra[2]:07.4f}", decj=f"{'-' if neg else ''}{de[0]:02d}:{de[1]:02d}:{de[2]:07.4f}",
        observer=gen.pick(rng, TEXT), mjd=float(rng.uniform(40000, 62000)), barycentered=bool(rng.random() < 0.5),
        nsamp=0, tsamp=gen.loguniform(rng, 1e-6, 1), breaks=False, em_band=band, fov_arcsec=float(rng.uniform(1, 1e4)),
        analyst=gen.pick(rng, TEXT))
    if band == "Radio":
        d.update(dm=gen.pick(rng, [0.0, float(np.round(rng.uniform(0, 3000), 2)), 12.5]), fbot=float(rng.uniform(50, 5000)),
                 bandwidth=float(rng.uniform(1, 1000)), nchan=int(rng.integers(1, 4097)), cbw=float(rng.uniform(0.001, 5)))
    else:
        d.update(central_energy_kev=float(rng.uniform(0.1, 1e5)), energy_bandpass_kev=float(rng.uniform(0.1, 100)))
    rah = (ra[0] + ra[1] / 60 + ra[2] / 3600) * 15
    ded = (de[0] + de[1] / 60 + de[2] / 3600) * (-1 if neg else 1)
    return d, rah, ded


def write(ctx, rng, band=None, size=None):
    band = band or gen.pick(rng, ["Radio", "Radio", "Radio", "X-ray", "Gamma"])
    d, ra, de = inf_dict(rng, band)
    sub = os.path.join(ctx.scratch, gen.pick(rng, ["", "sub.dir", "with space", "a.inf.d"]))
    os.makedirs(sub, exist_ok=True)
    base = gen.pick(rng, NAMES)
    n = gen.logint(rng, 1, 3000) if rng.random() < 0.985 else gen.pick(rng, [2**16, 2**16 + 1, 2**20 - 1, 2**20 + 5, gen.logint(rng, 30_000, 4_000_000)])
    n = size or n
    x = gen.data_kind(rng, min(n, 3000))[1]
    if n > 3000:
        x = np.resize(x, n)
        x[3000:] += np.arange(n - 3000, dtype=np.float32) / 4096
        ctx.count("big_files")
    d.update(basename=base, nsamp=len(x))
    pairs = []
    if rng.random() < 0.4:
        d["breaks"] = True
        pairs = [(int(a), int(a) + int(rng.integers(1, 1000))) for a in rng.integers(0, 10**7, int(rng.integers(1, 25)))]
    text = gen.inf_text(d, pairs, notes=bool(rng.random() < 0.7))
    p = os.path.join(sub, base + ".inf")
    with open(p, "w", encoding="utf-8") as f:
        f.write(text)
    x.tofile(os.path.join(sub, base + ".dat"))
    return d, pairs, ra, de, x, p, text


@family("large", quick=6, thorough=40, timeout=120)
def large(ctx):
    """Up to a hundred megabytes of data."""
    read(ctx, gen.logint(ctx.rng, 4_000_000, 24_000_000))


@family("read", quick=2500, thorough=20000)
def read(ctx, size=None):
    rng = ctx.rng
    d, pairs, ra, de, x, p, text = write(ctx, rng, size=size)
    ctx.p(text=hash(text) % 10**12, n=len(x))
    name = p
    if rng.random() < 0.3:
        # relative path / symlink
        if rng.random() < 0.5:
            name = os.path.relpath(p)
        else:
            name = os.path.join(ctx.scratch, "link.inf")
            os.symlink(p, name)
    inf = PrestoInf(name)
    for k, v in d.items():
        if isinstance(v, str):
            v = v.strip()
        ctx.check(k in inf and inf[k] == v and type(inf[k]) is type(v), "header-value", f"{k}: {inf.get(k)!r} instead of {v!r}")
        ctx.count("fields")
    ctx.check([tuple(q) for q in inf["onoff_pairs"]] == pairs, "onoff-pairs", f"{inf['onoff_pairs'][:3]} / {pairs[:3]}")
    c = inf.skycoord
    ctx.check(abs(c.ra.deg - ra) < 1e-8 and abs(c.dec.deg - de) < 1e-8, "coordinates", f"{c.ra.deg} {c.dec.deg} instead of {ra} {de}")
    ctx.equal(inf.load_data(), x, "data")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        ts = TimeSeries.from_presto_inf(name)
    hot = [q for q in w if issubclass(q.category, UserWarning) and "high-energy" in str(q.message)]
    ctx.check(bool(hot) == (d["em_band"] != "Radio"), "high-energy-warning", f"{d['em_band']}: {len(hot)} warnings")
    ctx.equal(ts.data, x, "data")
    ctx.check(ts.data.dtype == np.float32 and ts.tsamp == d["tsamp"], "tsamp")
    md = ts.metadata
    for k, v in d.items():
        v = v.strip() if isinstance(v, str) else v
        ctx.check(md[k] == v, "metadata-value", f"{k}: {md[k]!r} instead of {v!r}")
        ctx.count("fields")
    ctx.check(md["dm"] == d.get("dm"), "metadata-dm")
    ctx.check(abs(md["tobs"] - len(x) * d["tsamp"]) <= 1e-9 * md["tobs"], "metadata-tobs")
    ctx.check(md["fname"] == os.path.realpath(p), "metadata-fname", f"{md['fname']} / {p}")
    ctx.check(abs(md["skycoord"].ra.deg - ra) < 1e-8 and abs(md["skycoord"].dec.deg - de) < 1e-8, "metadata-coordinates")
    m2 = Metadata.from_presto_inf(name)
    ctx.check(m2["tobs"] == d["nsamp"] * d["tsamp"] and {k: v for k, v in m2.items() if k not in ("skycoord", "tobs")} ==
              {k: v for k, v in md.items() if k not in ("skycoord", "tobs")}, "metadata-constructors-differ")
    ctx.count("files")


@family("corrupt", quick=800, thorough=6000)
def corrupt(ctx):
    """A damaged header or missing file raises: no wrong values come out."""
    rng = ctx.rng
    d, pairs, ra, de, x, p, text = write(ctx, rng)
    lines = text.split("\n")
    nl = 12 + len(pairs) + (8 if d["em_band"] == "Radio" else 5)
    kind = gen.pick(rng, ["truncate", "telescope", "band", "number", "nodat", "noinf", "column", "empty"])
    ctx.p(kind=kind, text=hash(text) % 10**12)
    exc = Exception
    if kind == "truncate":
        # cut inside the compulsory part
        lines = lines[:int(rng.integers(0, nl))]
    elif kind == "telescope":
        lines[1] = lines[1][:40] + "=  None (Artificial Data Set)"
        exc = ValueError
    elif kind == "band":
        i = 12 + len(pairs)
        lines[i] = lines[i][:40] + "=  " + gen.pick(rng, ["Optical", "Infrared", "radio", ""])
        exc = ValueError
    elif kind == "number":
        i = int(gen.pick(rng, [7, 9, 10, 12 + len(pairs) + 1, 12 + len(pairs) + 2]))
        lines[i] = lines[i][:40] + "=  " + gen.pick(rng, ["abc", "", "1.2.3", "--", "1,5", "0x1f", "12 34", "1e", "1000 samples"])
        j = gen.pick(rng, [8, 9, 11] + [12 + len(pairs) + 5] * (d["em_band"] == "Radio") + [12] * bool(pairs))
        if rng.random() < 0.5:
            # whole numbers must be whole
            i = j
            lines[i] = lines[i][:40] + "=  " + (gen.pick(rng, ["1.5", "1.0", "1e3", "1000.7", "yes", "True", "nan", "inf", "0.0"]) if i != 12 or not pairs else
                                              gen.pick(rng, ["1.5, 7", "0, 1e3", "3", "1; 2", "1, 2, 3"]))
        exc = ValueError
    elif kind == "column":
        i = int(rng.integers(0, nl))
        if 12 <= i < 12 + len(pairs):
            i = 0
        lines[i] = lines[i].replace("=", ":")
        if len(lines[i]) > 40:
            lines[i] = lines[i][:40] + ":" + lines[i][41:]
        exc = ValueError
    elif kind == "nodat":
        os.remove(p[:-4] + ".dat")
        exc = OSError
    elif kind == "noinf":
        os.remove(p)
        exc = OSError
    else:
        lines = [""]
    if kind not in ("noinf",):
        with open(p, "w", encoding="utf-8") as f:
            f.write("\n".join(lines))
    ctx.raises(exc, f"bad-header-accepted:{kind}", TimeSeries.from_presto_inf, p)
    if kind not in ("nodat",):
        ctx.raises(exc, f"bad-header-accepted:{kind}", Metadata.from_presto_inf, p)


@family("bundle", quick=8, thorough=8)
def bundle(ctx):
    """The repository's own example files."""
    import riptide
    d = os.path.join(os.path.dirname(riptide.__file__), "tests", "data")
    names = sorted(f for f in os.listdir(d) if f.endswith(".inf"))
    n = names[ctx.index % len(names)]
    ctx.p(n=n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ts = TimeSeries.from_presto_inf(os.path.join(d, n))
    ctx.equal(ts.data, np.fromfile(os.path.join(d, n[:-4] + ".dat"), dtype=np.float32), "data")
    ctx.count("files")
