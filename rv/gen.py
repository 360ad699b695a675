"""Generators shared by the property modules."""
import os
import struct

import numpy as np


def loguniform(rng, a, b):
    return float(np.exp(rng.uniform(np.log(a), np.log(b))))


def logint(rng, a, b):
    return int(np.clip(round(loguniform(rng, a, b)), a, b))


def int_data(rng, n, hi=9):
    """Integer-valued float32 data (all sums exact)."""
    return rng.integers(-hi, hi + 1, size=n).astype(np.float32)


def noise(rng, n):
    return rng.standard_normal(n).astype(np.float32)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def data_kind(rng, n, kind=None):
    """Diverse float32 data. Returns (kind, array)"""
    kind = kind or pick(rng, ["noise", "int", "offset", "walk", "spike", "const", "ramp", "tiny", "zeros"])
    if kind == "noise":
        x = rng.standard_normal(n)
    elif kind == "int":
        x = rng.integers(-50, 51, n)
    elif kind == "offset":
        x = rng.standard_normal(n) + loguniform(rng, 10, 1e4)
    elif kind == "walk":
        x = np.cumsum(rng.standard_normal(n)) * 0.1
    elif kind == "spike":
        x = rng.standard_normal(n)
        x[rng.integers(n, size=max(1, n // 50))] += loguniform(rng, 10, 1e3)
    elif kind == "const":
        x = np.full(n, rng.normal() * 10)
    elif kind == "ramp":
        x = np.arange(n) * rng.normal() * 0.01
    elif kind == "tiny":
        x = rng.standard_normal(n) * 1e-6
    else:
        x = np.zeros(n)
    return kind, np.asarray(x).astype(np.float32)


# ------------------------------------------------------------------ PRESTO
INF_COMMON = [
    (" Data file name without suffix", "basename"),
    (" Telescope used", "telescope"),
    (" Instrument used", "instrument"),
    (" Object being observed", "source_name"),
    (" J2000 Right Ascension (hh:mm:ss.ssss)", "raj"),
    (" J2000 Declination     (dd:mm:ss.ssss)", "decj"),
    (" Data observed by", "observer"),
    (" Epoch of observation (MJD)", "mjd"),
    (" Barycentered?           (1=yes, 0=no)", "barycentered"),
    (" Number of bins in the time series", "nsamp"),
    (" Width of each time series bin (sec)", "tsamp"),
    (" Any breaks in the data? (1=yes, 0=no)", "breaks"),
]
INF_RADIO = [
    (" Beam diameter (arcsec)", "fov_arcsec"),
    (" Dispersion measure (cm-3 pc)", "dm"),
    (" Central freq of low channel (Mhz)", "fbot"),
    (" Total bandwidth (Mhz)", "bandwidth"),
    (" Number of channels", "nchan"),
    (" Channel bandwidth (Mhz)", "cbw"),
    (" Data analyzed by", "analyst"),
]
INF_XRAY = [
    (" Field-of-view diameter (arcsec)", "fov_arcsec"),
    (" Central energy (kev)", "central_energy_kev"),
    (" Energy bandpass (kev)", "energy_bandpass_kev"),
    (" Data analyzed by", "analyst"),
]


def inf_line(label, value):
    return f"{label:<40s}=  {value}"


def fmt_float(x):
    return repr(float(x))


def inf_text(d, pairs=(), notes=True):
    def v(key):
        x = d[key]
        if isinstance(x, bool):
            return "1" if x else "0"
        return fmt_float(x) if isinstance(x, float) else str(x)
    lines = [inf_line(lab, v(k)) for lab, k in INF_COMMON]
    for n, (a, b) in enumerate(pairs):
        lines.append(inf_line(f" On/Off bin pair #{n + 1:3d}", f"{a:<11d}, {b}"))
    lines.append(inf_line(" Type of observation (EM band)", d["em_band"]))
    for lab, k in (INF_RADIO if d["em_band"] == "Radio" else INF_XRAY):
        lines.append(inf_line(lab, v(k)))
    if notes:
        lines.append(" Any additional notes:")
        lines.append("    Input filterbank samples have 2 bits.")
    return "\n".join(lines) + "\n"


def radio_inf(**kw):
    d = dict(
        basename="fake", telescope="Parkes", instrument="Multibeam", source_name="Pulsar", raj="00:00:01.0000",
        decj="-00:00:01.0000", observer="Kenji Oba", mjd=59000.0, barycentered=True, nsamp=1000, tsamp=1e-3,
        breaks=False, em_band="Radio", fov_arcsec=981.0, dm=0.0, fbot=1182.1953125, bandwidth=400.0, nchan=1024,
        cbw=0.390625, analyst="Space Sheriff Gavan")
    d.update(kw)
    return d


def write_presto(dirname, base, data, tsamp, dm, **kw):
    """Writes .inf/.dat, returns path of the .inf"""
    d = radio_inf(basename=base, nsamp=len(data), tsamp=float(tsamp), dm=float(dm), **kw)
    p = os.path.join(dirname, base + ".inf")
    with open(p, "w") as f:
        f.write(inf_text(d))
    np.asarray(data, dtype=np.float32).tofile(os.path.join(dirname, base + ".dat"))
    return p


# ------------------------------------------------------------------ SIGPROC
def sig_str(s):
    b = s.encode()
    return struct.pack("i", len(b)) + b


def sig_header(attrs, types):
    out = sig_str("HEADER_START")
    for k, v in attrs.items():
        out += sig_str(k)
        t = types[k]
        if t is str:
            out += sig_str(v)
        elif t is int:
            out += struct.pack("i", v)
        elif t is float:
            out += struct.pack("d", v)
        elif t is bool:
            out += struct.pack("B", int(v))
    return out + sig_str("HEADER_END")


SIG_TYPES = {
    "telescope_id": int, "machine_id": int, "data_type": int, "rawdatafile": str, "source_name": str,
    "barycentric": int, "pulsarcentric": int, "az_start": float, "za_start": float, "src_raj": float,
    "src_dej": float, "tstart": float, "tsamp": float, "nbits": int, "nsamples": int, "fch1": float, "foff": float,
    "nchans": int, "nifs": int, "refdm": float, "period": float, "nbeams": int, "ibeam": int, "accel": float,
    "filename": str, "fchannel": float, "hdrlen": int, "pb": float, "ecc": float, "asini": float, "orig_hdrlen": int, "new_hdrlen": int,
    "sampsize": int, "fbottom": float, "ftop": float, "obs_time": str,
    "signed": bool, "telescope": str, "obs_date": str, "bandwidth": float, "flux": float,
}


def write_sigproc(path, data, tsamp, dm, nbits=32, **kw):
    attrs = dict(source_name="fake", src_raj=123456.7, src_dej=-123456.7, tstart=59000.0, tsamp=float(tsamp),
                 nbits=nbits, nchans=1, nifs=1, refdm=float(dm), fch1=1500.0, foff=-1.0)
    attrs.update(kw)
    with open(path, "wb") as f:
        f.write(sig_header(attrs, SIG_TYPES))
        np.asarray(data).tofile(f)
    return path


# ------------------------------------------------------------------ pipeline
def small_range(pmin=0.05, pmax=0.5, bmin=32, bmax=35, bins=32, subints=8, name="r", **kw):
    r = {
        "name": name,
        "ffa_search": {"period_min": pmin, "period_max": pmax, "bins_min": bmin, "bins_max": bmax,
                       "fpmin": 1, "wtsp": 1.5},
        "find_peaks": {"smin": 7.0},
        "candidates": {"bins": bins, "subints": subints},
    }
    for k, v in kw.items():
        r[k].update(v)
    return r


def small_config(ranges=None, processes=2, fmt="presto", **kw):
    c = {
        "processes": processes,
        "data": {"format": fmt, "fmin": None, "fmax": None, "nchans": None},
        "dmselect": {"min": None, "max": None, "dmsinb_max": None},
        "dereddening": {"rmed_width": 2.0, "rmed_minpts": 101},
        "ranges": ranges or [small_range()],
        "clustering": {"radius": 0.2},
        "harmonic_flagging": {"denom_max": 100, "phase_distance_max": 1.0, "dm_distance_max": 3.0,
                              "snr_distance_max": 3.0},
        "candidate_filters": {"dm_min": None, "snr_min": None, "remove_harmonics": False, "max_number": None},
        "plot_candidates": False,
    }
    for k, v in kw.items():
        if isinstance(v, dict):
            c[k] = {**c[k], **v}
        else:
            c[k] = v
    return c
