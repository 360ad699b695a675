"""C26 blind detection of periodic signals, end to end."""
import os

import numpy as np
from riptide import TimeSeries, ffa_search, find_peaks
from riptide.pipeline.pipeline import Pipeline

from rv import gen, pipe
from rv.core import Registry

PROP = "C26"
LEVEL = "exploration"
RULE = ("Pulse trains of random period, phase, duty cycle, strength, with white noise, offsets, gain and slow drifts are searched blindly with the "
        "library and with the whole pipeline (several DM trials); the strongest detection must be the injected signal, at its period, DM and "
        "S/N, and pure noise must give nothing above 9 sigma. Distinct by parameters; every case is a complete search.")
MIN = {"detections": 300, "noise_only": 60, "noise_trials": 1_000_000, "pipeline_detections": 20, "sensitivity": 12}
family = Registry()


def make(rng, n, tsamp, P, phase, ducy, amp, kind):
    x = rng.standard_normal(n)
    if amp:
        x = x + amp * pipe.pulse_train(n, tsamp, P, phase, ducy)
    t = np.arange(n) / n
    if kind == "offset":
        x = x * gen.loguniform(rng, 0.1, 100) + rng.uniform(-1000, 1000)
    elif kind == "drift":
        x = x + rng.uniform(3, 15) * np.sin(2 * np.pi * rng.uniform(0.3, 1.0) * t + rng.uniform(0, 6)) + rng.normal() * 10 * t
    return x.astype(np.float32)


def setting(rng):
    """Search parameters and a period inside."""
    tsamp = gen.loguniform(rng, 1e-4, 5e-3)
    bmin = int(rng.integers(24, 64))
    bmax = bmin + int(rng.integers(1, 10))
    pmin = bmin * tsamp * float(rng.uniform(1.0, 4.0))
    pmax = pmin * gen.loguniform(rng, 1.3, 12)
    T = pmax * gen.loguniform(rng, 15, 80)
    n = min(int(T / tsamp), 150000)
    pmax = min(pmax, n * tsamp / 12)
    return tsamp, bmin, bmax, pmin, max(pmax, pmin * 1.2), n


def search(x, tsamp, bmin, bmax, pmin, pmax, rmed, smin=7.0):
    ts = TimeSeries(x, tsamp, metadata={"dm": 0.0})
    tsr, pg = ffa_search(ts, period_min=pmin, period_max=pmax, bins_min=bmin, bins_max=bmax, rmed_width=rmed)
    peaks, _ = find_peaks(pg, smin=smin)
    return pg, peaks


@family("detect", quick=1600, thorough=24000, timeout=200)
def detect(ctx):
    rng = ctx.rng
    tsamp, bmin, bmax, pmin, pmax, n = setting(rng)
    P = gen.loguniform(rng, pmin * 1.02, pmax * 0.98)
    phase = float(rng.random())
    ducy = float(rng.uniform(1.5 / bmin, 0.12))
    amp = float(rng.uniform(22, 45))
    kind = gen.pick(rng, ["white", "white", "offset", "drift"])
    x = make(rng, n, tsamp, P, phase, ducy, amp, kind)
    T = n * tsamp
    ctx.p(n=n, tsamp=tsamp, bmin=bmin, bmax=bmax, pmin=pmin, pmax=pmax, P=P, phase=phase, ducy=ducy, amp=amp, kind=kind)
    rmed = float(min(T / 3, max(4 * pmax, 50 * tsamp)))
    pg, peaks = search(x, tsamp, bmin, bmax, pmin, pmax, rmed)
    ctx.count("detections")
    ctx.check(peaks, "signal-missed", f"no peak; highest S/N {pg.snrs.max():.2f}, amplitude {amp:.1f}")
    b = peaks[0]
    # the pulse may drift by about its own width over the data
    turns = abs(b.freq - 1 / P) * T
    ctx.check(turns < max(1.0, 2.5 * ducy + 2.0 / bmin), "wrong-period", f"period {b.period} instead of {P} ({turns:.2f} turns), S/N {b.snr:.1f}, amplitude {amp:.1f}")
    # the signal itself raises the estimated noise level of short series
    eff = amp / np.sqrt(1 + amp ** 2 / n)
    ctx.check(b.snr > 0.7 * eff - 4, "signal-too-faint", f"S/N {b.snr:.2f}, amplitude {amp:.2f}, duty cycle {ducy:.3f}")
    ctx.check(b.snr < 1.05 * amp + 7, "signal-too-bright", f"S/N {b.snr:.2f}, amplitude {amp:.2f}")
    ctx.check(0.3 * ducy < b.ducy < 3.5 * ducy + 2.0 / bmin, "wrong-width", f"duty cycle {b.ducy:.3f} instead of {ducy:.3f}")


@family("noise", quick=400, thorough=6000, timeout=200)
def noise(ctx):
    rng = ctx.rng
    tsamp, bmin, bmax, pmin, pmax, n = setting(rng)
    kind = gen.pick(rng, ["white", "offset", "drift"])
    x = make(rng, n, tsamp, 1.0, 0, 0.05, 0, kind)
    ctx.p(n=n, tsamp=tsamp, bmin=bmin, bmax=bmax, pmin=pmin, pmax=pmax, kind=kind)
    T = n * tsamp
    pg, peaks = search(x, tsamp, bmin, bmax, pmin, pmax, float(min(T / 3, max(4 * pmax, 50 * tsamp))), smin=9.0)
    ctx.count("noise_only")
    ctx.count("noise_trials", pg.snrs.size)
    ctx.check(not peaks, "false-detection", f"{peaks[:2]}")


@family("sensitivity", quick=64, thorough=600, timeout=300)
def sensitivity(ctx):
    """The S/N loss averaged over many signals."""
    rng = ctx.rng
    r = []
    ducy = float(rng.uniform(0.05, 0.1))
    bmin = 60
    for _ in range(12):
        tsamp = 1e-3
        P = float(rng.uniform(0.07, 0.2))
        n = 20000
        amp = 25.0
        x = make(rng, n, tsamp, P, float(rng.random()), ducy, amp, "white")
        _, peaks = search(x, tsamp, bmin, bmin + 6, 0.0625, 0.21, 2.0)
        ctx.check(peaks and abs(peaks[0].freq - 1 / P) * n * tsamp < 1, "signal-missed")
        r.append(peaks[0].snr / amp)
    ctx.p(ducy=ducy, mean=float(np.mean(r)))
    ctx.count("sensitivity")
    ctx.check(0.87 < np.mean(r) < 1.06, "mean-sensitivity", f"mean measured / true S/N {np.mean(r):.3f} over {len(r)} signals")


@family("pipeline", quick=100, thorough=1200, timeout=250)
def pipeline(ctx):
    rng = ctx.rng
    nd = int(rng.integers(1, 7))
    dms = np.arange(nd) * 12.0
    dm = float(gen.pick(rng, dms.tolist()))
    P = gen.loguniform(rng, 0.055, 0.45)
    amp = float(rng.uniform(22, 40))
    ducy = float(rng.uniform(0.04, 0.1))
    fmt = gen.pick(rng, ["presto", "sigproc"])
    T = float(rng.uniform(8, 20))
    ds = pipe.Dataset(ctx.scratch, rng, dms, T=T, pulsars=[dict(amp=amp, dm=dm, width=8.0, period=P, phase=float(rng.random()), ducy=ducy)],
                      red=float(gen.pick(rng, [0, 2.0])), fmt=fmt)
    kw = dict(fmt="sigproc", data=dict(fmin=1182.0, fmax=1582.0, nchans=1024)) if fmt == "sigproc" else {}
    rs = [gen.small_range()] if rng.random() < 0.5 else [gen.small_range(0.05, 0.16), gen.small_range(0.16, 0.5, name="b")]
    pl = Pipeline(gen.small_config(rs, processes=int(rng.integers(1, 4)), candidate_filters=dict(remove_harmonics=bool(rng.random() < 0.5)), **kw))
    out = os.path.join(ctx.scratch, "out")
    os.makedirs(out)
    ctx.p(nd=nd, dm=dm, P=P, amp=amp, ducy=ducy, fmt=fmt, T=T, ranges=len(rs))
    pl.process([ds.filelist()[i] for i in rng.permutation(nd)], out)
    ctx.check(os.path.exists(os.path.join(out, "candidates.csv")), "no-candidates")
    t = pipe.table(os.path.join(out, "candidates.csv"))
    c = {k: float(v) for k, v in t[0].items()}
    ctx.check(abs(c["freq"] - 1 / P) * T < 1.0, "wrong-period", f"first candidate {c}, injected period {P}")
    ctx.check(c["dm"] == dm, "wrong-dm", f"first candidate {c}, injected DM {dm}")
    ctx.check(0.7 * amp - 4 < c["snr"] < 1.05 * amp + 7, "wrong-snr", f"first candidate {c}, amplitude {amp}")
    k = [r for r in t if abs(float(r["freq"]) - 1 / P) * T < 0.15]
    ctx.check(len(k) == 1, "detection-duplicated", f"{k}")
    ctx.count("pipeline_detections")
    # the cluster of the pulsar is the brightest and a fundamental
    r0 = pipe.table(os.path.join(out, "clusters.csv"))[0]
    ctx.check(int(r0["rank"]) == 0 and int(r0["hfrac_num"]) == 0 and int(r0["fundamental_rank"]) == 0, "fundamental-flagged", f"{r0}")
