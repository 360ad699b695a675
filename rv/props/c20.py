"""C20 harmonic relationship test."""
from types import SimpleNamespace

import numpy as np
from riptide.peak_detection import Peak
from riptide.pipeline.harmonic_testing import hdiag, htest

from rv import gen, ref
from rv.core import Registry

PROP = "C20"
LEVEL = "exploration"
RULE = ("Random pairs: true harmonics of random fractions with small errors, near misses in frequency / DM / S/N, unrelated pairs, "
        "equal and round values as on a coarse trial grid, both orders, both slow and fast postulated harmonics, random thresholds; decision and fraction compared with an independent "
        "model away from rounding ties. Distinct by parameters.")
MIN = {"decisions": 5000, "related": 1000, "unrelated": 1000}
family = Registry()


def pair(rng):
    f = gen.loguniform(rng, 0.05, 100)
    p, q = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    T = gen.loguniform(rng, 50, 1e5)
    F = SimpleNamespace(freq=f, snr=gen.loguniform(rng, 7, 500), ducy=float(rng.uniform(0.005, 0.2)), dm=float(rng.uniform(0, 500)))
    hd = float(rng.uniform(0.005, 0.3))
    pdm, ddm, sdm = gen.loguniform(rng, 0.1, 10), gen.loguniform(rng, 0.3, 10), gen.loguniform(rng, 0.3, 10)
    fb = float(rng.uniform(300, 2000))
    ft = fb + float(rng.uniform(10, 800))
    fast_ducy = hd if p >= q else F.ducy
    hf = f * p / q
    # frequency, DM and S/N offsets in units of their thresholds
    def off():
        return float(gen.pick(rng, [0.0, 0.0, rng.uniform(-0.95, 0.95), rng.uniform(-3, 3)]))
    a, b, c = off(), off(), off()
    if p >= q:
        hf = hf + a * pdm * fast_ducy / T
    else:
        hf = hf + a * pdm * fast_ducy / T * p / q
    wid = min(F.ducy / f, hd / max(hf, 1e-9))
    H = SimpleNamespace(freq=float(hf), ducy=hd, dm=float(max(0, F.dm + b * ddm * wid / (4.15e3 * (fb**-2 - ft**-2)))),
                        snr=float(F.snr / np.sqrt(p * q) + c * sdm))
    if rng.random() < 0.1:
        # nearly equal frequencies: only a large denominator tells them from equal ones
        H.freq = F.freq * (1 + float(rng.choice([-1, 1])) * gen.loguniform(rng, 1e-7, 1e-2))
    if H.freq <= 0 or rng.random() < 0.1:
        H.freq = gen.loguniform(rng, 0.05, 100)
    if rng.random() < 0.35:
        # as found on a coarse trial grid: equal or round values
        if rng.random() < 0.6:
            H.ducy = F.ducy
        if rng.random() < 0.5:
            H.dm = F.dm
        if rng.random() < 0.2:
            F.dm = 0.0
        if rng.random() < 0.3:
            H.snr = F.snr
        if rng.random() < 0.5:
            F.freq = float(gen.pick(rng, [1, 2, 0.5, 4, 10, 0.25]))
            H.freq = F.freq * p / q
        if rng.random() < 0.1:
            H.freq = F.freq
        if rng.random() < 0.3:
            F.snr, H.snr = float(round(F.snr)), float(round(H.snr))
    return F, H, T, fb, ft, dict(denom_max=int(gen.pick(rng, [100, 1, 2, 10, 1000, 50, 5000, 10**5])), phase_distance_max=pdm, dm_distance_max=ddm, snr_distance_max=sdm)


def aspeak(X):
    return Peak(period=1 / X.freq, freq=X.freq, width=3, ducy=X.ducy, iw=0, ip=0, snr=X.snr, dm=X.dm)


@family("decide", quick=9000, thorough=100000)
def decide(ctx):
    rng = ctx.rng
    F, H, T, fb, ft, kw = pair(rng)
    ctx.p(F=vars(F), H=vars(H), T=T, fb=fb, ft=ft, kw=kw)
    rel, frac, margin = ref.harmonic(F, H, T, fb, ft, kw["denom_max"], kw["phase_distance_max"], kw["dm_distance_max"], kw["snr_distance_max"])
    A, B = (aspeak(F), aspeak(H)) if rng.random() < 0.7 else (F, H)
    got, gf = htest(A, B, T, fb, ft, **kw)
    ctx.check(isinstance(got, (bool, np.bool_)), "type")
    ctx.check(gf == frac, "fraction", f"{gf} instead of {frac}")
    if margin > 1e-9:
        ctx.check(bool(got) == bool(rel), "decision", f"{got} instead of {rel}; F={vars(F)} H={vars(H)}")
        ctx.count("decisions")
        ctx.count("related" if rel else "unrelated")
    # swapping roles inverts the fraction
    _, g2 = htest(B, A, T, fb, ft, **kw)
    if F.freq != H.freq:
        ctx.check(g2 == 1 / gf, "fraction-not-symmetric", f"{g2} vs {gf}")
    # monotone in every threshold
    if got:
        k2 = dict(kw)
        for k in ("phase_distance_max", "dm_distance_max", "snr_distance_max"):
            k2[k] = kw[k] * 1.5
        ctx.check(htest(A, B, T, fb, ft, **k2)[0], "not-monotone-in-thresholds")


@family("defaults", quick=800, thorough=5000)
def defaults(ctx):
    """Documented default thresholds."""
    rng = ctx.rng
    F, H, T, fb, ft, kw = pair(rng)
    ctx.p(F=vars(F), H=vars(H), T=T)
    rel, frac, margin = ref.harmonic(F, H, T, fb, ft, 100, 1.0, 3.0, 3.0)
    got, gf = htest(aspeak(F), aspeak(H), T, fb, ft)
    ctx.check(gf == frac, "fraction")
    if margin > 1e-9:
        ctx.check(bool(got) == bool(rel), "default-thresholds", f"{got} instead of {rel}")
        ctx.count("decisions")
    d = hdiag(aspeak(F), aspeak(H), T, fb, ft)
    ctx.check(d["fraction"] == frac, "diagnostics-fraction")


@family("errors", quick=200, thorough=600)
def errors(ctx):
    rng = ctx.rng
    F, H, T, fb, ft, kw = pair(rng)
    ctx.p(T=T)
    ctx.raises(ValueError, "accepts-bad-band", htest, F, H, T, ft, fb)
    ctx.raises(ValueError, "accepts-empty-band", htest, F, H, T, fb, fb)
    ctx.raises(ValueError, "accepts-bad-tobs", htest, F, H, -T, fb, ft)
    ctx.raises(ValueError, "accepts-bad-tobs", htest, F, H, 0.0, fb, ft)


@family("limits", quick=600, thorough=3000)
def limits(ctx):
    """Thresholds are upper bounds: a distance equal to its threshold is within (decided where the distance is exactly zero)."""
    rng = ctx.rng
    F, H, T, fb, ft, kw = pair(rng)
    F.freq = float(gen.pick(rng, [1, 2, 0.5, 4, 8, 0.25]))
    r = gen.pick(rng, [1, 1, 2, 4, 0.5, 0.25, 8])
    H.freq = F.freq * r
    H.dm = F.dm
    H.snr = F.snr / 2 if r in (4, 0.25) else F.snr
    zero = {k: gen.pick(rng, [0.0, 0]) for k in ("phase_distance_max", "dm_distance_max") if rng.random() < 0.7}
    if r == 1 and rng.random() < 0.7:
        zero["snr_distance_max"] = 0.0
    elif r not in (1, 4, 0.25):
        kw["snr_distance_max"] = 1e6
    kw.update(zero, denom_max=100)
    ctx.p(F=vars(F), r=r, kw=kw)
    got, gf = htest(aspeak(F), aspeak(H), T, fb, ft, **kw)
    ctx.check(float(gf) == r, "fraction", f"{gf} for the ratio {r}")
    ctx.check(got, "threshold-not-inclusive", f"distances of zero are not within {zero}")
    ctx.count("threshold_cases")
