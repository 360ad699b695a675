"""C30 simulated pulsed time series."""
import numpy as np
from riptide import TimeSeries
from riptide.libffa import generate_signal

from rv import gen
from rv.core import Registry

PROP = "C30"
LEVEL = "exploration"
RULE = ("Simulated series over random lengths, periods (also shorter than 2 samples and longer than the data), phases, duty cycles, amplitudes "
        "and noise levels; noiseless series are compared to the closed form of the documented pulse, noise is isolated by subtraction and put "
        "through moment, whiteness and matched-filter S/N statistics with 7-sigma limits. Distinct by parameters; all non-trivial.")
MIN = {"noiseless": 800, "noisy": 250, "samples": 5_000_000}
family = Registry()


def shape(n, period, phi0, ducy):
    ph = np.arange(n) / period - phi0
    return np.exp2(-np.sin(np.pi * ph) ** 2 / np.sin(np.pi * ducy / 2) ** 2)


def params(rng):
    n = gen.logint(rng, 16, 30000)
    period = gen.loguniform(rng, 1.5, 2.0 * n)
    phi0 = float(gen.pick(rng, [0.0, 0.5, 1.0, rng.uniform(0, 1), rng.uniform(-2, 3)]))
    ducy = gen.loguniform(rng, 0.01, 0.5)
    amp = gen.loguniform(rng, 0.1, 1000)
    return n, period, phi0, ducy, amp


@family("noiseless", quick=1200, thorough=15000)
def noiseless(ctx):
    rng = ctx.rng
    n, period, phi0, ducy, amp = params(rng)
    ctx.p(n=n, period=period, phi0=phi0, ducy=ducy, amp=amp)
    s = shape(n, period, phi0, ducy)
    nrm = float(np.sqrt((s ** 2).sum()))
    if nrm < 1e-100:
        ctx.trivial()
        return
    x = generate_signal(n, period, phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=0.0)
    ctx.count("noiseless")
    ctx.count("samples", n)
    x = np.asarray(x)
    ctx.check(x.shape == (n,) and np.all(np.isfinite(x)), "signal-shape", f"{x.shape}")
    ctx.check(abs(np.sqrt((x ** 2).sum()) / amp - 1) < 1e-9, "amplitude", f"{np.sqrt((x**2).sum())} / {amp}")
    exp = s * amp / nrm
    ctx.close_to(x, exp, 1e-7 * exp.max(), "pulse-shape", f"n={n} P={period} phi0={phi0} ducy={ducy}")
    # observable form of the same promises: the maximum sits at phi0, the half maximum at ducy/2 from it
    if period > 400 * 1.0 and n > 2 * period and ducy * period > 40:
        k = int(np.argmax(x[:int(period)]))
        d = (k / period - phi0 + 0.5) % 1 - 0.5
        ctx.check(abs(d) <= 1.5 / period, "pulse-phase", f"maximum at phase {k / period}, not {phi0}")
        above = (x[:int(period)] > 0.5 * x.max()).sum()
        ctx.check(abs(above - ducy * period) <= 3, "pulse-width", f"{above} samples above half maximum, {ducy * period} expected")
        ctx.count("width_measured")


@family("noisy", quick=400, thorough=5000)
def noisy(ctx):
    rng = ctx.rng
    n, period, phi0, ducy, amp = params(rng)
    n = gen.logint(rng, 3000, 30000)
    period = gen.loguniform(rng, 5, n / 2)
    sd = float(gen.pick(rng, [1.0, gen.loguniform(rng, 0.01, 100)]))
    if rng.random() < 0.3:
        # noise far below or above the signal
        sd = amp * gen.loguniform(rng, 1e-9, 1e6)
    ctx.p(n=n, period=period, phi0=phi0, ducy=ducy, amp=amp, sd=sd)
    st = np.random.get_state()
    x = np.asarray(generate_signal(n, period, phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=sd))
    y = np.asarray(generate_signal(n, period, phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=sd))
    s = shape(n, period, phi0, ducy)
    s *= amp / np.sqrt((s ** 2).sum())
    ctx.count("noisy")
    ctx.count("samples", 2 * n)
    for z in (x, y):
        e = (z - s) / sd
        ctx.check(abs(e.mean()) < 7 / np.sqrt(n), "noise-mean", f"{e.mean()} n={n}")
        ctx.check(abs(e.var() - 1) < 7 * np.sqrt(2 / n), "noise-variance", f"{e.var()} n={n}")
        ctx.check(abs((e ** 4).mean() - 3) < 7 * np.sqrt(96 / n), "noise-not-gaussian", f"kurtosis {(e**4).mean()}")
        ctx.check(abs((e ** 3).mean()) < 7 * np.sqrt(15 / n), "noise-skewed")
        for lag in (1, 2, max(1, int(period))):
            ctx.check(abs((e[lag:] * e[:-lag]).mean()) < 7 / np.sqrt(n - lag), "noise-not-white", f"lag {lag}")
        t = s / amp
        snr = float((t * z).sum() / sd)
        ctx.check(abs(snr - amp / sd) < 7, "matched-filter-snr", f"S/N {snr}, expected {amp / sd}")
    ctx.check(abs(((x - s) * (y - s)).mean()) / sd ** 2 < 7 / np.sqrt(n), "noise-repeats")
    np.random.set_state(st)
    again = generate_signal(n, period, phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=sd)
    ctx.check(np.array_equal(again, x), "not-reproducible-with-seed")


@family("timeseries", quick=400, thorough=4000)
def timeseries(ctx):
    rng = ctx.rng
    n = gen.logint(rng, 20, 20000)
    tsamp = gen.loguniform(rng, 1e-5, 1.0)
    length = (n + float(rng.uniform(-0.4, 0.4))) * tsamp
    period = gen.loguniform(rng, 2 * tsamp, n * tsamp)
    phi0, ducy, amp = float(rng.uniform(0, 1)), gen.loguniform(rng, 0.01, 0.4), gen.loguniform(rng, 1, 100)
    ctx.p(n=n, tsamp=tsamp, length=length, period=period, phi0=phi0, ducy=ducy, amp=amp)
    s = shape(n, period / tsamp, phi0, ducy)
    nrm = np.sqrt((s ** 2).sum())
    if nrm < 1e-20:
        ctx.trivial()
        return
    t = TimeSeries.generate(length, tsamp, period, phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=0.0)
    ctx.count("noiseless")
    ctx.count("samples", n)
    ctx.check(t.nsamp == n and t.data.size == n, "length", f"{t.nsamp} / {n}")
    ctx.check(t.tsamp == tsamp and abs(t.length - n * tsamp) < 1e-9 * length, "time-axis")
    ctx.check(t.data.dtype == np.float32, "dtype")
    exp = s * amp / nrm
    ctx.close_to(t.data, exp, 1e-6 * exp.max(), "pulse-shape")
    m = t.metadata
    ctx.check(m["signal_period"] == period and m["signal_initial_phase"] == phi0 and m["signal_duty_cycle"] == ducy
              and m["source_name"] == "fake" and m["signal_shape"] == "Von Mises", "metadata")
    ctx.check(abs(m["tobs"] - n * tsamp) < 1e-9 * length, "tobs")
    # defaults: 2 % duty cycle, amplitude 10, unit noise
    u = TimeSeries.generate(length, tsamp, period)
    d = shape(n, period / tsamp, 0.5, 0.02)
    if (d ** 2).sum() > 1e-20 and n > 200:
        e = u.data - 10 * d / np.sqrt((d ** 2).sum())
        ctx.check(abs(e.var() - 1) < 7 * np.sqrt(2 / n) + 1e-3 and abs(e.mean()) < 7 / np.sqrt(n) + 1e-3, "defaults", f"{e.var()} {e.mean()}")


@family("defaults", quick=40, thorough=200)
def defaults(ctx):
    """Options left out have the values of the signature."""
    rng = ctx.rng
    n, p = int(rng.integers(200, 4000)), float(rng.uniform(20, 150))
    ctx.p(n=n, p=p)
    ctx.defaults(generate_signal, (n, p), dict(phi0=0.5, ducy=0.02, amplitude=10.0, stdnoise=1.0), np.array_equal)


@family("far", quick=3, thorough=16, timeout=200)
def far(ctx):
    """Tens of millions of samples: the pulses keep their phase to the end."""
    rng = ctx.rng
    n = int(rng.integers(17_000_000, 30_000_000))
    period, ducy, phi, amp = gen.loguniform(rng, 5, 1e6), float(rng.uniform(0.05, 0.4)), float(rng.uniform(0, 1)), gen.loguniform(rng, 1, 100)
    ctx.p(n=n, period=period, ducy=ducy, phi=phi, amp=amp)
    y = np.asarray(generate_signal(n, period, phi0=phi, ducy=ducy, amplitude=amp, stdnoise=0.0))
    ctx.check(y.shape == (n,), "shape")
    i = np.concatenate((np.arange(n - 20000, n), rng.integers(0, n, 40000)))
    kappa = np.log(2.0) / (2.0 * np.sin(np.pi * ducy / 2.0) ** 2)
    e = np.exp(kappa * (np.cos(2 * np.pi * ((i / period - phi) % 1.0)) - 1.0))
    scale = amp / np.sqrt(sum(float((y[k:k + 10**6].astype(float) ** 2).sum()) for k in range(0, n, 10**6)))
    ctx.check(abs(scale - 1) < 1e-4, "amplitude", f"norm is {amp / scale} instead of {amp}")
    a = float(y.max())
    ctx.close_to(y[i] / a, e / e.max(), 1e-4, "pulse-shape", f"n={n} period={period}")
    ctx.count("samples", n)


@family("long", quick=4, thorough=24, timeout=200)
def long(ctx):
    """Several million samples: no repeats at any block length, no change of level or gain along the series."""
    rng = ctx.rng
    n = int(rng.integers(4_300_000, 6_000_000))
    period, sd = gen.loguniform(rng, 1000, n / 3), gen.loguniform(rng, 0.1, 10)
    ctx.p(n=n, period=period, sd=sd)
    e = np.asarray(generate_signal(n, period, amplitude=5 * sd, ducy=0.05, stdnoise=sd))
    e -= np.asarray(generate_signal(n, period, amplitude=5 * sd, ducy=0.05, stdnoise=0.0))
    e /= sd
    ctx.count("noisy")
    ctx.count("samples", n)
    for k in range(8, 23):
        for lag in (2**k, 10 ** (k // 3)):
            if lag < n - 1000:
                ctx.check(abs((e[lag:] * e[:-lag]).mean()) < 7 / np.sqrt(n - lag), "noise-repeats", f"lag {lag}")
    u = len(np.unique(np.round(e, 9)))
    ctx.check(u > 0.99 * n, "noise-repeats", f"{u} distinct values in {n} samples")
    # circular autocorrelation at every lag
    a = np.fft.irfft(np.abs(np.fft.rfft(e - e.mean())) ** 2, n)[1:n // 2] / n
    ctx.check(np.abs(a).max() < 8 / np.sqrt(n), "noise-repeats", f"lag {int(np.abs(a).argmax()) + 1}")
    for part in np.array_split(e, 16):
        m = len(part)
        ctx.check(abs(part.mean()) < 7 / np.sqrt(m) and abs(part.var() - 1) < 7 * np.sqrt(2 / m), "noise-not-stationary")
    # tails
    ctx.check(4.2 < np.abs(e).max() < 7.5, "noise-not-gaussian", f"maximum {np.abs(e).max()}")
    for t, p in ((1, 0.31731051), (2, 0.04550026), (3, 0.00269980)):
        ctx.check(abs((np.abs(e) > t).mean() - p) < 7 * np.sqrt(p / n), "noise-not-gaussian", f"beyond {t} sigma")
