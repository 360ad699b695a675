"""C04 trial frequencies / periods of the transform."""
import math

import numpy as np
from riptide import ffa1, ffa2, ffafreq, ffaprd

from rv import gen, ref
from rv.core import Registry

PROP = "C04"
LEVEL = "exploration"
RULE = ("Random (N, p, dt) incl. one-row and barely-two-row cases; pulse trains synthesised at an advertised trial "
        "period and looked up in the transform. Non-trivial: at least 2 trials; distinct by (N, p, dt).")
MIN = {"trials": 20000, "trains_found": 200}
family = Registry()


@family("grid", quick=4500, thorough=30000)
def grid(ctx):
    rng = ctx.rng
    p = gen.logint(rng, 2, 3000)
    N = p + (int(rng.integers(0, 3 * p)) if rng.random() < 0.3 else gen.logint(rng, 1, 200 * p))
    dt = gen.pick(rng, [1.0, gen.loguniform(rng, 1e-6, 1e2)])
    m = N // p
    ctx.p(N=N, p=p, dt=dt)
    f = ffafreq(N, p, dt=dt) if dt != 1.0 else ffafreq(N, p)
    P = ffaprd(N, p, dt=dt) if dt != 1.0 else ffaprd(N, p)
    ctx.check(f.shape == (m,) and P.shape == (m,), "count", f"{f.shape} {P.shape} for m={m}")
    s = np.arange(m)
    # row s: the signal drifts by s bins over the m-1 periods between first and last row
    exp = (1.0 / p - s / max(m - 1.0, 1.0) / p**2) / dt
    ctx.close_to(f * dt, exp * dt, 1e-13, "trial-frequency")
    ctx.close_to(f * P, np.ones(m), 1e-14, "period-is-inverse-frequency")
    if m > 1:
        ctx.check(np.all(np.diff(f) < 0), "frequencies-decreasing")
        ctx.check(abs(P[0] / (p * dt) - 1) < 1e-12, "first-trial-is-base-period")
        ctx.check(abs(f[-1] * dt - (1 / p - 1 / p**2)) < 1e-12, "last-trial-one-bin-per-period")
    else:
        ctx.trivial()
    if N * 1 <= 300000:
        ctx.check(ffa1(np.zeros(N, dtype=np.float32), p).shape == (m, p), "one-trial-per-transform-row")
    ctx.count("trials", m)


@family("train", quick=2400, thorough=12000)
def train(ctx):
    """A pulse train at the period advertised for row s must pile up in row s."""
    rng = ctx.rng
    p = gen.logint(rng, 8, 300)
    m = gen.logint(rng, 2, 400)
    N = m * p + int(rng.integers(0, p))
    dt = gen.loguniform(rng, 1e-5, 10.0)
    s = int(rng.integers(0, m))
    ctx.p(m=m, p=p, N=N, s=s)
    P = ffaprd(N, p, dt=dt)[s] / dt  # in samples
    t0 = rng.uniform(0, p)
    t = t0 + P * np.arange(m + 2)
    idx = np.floor(t).astype(int)
    idx = idx[idx < m * p]
    x = np.zeros(N, dtype=np.float32)
    x[idx] = 1.0
    out = ffa1(x, p)
    w = 2 * (int(math.ceil(0.5 * math.ceil(math.log2(m)) + 0.5)) + 1) + 1  # model-free drift path deviation bound
    w = min(w, p)
    ext = np.concatenate((out, out[:, :w]), axis=1).astype(np.float64)
    c = np.concatenate((np.zeros((m, 1)), np.cumsum(ext, axis=1)), axis=1)
    box = (c[:, w:w + p] - c[:, :p]).max(axis=1)
    ctx.check(box[s] >= len(idx) - 1.5, "pulse-train-in-advertised-row",
              f"row {s} of {m} (p={p}) gathers {box[s]} of {len(idx)} pulses in {w} bins", rows=box.tolist()[:50])
    # sharpness: rows more than w bins of drift away cannot gather everything within w bins
    drift = np.abs(np.arange(m) - s)
    far = (drift > 2 * w + 2) & (drift < p - 2 * w - 2)
    if far.any():
        ctx.check(box[far].max() < len(idx) - 0.5, "far-rows-smeared")
        ctx.count("far_rows", far.sum())
    ctx.count("trains_found")


@family("front", quick=900, thorough=4000)
def front(ctx):
    """1-D front end == 2-D transform of the complete periods."""
    rng = ctx.rng
    p = gen.logint(rng, 1, 400)
    N = p + int(rng.integers(0, 20 * p))
    x = gen.int_data(rng, N)
    m = N // p
    ctx.p(N=N, p=p)
    y = x.copy()
    y[m * p:] = 1e6  # trailing incomplete period must be ignored
    a = ffa1(x, p)
    ctx.equal(a, ffa2(np.ascontiguousarray(x[:m * p].reshape(m, p))), "front-end")
    ctx.equal(ffa1(y, p), a, "trailing-samples-ignored")
    ctx.equal(a, ref.ffa(x[:m * p].astype(np.int64).reshape(m, p)).astype(float), "front-end-model")


@family("errors", quick=180, thorough=300)
def errors(ctx):
    rng = ctx.rng
    p = int(rng.integers(2, 100))
    N = int(rng.integers(p, 50 * p))
    x = np.zeros(N, dtype=np.float32)
    ctx.p(N=N, p=p)
    ctx.raises(ValueError, "accepts-p>N", ffafreq, p - 1, p)
    ctx.raises(ValueError, "accepts-p<=1", ffafreq, N, gen.pick(rng, [1, 0, -1, -p]))
    ctx.raises(ValueError, "accepts-N<=0", ffafreq, gen.pick(rng, [0, -N]), p)
    ctx.raises(ValueError, "accepts-dt<=0", ffafreq, N, p, dt=gen.pick(rng, [0.0, -1.0]))
    ctx.raises(ValueError, "accepts-float-p", ffafreq, N, float(p))
    ctx.raises(ValueError, "accepts-float-N", ffafreq, float(N), p)
    ctx.raises(ValueError, "ffaprd-accepts-p>N", ffaprd, p - 1, p)
    ctx.raises(ValueError, "ffa1-p>N", ffa1, x, N + 1 + int(rng.integers(5)))
    ctx.raises(ValueError, "ffa1-p<=0", ffa1, x, -int(rng.integers(0, 4)))
    ctx.raises(ValueError, "ffa1-2d", ffa1, x.reshape(1, -1), p)
