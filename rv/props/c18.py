"""C18 selection of the DM trials to process."""
import numpy as np
from riptide.pipeline.dmiter import select_dms

from rv import gen, ref
from rv.core import Registry

PROP = "C18"
LEVEL = "exploration"
RULE = ("Lists of DM trials (uniform, geometric, clustered, with holes, shuffled, duplicated, single) with random bands, channel counts, minimum "
        "widths and DM limits, plus lists where gaps are just below / just above / exactly the coverage of the trials; the selection is judged "
        "by membership, limits, extreme trials, coverage, and minimality by dynamic programming over all subsets that cover. Distinct by "
        "parameters; non-trivial: at least two trials in the limits.")
MIN = {"selections": 1500, "selected": 8000, "skipped": 8000, "forced_gaps": 300}
family = Registry()

EPS = 1e-9


def judge(ctx, trials, lo, hi, fmin, fmax, nchans, wmin, strict=True):
    before = np.array(trials, dtype=float)
    got = select_dms(trials, lo, hi, fmin, fmax, nchans, wmin)
    ctx.check(np.array_equal(np.array(trials, dtype=float), before), "input-modified")
    got = np.asarray(got, dtype=float)
    inr = np.sort(before[(before >= lo) & (before <= hi)])
    ctx.count("selections")
    ctx.check(got.ndim == 1 and got.size >= 1, "nothing-selected")
    if inr.size < 2:
        ctx.trivial()
    ctx.check(np.all(np.isin(got, inr)), "selected-not-a-trial", f"{got[~np.isin(got, inr)][:5]}")
    ctx.check(got[0] == inr[0], "lowest-trial-missing", f"{got[0]} != {inr[0]}")
    ctx.check(got[-1] == inr[-1], "highest-trial-missing", f"{got[-1]} != {inr[-1]}")
    u = np.unique(inr)
    if u.size == inr.size:
        ctx.check(np.all(np.diff(got) > 0), "not-increasing", f"{got[:20]}")
    else:
        ctx.check(np.all(np.diff(got) >= 0), "not-increasing", f"{got[:20]}")
    g = np.unique(got)
    r = ref.dm_radii(g, fmin, fmax, nchans, wmin)
    for i in range(g.size - 1):
        gap = (g[i + 1] - r[i + 1]) - (g[i] + r[i])
        tol = EPS * (1 + abs(g[i + 1]))
        if gap > tol:
            ctx.count("forced_gaps")
            between = u[(u > g[i]) & (u < g[i + 1])]
            ctx.check(between.size == 0, "coverage-hole",
                      f"hole of {gap:.4g} between {g[i]} and {g[i+1]} although trials {between[:5]} were available")
    ctx.count("selected", g.size)
    ctx.count("skipped", u.size - g.size)
    if u.size == inr.size and u.size <= 8000:
        ru = ref.dm_radii(u, fmin, fmax, nchans, wmin)
        slack = EPS * (1 + abs(u[-1]))
        best = ref.min_chain(u, ru, slack)
        worst = ref.min_chain(u, ru, -slack)
        ctx.check(g.size <= worst, "not-minimal", f"{g.size} trials selected, {worst} suffice")
        ctx.check(g.size >= best, "oracle-min", f"{g.size} < {best}")
        ctx.count("minimality_checked")
    return got


def band(rng):
    fmin = gen.loguniform(rng, 50, 4000)
    fmax = fmin * (1 + gen.loguniform(rng, 0.01, 2))
    nchans = gen.logint(rng, 1, 4096)
    wmin = gen.loguniform(rng, 1e-5, 0.5)
    return fmin, fmax, nchans, wmin


@family("lists", quick=1500, thorough=20000)
def lists(ctx, size=None):
    rng = ctx.rng
    fmin, fmax, nchans, wmin = band(rng)
    n = size or gen.logint(rng, 1, 250)
    kind = gen.pick(rng, ["uniform", "grid", "geometric", "clustered", "holes", "tight"])
    rad0 = ref.dm_radii([0.0], fmin, fmax, nchans, wmin)[0]
    if kind == "uniform":
        t = rng.uniform(0, gen.loguniform(rng, 1, 3000), n)
    elif kind == "grid":
        t = np.arange(n) * gen.loguniform(rng, 0.02, 3) * rad0
    elif kind == "geometric":
        t = np.cumsum(gen.loguniform(rng, 0.01, 1) * rad0 * (1 + gen.loguniform(rng, 1e-3, 0.2)) ** np.arange(n))
    elif kind == "clustered":
        t = np.abs(rng.normal(gen.pick(rng, [10, 100, 500]), 5, n) + 50 * rng.integers(0, 4, n))
    elif kind == "holes":
        t = np.arange(n) * gen.loguniform(rng, 0.02, 1) * rad0
        t = t[rng.random(n) < 0.6] if n > 3 else t
        if t.size == 0:
            t = np.array([0.0])
    else:
        t = np.arange(n) * rad0 * gen.pick(rng, [0.1, 0.5, 0.9, 1.1, 1.9])
    t = np.round(t, gen.pick(rng, [3, 4, 6]))
    if gen.pick(rng, [True, True, False]):
        t = np.unique(t)
    lo, hi = t.min(), t.max()
    if t.size > 2 and rng.random() < 0.5:
        a, b = np.sort(rng.choice(t, 2, replace=False))
        d = gen.pick(rng, [0.0, 0.0, 1e-6])
        lo, hi = a - d, b + d
    if rng.random() < 0.3:
        lo, hi = lo - rng.uniform(0, 10), hi + rng.uniform(0, 100)
    t = rng.permutation(t)
    if rng.random() < 0.3:
        t = [float(v) for v in t]
    ctx.p(kind=kind, n=len(t), fmin=fmin, fmax=fmax, nchans=nchans, wmin=wmin, lo=float(lo), hi=float(hi))
    judge(ctx, t, float(lo), float(hi), fmin, fmax, nchans, wmin)


@family("large", quick=40, thorough=400, timeout=120)
def large(ctx):
    """As many trials as a survey has."""
    lists(ctx, gen.logint(ctx.rng, 500, 6000))


@family("edges", quick=600, thorough=8000)
def edges(ctx):
    """Gaps relative to the coverage: just below and just above."""
    rng = ctx.rng
    fmin, fmax, nchans, wmin = band(rng)
    n = int(rng.integers(3, 40))
    t = [0.0 if rng.random() < 0.5 else float(rng.uniform(0, 500))]
    cw = (fmax - fmin) / nchans
    fm = (fmin + fmax) / 2
    kd = ref.KDM * (fmin**-2 - fmax**-2)
    ks = ref.KDM * ((fm - cw / 2)**-2 - (fm + cw / 2)**-2)
    a = min(ks / kd, 0.6)
    if ks / kd > 0.6:
        nchans = 64
        cw = (fmax - fmin) / nchans
        ks = ref.KDM * ((fm - cw / 2)**-2 - (fm + cw / 2)**-2)
        a = ks / kd
    w = wmin / kd
    for _ in range(n):
        x = t[-1]
        rx = max(w, a * x)
        # y - max(w, a y) - x - rx = 0
        y = max(x + rx + w, (x + rx) / (1 - a)) if a < 1 else x + rx + w
        s = gen.pick(rng, [0.25, 0.5, 0.499, 0.34, 1 - 1e-6, 1 + 1e-6, 1.3, 2.5])
        t.append(x + (y - x) * s)
        if t[-1] > 1e5:
            break
    t = np.unique(np.asarray(t))
    ctx.p(n=t.size, fmin=fmin, fmax=fmax, nchans=nchans, wmin=wmin, t=t.tolist())
    judge(ctx, rng.permutation(t), float(t[0]), float(t[-1]), fmin, fmax, nchans, wmin)


@family("empty", quick=60, thorough=400)
def empty(ctx):
    rng = ctx.rng
    fmin, fmax, nchans, wmin = band(rng)
    t = rng.uniform(0, 100, gen.logint(rng, 1, 50))
    lo = t.max() + rng.uniform(0.1, 10)
    if rng.random() < 0.5:
        lo, hi = lo, lo + 50
    else:
        lo, hi = -20.0, t.min() - 0.01
    ctx.p(n=t.size, lo=float(lo), hi=float(hi))
    ctx.raises(ValueError, "empty-selection-accepted", select_dms, t, float(lo), float(hi), fmin, fmax, nchans, wmin)
