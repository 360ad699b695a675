"""C17 one dimensional clustering."""
import numpy as np
from riptide.clustering import cluster1d

from rv import gen, ref
from rv.core import Registry

PROP = "C17"
LEVEL = "exploration"
RULE = ("Random point sets (uniform, clustered, integer grids with gaps exactly equal to the radius, duplicates, single and empty, "
        "huge offsets) in sorted, reversed and shuffled order; partition compared with a brute-force friends-of-friends. Distinct by "
        "point set and radius.")
MIN = {"partitions": 5000, "exact_ties": 500}
family = Registry()


def points(rng):
    k = gen.pick(rng, ["uniform", "grid", "clumps", "dup", "chain", "offset", "tiny"])
    n = int(rng.integers(0, 4)) if rng.random() < 0.1 else gen.logint(rng, 1, 120)
    if k == "uniform":
        x, r = rng.uniform(0, 10, n), gen.loguniform(rng, 1e-3, 3)
    elif k == "grid":
        x, r = rng.integers(0, 5 * max(n, 1), n).astype(float), float(rng.integers(0, 6))
    elif k == "clumps":
        x, r = np.round(rng.integers(0, 5, n) * 10 + rng.uniform(0, 3, n), int(rng.integers(0, 3))), float(rng.integers(1, 8)) / 4
    elif k == "dup":
        x, r = rng.integers(0, 4, n).astype(float) / 8, gen.pick(rng, [0.0, 0.125, 0.25])
    elif k == "chain":
        x, r = np.arange(n) * 0.5, gen.pick(rng, [0.5, 0.4999, 0.25, 1.0])
    elif k == "offset":
        x, r = 1e6 + rng.integers(0, 50, n) / 4.0, gen.pick(rng, [0.25, 0.5, 0.2])
    else:
        x, r = rng.uniform(0, 1e-9, n), gen.loguniform(rng, 1e-12, 1e-9)
    return k, np.asarray(x, dtype=float), float(r)


def verify(ctx, x, r, cl, key=""):
    ids = np.concatenate([np.asarray(c) for c in cl]) if len(cl) else np.zeros(0, int)
    ctx.check(np.array_equal(np.sort(ids), np.arange(len(x))), "not-a-partition" + key, f"{len(ids)} indices for {len(x)} points")
    ctx.check(all(len(c) for c in cl), "empty-cluster" + key)
    got = {frozenset(int(i) for i in c) for c in cl}
    exp = ref.friends(x, r) if len(x) <= 60 else {frozenset(g.tolist()) for g in ref.friends_sorted(x, r)}
    ctx.check(got == exp, "partition" + key, f"n={len(x)} r={r!r}: {len(got)} clusters, {len(exp)} expected")
    ctx.count("partitions")


@family("brute", quick=6000, thorough=60000)
def brute(ctx):
    rng = ctx.rng
    k, x, r = points(rng)
    x = x[rng.permutation(len(x))]
    ctx.p(k=k, n=len(x), r=r, s=hash(x.tobytes()) % 10**12)
    if len(x) > 1 and np.any(np.diff(np.sort(x)) == r):
        ctx.count("exact_ties")
    keep = x.copy()
    verify(ctx, x, r, cluster1d(x, r))
    ctx.check(np.array_equal(x, keep), "argument-modified")
    s = np.sort(x)
    verify(ctx, s, r, cluster1d(s, r, already_sorted=True), ":sorted")
    d = s[::-1].copy()
    verify(ctx, d, r, cluster1d(d, r, already_sorted=True), ":reversed")
    verify(ctx, d, r, cluster1d(d, r), ":reversed")
    if len(x) < 2:
        ctx.trivial()


@family("large", quick=60, thorough=600)
def large(ctx):
    rng = ctx.rng
    n = int(gen.pick(rng, [gen.logint(rng, 1000, 200000), gen.logint(rng, 1000, 200000), 32768, 65535, 65536, 65537, 70000, 131073]))
    x = rng.uniform(0, 1, n)
    r = gen.loguniform(rng, 0.1 / n, 10.0 / n)
    ctx.p(n=n, r=r)
    verify(ctx, x, r, cluster1d(x, r))
    s = np.sort(x)
    verify(ctx, s, r, cluster1d(s, r, already_sorted=True), ":sorted")
    verify(ctx, s, float(r) * 1e-6, cluster1d(s, r * 1e-6, already_sorted=True), ":sorted")
    d = s[::-1]
    verify(ctx, d, r, cluster1d(d, r, already_sorted=True), ":reversed")
    verify(ctx, d, 2.0, cluster1d(d, 2.0, already_sorted=True), ":reversed")
