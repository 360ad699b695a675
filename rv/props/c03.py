"""C03 FFA transform = sum of all rows along near-straight drift paths."""
import math

import numpy as np
import riptide
from riptide import ffa1, ffa2

from rv import gen, ref
from rv.core import Registry

PROP = "C03"
LEVEL = "exploration"
RULE = ("(m, p) shapes from 1x1 to 500000 rows (4 million in the thorough tier), odd/even/prime/power-of-two, integer-valued data so that every sum is "
        "exact in float32 and the comparison with the exact integer model is bitwise; plus impulse-coded runs that "
        "recover the drift path of every row. Non-trivial: m >= 2 and p >= 2; distinct = distinct (shape, kind, data seed).")
MIN = {"rows_compared": 20000, "paths_decoded": 5000}
family = Registry()


def rand_shape(ctx, maxcells, mmax):
    rng = ctx.rng
    kind = gen.pick(rng, ["any", "any", "pow2", "pow2+1", "prime-ish", "tall", "wide", "small"])
    if kind == "small":
        return kind, int(rng.integers(1, 10)), int(rng.integers(1, 12))
    if kind == "pow2":
        m = 2 ** int(rng.integers(1, int(math.log2(mmax))))
    elif kind == "pow2+1":
        m = 2 ** int(rng.integers(1, int(math.log2(mmax)))) + gen.pick(rng, [-1, 1])
    else:
        m = gen.logint(rng, 2, mmax)
    if kind == "tall":
        p = int(rng.integers(1, 8))
    elif kind == "wide":
        m = min(m, 40)
        p = gen.logint(rng, 100, 3000)
    else:
        p = gen.logint(rng, 2, 500)
    p = max(1, min(p, maxcells // max(m, 1)))
    return kind, max(m, 1), p


@family("exact", quick=1800, thorough=12000)
def exact(ctx):
    kind, m, p = rand_shape(ctx, 400000, 4000)
    hi = int(max(1, min(1000, 2**23 // m)))
    X = ctx.rng.integers(-hi, hi + 1, size=(m, p))
    ctx.p(kind=kind, m=m, p=p, hi=hi)
    if m < 2 or p < 2:
        ctx.trivial()
    A = X.astype(np.float32)
    keep = A.copy()
    out = ffa2(A)
    ctx.check(isinstance(out, np.ndarray) and out.dtype == np.float32, "dtype", f"{type(out)} {getattr(out, 'dtype', None)}")
    exp = ref.ffa(X.astype(np.int64))
    ctx.equal(out, exp.astype(np.float64), "transform-value", f"m={m} p={p}")
    ctx.equal(A, keep, "input-modified")
    # conservation, stated on its own
    ctx.equal(out.astype(np.float64).sum(axis=1), np.full(m, float(X.sum())), "flux-conservation")
    ctx.equal(out[0], X.sum(axis=0), "first-row-is-plain-fold")
    ctx.count("rows_compared", m)


@family("huge", quick=48, thorough=200)
def huge(ctx):
    """Row counts in the thousands: row index arithmetic needs precision."""
    m = gen.logint(ctx.rng, 4000, 20000)
    p = int(ctx.rng.integers(2, 6))
    X = ctx.rng.integers(-20, 21, size=(m, p))
    ctx.p(m=m, p=p)
    out = ffa2(X.astype(np.float32))
    ctx.equal(out, ref.ffa(X.astype(np.int64)).astype(np.float64), "transform-value-large", f"m={m} p={p}")
    ctx.count("rows_compared", m)


@family("tall", quick=24, thorough=150)
def tall(ctx):
    """Hundreds of thousands of rows (long observations): sampled rows against the exact path of each input row."""
    rng = ctx.rng
    m = gen.pick(rng, [gen.logint(rng, 60000, 250000), gen.logint(rng, 130000, 500000), 2 ** int(rng.integers(16, 19)) + int(rng.integers(-2, 3))])
    if ctx.tier == "thorough" and rng.random() < 0.2:
        m = gen.logint(rng, 500000, 4000000)
    p = int(rng.integers(2, 12))
    hi = int(min(20, 2**23 // m))
    X = rng.integers(-hi, hi + 1, size=(m, p))
    ctx.p(m=m, p=p)
    out = ffa2(X.astype(np.float32))
    ctx.check(out.shape == (m, p), "shape")
    ctx.equal(out[0], X.sum(axis=0), "first-row-is-plain-fold")
    ctx.equal(out.astype(np.float64).sum(axis=1), np.full(m, float(X.sum())), "flux-conservation")
    rows = np.unique(np.concatenate(([1, 2, m // 2, m - 2, m - 1], rng.integers(0, m, 24))))
    for s in rows:
        sh = ref.ffa_path(m, int(s))
        exp = np.zeros(p, dtype=np.int64)
        for k in range(p):
            # rows shifted by k (mod p), summed, then rotated
            sel = X[sh % p == k]
            exp += np.roll(sel.sum(axis=0), -k)
        ctx.equal(out[s], exp, "transform-value-large", f"m={m} p={p} row {s}")
        ctx.count("rows_compared")


@family("paths", quick=480, thorough=2500)
def paths(ctx):
    """Recover the drift path of every input row, model-free."""
    rng = ctx.rng
    m = gen.pick(rng, [2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]) if rng.random() < 0.5 \
        else int(rng.integers(2, 160))
    p = m + int(rng.integers(1, 20))
    ctx.p(m=m, p=p)
    # shifts[s, i] for all i: p > m, so the shift is the (negated) position of
    # the impulse. Rows are coded in groups with powers of two in disjoint columns.
    shifts = np.full((m, m), -1)
    for i in range(m):
        X = np.zeros((m, p), dtype=np.float32)
        X[i, p - 1] = 1.0 + i
        out = ffa2(X)
        ctx.check(out.shape == (m, p), "shape")
        nz = (out != 0).sum(axis=1)
        ctx.check(np.all(nz == 1), "impulse-lost-or-duplicated", f"row {i}: {nz}")
        ctx.check(np.all(out.max(axis=1) == 1.0 + i), "impulse-amplitude", f"row {i}")
        shifts[:, i] = p - 1 - out.argmax(axis=1)
        ctx.count("paths_decoded", m)
    s = np.arange(m)
    ctx.check(np.all(shifts[:, 0] == 0), "path-start", f"{shifts[:, 0]}")
    ctx.equal(shifts[:, m - 1], s, "path-end")
    ctx.check(np.all(np.diff(shifts, axis=1) >= 0), "path-monotone-in-time")
    ctx.check(np.all(np.diff(shifts, axis=0) >= 0), "path-monotone-in-trial")
    dev = np.abs(shifts - s[:, None] * (np.arange(m)[None, :] / (m - 1.0)))
    bound = 0.5 * math.ceil(math.log2(m)) + 0.5 + 1e-9
    ctx.check(dev.max() <= bound, "path-straightness", f"deviation {dev.max():.3f} bins > {bound} for m={m}")
    ctx.equal(shifts, ref.ffa_paths(m), "path-model")


@family("float", quick=360, thorough=2000)
def floats(ctx):
    kind, m, p = rand_shape(ctx, 200000, 2000)
    dk, x = gen.data_kind(ctx.rng, m * p)
    ctx.p(kind=kind, m=m, p=p, data=dk)
    X = x.reshape(m, p)
    out = ffa2(X)
    absum = ref.ffa(np.abs(X.astype(np.float64)))
    ctx.close_to(out, ref.ffa(X.astype(np.float64)), 3e-7 * (math.log2(m) + 2) * absum + 1e-30, "transform-float")
    ctx.count("rows_compared", m)


@family("linear", quick=180, thorough=600)
def linear(ctx):
    """Linearity and phase-rotation equivariance on integer data."""
    m, p = gen.logint(ctx.rng, 2, 300), gen.logint(ctx.rng, 2, 200)
    A = ctx.rng.integers(-99, 100, (m, p)).astype(np.float32)
    B = ctx.rng.integers(-99, 100, (m, p)).astype(np.float32)
    k = int(ctx.rng.integers(0, p))
    ctx.p(m=m, p=p, k=k)
    a, b = ffa2(A), ffa2(B)
    ctx.equal(ffa2(2 * A - B), 2 * a - b, "linearity")
    ctx.equal(ffa2(np.ascontiguousarray(np.roll(A, k, axis=1))), np.roll(a, k, axis=1), "rotation-equivariance")
    ctx.count("rows_compared", 3 * m)


@family("layout", quick=180, thorough=500)
def layout(ctx):
    """Other dtypes / layouts are either refused or give the same answer."""
    m, p = int(ctx.rng.integers(2, 60)), int(ctx.rng.integers(2, 60))
    X = ctx.rng.integers(-99, 100, (m, p))
    exp = ref.ffa(X).astype(np.float64)
    dt = gen.pick(ctx.rng, ["float64", "int32", "int16", "int64", "uint8"])
    if dt == "uint8":
        X = np.abs(X)
        exp = ref.ffa(X).astype(np.float64)
    ctx.p(m=m, p=p, dt=dt)
    ctx.equal(ffa2(X.astype(dt)), exp, "dtype-conversion", dt)
    for name, V in (("fortran", np.asfortranarray(X.astype(np.float32))),
                    ("strided", np.repeat(X.astype(np.float32), 2, axis=1)[:, ::2]),
                    ("reversed", X.astype(np.float32)[::-1][::-1])):
        try:
            out = ffa2(V)
        except ValueError:
            ctx.count("refused_layout")
            continue
        ctx.equal(out, exp, "layout", name)
    N = m * p + int(ctx.rng.integers(0, p))
    x = ctx.rng.integers(-99, 100, N)
    ctx.equal(ffa1(x.astype(np.float32), p), ref.ffa(x[:m * p].reshape(m, p)).astype(np.float64), "ffa1")
