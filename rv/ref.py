"""
Reference models: slow, independent, double precision / exact integer
re-statements of what riptide promises. Nothing here imports riptide.
"""
import math
from fractions import Fraction

import numpy as np

EPS32 = float(np.finfo(np.float32).eps)


# ---------------------------------------------------------------- FFA
def ffa_shifts(r, m):
    """Row index of a sub-transform with r rows used by output row s of m:
    nearest integer to s (r-1)/(m-1), ties rounded up. Exact integers."""
    s = np.arange(m, dtype=np.int64)
    if m == 1:
        return s
    return (2 * (r - 1) * s + (m - 1)) // (2 * (m - 1))


def ffa(X):
    """FFA transform; exact for integer input (use int64 or float64)."""
    m, p = X.shape
    if m == 1:
        return X.copy()
    h = m // 2
    H, T = ffa(X[:h]), ffa(X[h:])
    hi, ti = ffa_shifts(h, m), ffa_shifts(m - h, m)
    s = np.arange(m)
    cols = (np.arange(p)[None, :] + (s - ti)[:, None]) % p
    return H[hi] + np.take_along_axis(T[ti], cols, axis=1)


def ffa_paths(m):
    """paths[s, i] : left shift applied to input row i in output row s."""
    if m == 1:
        return np.zeros((1, 1), dtype=np.int64)
    h = m // 2
    A, B = ffa_paths(h), ffa_paths(m - h)
    hi, ti = ffa_shifts(h, m), ffa_shifts(m - h, m)
    s = np.arange(m)
    return np.concatenate((A[hi], B[ti] + (s - ti)[:, None]), axis=1)


def ffa_path(m, s):
    """Left shifts applied to the m input rows in output row s (any m, O(m))."""
    r, s, sh = np.array([m], dtype=np.int64), np.array([s], dtype=np.int64), np.array([0], dtype=np.int64)
    while np.any(r > 1):
        h = r // 2
        t = r - h
        d = np.maximum(2 * (r - 1), 1)
        sh_h = (2 * (h - 1) * s + (r - 1)) // d
        st = (2 * (t - 1) * s + (r - 1)) // d
        one = r == 1
        R = np.stack((np.where(one, 0, h), np.where(one, 1, t)), axis=1).ravel()
        S = np.stack((sh_h, np.where(one, 0, st)), axis=1).ravel()
        H = np.stack((sh, np.where(one, sh, sh + s - st)), axis=1).ravel()
        keep = R > 0
        r, s, sh = R[keep], S[keep], H[keep]
    return sh


# ---------------------------------------------------------------- downsampling
def downsampled_size(n, f):
    return int(math.floor(n / f))


def downsample(x, f):
    """Area-weighted grouping: out[k] = integral of the step function x over
    [k f, (k+1) f]. Uses a cumulative integral (a different algorithm)."""
    x = np.asarray(x, dtype=np.float64)
    n = downsampled_size(x.size, f)
    c = np.concatenate(([0.0], np.cumsum(x)))
    e = np.arange(n + 1) * float(f)
    e = np.minimum(e, x.size)
    i = np.minimum(np.floor(e).astype(np.int64), x.size - 1)
    I = c[i] + (e - i) * x[i]
    return np.diff(I)


def downsample_weights_var(n, f):
    """Exact average over output samples of sum(w^2): variance of unit white
    noise after downsampling."""
    k = downsampled_size(n, f)
    a = np.arange(k) * f
    b = a + f
    ia, ib = np.floor(a), np.minimum(np.floor(b), n - 1)
    w1, w2 = ia + 1 - a, b - ib
    return float(np.mean(w1**2 + w2**2 + np.maximum(ib - ia - 1, 0)))


def downsampled_variance(n, f):
    """The documented approximation. Returns the set of acceptable values
    (two when f sits on the branch point)."""
    k = math.floor(f)
    r = f - k
    x = downsampled_size(n, f) * r
    far, near = f - 1.0 / 3.0, (k - 1.0) + 2.0 / 3.0 * x * x - x + 1.0
    if abs(x - 1) < 1e-6:
        return [far, near]
    return [far] if x > 1 else [near]


# ---------------------------------------------------------------- S/N
def boxcar_snr(prof, widths, std):
    """prof (m, n) float64 -> (m, nw)"""
    prof = np.asarray(prof, dtype=np.float64)
    m, n = prof.shape
    c = np.concatenate((np.zeros((m, 1)), np.cumsum(np.concatenate((prof, prof), axis=1), axis=1)), axis=1)
    tot = prof.sum(axis=1)
    out = np.empty((m, len(widths)))
    for k, w in enumerate(widths):
        w = int(w)
        box = c[:, w:w + n] - c[:, :n]
        best = box.max(axis=1)
        # zero-mean unit-norm boxcar template: +h inside, -b outside
        h = math.sqrt((n - w) / (n * w))
        b = w / (n - w) * h
        out[:, k] = (h * best - b * (tot - best)) / std
    return out


def width_trials(nbins, ducy_max=0.20, wtsp=1.5):
    wmax = max(1, int(ducy_max * nbins))
    out, w = [], 1
    while w <= wmax:
        out.append(w)
        w = max(w + 1, int(math.floor(wtsp * w)))
    return np.asarray(out)


# ---------------------------------------------------------------- search grid
class Block:
    """One FFA transform of the search."""
    def __init__(self, f, tau, bins, n, rows, nrows, opt):
        self.f, self.tau, self.bins, self.n, self.rows = f, tau, bins, n, rows
        self.nrows = nrows      # rows evaluated
        self.opt = opt          # +-1 row would be acceptable (tie)

    def periods(self, nrows):
        s = np.arange(nrows)
        if self.rows == 1:
            return np.zeros(0)
        return self.tau * self.bins**2 / (self.bins - s / (self.rows - 1.0))


def search_grid(size, tsamp, pmin, pmax, bmin, bmax):
    ds_ini = pmin / (tsamp * bmin)
    geo = (bmax + 1.0) / bmin
    nds = math.ceil(math.log(pmax / pmin) / math.log(geo))
    blocks = []
    for i in range(nds):
        f = ds_ini * geo**i
        tau = f * tsamp
        pms = pmax / tau
        n = downsampled_size(size, f)
        if n < bmin:
            break
        bstop = int(min(bmax, n, math.floor(min(pms, bmax + 1.0))))
        for bins in range(bmin, bstop + 1):
            rows = n // bins
            pc = min(pms, bins + 1.0)
            x = bins * (rows - 1.0) * (1.0 - bins / pc)
            need = math.ceil(x)
            tie = abs(x - round(x)) < 1e-7 * max(1.0, abs(x))
            nr = max(0, min(rows, need))
            blocks.append(Block(f, tau, bins, n, rows, nr, tie))
    return blocks


# ---------------------------------------------------------------- running median
def running_median(x, w):
    x = np.asarray(x)
    h = w // 2
    y = np.concatenate((np.repeat(x[:1], h), x, np.repeat(x[-1:], h)))
    return np.median(np.lib.stride_tricks.sliding_window_view(y, w), axis=1)


def fast_running_median(x, width, minpts=101):
    f = int(max(1, width / float(minpts)))
    if f == 1:
        w = width + (1 - width % 2)
        return running_median(np.asarray(x, dtype=np.float32), w).astype(np.float64)
    n = len(x) // f
    lo = np.asarray(x, dtype=np.float64)[:n * f].reshape(n, f).mean(axis=1)
    med = running_median(lo, minpts)
    centres = np.arange(n) * f + 0.5 * (f - 1)
    return np.interp(np.arange(len(x)), centres, med)


# ---------------------------------------------------------------- folding
def full_periods(N, tsamp, period):
    """Acceptable numbers of full periods: two when the data length is a whole
    number of periods up to rounding."""
    r = N * tsamp / period
    k = round(r)
    if abs(r - k) < 1e-9 * max(1.0, r):
        return [k, k - 1] if r < k else [k]
    return [int(math.floor(r))]


def fold(x, tsamp, period, bins, subints, full):
    """float64 folding with 'full' full periods. Returns (array, full)"""
    N = len(x)
    f = period / bins / tsamp
    y = np.asarray(x, dtype=np.float64)
    c = np.concatenate(([0.0], np.cumsum(y)))
    e = np.minimum(np.arange(full * bins + 1) * f, N)
    i = np.minimum(np.floor(e).astype(np.int64), N - 1)
    I = c[i] + (e - i) * y[i]
    rows = np.diff(I).reshape(full, bins) * (full * f) ** -0.5
    if subints == 1 or full == 1:
        return rows.sum(axis=0), full
    if subints is None or subints == full:
        return rows, full
    # split the full rotations evenly in 'subints' contiguous groups
    c = np.concatenate((np.zeros((1, bins)), np.cumsum(rows, axis=0)))
    e = np.minimum(np.arange(subints + 1) * (full / subints), full)
    i = np.minimum(np.floor(e).astype(int), full - 1)
    I = c[i] + (e - i)[:, None] * rows[i]
    return np.diff(I, axis=0), full


# ---------------------------------------------------------------- clustering
def friends(x, r):
    """Brute force friends-of-friends partition, as a set of frozensets."""
    n = len(x)
    parent = list(range(n))

    def find(a):
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a
    for i in range(n):
        for j in range(i + 1, n):
            if abs(x[i] - x[j]) <= r:
                parent[find(i)] = find(j)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), set()).add(i)
    return {frozenset(g) for g in groups.values()}


def friends_sorted(x, r):
    """Same, n log n."""
    x = np.asarray(x)
    if len(x) == 0:
        return []
    o = np.argsort(x, kind="stable")
    cuts = np.where(np.diff(x[o]) > r)[0] + 1
    return np.split(o, cuts)


# ---------------------------------------------------------------- harmonics
def harmonic(F, H, tobs, fmin, fmax, denom_max, pdm, ddm, sdm):
    """Independent decision. Returns (related, fraction, margin) where margin
    is the smallest relative distance to any of the thresholds."""
    slow, fast = (F, H) if F.freq <= H.freq else (H, F)
    frac = Fraction(fast.freq / slow.freq).limit_denominator(denom_max)
    pd = abs(float(frac) * slow.freq - fast.freq) * tobs / fast.ducy
    wid = min(F.ducy / F.freq, H.ducy / H.freq)
    dd = abs(F.dm - H.dm) * 4.15e3 * abs(fmin**-2 - fmax**-2) / wid
    hf = frac if H is fast else 1 / frac
    sd = abs(H.snr - F.snr / math.sqrt(hf.numerator * hf.denominator))
    ms = [abs(pd - pdm) / pdm, abs(dd - ddm) / ddm, abs(sd - sdm) / sdm]
    return (pd <= pdm and dd <= ddm and sd <= sdm), hf, min(ms)


# ---------------------------------------------------------------- DM selection
KDM = 1.0 / 2.41e-4


def dm_radii(dms, fmin, fmax, nchans, wmin):
    dms = np.asarray(dms, dtype=float)
    kdisp = KDM * (fmin**-2 - fmax**-2)
    cw = (fmax - fmin) / nchans
    fm = 0.5 * (fmin + fmax)
    ks = KDM * ((fm - cw / 2)**-2 - (fm + cw / 2)**-2)
    return np.maximum(wmin, ks * dms) / kdisp


def min_chain(dms, radii, slack):
    """Size of the smallest subset that starts and ends at the extreme trials
    and in which consecutive members either have touching coverage intervals
    (gap <= slack) or are adjacent trials."""
    n = len(dms)
    lo, hi = dms - radii, dms + radii
    best = np.full(n, 10**9)
    best[0] = 1
    for i in range(n - 1):
        if best[i] >= 10**9:
            continue
        m = lo[i + 1:] - hi[i] <= slack
        m[0] = True
        t = best[i + 1:]
        t[m] = np.minimum(t[m], best[i] + 1)
    return int(best[-1])
