"""Helpers of the pipeline property modules."""
import contextlib
import csv
import io
import json
import os
import time

import numpy as np

from . import gen

# ---------------------------------------------------------------- data sets


def inf_only(dirname, dms, tsamp=1e-3, nsamp=20000, nsamps=None, **kw):
    """Header files without data (enough for Pipeline.prepare)."""
    out = []
    for i, d in enumerate(dms):
        n = int(nsamps[i]) if nsamps is not None else nsamp
        base = f"h{i:03d}"
        p = os.path.join(dirname, base + ".inf")
        with open(p, "w") as f:
            f.write(gen.inf_text(gen.radio_inf(basename=base, nsamp=n, tsamp=float(tsamp), dm=float(d), **kw)))
        out.append(p)
    return out


def pulse_train(n, tsamp, period, phase, ducy):
    ph = np.arange(n) * tsamp / period - phase
    s = np.exp2(-np.sin(np.pi * ph) ** 2 / np.sin(np.pi * ducy / 2) ** 2)
    return s / np.sqrt((s ** 2).sum())


class Dataset:
    """DM trials on disk holding pulsars whose amplitude falls off with the DM offset."""

    def __init__(self, dirname, rng, dms, T=20.0, tsamp=1e-3, pulsars=(), red=0.0, fmt="presto", names=None, **kw):
        self.dir, self.dms, self.fmt = dirname, [float(d) for d in dms], fmt
        self.tsamps = [float(t) for t in tsamp] if isinstance(tsamp, (list, tuple, np.ndarray)) else [tsamp] * len(self.dms)
        self.tsamp = max(self.tsamps)
        self.pulsars = list(pulsars)
        self.files, self.data = {}, {}
        lens = list(T) if isinstance(T, (list, tuple, np.ndarray)) else [T] * len(self.dms)
        for k, d in enumerate(self.dms):
            tsamp = self.tsamps[k]
            self.n = int(round(lens[k] / tsamp))
            x = rng.standard_normal(self.n)
            for p in self.pulsars:
                a = p["amp"] * np.exp(-0.5 * ((d - p["dm"]) / p.get("width", 8.0)) ** 2)
                x += a * pulse_train(self.n, tsamp, p["period"], p.get("phase", 0.3), p.get("ducy", 0.03))
            if red:
                x += red * np.sin(2 * np.pi * np.arange(self.n) / self.n * 1.3 + k)
            x = x.astype(np.float32)
            base = names[k] if names else f"dm{k:03d}"
            if fmt == "presto":
                self.files[d] = gen.write_presto(dirname, base, x, tsamp, d, **kw)
            else:
                self.files[d] = gen.write_sigproc(os.path.join(dirname, base + ".tim"), x, tsamp, d, **kw)
            self.data[d] = x

    def filelist(self):
        return list(self.files.values())


# ---------------------------------------------------------------- outputs
def read_csv(path):
    """(header, rows as lists of strings)"""
    with open(path, newline="") as f:
        r = list(csv.reader(f))
    return r[0], r[1:]


def table(path):
    h, rows = read_csv(path)
    return [dict(zip(h, r)) for r in rows]


def listing(d):
    return sorted(os.listdir(d))


# ---------------------------------------------------------------- file access log
class OpenLog:
    """Audit-hook log of the opens of data files, shared by forked workers through an O_APPEND file.
    Optional delays before an open. The hook survives fork, does not depend on how riptide is written."""

    def __init__(self):
        self.fd, self.path, self.delay, self.suffix = None, None, None, (".dat", ".tim")
        import sys
        sys.addaudithook(self._hook)

    def _hook(self, event, args):
        if event != "open" or self.fd is None:
            return
        p = args[0]
        if isinstance(p, bytes):
            p = p.decode(errors="replace")
        if not isinstance(p, str) or not p.endswith(self.suffix):
            return
        b = os.path.basename(p)
        os.write(self.fd, (json.dumps([b, os.getpid(), time.monotonic()]) + "\n").encode())
        if self.delay:
            t = self.delay.get(b, 0.0)
            if t:
                time.sleep(t)

    @contextlib.contextmanager
    def record(self, dirname, delay=None):
        self.path = os.path.join(dirname, "opens.log")
        self.fd = os.open(self.path, os.O_WRONLY | os.O_CREAT | os.O_APPEND | os.O_TRUNC, 0o600)
        self.delay = delay
        events = []
        try:
            yield events
        finally:
            os.close(self.fd)
            self.fd, self.delay = None, None
            with open(self.path) as f:
                events += [json.loads(x) for x in f]
            os.remove(self.path)


@contextlib.contextmanager
def quiet():
    """Silence prints of the code under test."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def feed_search(ctx, pl, peaks):
    """Run pl.search() with the workers replaced by a stand-in that returns the given peaks (each with the chunk that holds its DM, in the given
    order). Falls back to what the search is documented to leave behind if the code is organised otherwise."""
    pool, real, used = pl.worker_pool, pl.worker_pool.process_fname_list, []
    by = {}
    for p in peaks:
        by.setdefault(float(p.dm), []).append(p)
    dms = {os.path.realpath(pl.dmiter.get_filename(d)): float(d) for d in pl.dmiter.selected_dms}
    rest = [p for d, v in by.items() if d not in set(dms.values()) for p in v]

    def stand_in(fnames, *a, **kw):
        used.append(len(list(fnames)))
        out = list(rest) if len(used) == 1 else []
        for f in fnames:
            out += by.get(dms[os.path.realpath(f)], [])
        k = {id(p): i for i, p in enumerate(peaks)}
        return sorted(out, key=lambda p: k[id(p)])

    try:
        pool.process_fname_list = stand_in
        pl.search()
        ok = bool(used)
    except Exception:
        ok = bool(used)
        if ok:
            raise
    finally:
        pool.process_fname_list = real
    if ok:
        ctx.count("searches_fed")
        ctx.check(sorted(map(tuple, pl.peaks)) == sorted(map(tuple, peaks)), "peaks-lost-or-duplicated", f"{len(pl.peaks)} peaks kept of {len(peaks)} found")
    else:
        ctx.count("searches_not_fed")
        pl.peaks = sorted(peaks, key=lambda p: p.period)
