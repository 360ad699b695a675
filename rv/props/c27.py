"""C27 the rseek program."""
import contextlib
import io
import os
import subprocess
import sys

import numpy as np
from riptide import TimeSeries, ffa_search, find_peaks
from riptide.apps.rseek import get_parser, run_program

from rv import gen, pipe, ref
from rv.core import Registry

PROP = "C27"
LEVEL = "exploration"
RULE = ("rseek is run on PRESTO and SIGPROC files (pulsars, several pulsars, pure noise, red noise) with random subsets of its options; the returned "
        "table and the printed text are compared with the peaks of an explicit search with the same parameters (defaults taken from its "
        "documentation), grouped by brute force, and the injected pulsar must be the first line. Distinct by parameters; non-trivial: at least "
        "one line in the table.")
MIN = {"runs": 150, "rows": 250, "no_peaks": 15, "first_line_is_pulsar": 40, "cli": 2}
family = Registry()

# as documented by 'rseek -h'
DEFAULTS = dict(Pmin=1.0, Pmax=10.0, bmin=240, bmax=260, smin=7.0, wtsp=1.5, rmed_width=4.0, rmed_minpts=101, clrad=0.2)


def expected(ts, o):
    _, pg = ffa_search(ts, period_min=o["Pmin"], period_max=o["Pmax"], bins_min=o["bmin"], bins_max=o["bmax"], rmed_width=o["rmed_width"],
                       rmed_minpts=o["rmed_minpts"], wtsp=o["wtsp"], fpmin=1, ducy_max=0.3)
    peaks, _ = find_peaks(pg, smin=o["smin"], clrad=o["clrad"])
    if not peaks:
        return [], False
    f = np.array([p.freq for p in peaks])
    r = o["clrad"] / ts.length
    d = np.diff(np.sort(f))
    near = bool(np.any(np.abs(d - r) < 1e-9 * r))
    out = [max((peaks[i] for i in g), key=lambda p: p.snr) for g in ref.friends_sorted(f, r)]
    return sorted(out, key=lambda p: -p.snr), near


def run(args):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        df = run_program(get_parser().parse_args(args))
    return df, buf.getvalue()


def judge_text(ctx, text, rows):
    lines = [x for x in text.splitlines() if x.strip()]
    ctx.check(lines[0].split() == ["period", "freq", "width", "ducy", "dm", "snr"], "printed-header", lines[0])
    ctx.check(len(lines) == len(rows) + 1, "printed-lines", f"{len(lines) - 1} lines for {len(rows)} peaks")
    for ln, p in zip(lines[1:], rows):
        c = ln.split()
        ctx.check(len(c) == 6, "printed-line", ln)
        ctx.check(abs(float(c[0]) - p.period) < 1e-9 and abs(float(c[1]) - p.freq) < 1e-9 and int(c[2]) == p.width
                  and c[3].endswith("%") and abs(float(c[3][:-1]) - 100 * p.ducy) < 0.0051 and abs(float(c[4]) - p.dm) < 0.0051
                  and abs(float(c[5]) - p.snr) < 0.051, "printed-values", f"{ln} / {p}")


def judge(ctx, df, text, exp, near, smin):
    if not exp:
        ctx.check(df is None, "table-without-peaks", f"{df}")
        ctx.check("No peaks found" in text, "no-peaks-message", text[:200])
        ctx.count("no_peaks")
        ctx.trivial()
        return
    ctx.check(df is not None, "peaks-not-reported", f"{len(exp)} expected, first {exp[0]}")
    ctx.check(set(df.columns) == {"period", "freq", "width", "ducy", "dm", "snr"}, "columns", f"{list(df.columns)}")
    if not near:
        ctx.check(len(df) == len(exp), "number-of-lines", f"{len(df)} instead of {len(exp)}")
        for i, p in enumerate(exp):
            r = df.iloc[i]
            ctx.check((r.period, r.freq, r.width, r.ducy, r.dm, r.snr) == (p.period, p.freq, p.width, p.ducy, p.dm, p.snr), "line-values",
                      f"line {i}: {r.to_dict()} instead of {p}")
        judge_text(ctx, text, exp)
    s = df.snr.values
    ctx.check(np.all(np.diff(s) <= 0), "not-sorted-by-snr", f"{s[:10]}")
    ctx.check(np.all(s > smin), "below-smin", f"{s.min()} <= {smin}")
    ctx.count("rows", len(df))


@family("options", quick=1200, thorough=8000, timeout=200)
def options(ctx):
    rng = ctx.rng
    fmt = gen.pick(rng, ["presto", "sigproc"])
    T = float(rng.uniform(8, 20))
    tsamp = 1e-3
    P = gen.loguniform(rng, 0.08, 0.6)
    npsr = int(rng.integers(0, 4))
    ps = [dict(amp=float(rng.uniform(15, 35)), dm=10.0, period=P if k == 0 else gen.loguniform(rng, 0.08, 0.6), ducy=float(rng.uniform(0.02, 0.08)),
               phase=float(rng.random())) for k in range(npsr)]
    dm = gen.pick(rng, [10.0, 10.0, 0.0, 123.45])
    for p in ps:
        p["dm"] = dm
    red = float(gen.pick(rng, [0, 0, 3.0]))
    if npsr == 1:
        ps[0]["ducy"] = float(rng.uniform(0.05, 0.08))
    ds = pipe.Dataset(ctx.scratch, rng, [dm], T=T, tsamp=tsamp, pulsars=ps, red=red, fmt=fmt)
    o = dict(DEFAULTS)
    o.update(Pmin=float(gen.pick(rng, [0.06, rng.uniform(0.04, 0.07)])), Pmax=float(gen.pick(rng, [rng.uniform(0.7, 1.5), 1.0, 0.65])),
             bmin=int(gen.pick(rng, [rng.integers(30, 36), rng.integers(30, 36), rng.integers(60, 110)])), rmed_width=float(gen.pick(rng, [2.0, np.round(rng.uniform(0.5, min(7, T / 2)), 3), 1.0])))
    o["Pmin"] = max(o["Pmin"], float(np.round(o["bmin"] * 1.05e-3, 4)))
    o["bmax"] = o["bmin"] + int(rng.integers(0, 6))
    given = ["Pmin", "Pmax", "bmin", "bmax", "rmed_width"]
    for k, v in dict(smin=float(np.round(gen.pick(rng, [rng.uniform(5, 12), rng.uniform(12, 40), 6.0, 3.5]), 2)), wtsp=float(np.round(gen.pick(rng, [rng.uniform(1.1, 2.5), rng.uniform(1.02, 1.2), rng.uniform(2.5, 6), 2.0]), 2)),
                     rmed_minpts=2 * int(gen.pick(rng, [rng.integers(6, 75), rng.integers(1, 6), rng.integers(75, 400)])) + 1,
                     clrad=float(gen.pick(rng, [np.round(gen.loguniform(rng, 0.01, 3), 3), 1.0, 20.0]))).items():
        if rng.random() < 0.5:
            o[k] = v
            given.append(k)
    f = ds.files[dm]
    args = ["-f" if rng.random() < 0.5 else "--format", fmt]
    for k in given:
        args += ["--" + k, repr(o[k])]
    args = args + [f] if rng.random() < 0.5 else [f] + args
    ctx.p(fmt=fmt, T=T, ps=ps, o=o, given=given, red=red)
    df, text = run(args)
    ctx.count("runs")
    ts = TimeSeries.from_presto_inf(f) if fmt == "presto" else TimeSeries.from_sigproc(f)
    exp, near = expected(ts, o)
    judge(ctx, df, text, exp, near, o["smin"])
    if npsr == 1 and ps[0]["amp"] > 22 and P > 1.1 * o["Pmin"] and 2.0 <= o["rmed_width"] <= (2.5 if red else 7) and o["smin"] <= 12 and o["wtsp"] <= 2:
        # the brightest line is the pulsar
        r = df.iloc[0] if df is not None else None
        ctx.check(r is not None and abs(r.freq - 1 / P) * T * P / P < 0.6, "pulsar-not-first", f"{None if r is None else r.to_dict()} / period {P}")
        ctx.check(r.snr > 0.7 * ps[0]["amp"] - 4, "pulsar-too-faint", f"{r.snr} / {ps[0]['amp']}")
        ctx.count("first_line_is_pulsar")


@family("defaults", quick=30, thorough=300, timeout=200)
def defaults(ctx):
    """No option at all but the format."""
    rng = ctx.rng
    T, tsamp = 60.0, 2.5e-3
    P = float(rng.uniform(1.05, 2.4))
    ps = [dict(amp=float(rng.uniform(20, 30)), dm=5.0, period=P, ducy=0.03, phase=float(rng.random()))] if rng.random() < 0.8 else []
    ds = pipe.Dataset(ctx.scratch, rng, [5.0], T=T, tsamp=tsamp, pulsars=ps)
    ctx.p(P=P, ps=ps)
    df, text = run(["-f", "presto", ds.files[5.0]])
    ctx.count("runs")
    exp, near = expected(TimeSeries.from_presto_inf(ds.files[5.0]), DEFAULTS)
    judge(ctx, df, text, exp, near, 7.0)
    if df is not None:
        ctx.check(df.period.min() >= 1.0 - 1e-9, "period-below-Pmin", f"{df.period.min()}")


@family("cli", quick=3, thorough=10, timeout=200)
def cli(ctx):
    """As a command line program."""
    rng = ctx.rng
    P = gen.loguniform(rng, 0.1, 0.5)
    ps = [dict(amp=30.0, dm=5.0, period=P, ducy=0.04)] if ctx.index % 3 else []
    ds = pipe.Dataset(ctx.scratch, rng, [5.0], T=10.0, pulsars=ps)
    o = dict(DEFAULTS, Pmin=0.06, Pmax=0.8, bmin=32, bmax=35, rmed_width=2.0)
    args = ["-f", "presto", "--Pmin", "0.06", "--Pmax", "0.8", "--bmin", "32", "--bmax", "35", "--rmed_width", "2.0", ds.files[5.0]]
    ctx.p(P=P, ps=ps)
    env = dict(os.environ, PYTHONPATH=os.environ["RV_TREE"])
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "riptide.apps.rseek"] + args, env=env, capture_output=True, text=True, timeout=120,
                       cwd=ctx.scratch)
    ctx.check(r.returncode == 0, "program-failed", r.stderr[-800:])
    exp, near = expected(TimeSeries.from_presto_inf(ds.files[5.0]), o)
    if exp and not near:
        judge_text(ctx, r.stdout, exp)
    elif not exp:
        ctx.check("No peaks found" in r.stdout, "no-peaks-message", r.stdout[:300])
    bad = subprocess.run([sys.executable, "-W", "ignore", "-m", "riptide.apps.rseek", "-f", "presto", os.path.join(ctx.scratch, "nope.inf")],
                         env=env, capture_output=True, text=True, timeout=120, cwd=ctx.scratch)
    ctx.check(bad.returncode != 0, "missing-file-not-reported")
    ctx.count("cli")
