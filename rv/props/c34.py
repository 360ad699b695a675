"""C34 the rffa program does what its options say."""
import collections
import os
import re
import shutil
import subprocess
import sys
import time

import numpy as np
import yaml
from riptide import __version__
from riptide.pipeline.pipeline import Pipeline, get_parser

from rv import gen, pipe
from rv.core import Registry
from rv.props import c24

PROP = "C34"
LEVEL = "exploration"
RULE = ("The rffa program is started as a process of its own on small data sets with random options (absolute, relative and default directories, "
        "log file over an earlier one, log levels, timings, backends of matplotlib, configurations written in several YAML styles, wrong usage). Exit status, every file that appears or "
        "changes anywhere in the scratch directory, the lines logged to the terminal and to the log file, and the products (against the library call) "
        "are examined. Distinct by parameters.")
MIN = {"runs": 40, "refusals": 30, "logfiles": 15, "timings": 8, "default_outdir": 6, "plots": 6, "levels": 20, "no_peaks": 1, "odd_names": 4}
family = Registry()
CODE = "from riptide.pipeline.pipeline import main; main()"
RSEEK = "from riptide.apps.rseek import main; main()"
LINE = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3} +(\S+):(\d+) +(DEBUG|INFO|WARNING|ERROR|CRITICAL) +(.*)$")
LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
DONE = "CALCULATIONS CORRECT"


def start(args, cwd, code=CODE, **env):
    e = dict(os.environ, PYTHONPATH=os.environ["RV_TREE"] + os.pathsep + os.environ.get("PYTHONPATH", ""))
    for k, v in env.items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    return subprocess.run([sys.executable, "-c", code] + args, cwd=cwd, env=e, capture_output=True, text=True, timeout=200)


def snapshot(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p, d)] = g.read()
        for x in os.listdir(root):
            if os.path.isdir(os.path.join(root, x)):
                out.setdefault(os.path.relpath(os.path.join(root, x), d) + "/", b"")
    return out


def log_lines(text):
    return [m.groups() for m in map(LINE.match, text.splitlines()) if m]


def world(ctx, quiet=False):
    rng = ctx.rng
    d = ctx.scratch
    for x in ("data", "cwd", "cwd/sub", "elsewhere"):
        os.makedirs(os.path.join(d, x))
    nd = int(rng.integers(1, 4))
    fmt = gen.pick(rng, ["presto", "presto", "sigproc"])
    dms = [float(x) for x in np.round(np.arange(nd) * 9.0, 2)]
    ds = pipe.Dataset(os.path.join(d, "data"), rng, dms, T=8.0, tsamp=1e-3, fmt=fmt,
                      pulsars=[] if quiet else [dict(period=gen.loguniform(rng, 0.06, 0.3), dm=dms[-1], amp=float(rng.uniform(20, 40)), ducy=0.06)])
    band = {} if fmt == "presto" else dict(fmin=1200.0, fmax=1500.0, nchans=256)
    conf = gen.small_config([gen.small_range(0.05, 0.35, bins=int(rng.integers(12, 32)), subints=int(rng.integers(1, 9)))], processes=int(rng.integers(1, 4)), fmt=fmt, data=band,
                            plot_candidates=bool(rng.random() < 0.4), candidate_filters=dict(max_number=4))
    if quiet:
        conf["ranges"][0]["find_peaks"] = {"smin": 60.0}
    return ds, conf


def dump_conf(rng, conf, path):
    style = gen.pick(rng, ["block", "flow", "commented", "document"])
    text = yaml.safe_dump(conf, default_flow_style=style == "flow", sort_keys=bool(rng.integers(2)))
    if style == "commented":
        text = "# search of a survey\n" + text.replace("clustering:", "# ---\n\nclustering:   # radius in units of 1/T")
    if style == "document":
        text = "---\n" + text + "...\n"
    with open(path, "w") as f:
        f.write(text)


@family("options", quick=48, thorough=500, timeout=300)
def options(ctx):
    rng = ctx.rng
    ds, conf = world(ctx, quiet=rng.random() < 0.15)
    d, cwd = ctx.scratch, os.path.join(ctx.scratch, "cwd")
    cf = os.path.join(d, gen.pick(rng, ["conf.yml", "cwd/my conf.yaml", "elsewhere/pipeline.txt"]))
    dump_conf(rng, conf, cf)
    rel = lambda p: os.path.relpath(p, cwd) if rng.random() < 0.5 else p
    args = [gen.pick(rng, ["-c", "--config"]), rel(cf)]
    where = ["default", "sub", "elsewhere", "dot"][ctx.index % 4]
    out = {"default": cwd, "sub": os.path.join(cwd, "sub"), "elsewhere": os.path.join(d, "elsewhere"), "dot": cwd}[where]
    if where == "elsewhere" and rng.random() < 0.6:
        out = os.path.join(out, gen.pick(rng, ["r\u00e9sultats n\u00b0 1", "\u30c6\u30b9\u30c8", "100%s {x}"]))
        os.makedirs(out)
    if where != "default":
        args += [gen.pick(rng, ["-o", "--outdir"]), "." if where == "dot" else rel(out) + gen.pick(rng, ["", "/"])]
    log = None
    if rng.random() < 0.55:
        log = os.path.join(d, gen.pick(rng, ["cwd/run.log", "elsewhere/out.txt", "cwd/sub/log"]))
        args += [gen.pick(rng, ["-f", "--logfile"]), rel(log)]
        if rng.random() < 0.6:
            with open(log, "w") as f:
                f.write("an earlier log\n" * int(rng.integers(1, 3000)))
    level = gen.pick(rng, [None, "DEBUG", "INFO", "WARNING"])
    if level:
        args += ["--log-level", level]
    timings = bool(rng.random() < 0.4)
    if timings:
        args += ["--log-timings"]
    files = [ds.filelist()[i] for i in rng.permutation(len(ds.dms))]
    backend = gen.pick(rng, ["Agg", None, "TkAgg", "svg"])
    odd = ctx.index % 5 == 1
    if odd:
        # names a shell or an option parser could trip over, given relative to the working directory
        names = [str(x) for x in rng.permutation(["-first", "--", "-c", "a b", "#1", "d\u00e9but", "x,y", "%s", "-2.5", "{0}", "~u", "$HOME", "a.inf"])[:len(files)]]
        for i, (f, n) in enumerate(zip(files, names)):
            base, ext = os.path.splitext(f)
            for e in {ext, ".dat"} if ext == ".inf" else {ext}:
                shutil.copy(base + e, os.path.join(cwd, n + e))
            files[i] = os.path.join(cwd, n + ext)
        ctx.count("odd_names")
    ctx.p(args=[a.replace(d, "") for a in args], where=where, conf=conf, backend=backend, nd=len(files))
    before = snapshot(d)
    if odd:
        args = args + ["--"] + [os.path.relpath(f, cwd) for f in files]
    elif rng.random() < 0.5:
        args = args + [rel(f) for f in files]
    else:
        args = [rel(f) for f in files] + args
    t0 = time.monotonic()
    r = start(args, cwd, MPLBACKEND=backend, DISPLAY=None)
    wall = time.monotonic() - t0
    ctx.check(r.returncode == 0, "exit-status", f"{args} exit {r.returncode}: {r.stderr[-800:]}")
    ctx.count("runs")
    after = snapshot(d)
    # --- products: those of the library call, there and nowhere else
    lib = os.path.join(d, "lib")
    os.makedirs(lib)
    cwd0 = os.getcwd()
    try:
        os.chdir(cwd)
        Pipeline(conf).process(files, lib)
    finally:
        os.chdir(cwd0)
    changed = {k for k in after if before.get(k) != after[k]} | {k for k in before if k not in after}
    logrel = os.path.relpath(log, d) if log else None
    prefix = os.path.relpath(out, d)
    want = {os.path.join(prefix, f) for f in os.listdir(lib)}
    ctx.check(changed - {logrel} == want, "files", f"changed {sorted(changed - {logrel})}, expected {sorted(want)}")
    for f in os.listdir(lib):
        if f.endswith((".csv", ".json")):
            with open(os.path.join(lib, f), "rb") as g:
                ctx.check(_sans_paths(g.read()) == _sans_paths(after[os.path.join(prefix, f)]), "products-differ", f"{f} differs from that of the library call")
        elif f.endswith(".png"):
            ctx.check(after[os.path.join(prefix, f)][:8] == b"\x89PNG\r\n\x1a\n", "plot", f"{f} is not a PNG file")
            ctx.count("plots")
    ctx.count("no_peaks", int(not want))
    ctx.count("default_outdir", int(where == "default"))
    # --- log
    lines = log_lines(r.stderr)
    eff = LEVELS[level or "DEBUG"]
    tim = [q for q in lines if "runtime" in q[3]]
    rest = [q for q in lines if "runtime" not in q[3]]
    low = [q for q in rest if LEVELS[q[2]] < eff]
    ctx.check(not low, "log-level", f"lines below {level} on the terminal: {low[:3]}")
    if eff <= 20:
        ctx.check(any(q[2] == "INFO" and DONE in q[3] for q in lines), "log-lost", f"no final line: {r.stderr[-400:]}")
        ctx.count("levels")
    if eff == 10:
        ctx.check(any(q[2] == "DEBUG" for q in rest), "log-lost", "no DEBUG line at level DEBUG")
        for x in ds.dms:
            ctx.check(any(f"{x:.3f}" in q[3] or f"{x:.2f}" in q[3] for q in rest), "log-lost", f"DM {x} not mentioned in the debug log of the search")
    if timings:
        for what in ("search", "process", "ffa_search"):
            ctx.check(any(f"'{what}'" in q[3] for q in tim), "timings-lost", f"no execution time of {what} with --log-timings: {[q[3] for q in tim][:4]}")
        for q in tim:
            ms = re.search(r"(-?[\d.]+(?:e[+-]?\d+)?) *ms", q[3])
            if ms:
                ctx.check(-1 <= float(ms.group(1)) <= 1000 * wall + 1000, "timings-wrong", f"{q[3]} in a run of {wall:.2f} s")
        ctx.count("timings")
    else:
        ctx.check(not tim, "timings-unwanted", f"execution times without --log-timings: {tim[:2]}")
    if log:
        ctx.check(os.path.exists(log), "no-logfile", f"{log} was not written")
        text = after[logrel].decode()
        ctx.check("an earlier log" not in text, "logfile-appended", "the log file still holds earlier contents")
        a, b = collections.Counter(log_lines(text)), collections.Counter(lines)
        ctx.check(a == b, "logfile-differs", f"only in the file {list((a - b))[:2]}, only on the terminal {list((b - a))[:2]}")
        ctx.count("logfiles")


def _sans_paths(b):
    return re.sub(rb'"fname": "[^"]*"', b'"fname": ""', b)


@family("refusals", quick=48, thorough=400, timeout=300)
def refusals(ctx):
    """Wrong usage: non-zero status, a message, no products, no final line."""
    rng = ctx.rng
    ds, conf = world(ctx)
    d, cwd = ctx.scratch, os.path.join(ctx.scratch, "cwd")
    cf = os.path.join(d, "conf.yml")
    out = os.path.join(cwd, "sub")
    kinds = (["no-config", "config-missing", "config-invalid", "config-not-yaml", "config-empty", "outdir-missing", "outdir-file", "no-files", "file-missing", "file-other-format",
                          "level", "option", "config-dir", "no-trial-in-range", "search-fails", "logfile-dir"])
    kind = kinds[ctx.index % len(kinds)]
    files = list(ds.filelist())
    args = ["-c", cf, "-o", out]
    usage = False
    if kind == "no-config":
        args, usage = ["-o", out], True
    elif kind == "config-missing":
        args[1] = os.path.join(d, "none.yml")
    elif kind == "config-dir":
        args[1] = d
    elif kind == "config-invalid":
        conf["processes"] = gen.pick(rng, [0, "two", -1])
    elif kind == "outdir-missing":
        args[3], usage = os.path.join(cwd, "nowhere"), True
    elif kind == "outdir-file":
        args[3], usage = files[0], True
    elif kind == "no-files":
        files, usage = [], True
    elif kind == "file-missing":
        files.insert(int(rng.integers(len(files) + 1)), os.path.join(d, "data", "none.inf"))
    elif kind == "file-other-format":
        p = os.path.join(d, "data", "zz.inf")
        with open(p, "wb") as f:
            f.write(b"nothing of the kind\n" * 5)
        files.insert(int(rng.integers(len(files) + 1)), p)
    elif kind == "level":
        args, usage = args + ["--log-level", "LOUD"], True
    elif kind == "option":
        args, usage = args + ["--frobnicate"], True
    elif kind == "no-trial-in-range":
        conf["dmselect"].update(min=5000.0, max=6000.0)
    elif kind == "logfile-dir":
        args += ["-f", os.path.join(cwd, "nowhere", "x.log")]
    elif kind == "search-fails":
        f = gen.pick(rng, files)
        g = f if ds.fmt == "sigproc" else f[:-4] + ".dat"
        if ds.fmt == "sigproc":
            with open(g, "r+b") as h:
                h.truncate(os.path.getsize(g) - int(rng.integers(1, 4)))
        else:
            os.remove(g)
    dump_conf(rng, conf, cf)
    if kind == "config-not-yaml":
        with open(cf, "w") as f:
            f.write("processes: [1, 2\n ranges: }{")
    elif kind == "config-empty":
        open(cf, "w").close()
    ctx.p(kind=kind, fmt=ds.fmt, nd=len(files), procs=conf["processes"])
    before = snapshot(d)
    r = start(args + files, cwd, MPLBACKEND="Agg")
    if kind == "search-fails" and ds.fmt == "sigproc" and r.returncode == 0:
        ctx.count("odd_bytes_accepted")
        return
    ctx.check(r.returncode != 0, "bad-usage-accepted", f"{kind}: exit 0; {r.stderr[-300:]}")
    ctx.check(r.returncode > 0, "killed", f"{kind}: ended by signal {-r.returncode}")
    ctx.check(r.stderr.strip(), "silent-failure", f"{kind}: exit {r.returncode} without a message")
    ctx.check(DONE not in r.stderr + r.stdout, "failure-called-success", f"{kind}: {r.stderr[-300:]}")
    if usage:
        ctx.check(r.returncode == 2 and "usage" in r.stderr, "no-usage", f"{kind}: exit {r.returncode}: {r.stderr[-300:]}")
    after = snapshot(d)
    changed = sorted(k for k in set(after) | set(before) if before.get(k) != after.get(k))
    ctx.check(not changed, "files-after-refusal", f"{kind}: {changed}")
    ctx.count("refusals")


@family("information", quick=12, thorough=24, timeout=60)
def information(ctx):
    """--help and --version of both programs; options present in the parser are documented in the help."""
    code = [CODE, RSEEK][ctx.index % 2]
    opt = ["--version", "--help", "-h"][ctx.index % 3]
    ctx.p(opt=opt, code=code, k=ctx.index)
    r = start([opt], ctx.scratch, code=code)
    ctx.check(r.returncode == 0, "exit-status", f"{opt}: exit {r.returncode}: {r.stderr[-300:]}")
    if opt == "--version":
        ctx.check(r.stdout.strip().split()[-1:] == [__version__], "version", f"{r.stdout!r}, expected {__version__}")
    else:
        for o in (["--config", "--outdir", "--logfile", "--log-level", "--log-timings", "--version"] if code == CODE else
                  ["--format", "--Pmin", "--Pmax", "--bmin", "--bmax", "--smin", "--wtsp", "--rmed_width", "--rmed_minpts", "--clrad", "--version"]):
            ctx.check(o in r.stdout, "help", f"{o} is not in the help")
    ctx.check(not os.listdir(ctx.scratch), "files", f"{os.listdir(ctx.scratch)}")
    ctx.count("information")
