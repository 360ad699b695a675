"""C25 pipeline configuration validation."""
import copy
import os

import numpy as np
import yaml
from riptide.pipeline.config_validation import (InvalidPipelineConfig, InvalidSearchRange, validate_pipeline_config,
                                                validate_ranges)
from riptide.pipeline.pipeline import Pipeline

from rv import gen
from rv.core import Registry

PROP = "C25"
LEVEL = "exploration"
RULE = ("Random valid configurations (every optional key present or absent, every documented blank) must be accepted unchanged; each is then "
        "damaged in one place (wrong type, out-of-range value, forbidden blank, missing key, unknown key) and must be rejected; search ranges "
        "are checked against sampling time, candidate bins and contiguity, also through a pipeline prepared on real files with unequal "
        "sampling times, and through YAML. Distinct by the damage and the values; every case is non-trivial.")
MIN = {"accepted": 300, "rejected": 2500, "ranges_rejected": 300, "ranges_accepted": 300, "prepared": 60}
family = Registry()

POSINT = dict(good=lambda r: int(r.integers(1, 500)), bad=[0, -1, 2.5, "abc", [], {}, None])
POSNUM = dict(good=lambda r: gen.pick(r, [float(r.uniform(0.01, 50)), int(r.integers(1, 50))]),
              bad=[0, 0.0, -1.0, -3, "abc", [], {}, None, float("nan")])
NUM = dict(good=lambda r: gen.pick(r, [float(r.uniform(-50, 1000)), int(r.integers(-5, 50))]), bad=["abc", [], {}])


def null(spec):
    return dict(good=spec["good"], bad=[b for b in spec["bad"] if b is not None], null=True)


def opt(spec):
    return dict(spec, opt=True)


SPEC = {
    ("processes",): POSINT,
    ("data", "format"): dict(good=lambda r: gen.pick(r, ["presto", "sigproc"]), bad=["Presto", "psrfits", "", None, 3]),
    ("data", "fmin"): null(POSNUM), ("data", "fmax"): null(POSNUM), ("data", "nchans"): null(POSINT),
    ("dmselect", "min"): dict(NUM, null=True), ("dmselect", "max"): dict(NUM, null=True),
    ("dmselect", "dmsinb_max"): null(POSNUM),
    ("dereddening", "rmed_width"): POSNUM, ("dereddening", "rmed_minpts"): dict(POSNUM, good=lambda r: int(r.integers(3, 300))),
    ("clustering", "radius"): POSNUM,
    ("harmonic_flagging", "denom_max"): POSINT, ("harmonic_flagging", "phase_distance_max"): POSNUM,
    ("harmonic_flagging", "dm_distance_max"): POSNUM, ("harmonic_flagging", "snr_distance_max"): POSNUM,
    ("candidate_filters", "dm_min"): dict(NUM, null=True), ("candidate_filters", "snr_min"): dict(NUM, null=True),
    ("candidate_filters", "remove_harmonics"): dict(good=lambda r: bool(r.random() < 0.5), bad=["yes", 3, 0.5, []], null=True),
    ("candidate_filters", "max_number"): null(POSINT),
    ("plot_candidates",): dict(good=lambda r: bool(r.random() < 0.5), bad=["no", 7, None, []]),
}
RSPEC = {
    ("name",): dict(good=lambda r: gen.pick(r, ["short", "a b", ""]), bad=[None, 3, []]),
    ("ffa_search", "period_min"): POSNUM, ("ffa_search", "period_max"): POSNUM,
    ("ffa_search", "bins_min"): POSINT, ("ffa_search", "bins_max"): POSINT,
    ("ffa_search", "fpmin"): opt(POSINT),
    ("ffa_search", "wtsp"): opt(dict(good=lambda r: float(r.uniform(1.01, 3)), bad=[1, 1.0, 0.5, -2.0, "abc", None])),
    ("ffa_search", "ducy_max"): opt(dict(good=lambda r: float(r.uniform(0.01, 0.99)), bad=[0.0, 1.0, 1.5, -0.1, "abc", None])),
    ("find_peaks", "smin"): opt(POSNUM), ("find_peaks", "segwidth"): opt(POSNUM), ("find_peaks", "nstd"): opt(POSNUM),
    ("find_peaks", "minseg"): opt(POSINT), ("find_peaks", "polydeg"): opt(POSNUM), ("find_peaks", "clrad"): opt(POSNUM),
    ("candidates", "bins"): POSINT, ("candidates", "subints"): null(POSINT),
}


def put(d, path, v):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = v


def get(d, path):
    for k in path:
        d = d[k]
    return d


def build(rng, spec):
    d = {}
    for path, s in spec.items():
        if s.get("opt") and rng.random() < 0.5:
            continue
        put(d, path, None if s.get("null") and rng.random() < 0.4 else s["good"](rng))
    return d


def valid(rng):
    c = build(rng, SPEC)
    c["ranges"] = []
    for _ in range(int(rng.integers(1, 5))):
        r = build(rng, RSPEC)
        if "find_peaks" not in r:
            r["find_peaks"] = gen.pick(rng, [{}, None])
        c["ranges"].append(r)
    return c


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and (isinstance(a, bool) == isinstance(b, bool))


@family("accept", quick=400, thorough=6000)
def accept(ctx):
    c = valid(ctx.rng)
    ctx.p(c=c)
    keep = copy.deepcopy(c)
    try:
        v = validate_pipeline_config(c)
        p = Pipeline(copy.deepcopy(c))
    except InvalidPipelineConfig as e:
        ctx.fail("valid-config-rejected", str(e))
    ctx.check(same(c, keep), "config-modified")
    exp = copy.deepcopy(c)
    for r in exp["ranges"]:
        if r["find_peaks"] is None:
            r["find_peaks"] = {}
    ctx.check(same(exp, v), "config-values-changed", f"{v}")
    ctx.check(same(exp, p.config), "config-values-changed", f"{p.config}")
    ctx.count("accepted")
    # the same through a YAML file
    if ctx.rng.random() < 0.3:
        f = os.path.join(ctx.scratch, "c.yaml")
        with open(f, "w") as fo:
            yaml.safe_dump(c, fo)
        ctx.check(same(exp, Pipeline.from_yaml_config(f).config), "yaml-values-changed")
        ctx.count("yaml")


@family("reject", quick=600, thorough=8000)
def reject(ctx):
    """Several one-place damages of one valid configuration."""
    rng = ctx.rng
    c = valid(rng)
    what = []
    for _ in range(5):
        d = copy.deepcopy(c)
        kind = gen.pick(rng, ["value", "value", "value", "missing", "unknown", "section"])
        inr = rng.random() < 0.5
        spec = RSPEC if inr else SPEC
        k = int(rng.integers(len(d["ranges"])))
        tgt = d["ranges"][k] if inr else d
        if inr and tgt["find_peaks"] is None:
            tgt["find_peaks"] = {}
        path = gen.pick(rng, list(spec))
        if kind == "value":
            v = gen.pick(rng, spec[path]["bad"])
            put(tgt, path, copy.deepcopy(v))
        elif kind == "missing":
            path = gen.pick(rng, [q for q in spec if not spec[q].get("opt")])
            par = get(tgt, path[:-1])
            del par[path[-1]]
            v = "<missing>"
        elif kind == "unknown":
            par = get(tgt, path[:-1])
            par[gen.pick(rng, ["foo", path[-1] + "_", path[-1].upper()])] = 1
            v = "<unknown key>"
        else:
            path = (gen.pick(rng, [q[0] for q in spec if len(q) > 1]),)
            if path == ("find_peaks",):
                put(tgt, path, gen.pick(rng, [3, "x", [1]]))
            elif rng.random() < 0.5:
                del tgt[path[0]]
            else:
                put(tgt, path, gen.pick(rng, [None, 3, "x", []]))
            v = "<section>"
        what.append([kind, list(path), repr(v), inr])
        try:
            validate_pipeline_config(d)
        except InvalidPipelineConfig:
            ctx.count("rejected")
            continue
        ctx.fail("invalid-config-accepted", f"{'range ' + str(k) + ' ' if inr else ''}{path}: {kind} {v!r}")
    ctx.p(what=what)
    if rng.random() < 0.2:
        ctx.raises(InvalidPipelineConfig, "pipeline-accepts-invalid", Pipeline, d)


def ranges_for(rng, tsamp, good=True):
    n = int(rng.integers(1, 5)) if rng.random() < 0.8 else int(rng.integers(5, 16))
    edges = np.cumsum(rng.uniform(0.1, 1.0, n + 1)) * 500 * tsamp + 60 * tsamp
    out = []
    for i in range(n):
        a, b = float(edges[i]), float(edges[i + 1])
        mx = int(a / tsamp)     # most bins allowed
        bmin = int(rng.integers(8, max(9, int(mx * 0.98))))
        cb = int(rng.integers(8, max(9, int(mx * 0.98))))
        out.append(gen.small_range(a, b, bmin, bmin + 4, cb, 8, f"r{i}"))
    return out


def damage(rng, rs, tsamp):
    """Returns name of the damage."""
    i = int(rng.integers(len(rs)))
    r = rs[i]
    a = r["ffa_search"]["period_min"]
    kinds = ["bins", "cand"] + (["gap", "overlap", "order", "tiny-gap"] if len(rs) > 1 else [])
    k = gen.pick(rng, kinds)
    if k == "bins":
        r["ffa_search"]["bins_min"] = int(a / tsamp * float(rng.uniform(1.002, 1.5))) + 1
        r["ffa_search"]["bins_max"] = r["ffa_search"]["bins_min"] + 5
    elif k == "cand":
        r["candidates"]["bins"] = int(a / tsamp * float(rng.uniform(1.002, 1.5))) + 1
    else:
        i = int(rng.integers(1, len(rs)))
        p = rs[i]["ffa_search"]
        if k == "gap":
            p["period_min"] = p["period_min"] + 0.3 * (p["period_max"] - p["period_min"])
        elif k == "tiny-gap":
            p["period_min"] = p["period_min"] * (1 + 1e-6)
        elif k == "overlap":
            q = rs[i - 1]["ffa_search"]
            q["period_max"] = q["period_max"] * 1.01
        else:
            rs[i - 1], rs[i] = rs[i], rs[i - 1]
    return k


@family("ranges", quick=800, thorough=12000)
def ranges(ctx):
    rng = ctx.rng
    tsamp = gen.loguniform(rng, 1e-5, 1e-2)
    rs = ranges_for(rng, tsamp)
    try:
        validate_ranges(rs, tsamp)
    except InvalidSearchRange as e:
        ctx.fail("valid-ranges-rejected", str(e))
    ctx.count("ranges_accepted")
    keep = copy.deepcopy(rs)
    k = damage(rng, rs, tsamp)
    ctx.p(k=k, n=len(rs), tsamp=tsamp, p=rs[0]["ffa_search"]["period_min"])
    ctx.raises(InvalidSearchRange, "invalid-ranges-accepted:" + k, validate_ranges, rs, tsamp)
    ctx.count("ranges_rejected")
    # a coarser sampling than all ranges can take
    coarse = max(min(r["ffa_search"]["period_min"] / max(r["ffa_search"]["bins_min"], r["candidates"]["bins"]) for r in keep) * 1.001, tsamp)
    ctx.raises(InvalidSearchRange, "too-coarse-accepted", validate_ranges, keep, coarse)


@family("prepare", quick=120, thorough=1200)
def prepare(ctx):
    """The coarsest of all input files decides, wherever it is in the list."""
    rng = ctx.rng
    tsamp = gen.loguniform(rng, 1e-4, 1e-3)
    n = int(rng.integers(1, 7))
    rs = ranges_for(rng, tsamp)
    fine = tsamp / 4
    coarse_at = int(rng.integers(n))
    files = []
    for i in range(n):
        t = tsamp if i == coarse_at else fine
        d = gen.radio_inf(basename=f"d{i}", nsamp=1000, tsamp=float(t), dm=float(i * 3))
        p = os.path.join(ctx.scratch, f"d{i}.inf")
        with open(p, "w") as f:
            f.write(gen.inf_text(d))
        files.append(p)
    files = [files[i] for i in rng.permutation(n)]
    bad = rng.random() < 0.6
    k = None
    if bad:
        k = damage(rng, rs, tsamp)
    ctx.p(n=n, bad=k, coarse_at=coarse_at, tsamp=tsamp, ranges=len(rs))
    conf = gen.small_config(rs, processes=1)
    pl = Pipeline(conf)
    if bad:
        ctx.raises(InvalidSearchRange, "pipeline-accepts-invalid-ranges:" + k, pl.prepare, files)
    else:
        try:
            pl.prepare(files)
        except InvalidSearchRange as e:
            ctx.fail("valid-ranges-rejected", str(e))
    ctx.count("prepared")


@family("limits", quick=300, thorough=4000)
def limits(ctx):
    """Exact limits: as many bins as samples in the shortest period are allowed, one more is not; ranges that touch exactly are contiguous."""
    rng = ctx.rng
    tsamp = 2.0 ** -int(rng.integers(6, 14)) * gen.pick(rng, [1, 1, 3])
    n = int(rng.integers(1, 4)) if rng.random() < 0.8 else int(rng.integers(4, 13))
    nb = np.cumsum(rng.integers(16, 400, n + 1))
    rs = []
    for i in range(n):
        k = int(nb[i])
        rs.append(gen.small_range(k * tsamp, int(nb[i + 1]) * tsamp, k, k + 4, k, 8, f"r{i}"))
    which = int(rng.integers(n))
    sec, key = gen.pick(rng, [("ffa_search", "bins_min"), ("candidates", "bins")])
    ctx.p(nb=nb.tolist(), tsamp=tsamp, which=which, key=[sec, key])
    try:
        validate_ranges(rs, tsamp)
    except InvalidSearchRange as e:
        ctx.fail("exact-limit-rejected", str(e))
    ctx.count("ranges_accepted")
    rs[which][sec][key] += 1
    ctx.raises(InvalidSearchRange, "one-bin-too-many-accepted", validate_ranges, rs, tsamp)
    rs[which][sec][key] -= 1
    ctx.raises(InvalidSearchRange, "too-coarse-accepted", validate_ranges, rs, float(np.nextafter(tsamp, 1)))
    ctx.count("ranges_rejected")


@family("yaml-numbers", quick=120, thorough=1000)
def yaml_numbers(ctx):
    """YAML reads 1e-3 (no point) as text: options that are converted to numbers accept it, and come out as numbers."""
    rng = ctx.rng
    c = valid(rng)
    names = [(("data", "fmin"), 0), (("data", "fmax"), 0), (("dmselect", "min"), 0), (("dmselect", "max"), 0),
             (("harmonic_flagging", "phase_distance_max"), 0), (("harmonic_flagging", "dm_distance_max"), 0),
             (("harmonic_flagging", "snr_distance_max"), 0), (("candidate_filters", "dm_min"), 0), (("candidate_filters", "snr_min"), 0),
             (("ffa_search", "period_min"), 1), (("ffa_search", "period_max"), 1), (("ffa_search", "wtsp"), 1), (("find_peaks", "smin"), 1),
             (("find_peaks", "segwidth"), 1), (("find_peaks", "nstd"), 1), (("find_peaks", "clrad"), 1)]
    exp = copy.deepcopy(c)
    for r in exp["ranges"] + c["ranges"]:
        if r["find_peaks"] is None:
            r["find_peaks"] = {}
    used = []
    for i in rng.permutation(len(names))[:int(rng.integers(1, 6))]:
        path, inr = names[i]
        txt = gen.pick(rng, ["2e0", "15e-1", "3e2", "25e-1"])
        put(c["ranges"][0] if inr else c, path, txt)
        put(exp["ranges"][0] if inr else exp, path, float(txt))
        used.append([path, txt])
    ctx.p(used=used)
    f = os.path.join(ctx.scratch, "c.yaml")
    with open(f, "w") as fo:
        fo.write(yaml.safe_dump(c, sort_keys=bool(rng.random() < 0.5)))
    try:
        p = Pipeline.from_yaml_config(f)
    except InvalidPipelineConfig as e:
        ctx.fail("valid-config-rejected", f"{used}: {e}")
    ctx.check(same(exp, p.config), "yaml-values-changed", f"{used}")
    for path, txt in used:
        v = get(p.config["ranges"][0] if path[0] in ("ffa_search", "find_peaks") else p.config, path)
        ctx.check(type(v) is float, "yaml-values-changed", f"{path}: {v!r}")


@family("example", quick=1, thorough=1)
def example(ctx):
    import riptide
    f = os.path.join(os.path.dirname(riptide.__file__), "pipeline", "config", "example.yaml")
    with open(f) as fo:
        c = yaml.safe_load(fo)
    ctx.p(c=c)
    try:
        p = Pipeline.from_yaml_config(f)
    except InvalidPipelineConfig as e:
        ctx.fail("example-rejected", str(e))
    ctx.check(same(c, p.config), "config-values-changed")
