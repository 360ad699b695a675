"""C15 Metadata contract."""
import collections
import decimal
import fractions
import pathlib

import numpy as np
from astropy.coordinates import SkyCoord
from riptide import Metadata, TimeSeries

from rv import gen
from rv.core import Registry

PROP = "C15"
LEVEL = "exploration"
RULE = ("Random metadata dictionaries: reserved keys valid / absent / None / invalid in type or sign, extra keys with serialisable "
        "and non-serialisable values, non-string keys. Oracle: the documented table. Distinct by dictionary.")
MIN = {"accepted": 1500, "errors_rejected": 1500}
family = Registry()

SKY = SkyCoord(10.0, -20.0, unit="deg", frame="icrs")
RESERVED = ["source_name", "skycoord", "dm", "mjd", "tobs", "fname"]
VALID = {
    "source_name": ["", "J0000", "x" * 100, None], "skycoord": [SKY, None], "dm": [0.0, 1e-9, 1e4, np.float64(3.5), None],
    "mjd": [0.0, 59000.1, None], "tobs": [1e-6, 3600.0, np.float64(2.0), None], "fname": ["/a/b", "", None],
}
INVALID = {
    "source_name": [3, 2.5, b"x", ["a"], SKY, True], "skycoord": ["10 20", (1, 2), 3.0, {"ra": 1}],
    "dm": [-1e-9, -5.0, "3", 7, [1.0], np.float32(1.0), float("nan")], "mjd": [-1.0, "59000", 5, float("nan")],
    "tobs": [0.0, -1.0, "1", 1, float("nan")], "fname": [3, 1.5, ["x"], SKY],
}
ODD = [pathlib.PurePath("/a/b"), np.float32(2.0), np.int64(3), decimal.Decimal(3), fractions.Fraction(7, 2), bytearray(b"ab"), np.zeros(1), (1.0,), {}, [],
       object(), complex(1, 0), np.bool_(True), frozenset(), b"/a/b", memoryview(b"x"), range(3), collections.UserString("abc")]
for _k in RESERVED:
    INVALID[_k] += [pathlib.Path("/a/b")] + ODD
INVALID["dm"] += [True, False, -np.inf, np.float64(-1), 0, 2**70]
INVALID["mjd"] += [True, 0, 59000, -np.inf, np.float64(-1)]
INVALID["tobs"] += [True, -0.0, -np.inf, np.float64(0), 10]
INVALID["skycoord"] += ["", 0, False, SKY.ra, (SKY,), [SKY]]
INVALID["source_name"] += [0, False, ("a",), np.str_]
INVALID["fname"] += [0, False, b"", 10]
EXTRA_OK = [1, 2.5, "s", None, True, [1, 2, [3]], {"a": {"b": [1, None]}}, "", 0, float(1e300), (1, 2), (), ("a", (1.5, [None])), [(1, 2), (3, 4)], {"a": (1,)}, -0.0, float("inf"), "é ☃", "\ud800", 10**30, False, {1: 2, "b": 3}]
EXTRA_BAD = [object(), {1, 2}, complex(1, 1), b"bytes", SKY, np.arange(3), [object()], {"a": {1, 2}}, {(1, 2): 3}, {"a": {b"k": 1}}, [{"a": {(): 1}}], {frozenset(): 0},
             np.float32(1.5), np.int64(3), np.bool_(True), [np.float32(1)], {"a": np.int8(1)}, range(3), iter([1]), decimal.Decimal(1), fractions.Fraction(1, 3),
             pathlib.PurePath("x"), bytearray(b"x"), memoryview(b"x"), collections.deque([1]), lambda: 1, int, NotImplemented, ...]
_LOOP = [1]
_LOOP.append(_LOOP)
_RING = {"a": {}}
_RING["a"]["b"] = _RING
EXTRA_BAD += [_LOOP, _RING]


def base(rng):
    m = {}
    for k in RESERVED:
        if rng.random() < 0.5:
            m[k] = gen.pick(rng, VALID[k])
    for n in range(int(rng.integers(0, 4))):
        m[gen.pick(rng, ["a", "extra", "tsamp", "nbits", "x y", "raj", "dm_error", "Source_name"]) + (str(n) if rng.random() < 0.5 else "")] = \
            gen.pick(rng, EXTRA_OK)
    if rng.random() < 0.15:
        for n in range(int(gen.pick(rng, [8, 12, 16, 17, 30, 60, 200]))):
            m[f"key{n}"] = gen.pick(rng, EXTRA_OK)
    m = {k: m[k] for k in [list(m)[i] for i in rng.permutation(len(m))]}
    return m


@family("valid", quick=2500, thorough=20000)
def valid(ctx):
    rng = ctx.rng
    m = base(rng)
    ctx.p(m=repr(m))
    keep = dict(m)
    md = Metadata(m)
    ctx.check(dict(m) == keep, "argument-modified")
    ctx.check(isinstance(md, dict), "not-a-dict")
    for k, v in m.items():
        ctx.check(md[k] is v or (md[k] == v and type(md[k]) is type(v) and repr(md[k]) == repr(v)), "value-changed", f"{k}: {md[k]!r} instead of {v!r}")
    for k in RESERVED:
        ctx.check(k in md, "reserved-key-missing", k)
        if k not in m:
            ctx.check(md[k] is None, "reserved-key-default", f"{k} = {md[k]!r}")
    ctx.check(set(md) == set(m) | set(RESERVED), "unexpected-keys", f"{set(md) ^ (set(m) | set(RESERVED))}")
    d = md.to_dict()
    ctx.check(d == dict(md) and type(d) is dict, "to-dict")
    m2 = Metadata.from_dict(d)
    ctx.check(dict(m2) == dict(md), "from-dict")
    d["dm"] = "changed"
    ctx.check(md["dm"] != "changed", "to-dict-aliases")
    # later objects do not inherit anything
    e = Metadata({})
    ctx.check(set(e) == set(RESERVED) and all(v is None for v in e.values()), "state-leaks-between-objects", f"{dict(e)}")
    e2 = Metadata()
    ctx.check(set(e2) == set(RESERVED) and all(v is None for v in e2.values()), "state-leaks-between-objects", f"{dict(e2)}")
    e2["dm"] = 5.0
    ctx.check(Metadata()["dm"] is None, "state-leaks-between-objects")
    str(md)
    ctx.count("accepted")


@family("invalid", quick=2500, thorough=20000)
def invalid(ctx):
    rng = ctx.rng
    m = base(rng)
    k = gen.pick(rng, RESERVED + ["extra", "extra"])
    if k == "extra":
        m["extra_thing"] = gen.pick(rng, EXTRA_BAD)
    else:
        m[k] = gen.pick(rng, INVALID[k])
    ctx.p(m=repr(m)[:300], k=k)
    ctx.raises(Exception, f"invalid-accepted:{k}", Metadata, m)
    if k != "tobs":
        # nothing built on top accepts it either (tobs is computed)
        ctx.raises(Exception, f"invalid-accepted:{k}", TimeSeries, np.zeros(4), 1.0, metadata=m)
    ctx.raises(Exception, f"invalid-accepted:{k}", Metadata.from_dict, m)
    # a Metadata object damaged after it was made is no better than a dictionary
    key = "extra_thing" if k == "extra" else k
    md = Metadata({q: v for q, v in m.items() if q != key})
    md[key] = m[key]
    ctx.raises(Exception, f"damaged-object-accepted:{k}", Metadata, md)
    if k != "tobs":
        ts = TimeSeries(np.arange(8.0), 1.0)
        ts.metadata[key] = m[key]
        ctx.raises(Exception, f"damaged-object-accepted:{k}", gen.pick(rng, [ts.normalise, lambda: ts.downsample(2.0), lambda: TimeSeries(np.zeros(4), 1.0, metadata=ts.metadata)]))
