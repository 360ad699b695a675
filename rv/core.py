"""
Case contexts, oracles' verdict plumbing, shard entry point.

A property module (rv/props/cNN.py) defines
    PROP   : id
    RULE   : how cases are made / what is non-trivial   (goes to evidence)
    LEVEL  : level of the check
    VARIANT: build variant ("normal" by default)
    ENV    : extra environment of the shards (optional)
    MIN    : {counter: minimum over the whole run} (monitor was really reached)
and registers families of cases with @family(name, quick=.., thorough=..).
A family function receives a Ctx and must decide its own verdict with
ctx.check / ctx.fail.
"""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
import zlib

import numpy as np


class Violation(Exception):
    def __init__(self, key, msg, witness=None):
        super().__init__(msg)
        self.key = key
        self.msg = msg
        self.witness = witness or {}


class Family:
    def __init__(self, name, fn, quick, thorough, timeout):
        self.name, self.fn, self.quick, self.thorough, self.timeout = name, fn, quick, thorough, timeout

    def count(self, tier):
        return self.quick if tier == "quick" else self.thorough


class Registry:
    def __init__(self):
        self.families = {}

    def __call__(self, name, quick, thorough=None, timeout=None):
        def deco(fn):
            self.families[name] = Family(name, fn, quick, thorough if thorough is not None else quick * 10, timeout)
            return fn
        return deco


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:80]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x[:24]] + (["..."] if len(x) > 24 else [])
    if isinstance(x, (bool, int, str)) or x is None:
        return x if not isinstance(x, str) else x[:2000]
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return jsonable(float(x))
    if isinstance(x, np.ndarray):
        return {"ndarray": list(x.shape), "dtype": str(x.dtype), "head": jsonable(x.ravel()[:12].tolist())}
    return repr(x)[:200]


class Ctx:
    def __init__(self, prop, family, index, seed, tier):
        self.prop, self.family, self.index, self.seed, self.tier = prop, family, index, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(f"{prop}/{family}".encode()), index])
        self.params = {}
        self.counters = {}
        self.nontrivial = True
        self.soft = []  # violations that do not stop the case
        self._scratch = None

    # ---- description of the case
    def p(self, **kw):
        """Record parameters of the case (also its signature)."""
        self.params.update(kw)

    def trivial(self):
        self.nontrivial = False

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def signature(self):
        s = json.dumps(jsonable(self.params), sort_keys=True, default=str)
        return hashlib.sha1((self.family + s).encode()).hexdigest()[:16]

    @property
    def scratch(self):
        if self._scratch is None:
            base = os.environ.get("RV_SCRATCH") or None
            self._scratch = tempfile.mkdtemp(prefix="case-", dir=base)
        return self._scratch

    def close(self):
        if self._scratch:
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None

    # ---- verdicts
    def fail(self, key, msg, **witness):
        raise Violation(key, msg, witness)

    def check(self, cond, key, msg="", **witness):
        self.count("assertions")
        if not bool(cond):
            self.fail(key, msg or key, **witness)

    def check_soft(self, cond, key, msg="", **witness):
        """As check, but the case goes on (used for known findings)."""
        self.count("assertions")
        if not bool(cond):
            self.soft.append(Violation(key, msg or key, witness))

    def raises(self, exc, key, fn, *a, **kw):
        """fn must raise one of exc."""
        self.count("assertions")
        try:
            r = fn(*a, **kw)
        except exc:
            self.count("errors_rejected")
            return
        except Exception as e:
            self.fail(key, f"raised {type(e).__name__}: {e} instead of {exc}")
        self.fail(key, f"did not raise {exc}; returned {jsonable(r)}")

    def defaults(self, fn, args, table, same, key="default-values"):
        """Options left out mean the same as options given with the value in the signature: a random part of the
        table is left out of one call and given in the other. same(a, b) compares two results."""
        keep = {k: v for k, v in table.items() if self.rng.random() < 0.3}
        seed = int(self.rng.integers(2**31))
        np.random.seed(seed)
        a = fn(*args, **keep)
        np.random.seed(seed)
        b = fn(*args, **table)
        self.check(same(a, b), key, f"{getattr(fn, '__name__', fn)} without {sorted(set(table) - set(keep))} differs from the call with {table}")
        self.count("default_calls")

    def equal(self, got, exp, key, msg="", **witness):
        got = np.asarray(got)
        exp = np.asarray(exp)
        self.count("assertions")
        if got.shape != exp.shape:
            self.fail(key, f"{msg} shape {got.shape} instead of {exp.shape}", **witness)
        ok = (got == exp)
        if got.dtype.kind in "fc" and exp.dtype.kind in "fc":
            ok = ok | (np.isnan(got) & np.isnan(exp))
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))
            i = tuple(bad[0])
            g, e = np.atleast_1d(got)[i], np.atleast_1d(exp)[i]
            self.fail(key, f"{msg} {len(bad)}/{ok.size} elements differ, first at {i}: {g!r} instead of {e!r}", **witness)

    def close_to(self, got, exp, tol, key, msg="", **witness):
        """|got - exp| <= tol elementwise (tol scalar or array)."""
        got = np.asarray(got, dtype=np.float64)
        exp = np.asarray(exp, dtype=np.float64)
        self.count("assertions")
        if got.shape != exp.shape:
            self.fail(key, f"{msg} shape {got.shape} instead of {exp.shape}", **witness)
        d = np.abs(got - exp)
        ok = (d <= tol)
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))
            i = tuple(bad[0])
            g, e = np.atleast_1d(got)[i], np.atleast_1d(exp)[i]
            self.fail(key, f"{msg} {len(bad)}/{d.size} elements off, first at {i}: {g!r} instead of {e!r} "
                           f"(max error {np.nanmax(d):.3e})", **witness)


def classify_exception(e, tb_text, tree):
    """Violation key for an exception that escaped a family function, or None
    if the harness itself is to blame."""
    frames = traceback.extract_tb(e.__traceback__)
    inside = [f for f in frames if f.filename.startswith(tree)]
    if inside:
        f = inside[-1]
        return f"exception:{type(e).__name__}@{f.name}"
    if isinstance(e, (ImportError, NameError)):
        return None
    if isinstance(e, AttributeError) and "module" in str(e):
        return None
    if isinstance(e, MemoryError):
        return None
    return f"oracle-exception:{type(e).__name__}"


def run_case(mod, fam, index, seed, tier, tree):
    """Returns a result dict."""
    ctx = Ctx(mod.PROP, fam.name, index, seed, tier)
    res = {"family": fam.name, "index": index, "viol": [], "error": None}
    t0 = time.time()
    try:
        np.random.seed(int(ctx.rng.integers(2**31)))
        fam.fn(ctx)
    except Violation as v:
        res["viol"].append({"key": v.key, "msg": v.msg, "witness": jsonable(v.witness)})
    except Exception as e:
        tb = traceback.format_exc()
        key = classify_exception(e, tb, tree)
        if key is None:
            res["error"] = tb[-3000:]
        else:
            res["viol"].append({"key": key, "msg": f"{type(e).__name__}: {e}", "witness": {"traceback": tb[-1800:]}})
    finally:
        ctx.close()
    for v in ctx.soft:
        res["viol"].append({"key": v.key, "msg": v.msg, "witness": jsonable(v.witness)})
    res["sig"] = ctx.signature()
    res["nontrivial"] = bool(ctx.nontrivial)
    res["counters"] = ctx.counters
    res["params"] = jsonable(ctx.params)
    res["wall"] = time.time() - t0
    return res


def tasks_of(mod, tier, seed):
    scale = float(os.environ.get("RV_SCALE", "1"))
    tasks = []
    for fam in mod.family.families.values():
        n = fam.count(tier)
        n = max(1, int(round(n * scale))) if n else 0
        tasks += [(fam.name, i) for i in range(n)]
    rng = np.random.default_rng([seed, 77])
    order = rng.permutation(len(tasks))
    return [tasks[i] for i in order]


def load_props(prop):
    import importlib
    return importlib.import_module(f"rv.props.{prop.lower()}")


def import_riptide(tree):
    sys.path.insert(0, tree)
    import riptide
    import riptide.libcpp
    for m in (riptide, riptide.libcpp):
        if not m.__file__.startswith(tree):
            raise RuntimeError(f"imported {m.__file__}, wanted {tree}")
    return riptide


def shard_main(argv):
    """rv.core shard entry: PROP TIER SEED SHARD NSHARDS TREE OUTDIR [FAMILY INDEX]"""
    import faulthandler
    prop, tier, seed, shard, nshards, tree, outdir = argv[:7]
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    # (re)starting position and deadline
    start = int(os.environ.get("RV_START", "0"))
    deadline = float(os.environ.get("RV_DEADLINE", "1e18"))
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    import_riptide(tree)
    mod = load_props(prop)
    fams = mod.family.families
    if len(argv) > 7:
        todo = [(argv[7], int(argv[8]))]
        mine = list(enumerate(todo))
    else:
        todo = tasks_of(mod, tier, seed)
        mine = [(k, t) for k, t in enumerate(todo) if k % nshards == shard and k >= start]
    fout = open(os.path.join(outdir, f"res-{shard}.jsonl"), "a")
    journal = os.path.join(outdir, f"cur-{shard}.json")
    if hasattr(mod, "setup"):
        mod.setup()
    for k, (name, i) in mine:
        if time.time() > deadline:
            fout.write(json.dumps({"stopped": k}) + "\n")
            break
        with open(journal + ".new", "w") as f:
            json.dump({"k": k, "family": name, "index": i, "t": time.time()}, f)
        os.replace(journal + ".new", journal)      # whoever looks sees a whole entry
        r = run_case(mod, fams[name], i, seed, tier, tree)
        fout.write(json.dumps(r) + "\n")
        fout.flush()
    fout.write(json.dumps({"done": shard}) + "\n")
    fout.flush()
    fout.close()
    try:
        os.remove(journal)
    except OSError:
        pass
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    shard_main(sys.argv[1:])
