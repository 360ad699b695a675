"""Mutation run: small edits of riptide's sources, judged by the checks of the properties the file is about.

    mutate.py list [file regex]            number of mutants per file
    mutate.py again OLD.jsonl NEW.jsonl [file regex]   the survivors of OLD once more (SCALE=1)
    mutate.py run OUT.jsonl N [file regex] [seed]   N random mutants (not yet in OUT), J workers, survivors then run the 24 tests
"""
import ast
import json
import os
import random
import re
import subprocess
import sys
import threading
import time

V = "/verif"
R = "/repo"
W = os.environ.get("MUT_WORK", "/tmp/mut")
MAP = {
    "cpp/kernels.hpp": "C03 C05 C02 C09 C01", "cpp/transforms.hpp": "C03 C02 C01", "cpp/snr.hpp": "C05 C09 C01", "cpp/downsample.hpp": "C06 C09 C01",
    "cpp/running_median.hpp": "C07 C01 C11", "cpp/periodogram.hpp": "C08 C09 C01", "cpp/python_bindings.cpp": "C03 C05 C06 C07 C08 C09 C02 C01",
    "cpp/block.hpp": "C03 C01", "libffa.py": "C04 C03 C05 C06 C30", "ffautils.py": "C08 C26", "search.py": "C09 C08 C02", "folding.py": "C10 C28",
    "time_series.py": "C11 C10 C12 C13 C14 C30", "metadata.py": "C15 C14 C11 C12 C13", "serialization.py": "C14 C15", "running_medians.py": "C07 C11",
    "clustering.py": "C17 C16 C21", "peak_detection.py": "C16 C27", "periodogram.py": "C14 C16 C08 C33", "candidate.py": "C28 C14 C23 C33",
    "reading/presto.py": "C12 C19", "reading/sigproc.py": "C13", "apps/rseek.py": "C27 C34", "pipeline/pipeline.py": "C21 C22 C28 C23 C24 C25 C29 C31 C34",
    "pipeline/dmiter.py": "C18 C19 C24", "pipeline/harmonic_testing.py": "C20 C21", "pipeline/peak_cluster.py": "C21 C22 C28",
    "pipeline/worker_pool.py": "C24 C29 C28 C31", "pipeline/config_validation.py": "C25", "timing.py": "C34 C02",
}


def py_mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []
    skip = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in ("__repr__", "__str__"):
            skip.append(span(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(span(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "log":
            skip.append(span(n))
        if isinstance(n, ast.Raise):
            for c in ast.iter_child_nodes(n):
                skip.append(span(c))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__name__" in ast.dump(n.test):
            skip.append(span(n))
        if isinstance(n, ast.JoinedStr):
            skip.append(span(n))

    def add(a, z, new, kind):
        if any(s <= a and z <= e for s, e in skip):
            return
        out.append((a, z, new, kind))
    OPS = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
           ast.In: ["not in"], ast.NotIn: ["in"]}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            lefts = [n.left] + n.comparators
            for l, op, r in zip(lefts, n.ops, lefts[1:]):
                for new in OPS.get(type(op), []):
                    add(span(l)[1], span(r)[0], f" {new} ", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, z = span(n.left)[1], span(n.right)[0]
            mid = b[a:z].decode()
            m = re.search(r"(\*\*|//|[-+*/%&|])", mid)
            if m:
                add(a, z, mid[:m.start()] + BIN[type(n.op)] + mid[m.end():], "bin")
        elif isinstance(n, ast.BoolOp):
            for l, r in zip(n.values, n.values[1:]):
                a, z = span(l)[1], span(r)[0]
                mid = b[a:z].decode()
                w = "or" if isinstance(n.op, ast.And) else "and"
                add(a, z, re.sub(r"\b(and|or)\b", w, mid), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, z = span(n)
            add(a, span(n.operand)[0], "", "unary")
        elif isinstance(n, ast.Constant) and span(n) not in doc:
            a, z = span(n)
            v = n.value
            if v is True or v is False:
                add(a, z, repr(not v), "const")
            elif isinstance(v, int):
                add(a, z, repr(v + 1), "const")
                if v:
                    add(a, z, repr(v - 1), "const")
            elif isinstance(v, float):
                add(a, z, repr(v * 1.2 + (1.0 if v == 0 else 0)), "const")
            elif v is None:
                pass
            elif isinstance(v, str) and v and not any(s == a for s, e in doc):
                add(a, z, repr(v + "x"), "str")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is None:
                    continue
                s0, e0 = span(k)
                tail = b[e0:e0 + 2].decode(errors="replace")
                m = re.match(r",\s?", tail)
                add(s0, e0 + (len(m.group()) if m else 0), "", "kwdel")
            f = b[slice(*span(n.func))].decode()
            sw = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "round": "int", "any": "all", "all": "any", "int": "round"}
            base = f.split(".")[-1]
            if base in sw:
                a, z = span(n.func)
                new = sw[base] if f == base else f[:-len(base)] + sw[base]
                if new.endswith(".int"):
                    new = new[:-4] + ".floor"
                add(a, z, new, "func")
            if base in ("copy", "strip", "sort", "sorted", "abs", "float", "bool", "tuple", "list", "asarray") and (n.args or isinstance(n.func, ast.Attribute)):
                arg = n.args[0] if n.args else n.func.value
                add(*span(n), b[slice(*span(arg))].decode(), "unwrap")
        elif isinstance(n, ast.If):
            add(*span(n.test), "not (" + b[slice(*span(n.test))].decode() + ")", "if")
        elif isinstance(n, ast.IfExp):
            add(*span(n.test), "not (" + b[slice(*span(n.test))].decode() + ")", "if")
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                add(*span(c), "True", "compif")
        elif isinstance(n, (ast.Break,)):
            add(*span(n), "continue", "break")
        elif isinstance(n, ast.Continue):
            add(*span(n), "break", "continue")
        elif isinstance(n, ast.Raise):
            add(*span(n), "pass", "raise")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and span(n) not in doc:
            if isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                pass
            else:
                add(*span(n), "pass", "stmt")
            if isinstance(n, ast.AugAssign):
                a, z = span(n.target)[1], span(n.value)[0]
                mid = b[a:z].decode()
                add(a, z, mid.replace("+=", "-=") if "+=" in mid else mid.replace("-=", "+=").replace("*=", "/=").replace("/=", "*="), "aug")
        elif isinstance(n, ast.Slice):
            pass
    res = []
    for a, z, new, kind in out:
        s = (b[:a] + new.encode() + b[z:]).decode()
        if s == src:
            continue
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        line = src.encode()[:a].count(b"\n") + 1
        res.append((line, kind, b[a:z].decode(), new, s))
    return res


def cpp_mutants(src):
    res = []
    pos = 0
    incomment = False
    for ln, line in enumerate(src.split("\n"), 1):
        start = pos
        pos += len(line) + 1
        code = line
        if incomment:
            if "*/" in line:
                incomment = False
            continue
        if line.strip().startswith("/*"):
            incomment = "*/" not in line
            continue
        if line.strip().startswith(("//", "#", "*")) or '"' in line and ("R\"" in line or "m.def" in line):
            continue
        code = line.split("//")[0]

        def add(a, z, new, kind):
            res.append((ln, kind, src[start + a:start + z], new, src[:start + a] + new + src[start + z:]))
        for m in re.finditer(r"(?<![<>=!+\-*/&|])(<=|>=|==|!=|<|>)(?![<>=])", code):
            if re.search(r"(template|static_cast|unique_ptr|vector|array_t|py::|std::\w+<|#include)", code):
                continue
            rep = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}[m.group()]
            add(m.start(), m.end(), rep, "cmp")
        for m in re.finditer(r"(?<=[\w)\]\s])(\+|-|\*|/|%)(?=\s|\w|\()", code):
            if m.group() == "*" and re.search(r"(float|double|size_t|T|const)\s*\*", code[:m.end()]):
                continue
            if re.search(r"[+\-]$", code[:m.start()]) or code[m.end():m.end() + 1] in "+-=>":
                continue
            add(m.start(), m.end(), {"+": "-", "-": "+", "*": "/", "/": "*", "%": "*"}[m.group()], "bin")
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*|\d+)(?![\w.])", code):
            v = m.group()
            add(m.start(), m.end(), (str(int(v) + 1) if v.isdigit() else repr(float(v) * 1.2 + (1.0 if float(v) == 0 else 0))), "const")
            if v.isdigit() and int(v) > 0:
                add(m.start(), m.end(), str(int(v) - 1), "const")
        for a, c in (("floor", "ceil"), ("ceil", "floor"), ("std::min", "std::max"), ("std::max", "std::min"), ("round", "floor"), ("double", "float"),
                     ("&&", "||"), ("||", "&&"), ("+=", "-="), ("++", "--")):
            for m in re.finditer(r"(?<!\w)" + re.escape(a) if a[0].isalpha() else re.escape(a), code):
                add(m.start(), m.end(), c, "tok")
        st = code.strip()
        if st.endswith(";") and not re.match(r"(return|const|size_t|double|float|auto|using|typedef|std::|py::|template|public|private|}|Block|for)", st) or st.startswith("throw"):
            i = code.find(st)
            add(i, i + len(st), ";", "stmt")
    return res


def mutants(rel):
    with open(f"{R}/riptide/{rel}") as f:
        src = f.read()
    return py_mutants(src) if rel.endswith(".py") else cpp_mutants(src)


lock = threading.Lock()


def sh(cmd, cwd, env=None, timeout=700):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"


def judge(k, rel, text, scale):
    """worker k: apply, run checks, tests for survivors"""
    mv, mr = f"{W}/v{k}", f"{W}/r{k}"
    path = f"{mr}/riptide/{rel}"
    orig = open(f"{R}/riptide/{rel}").read()
    try:
        with open(path, "w") as f:
            f.write(text)
        rc, out = sh(["bash", "-c", f"cd {mr} && ({'/opt/venv/bin/python setup.py -q build_ext --inplace --force &&' if not rel.endswith('.py') else ''} "
                      f"PYTHONPATH={mr} timeout 120 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider riptide/tests)"], mr)
        if rc:
            return "tests", "", out[-200:], []
        env = dict(os.environ, RV_REPO=mr, RV_SCALE=str(scale), RV_SHARDS="2", VERIF_SEED="1", VERIF_TIER="quick")
        notes = []
        for p in MAP[rel].split():
            rc, out = sh(["timeout", "400", f"{mv}/check.py", p], mv, env)
            if rc == 1:
                why = next((ln for ln in out.splitlines() if ln.startswith("  [")), "")[:160]
                return "caught", p, why, notes
            if "build failed" in out:
                return "nobuild", p, "", notes
            if rc != 0:
                notes.append([p, rc, out[-300:]])
        return "SURVIVED", "", "", notes
    finally:
        with open(path, "w") as f:
            f.write(orig)


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        for rel in MAP:
            if re.search(sys.argv[2] if len(sys.argv) > 2 else ".", rel):
                print(rel, len(mutants(rel)))
        return
    want = None
    if cmd == "again":
        want = set()
        for ln in open(sys.argv[2]):
            d = json.loads(ln)
            if d["status"] == "SURVIVED":
                want.add((d["file"], d["kind"], d["old"], d["new"], d["line"]))
        sys.argv[2:4] = [sys.argv[3], "99999"]
    outp, n = sys.argv[2], int(sys.argv[3])
    rx = sys.argv[4] if len(sys.argv) > 4 else "."
    rng = random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1)
    J = int(os.environ.get("J", "3"))
    scale = float(os.environ.get("SCALE", "0.3"))
    done = set()
    if os.path.exists(outp):
        for ln in open(outp):
            d = json.loads(ln)
            done.add((d["file"], d["line"], d["kind"], d["old"], d["new"]))
    todo = []
    for rel in MAP:
        if re.search(rx, rel):
            for m in mutants(rel):
                if want is not None and not any((rel, m[1], m[2], m[3], m[0] + i) in want for i in range(-6, 7)):
                    continue
                if "rror" in m[2] and m[1] in ("str", "kwdel") or "log" in m[2] and m[1] == "str":
                    continue
                if (rel, m[0], m[1], m[2], m[3]) not in done:
                    todo.append((rel, m))
    rng.shuffle(todo)
    todo = todo[:n]
    print(len(todo), "mutants", flush=True)
    for k in range(J):
        for d, s in ((f"{W}/v{k}", V), (f"{W}/r{k}", R)):
            subprocess.run(["rm", "-rf", d], check=True)
            subprocess.run(["cp", "-a", s, d], check=True)
    it = iter(todo)

    def work(k):
        while True:
            with lock:
                t = next(it, None)
            if t is None:
                return
            rel, (line, kind, old, new, text) = t
            t0 = time.time()
            try:
                st, p, why, notes = judge(k, rel, text, scale)
            except Exception as e:
                st, p, why, notes = "error", "", repr(e), []
            with lock, open(outp, "a") as f:
                f.write(json.dumps(dict(file=rel, line=line, kind=kind, old=old, new=new, status=st, prop=p, why=why, notes=notes, t=round(time.time() - t0))) + "\n")
    ths = [threading.Thread(target=work, args=(k,)) for k in range(J)]
    [t.start() for t in ths]
    [t.join() for t in ths]


if __name__ == "__main__":
    main()
