#!/usr/bin/env python3
"""Mechanical mutants of the code under test, to find what the checks miss.

usage: mutate.py gen OUTDIR          list the mutants (OUTDIR/mutants.json)
       mutate.py run OUTDIR [JOBS [FILES [STEP]]]
           per mutant: the first checks of its file, then the repository's tests, then its other checks;
           reports the mutants that nothing notices (every STEP-th mutant of FILES, comma separated)

Works on copies under OUTDIR; /repo is only read.
"""
import ast
import concurrent.futures as cf
import hashlib
import json
import os
import queue
import shutil
import subprocess
import sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = {
    "generators/amplitude_modulated.py": "C15 | C29 C26",
    "generators/frequency_modulated.py": "C16 | C29 C26",
    "generators/analytic_signals.py": "C17 C19 | C29 C26",
    "generators/noise.py": "C18 | C29 C26",
    "generators/misc.py": "C20 C19 | C29 C26",
    "generators/utils.py": "C20 | C29 C26",
    "processing/plotifl.py": "C27 | C26 C29",
    "processing/base.py": "C04 C05 C01 | C02 C26 C27 C06 C29",
    "processing/cohen.py": "C04 C01 C02 C03 C30 | C05 C26 C27 C06 C29",
    "processing/time_domain.py": "C21 | C26 C29",
    "processing/freq_domain.py": "C22 C21 | C26 C29",
    "processing/postprocessing.py": "C23 C24 | C26 C29",
    "processing/reassigned.py": "C09 | C05 C26 C29",
    "processing/linear.py": "C03 C14 | C05 C26 C27 C06 C29",
    "processing/affine.py": "C12 C13 | C05 C26 C27 C06 C29",
    "processing/ambiguity.py": "C10 C11 | C05 C26 C29",
    "processing/utils.py": "C25 C23 | C09 C12 C26 C29",
    "utils.py": "C25 | C14 C26 C29",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*", "//"], ast.FloorDiv: ["/"], ast.Mod: ["*"],
       ast.Pow: ["*"], ast.MatMult: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}


def mutants_of(rel):
    src = open(os.path.join(REPO, "tftb", rel), encoding="utf8").read()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l))

    def pos(line, col):
        return offs[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            docs.add(n.body[0].value)
    raising, main = set(), 10 ** 9
    for n in tree.body:
        if isinstance(n, ast.If) and "__main__" in ast.dump(n.test):
            raising.update(ast.walk(n))
            main = n.lineno
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Assert)) or (isinstance(n, ast.Call) and getattr(n.func, "attr", "") == "warn"):
            raising.update(ast.walk(n))
    out = []

    def put(a, b, new, n):
        if src[a:b] != new:
            out.append(dict(file=rel, line=n.lineno, a=a, b=b, old=src[a:b], new=new))

    for n in ast.walk(tree):
        if n in docs or n in raising:
            if not isinstance(n, ast.Raise) or n.lineno >= main:
                continue
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                a, b = span(left)[1], span(right)[0]
                mid = src[a:b]
                for new in CMP.get(type(op), []):
                    body = mid.strip("() \n")
                    put(a, b, mid.replace(body, new, 1), n)
                left = right
        elif isinstance(n, ast.BinOp):
            a, b = span(n.left)[1], span(n.right)[0]
            mid = src[a:b]
            body = mid.strip("() \\\n")
            for new in BIN.get(type(n.op), []):
                put(a, b, mid.replace(body, new, 1), n)
        elif isinstance(n, ast.AugAssign):
            a, b = span(n.target)[1], span(n.value)[0]
            for new in BIN.get(type(n.op), []):
                put(a, b, " %s= " % new, n)
            put(a, b, " = ", n)
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            v = n.value
            if v is True or v is False:
                put(a, b, str(not v), n)
            elif isinstance(v, int):
                put(a, b, str(v + 1), n)
                put(a, b, str(v - 1), n)
            elif isinstance(v, float):
                put(a, b, repr(v * 1.1 + (v == 0) * 1e-3), n)
            elif isinstance(v, complex):
                put(a, b, "(-%s)" % src[a:b], n)
            elif isinstance(v, str):
                put(a, b, repr(v + "x"), n)
            elif v is None:
                put(a, b, "0", n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            a, b = span(n)
            put(a, b, "(%s)" % src[slice(*span(n.operand))], n)
        elif isinstance(n, ast.BoolOp):
            for l, r in zip(n.values, n.values[1:]):
                a, b = span(l)[1], span(r)[0]
                mid = src[a:b]
                old, new = (" and ", " or ") if isinstance(n.op, ast.And) else (" or ", " and ")
                put(a, b, mid.replace(old, new) if old in mid else new, n)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = span(n.test)
            put(a, b, "(True)", n)
            put(a, b, "(False)", n)
        elif isinstance(n, (ast.Assign, ast.Raise)) or (isinstance(n, ast.Expr) and n not in docs and n.value not in docs):
            a, b = span(n)
            put(a, b, "pass", n)
        elif isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg:
                    a, b = span(k)
                    rest = src[b:]
                    cut = len(rest) - len(rest.lstrip(", "))
                    put(a, b + cut, "", n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and len(n.args) == 1 and not n.keywords:
            if n.func.attr in ("conj", "abs", "real", "floor", "ceil", "round", "rint", "sqrt", "fftshift",
                               "ifftshift", "fix", "angle", "asarray", "ravel", "hypot", "fabs", "int64", "float64"):
                a, b = span(n)
                put(a, b, "(%s)" % src[slice(*span(n.args[0]))], n)
    good = []
    seen = set()
    for m in out:
        t = src[:m["a"]] + m["new"] + src[m["b"]:]
        h = hashlib.sha1(t.encode()).hexdigest()[:10]
        if h in seen:
            continue
        seen.add(h)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        m["id"] = h
        good.append(m)
    return good


def apply(m, root):
    p = os.path.join(root, "tftb", m["file"])
    src = open(os.path.join(REPO, "tftb", m["file"]), encoding="utf8").read()
    with open(p, "w", encoding="utf8") as f:
        f.write(src[:m["a"]] + m["new"] + src[m["b"]:])


def undo(m, root):
    shutil.copy(os.path.join(REPO, "tftb", m["file"]), os.path.join(root, "tftb", m["file"]))


def copies(out, jobs):
    q = queue.Queue()
    for i in range(jobs):
        d = os.path.join(out, "copy%d" % i)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "__pycache__", "build"))
        q.put(d)
    return q


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache")


def tests_pass(d):
    try:
        r = subprocess.run([PY, "-W", "ignore", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tftb"], cwd=d,
                           env=dict(ENV, PYTHONPATH=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def caught(m, q):
    d = q.get()
    try:
        apply(m, d)
        v = os.path.join(d, ".verif")
        if not os.path.isdir(v):
            os.makedirs(v)
            for x in ("mc", "check.sh", "known-findings.txt", "properties.jsonl", "MANIFEST.json"):
                s = os.path.join(VERIF, x)
                (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(v, x))
        for c in m.get("checks", CHECKS[m["file"]]).split():
            if c == "|":
                if not tests_pass(d):
                    return "tests"
                continue
            try:
                r = subprocess.run(["bash", os.path.join(v, "check.sh"), c, "quick"], env=dict(ENV, TFTB_REPO=d, VERIF_SEED="1"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                if r.returncode == 1:
                    return c
                if r.returncode != 0:
                    return "%s?%d" % (c, r.returncode)
            except subprocess.TimeoutExpired:
                return c + "?timeout"
        return ""
    finally:
        undo(m, d)
        q.put(d)


def main():
    cmd, out = sys.argv[1:3]
    jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    os.makedirs(out, exist_ok=True)
    mj, rj = [os.path.join(out, x + ".json") for x in ("mutants", "results")]
    if cmd == "gen":
        ms = [m for f in CHECKS for m in mutants_of(f)]
        json.dump(ms, open(mj, "w"), indent=0)
        print(len(ms))
    elif cmd == "run":
        ms = json.load(open(mj))
        only = sys.argv[4].split(",") if len(sys.argv) > 4 else list(CHECKS)
        step = int(sys.argv[5]) if len(sys.argv) > 5 else 1
        ms = [m for f in only for m in [x for x in ms if x["file"] == f][::step]]
        res = json.load(open(rj)) if os.path.exists(rj) else {}
        q = copies(out, jobs)
        todo = [m for m in ms if m["id"] not in res]
        with cf.ThreadPoolExecutor(jobs) as ex:
            fs = {ex.submit(caught, m, q): m for m in todo}
            for f in cf.as_completed(fs):
                m = fs[f]
                res[m["id"]] = f.result()
                json.dump(res, open(rj, "w"))
                if not f.result() or "?" in f.result():
                    print("%-8s %s %s:%d  %r -> %r" % (f.result() or "MISSED", m["id"], m["file"], m["line"],
                                                      m["old"][:70], m["new"][:70]), flush=True)
        print("caught", sum(1 for v in res.values() if v), "of", len(res))


main()
