"""Mutation campaign: python3 tools/mutate.py OUTDIR [--every N] [--offset K] [--files a,b]

Generates syntactic mutants of /repo/weac in scratch copies, keeps those that pass the unit tests and runs the checks on them
(one process per mutant, checks in order of speed) until one reports a violation.  Results: OUTDIR/results.jsonl.
"""
import ast
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ORDER = ["C15", "C14", "C13", "C01", "C02", "C03", "C08", "C09", "C11", "C12", "C10", "C18", "C17", "C20", "C07", "C19", "C16", "C21", "C04", "C05", "C06"]


def mutants(path):
    """(line, description, new source) for one file."""
    src = open(path).read()
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def sub(a, e, new, line, what):
        return line, what, (b[:a] + new.encode() + b[e:]).decode()
    tree = ast.parse(src)
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                getattr(n.body[0], "value", None), ast.Constant):
            doc.add(id(n.body[0].value))
            doc.add(id(n.body[0]))
    OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: None}
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp):
            la, le = span(n.left)
            ra, re_ = span(n.right)
            mid = b[le:ra].decode()
            new = OPS.get(type(n.op))
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}.get(type(n.op))
            if new and sym in mid:
                out.append(sub(le, ra, mid.replace(sym, new, 1), n.lineno, "%s -> %s" % (sym, new)))
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                out.append(sub(le, re_, "", n.lineno, "drop right operand"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, e = span(n)
            oa, oe = span(n.operand)
            out.append(sub(a, oa, "+", n.lineno, "drop minus"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, e = span(n)
            oa, oe = span(n.operand)
            out.append(sub(a, oa, "", n.lineno, "drop not"))
        elif isinstance(n, ast.Constant) and id(n) not in doc:
            a, e = span(n)
            if isinstance(n.value, bool):
                out.append(sub(a, e, str(not n.value), n.lineno, "bool"))
            elif isinstance(n.value, (int, float)):
                out.append(sub(a, e, repr(n.value + 1), n.lineno, "const +1"))
                if n.value:
                    out.append(sub(a, e, repr(-n.value) if n.value > 0 else "1", n.lineno, "const negated"))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, e = span(n.left)
            ra, _ = span(n.comparators[0])
            mid = b[e:ra].decode()
            for s, t in ((" <= ", " < "), (" < ", " <= "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" not in ", " in "),
                         (" in ", " not in "), (" is not ", " is ")):
                if s == mid:
                    out.append(sub(e, ra, t, n.lineno, "%s->%s" % (s, t)))
                    break
        elif isinstance(n, ast.BoolOp):
            a, e = span(n.values[0])
            ra, _ = span(n.values[1])
            s, t = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            out.append(sub(e, ra, b[e:ra].decode().replace(s, t), n.lineno, s + "->" + t))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and id(n) not in doc:
            a, e = span(n)
            tg = n.targets[0] if isinstance(n, ast.Assign) else getattr(n, "target", None)
            if isinstance(n, ast.Expr) or isinstance(n, ast.AugAssign) or isinstance(tg, (ast.Attribute, ast.Subscript)):
                out.append(sub(a, e, "pass", n.lineno, "delete statement"))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            swap = {"zl": "zr", "zr": "zl", "Fn": "Ft", "Ft": "Fn", "qn": "qt", "qt": "qn", "pn": "pt", "pt": "pn", "li": "ki", "ki": "k0", "k0": "ki",
                    "E": "nu", "C0": "C1", "C1": "C0", "kRl": "kRr", "kRr": "kRl"}.get(n.id)
            if swap:
                a, e = span(n)
                out.append(sub(a, e, swap, n.lineno, n.id + "->" + swap))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            swap = {"A11": "D11", "D11": "A11", "B11": "A11", "kA55": "A11", "kn": "kt", "kt": "kn", "h": "t", "t": "h", "zs": "h", "sin": "cos", "cos": "sin",
                    "u": "w", "w": "u", "N": "V", "V": "N", "tau": "sig", "sig": "tau", "a": "td", "td": "a", "max": "min", "min": "max",
                    "eps": "gamma"}.get(n.attr)
            if swap:
                a, e = span(n)
                out.append(sub(e - len(n.attr), e, swap, n.lineno, n.attr + "->" + swap))
    good = []
    seen = set()
    for line, what, s in out:
        if s in seen or s == src:
            continue
        seen.add(s)
        try:
            compile(s, "x", "exec")
        except SyntaxError:
            continue
        good.append((line, what, s))
    return sorted(good, key=lambda g: g[0])


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, TMPDIR=cwd, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -99, ""


def one(job):
    out, n, f, line, what, src, limit, order = job
    d = os.path.join(out, "m%d" % n)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "plots", "*.pyc", "__pycache__", "demo", "docs", "img"))
    open(os.path.join(d, f), "w").write(src)
    old = open("/repo/" + f).read().split("\n")
    new = src.split("\n")
    diff = [(a.strip(), b.strip()) for a, b in zip(old, new) if a != b][:2]
    r = {"n": n, "file": f, "line": line, "what": what, "diff": diff, "result": None, "times": {}}
    try:
        rc, o = sh([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "--timeout=40"], d, {"PYTHONPATH": d}, 120)
        if rc != 0:
            r["result"] = "tests"
            return r
        first = (["C07", "C18", "C19"] if f == "weac/mixins.py" and 490 <= line <= 830 else ["C16", "C05"] if f == "weac/plot.py" else
                 ["C15", "C19", "C18"] if f == "weac/tools.py" else ["C17"] if f == "weac/inverse.py" else
                 ["C11", "C13", "C14", "C12", "C18"] if f == "weac/mixins.py" and line >= 1280 else [])
        for c in first + [o for o in order if o not in first]:
            t = time.time()
            lim = max(limit, 100) if c in first else limit
            rc, o = sh([PY, os.path.join(V, "mc/run.py"), c], d, {"MC_REPO": d, "MC_PROCS": "1", "MC_OUT": d}, lim)
            r["times"][c] = round(time.time() - t, 1)
            if rc == 1 and "VIOLATION" in o:
                r["result"] = c
                r["message"] = o.split("\n")[1].strip()[:200]
                return r
            if rc not in (0, -99):
                r["result"] = "broken " + c
                r["message"] = o[-300:]
                return r
        r["result"] = "survived"
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--every", type=int, default=10)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--files", default="weac/mixins.py,weac/eigensystem.py,weac/tools.py,weac/layered.py,weac/inverse.py,weac/plot.py")
    ap.add_argument("--limit", type=int, default=40)
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--order", default=",".join(ORDER))
    ap.add_argument("--skip", default="")
    a = ap.parse_args()
    os.makedirs(a.out, exist_ok=True)
    jobs, n = [], 0
    for f in a.files.split(","):
        for line, what, s in mutants("/repo/" + f):
            n += 1
            if n % a.every == a.offset:
                jobs.append((a.out, n, f, line, what, s, a.limit, a.order.split(",")))
    print(n, "mutants,", len(jobs), "selected", flush=True)
    with open(os.path.join(a.out, "results.jsonl"), "a") as g, mp.get_context("fork").Pool(a.procs) as p:
        for r in p.imap_unordered(one, jobs, 1):
            g.write(json.dumps(r) + "\n")
            g.flush()
            if r["result"] not in ("tests",) and (r["result"] == "survived" or r["result"].startswith("broken")):
                print(r["n"], r["file"], r["line"], r["what"], r["diff"], r["result"], flush=True)


if __name__ == "__main__":
    main()
