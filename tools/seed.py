"""Planted bugs.  seed.py verify ID.. : patch applies, tests pass, demo 0 / nonzero.  seed.py detect [--checks C01,..] ID.. : run checks.
Works on scratch copies of /repo below /tmp/seedwork; results in /tmp/seedwork/<id>.json.
"""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
W = "/tmp/seedwork"
SEEDS = os.environ.get("SEEDOUT", os.path.join(V, "seeded"))
SRC = os.environ.get("SEEDREPO", "/repo")


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, TMPDIR=cwd, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -99, "timeout"


def copy(name):
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(SRC, d, ignore=shutil.ignore_patterns("plots", "*.pyc", "__pycache__", "docs", "img"))
    return d


def verify(i):
    s = os.path.join(SEEDS, i)
    d = copy("v-" + i)
    demo = os.path.join(W, "demo-" + i)
    try:
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(s, demo)
        for f in ("patch.diff", "meta.json"):
            os.remove(os.path.join(demo, f))
        rc0, o0 = sh(["bash", os.path.join(demo, "demo.sh")], d, timeout=300)
        rc, o = sh(["git", "apply", os.path.join(s, "patch.diff")], d)
        if rc:
            return i, "patch does not apply: " + o
        rct, ot = sh([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], d, {"PYTHONPATH": d})
        rc1, o1 = sh(["bash", os.path.join(demo, "demo.sh")], d, timeout=300)
        ok = rc0 == 0 and rct == 0 and rc1 not in (0, -99)
        return i, ("ok" if ok else "BAD") + " demo0=%d tests=%d demo1=%d %s" % (rc0, rct, rc1, "" if ok else (o0[-800:] if rc0 else "") + (ot[-800:] if rct else "")
                                                                              ) + " | " + o1.strip()[-150:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)


def detect(i, checks, procs):
    s = os.path.join(SEEDS, i)
    d = copy("d-" + i)
    res = {}
    try:
        rc, o = sh(["git", "apply", os.path.join(s, "patch.diff")], d)
        assert rc == 0, o
        for c in checks:
            t = time.time()
            rc, o = sh([PY, os.path.join(V, "mc/run.py"), c], d, {"MC_REPO": d, "MC_PROCS": str(procs), "MC_OUT": d}, 1800)
            hit = rc == 1 and "VIOLATION property=" + c in o
            res[c] = ["caught" if hit else "quiet" if rc == 0 else "broken", round(time.time() - t, 1),
                      o.split("VIOLATION", 1)[1].split("\n")[1].strip()[:160] if hit else o[-200:] if rc else ""]
            print(i, c, res[c], flush=True)
        f = os.path.join(W, i + ".json")
        old = json.load(open(f)) if os.path.exists(f) else {}
        old.update(res)
        json.dump(old, open(f, "w"), indent=1)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    checks, procs = None, 8
    while args and args[0].startswith("--"):
        if args[0] == "--checks":
            checks = args[1].split(",")
        if args[0] == "--procs":
            procs = int(args[1])
        args = args[2:]
    ids = args or sorted(os.listdir(SEEDS))
    os.makedirs(W, exist_ok=True)
    if cmd == "verify":
        with mp.Pool(2) as p:
            for i, r in p.imap(verify, ids):
                print(i, r, flush=True)
    else:
        for i in ids:
            own = [json.load(open(os.path.join(SEEDS, i, "meta.json")))["property"]]
            detect(i, own if checks is None else ["C%02d" % k for k in range(1, 22)] if checks == ["all"] else checks, procs)


if __name__ == "__main__":
    main()
