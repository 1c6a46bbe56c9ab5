"""Bounded exhaustive explorer: runs every task of a check, aggregates coverage, reports violations.

A check module defines
    ID      property id
    TITLE   one line
    tasks(tier)        -> iterable of JSON-able task descriptors; each is one region of the explored space
    run(task, ctx)     -> explores the region on the real code, calling ctx.state()/ctx.step()/ctx.fail()
    ASSUME  list of assumptions/bounds for the evidence file
Everything is enumerated; nothing is sampled.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
OUT = os.environ.get("MC_OUT", VERIF)      # where evidence and replays go
MAX_FAIL = 12          # distinct violations kept per run


class Ctx:
    """Collects what one task covered."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.fails = []          # (key, message, info)
        self.notes = {}

    def state(self, outcome=None):
        self.states += 1
        if outcome is not None:
            self.outcomes.add(outcome)

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def fail(self, key, message, info=None):
        if len(self.fails) < 8 and all(f[0] != key for f in self.fails):
            self.fails.append((key, message, info))

    def expect(self, cond, key, message, info=None):
        if not cond:
            self.fail(key, message, info)
        return bool(cond)


def sig(values, digits=5):
    """Canonical hash of an observed outcome."""
    import numpy as np
    v = np.asarray(values, dtype=float).ravel()
    with np.errstate(all="ignore"):
        m = np.where((v == 0) | ~np.isfinite(v), 0, np.floor(np.log10(np.abs(np.where(v == 0, 1, v)))))
        r = np.round(v / 10.0**m, digits - 1) * 10.0**m
    return hashlib.md5(np.nan_to_num(r).tobytes()).hexdigest()[:12]


_mod = None
_scratch = None


def _init(modname, scratch):
    global _mod, _scratch
    _scratch = scratch
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _setup_env(scratch)
    _mod = importlib.import_module(modname)


def _setup_env(scratch):
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    wd = os.path.join(scratch, "wd-%d" % os.getpid())
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)


def _work(task):
    import warnings
    import numpy as np
    ctx = Ctx()
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            _mod.run(task, ctx)
    except Exception as e:  # the code under test must not raise inside the explored domain
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for f in tb:
            if "/weac/" in f.filename:
                where = "%s:%s" % (os.path.basename(f.filename), f.name)
        ctx.fail("exception:%s" % type(e).__name__,
                 "unexpected %s: %s (in %s)" % (type(e).__name__, str(e)[:200], where or "check"),
                 {"traceback": traceback.format_exc()[-2500:]})
    return (task, ctx.states, ctx.transitions, ctx.traces, ctx.outcomes, ctx.fails, ctx.notes)


def known_findings(pid):
    """Entries `KNOWN property=<id> key=<key> :: text`."""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" :: ", 1)
                res[key.replace("key=", "", 1).strip()] = text.strip()
    return res


def main(modname, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--procs", type=int, default=int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--keep-going", action="store_true")
    args = ap.parse_args(argv)
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="mc-")
    cwd = os.getcwd()
    try:
        _setup_env(scratch)
        mod = importlib.import_module(modname)
        pid = mod.ID
        if args.replay:
            _init(modname, scratch)
            task = json.load(open(os.path.join(cwd, args.replay)))["task"]
            if task == "tasks":
                print("replay: %d task(s) laid out" % len(list(mod.tasks(tier))))
                return 0
            r = _work(task)
            for k, msg, info in r[5]:
                print("FAIL key=%s %s" % (k, msg))
                if info:
                    print(json.dumps(info, indent=1, default=str)[:4000])
            print("replay: %d failure(s)" % len(r[5]))
            return 1 if r[5] else 0
        known = known_findings(pid)
        states = trans = traces = done = 0
        outcomes = set()
        notes = {}
        fails, seen_known = [], {}
        try:
            tasks = list(mod.tasks(tier))
        except Exception as e:      # some checks run the code under test to lay out the space
            tasks = []
            fails.append(("exception:%s" % type(e).__name__, "unexpected %s while laying out the explored space: %s" % (
                type(e).__name__, str(e)[:200]), {"traceback": traceback.format_exc()[-2500:]}, "tasks"))
        ctxm = mp.get_context("fork")
        chunk = max(1, min(64, len(tasks) // (args.procs * 8) or 1))
        chunk = getattr(mod, "CHUNK", chunk)
        with ctxm.Pool(args.procs, _init, (modname, scratch)) as pool:
            for (task, s, t, tr, oc, fl, nt) in pool.imap_unordered(_work, tasks, chunk):
                done += 1
                states += s
                trans += t
                traces += tr
                if len(outcomes) < 2_000_000:
                    outcomes |= oc
                for k, v in nt.items():
                    notes[k] = max(notes.get(k, 0), v) if k.startswith("max") else notes.get(k, 0) + v
                for key, msg, info in fl:
                    kk = next((q for q in known if key == q or key.startswith(q + "/")), None)
                    if kk is not None:
                        seen_known.setdefault(kk, (task, msg))
                    else:
                        fails.append((key, msg, info, task))
                if len(fails) >= MAX_FAIL and not args.keep_going:
                    pool.terminate()
                    break
        # report known findings: each listed finding is re-observed on the tree
        for k in known:
            if k in seen_known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[k], seen_known[k][1][:160]))
            else:
                print("note: listed finding '%s' was not observed in this run" % k)
        rc = 0
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        seen = set()
        for key, msg, info, task in sorted(fails, key=lambda f: len(json.dumps(f[3], default=str))):
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(OUT, "replays", "%s-%d.json" % (pid, len(seen)))
            with open(path, "w") as f:
                json.dump({"property": pid, "key": key, "message": msg, "info": info, "task": task,
                           "replay": "/opt/venv/bin/python /verif/mc/run.py %s --replay %s" % (pid, path)},
                          f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   %s: %s" % (key, msg))
            rc = 1
        ev = {
            "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": mod.LEVEL,
            "coverage": {
                "states": states, "transitions": trans, "traces_validated_against_impl": traces,
                "exhaustive": rc == 0,
                "samples": [tasks[0], tasks[len(tasks) // 2], tasks[-1]] if tasks else [],
                "distinct_outcomes": len(outcomes), "tasks": done, "tasks_total": len(tasks),
                "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
                **({"measurements": notes} if notes else {}),
            },
            "wall_s": round(time.time() - t0, 2),
            "violations": len(seen),
            "assumptions": list(mod.ASSUME),
        }
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: tasks=%d states=%d transitions=%d outcomes=%d violations=%d wall=%.1fs" % (
            pid, tier, done, states, trans, len(outcomes), len(seen), time.time() - t0))
        for k, v in sorted(notes.items()):
            print("   %s = %s" % (k, v))
        return rc
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
