"""C25: copied and pickled models are equal and independent."""
import copy
import gc
import itertools
import multiprocessing as mp
import os
import pickle
import struct
import subprocess
import sys

import numpy as np

import check_c04 as c04
import ops
from common import fields, scale
from core import REPO, sig

ID, LEVEL = "C25", "model_checking"
BOUNDS = {"quick": "5 initial models, every history of up to 1 operation over the alphabet of C04 (40) and 3 of 2 operations, copied in 2 of 5 ways (deepcopy, pickle protocols 0, 2 and 5, "
                   "restored in a freshly started process), 3 of 9 operations applied to the copy or to the original; segments prepared and solved before copying, used on the copy; "
                   "the ~35 neighbours of 5 configurations copied in 2 ways; 16 models deleted and replaced by new or copied models of every third neighbour at the same address",
          "thorough": "histories of up to 2 operations over the core alphabet, every kind of copy, every operation of the alphabet after copying, all neighbours and pairs of deleted and new models"}
ASSUME = ["copy.copy is outside the claim (shares arrays)", "equality to 1e-7 of each quantity's scale"]
CHUNK = 1
KINDS = ["deepcopy", "pickle 0", "pickle 2", "pickle 5", "new process"]
AFTER = ["beam1", "weak1", "load0", "system skier", "touchdown on", "segments B", "scribble", "no collapse", "profile"]
TWO = [("beam1", "solve"), ("touchdown on", "no collapse"), ("segments C", "system skier")]


# --- a freshly started process --------------------------------------------------------------------------------

class Fresh:
    """An interpreter that imported the package but never used it; every request runs in a fork of it."""

    def __init__(self):
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, *request):
        data = pickle.dumps(request)
        self.p.stdin.write(struct.pack("<Q", len(data)) + data)
        self.p.stdin.flush()
        n, = struct.unpack("<Q", self.p.stdout.read(8))
        ok, r = pickle.loads(self.p.stdout.read(n))
        if not ok:
            raise RuntimeError("in the new process: " + r)
        return r


def serve():
    import warnings

    import weac          # noqa: F401  imported, not used
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    inp = os.fdopen(os.dup(0), "rb")
    while True:
        head = inp.read(8)
        if len(head) < 8:
            return
        data = inp.read(struct.unpack("<Q", head)[0])
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                import contextlib
                import io
                with contextlib.redirect_stdout(io.StringIO()):
                    blob, op, what, arg = pickle.loads(data)
                    res = True, WORK[what](pickle.loads(blob), op, arg)
            except BaseException as e:
                res = False, "%s: %s" % (type(e).__name__, str(e)[:200])
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(res))
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            res = f.read()
        os.waitpid(pid, 0)
        out.write(struct.pack("<Q", len(res)) + res)
        out.flush()


def world(m, cfg):
    w = c04.World.__new__(c04.World)
    w.m, w.cfg, w.other, w.ocfg = m, tuple(cfg), None, None
    return w


def observed(m, op, cfg):
    """Observation after applying op."""
    w = world(m, cfg)
    if op:
        c04.FULL[op](w)
    return ops.observe(w.m, c04.exps(w.cfg), full=False)


def prepared(m, op, arg):
    """What prepared segments give, as named in ops.observe; and what the solution C gives here."""
    seg, phi, n, C = arg
    out = {}
    c = seg["crack"]
    for own in (False, True):
        K = m.assemble_and_solve(phi=phi, **c) if own else C
        x, z, xb = m.rasterize_solution(C=K, phi=phi, li=c["li"], ki=c["ki"], num=23)
        F = fields(m, z)
        s = scale(F, float(m.h))
        for i, r in enumerate(F):
            out["%d field%d" % (n, i), own] = np.asarray(r, float), s[i]
        g = np.asarray(m.gdif(C=K, phi=phi, unit="J/m^2", **c), float)
        out["%d gdif" % n, own] = g, float(np.max(np.abs(g))) + 1e-300
    return out


def looked(m, op, s):
    return c04.look(m, tuple(s))


WORK = {"observed": observed, "prepared": prepared, "looked": looked}
_fresh = None


def copied(m, kind):
    """A function that applies work to a copy made now."""
    global _fresh
    if kind == "new process":
        if _fresh is None:
            _fresh = Fresh()
        blob = pickle.dumps(m)
        return lambda what, op, arg: _fresh.ask(blob, op, what, arg)
    c = copy.deepcopy(m) if kind == "deepcopy" else pickle.loads(pickle.dumps(m, protocol=int(kind.split()[1])))
    return lambda what, op, arg: WORK[what](c, op, arg)


# --- exploration -----------------------------------------------------------------------------------------------

def words(tier):
    th = tier == "thorough"
    for w in [()] + [(o,) for o in c04.FULL] + (list(itertools.product(c04.CORE, repeat=2)) if th else TWO):
        yield w


def tasks(tier):
    import weac          # imported but never used in this process
    import weac.plot     # noqa: F401
    th = tier == "thorough"
    after = list(c04.FULL) if th else AFTER
    out, cfgs = [], set()
    for init in c04.INIT:
        for w in words(tier):
            out.append(["history", init, list(w), len(out), th])
            cfgs |= {c04.final(c04.INIT[init], w + o) for o in [()] + [(a,) for a in after]}
    P = sorted({s for f in c04.BASES for s in c04.neighbours(f)})
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for c, o in p.imap_unordered(c04.golden, sorted(cfgs), 1):
            c04.GOLD[c] = o
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for c, o in p.imap_unordered(c04.pgolden, P, 1):
            c04.GOLD[c] = o
    for f in c04.BASES:
        n = len(c04.neighbours(f))
        out += [["neighbours", f, i, th] for i in range(n)]
        out += [["deleted", f, i, th] for i in range(0, n, 1 if th else 11)]
    return out + [["inverse", i] for i in range(4)]


def run(task, ctx):
    {"history": history, "neighbours": neighbours, "deleted": deleted, "inverse": inverse}[task[0]](task, ctx)


def check(ctx, key, where, got, cfg):
    ctx.step()
    want = c04.gold(cfg)
    d = ops.differ(want, got)
    ctx.state((tuple(cfg), sig(got["laminate"][0])))
    if d:
        ctx.fail(key, "%s: %s than on a fresh model" % (where, d))
    return not d


def history(task, ctx):
    _, init, word, no, th = task

    def start():
        w = c04.World(c04.INIT[init])
        for o in word:
            c04.FULL[o](w)
        return w
    w = start()
    cfg = w.cfg
    for k, kind in enumerate(KINDS):
        # quick: three of the operations with each of two kinds of copy
        if not th and k not in (no % 5, (no + 2) % 5):
            continue
        after = list(c04.FULL) if th else [AFTER[(3 * k + j + no) % len(AFTER)] for j in range(3)]
        w = start()
        where = "%s after %s of model '%s'" % (kind, word, init)
        if not check(ctx, "copy", where, copied(w.m, kind)("observed", None, cfg), cfg):
            return
        if not check(ctx, "original", where + ", original afterwards", observed(w.m, None, cfg), cfg):
            return
        w = start()                                                    # copied before any further use
        c = copied(w.m, kind)
        if not check(ctx, "copy", where, c("observed", None, cfg), cfg):
            return
        ctx.trace()
        for o in after:
            # the copy is changed
            what = "%s, then '%s' on the copy" % (where, o)
            if not check(ctx, "copy", what, copied(w.m, kind)("observed", o, cfg), c04.final(cfg, (o,))):
                return
            if kind != "new process" and not check(ctx, "original", what + ": original", observed(w.m, None, cfg), cfg):
                return
            ctx.trace()
        for o in after:
            # the original is changed
            what = "%s, then '%s' on the original" % (where, o)
            w = start()
            c = copied(w.m, kind)
            if not check(ctx, "original", what, observed(w.m, o, cfg), c04.final(cfg, (o,))):
                return
            if not check(ctx, "copy", what + ": copy", c("observed", None, cfg), cfg):
                return
            ctx.trace()
        # prepared and solved segments are used on the copy
        for n, e in enumerate(c04.exps(cfg)):
            for first in ("copy", "original"):
                w = start()
                try:
                    seg = w.m.calc_segments(**e)
                except ValueError:
                    continue
                phi = e["phi"]
                C = w.m.assemble_and_solve(phi=phi, **seg["crack"])
                arg = (copy.deepcopy(seg), phi, n, C.copy())
                c = copied(w.m, kind)
                got = {}
                for t in ("copy", "original") if first == "copy" else ("original", "copy"):
                    got[t] = c("prepared", None, arg) if t == "copy" else prepared(w.m, None, arg)
                want = c04.gold(cfg)
                for t in got:
                    for own in (False, True):
                        sub = {k[0]: v for k, v in got[t].items() if k[1] == own}
                        d = ops.differ({k: want[k] for k in sub}, sub)
                        ctx.step()
                        if d:
                            ctx.fail("prepared", "%s, segments of %s prepared before copying, %s: %s than on a fresh model" % (where, e, t, d))
                            return
                ctx.trace()


def neighbours(task, ctx):
    """Copies of every neighbouring configuration, which then move to the base configuration."""
    _, fam, i, th = task
    s, base = c04.neighbours(fam)[i], c04.BASES[fam]
    for k, kind in enumerate(KINDS):
        for used in (False, True):
            if not th and (i + k) % 5 != 2 * used:
                continue
            m = c04.build(s)
            if used:
                c04.look(m, s)
            c = copied(m, kind)
            where = "%s of %s %s" % (kind, "a used" if used else "an unused", dict(zip(c04.AXES, s)))
            if not check(ctx, "copy", where, c("looked", None, s), s):
                return
            c04.move(m, s, base, i % 2)
            if not check(ctx, "original", where + ", original changed", c04.look(m, base), base):
                return
            if not check(ctx, "copy", where + ", original changed", c("looked", None, s), s):
                return
            if kind != "new process":
                m = c04.build(s)
                c = copy.deepcopy(m) if kind == "deepcopy" else pickle.loads(pickle.dumps(m, protocol=int(kind.split()[1])))
                c04.move(c, s, base, (i + 1) % 2)
                if not check(ctx, "copy", where + ", copy changed", c04.look(c, base), base):
                    return
                if not check(ctx, "original", where + ", copy changed", c04.look(m, s), s):
                    return
            ctx.trace()


def deleted(task, ctx):
    """Models come and go; the memory of a deleted one is used again."""
    _, fam, i, th = task
    N = c04.neighbours(fam)
    a = N[i]
    for j, b in enumerate(N):
        if not th and (i + j) % 3:
            continue
        other = c04.build(b)
        c04.look(other, b)
        blob = pickle.dumps(other)
        makers = [("a new", lambda: c04.build(b)), ("a deepcopied", lambda: copy.deepcopy(other)), ("an unpickled", lambda: pickle.loads(blob))]
        for name, make in makers if th else [makers[0], makers[1 + (i + j) % 2]]:
            hit = []
            for attempt in range(6):
                m = c04.build(a)
                ops.observe(m, [c04.EXPS[c04.kind(a[6])][a[8]]], full=attempt == 0)
                c = copy.deepcopy(m)
                addr = id(m)
                del m
                gc.collect()
                new = []
                while not hit and len(new) < 40:
                    new.append(make())
                    hit = [n for n in new[-1:] if id(n) == addr]
                if hit:
                    break
            for n in (hit or new)[:1]:
                if not check(ctx, "deleted", "%s model %s after model %s was deleted" % (name, dict(zip(c04.AXES, b)), dict(zip(c04.AXES, a))), c04.look(n, b), b):
                    return
            if not check(ctx, "deleted", "copy of a deleted model %s" % (dict(zip(c04.AXES, a)),), c04.look(c, a), a):
                return
            ctx.notes["addresses used again"] = ctx.notes.get("addresses used again", 0) + len(hit)
            ctx.trace()


def inverse(task, ctx):
    from weac import Inverse
    _, i = task
    ly = c04.LAY[i][0]

    def make():
        if isinstance(ly, str):
            inv = Inverse(system="skier")
            inv.set_beam_properties(ly, update=True)
            return inv
        return Inverse(system="skier", layers=ly, parameters=(6.3, 3.9, 0.4) if i % 2 else (6.5, 4.4, 0.2))
    exp = ops.experiments("skier")
    m = make()
    want = ops.observe(make(), exp)
    for kind in KINDS[:4]:
        for used in (False, True):
            m = make()
            if used:
                ops.observe(m, exp)
            c = copy.deepcopy(m) if kind == "deepcopy" else pickle.loads(pickle.dumps(m, protocol=int(kind.split()[1])))
            ctx.step(2)
            d = ops.differ(want, ops.observe(c, exp))
            c.set_foundation_properties(t=55, E=0.7, update=True)
            d = d or ops.differ(want, ops.observe(m, exp))
            ctx.state((kind, used, i))
            if d:
                ctx.fail("inverse", "%s of an Inverse model of %s (used: %s): %s" % (kind, ly, used, d))
                return
            ctx.trace()


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.path.insert(0, sys.argv[1])
    sys.modules["check_c25"] = sys.modules["__main__"]
    serve()
