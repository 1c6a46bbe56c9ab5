"""C23: computations in concurrent threads: every schedule with one (two) preemptions at the lines of weac, on the real threads."""
import os
import pickle
import signal
import sys
import threading

import numpy as np

import ops

ID, LEVEL = "C23", "model_checking"
BOUNDS = {"quick": "10 ordered pairs of 6 complete computations on models of their own, thread one preempted once before each line of weac (first time it is "
                   "reached), thread two running to its end there, each schedule in a fresh process; 20 pairs of model constructions preempted at every line (first three and last times), "
                   "with and without a third model built before and with both repeated afterwards; all ordered pairs of 14 evaluations of one solved model with one preemption "
                   "(every line, first two and last times); each evaluation against itself with two preemptions (every line x up to 60 lines)",
          "thorough": "all pairs of 10 computations and of 10 constructions (first two and last times); two preemptions (every line x every line) for all pairs of evaluations and every third line "
                      "for four pairs of computations"}
ASSUME = ["preemption between lines of Python code of weac, not inside numpy or inside a line", "plots are outside the claim (pyplot is global state)"]
CHUNK = 1
CONFIGS = [("pst-", True), ("skier", False), ("skiers", False), ("-vpst", False), ("-pst", True), ("inverse", False),
           ("pst-", False), ("vpst-", False), ("-pst", False), ("skier2", False)]
LAYERS = [[[180.5, 100], [270, 150], [320, 80.5]], [[250, 120.5], [150, 60]], "b", "f",
          [[310, 200], [220, 40], [110, 90.5]], [[240, 100], [300, 100]], [[200, 300]], [[154.5, 120.25], [312.5, 60.5]], [[170, 90], [350, 140]], [[350, 120], [180, 120]]]


def build(i):
    import weac
    s, td = CONFIGS[i]
    cls = weac.Inverse if s == "inverse" else weac.Layered
    s = {"inverse": "pst-", "skier2": "skier"}.get(s, s)
    if cls is weac.Inverse:
        m = cls(system=s, layers=LAYERS[i], parameters=(7.0, 4.2, 0.3))
    else:
        m = cls(system=s, layers=LAYERS[i], touchdown=td)
    m.set_foundation_properties(t=20.0 + 3.5 * i, E=0.2 + 0.11 * i, nu=0.2 + 0.01 * i, update=True)
    m.set_surface_load(0.002 * i)
    return m, s, td


def program(i):
    """A complete computation on a model of its own."""
    m, s, td = build(i)
    e = [dict(x) for x in ops.experiments(s, td)]
    return ops.observe(m, e[1:2] if td else e[:1], full=i in (1, 2, 3, 7, 9))


def construct(i):
    """Data of a new model and its general solution."""
    m, s, td = build(i)
    out = ops.observe(m, [])
    C = np.arange(1.0, 7.0)[:, None]
    for bed in (True, False):
        z = m.z(np.array([-30.0, 0.0, 44.4]), C, 300.0 + i, 20.0 + i, bed=bed)
        out["z %s" % bed] = (z, np.abs(z).max(axis=1, keepdims=True) + 1e-300)
    return out


def world(n=0):
    """A solved model to be evaluated by two threads."""
    m, s, td = build((2, 6, 3)[n])
    e = dict(ops.experiments(s)[0])
    seg = m.calc_segments(**e)
    phi = e["phi"]
    C1, C0 = m.assemble_and_solve(phi=phi, **seg["crack"]), m.assemble_and_solve(phi=phi, **seg["nocrack"])
    li, ki = seg["crack"]["li"], seg["crack"]["ki"]
    x, z, xb = m.rasterize_solution(C=C1, phi=phi, li=li, ki=ki, num=17)
    return dict(m=m, seg=seg, phi=phi, C1=C1, C0=C0, x=x, z=z, xb=xb, li=li, ki=ki)


def q_z(w, v):
    i = len(w["li"]) - 2 + v
    return w["m"].z(np.linspace(0, 200, 5 + v), w["C1"][:, [i]], float(w["li"][i]), w["phi"], bed=bool(w["ki"][i]))


def q_fields(w, v):
    m, z = w["m"], w["z"][:, ::1 + v]
    return np.concatenate([m.N(z), m.V(z), m.M(z), m.sig(z, unit="kPa"), m.tau(z, unit="kPa"), m.w(z, unit="mm"), m.u(z, z0=m.h / 2 * v, unit="mm"), m.psi(z, unit="deg")])


def q_access(w, v):
    m = w["m"]
    w = dict(w, z=w["z"] * (1 + v / 5))
    return np.concatenate([m.get_weaklayer_shearstress(w["xb"], w["z"], unit="kPa")[1], m.get_slab_displacement(w["x"], w["z"], loc=("top", "bot")[v])[1],
                           m.get_slab_deflection(w["x"], w["z"])[1], m.get_slab_rotation(w["x"], w["z"])[1]])


QUERY = {
    "z": q_z,
    "fields": q_fields,
    "accessors": q_access,
    "rasterize": lambda w, v: np.concatenate([np.ravel(q) for q in w["m"].rasterize_solution(C=(w["C1"], w["C0"])[v], phi=w["phi"], li=w["li"], ki=w["seg"][("crack", "nocrack")[v]]["ki"], num=9 + v)]),
    "solve": lambda w, v: w["m"].assemble_and_solve(phi=w["phi"] - 7 * v, **w["seg"][("crack", "nocrack")[v]]),
    "gdif": lambda w, v: w["m"].gdif(C=w["C1"] * (1 + v / 5), phi=w["phi"], unit=("J/m^2", "kJ/m^2")[v], **w["seg"]["crack"]),
    "ginc": lambda w, v: w["m"].ginc(C0=w["C0"] * (1 - v / 3), C1=w["C1"], phi=w["phi"], **w["seg"]["both"]),
    "Sxx": lambda w, v: w["m"].Sxx(w["z"][:, :5 + v], w["phi"] - v, dz=30.0 + 7 * v),
    "Txz": lambda w, v: w["m"].Txz(w["z"][:, :5 + v], w["phi"] - v, dz=30.0 + 7 * v),
    "Szz": lambda w, v: w["m"].Szz(w["z"][:, :5 + v], w["phi"] - v, dz=30.0 + 7 * v),
    "principal slab": lambda w, v: w["m"].principal_stress_slab(w["z"][:, :4 + v], w["phi"], dz=40.0 + 7 * v, val=("max", "min")[v]),
    "principal weak layer": lambda w, v: w["m"].principal_stress_weaklayer(w["z"][:, v:], val=("max", "min")[v]),
    "loads": lambda w, v: np.concatenate([np.ravel(f) for f in (w["m"].get_weight_load(w["phi"] - v), w["m"].get_surface_load(w["phi"] - v), w["m"].get_skier_load(60.0 + v, w["phi"]))]),
}

def q_potentials(w, v):
    m, L = w["m"], float(np.sum(w["li"]))
    if m.system not in ("pst-", "-pst"):                            # defined for PSTs only
        return m.get_zmesh(dz=20.0 + v)
    C = w["C1"] * (1 + v / 5)
    return np.array([m.external_potential(C, w["phi"], L, **w["seg"]["crack"]), m.internal_potential(C, w["phi"], L, **w["seg"]["crack"])])


QUERY["potentials"] = q_potentials
NAMES = list(QUERY)
OWN = [(1, 1), (1, 2), (2, 3), (3, 1), (0, 0), (0, 4), (4, 0), (5, 3), (3, 5), (2, 0)]


def tasks(tier):
    th = tier == "thorough"
    out = []
    own = [(a, b) for a in range(len(CONFIGS)) for b in range(len(CONFIGS))] if th else OWN
    for a, b in own:
        out += [["own", a, b, r, 8, th] for r in range(8)]
    for a in range(len(CONFIGS)):
        for b in range(len(CONFIGS)) if th else (a, (a + 1) % len(CONFIGS)):
            out.append(["make", a, b, 0, 1, th])
    for a in range(len(NAMES)):
        out += [["shared", a, b, 0, 1, th, n] for b in range(len(NAMES)) for n in range(3) if th or n == (a + 2 * b) % 3]
    for a in range(len(NAMES)):
        for b in range(len(NAMES)) if th else [a]:
            out += [["shared2", a, b, r, 4, th, (a + b) % 2] for r in range(4)]
    if th:
        for a, b in ((0, 0), (1, 2), (3, 3), (5, 1)):
            out += [["own2", a, b, r, 200, th] for r in range(200)]
    return out


# --- scheduler ---------------------------------------------------------------------------------------------

class Thread(threading.Thread):
    """Runs one program; stops before line event `k` of weac code (numbers from 1) until released."""

    def __init__(self, fn, k=None, log=None):
        super().__init__(daemon=True)
        self.fn, self.k, self.log = fn, k, log
        self.n, self.res, self.exc = 0, None, None
        self.stopped, self.go, self.done = threading.Event(), threading.Event(), threading.Event()

    def _line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.log is not None:
                self.log.append((frame.f_code.co_filename, frame.f_lineno))
            if self.n == self.k:
                self.stopped.set()
                self.go.wait()
        return self._line

    def _call(self, frame, event, arg):
        f = frame.f_code.co_filename
        return self._line if os.sep + "weac" + os.sep in f and os.path.basename(f) != "plot.py" else None

    def run(self):
        sys.settrace(self._call) if self.k is not None or self.log is not None else None
        try:
            self.res = self.fn()
        except BaseException as e:
            self.exc = e
        finally:
            sys.settrace(None)
            self.done.set()
            self.stopped.set()


LIMIT = 40.0


def schedule(fa, fb, k, j=None):
    """Thread one up to line event k, thread two up to its event j (its end if None), one to its end, two to its end."""
    a, b = Thread(fa, k), Thread(fb, j)
    a.start()
    a.stopped.wait(LIMIT)
    b.start()
    b.stopped.wait(LIMIT if j is not None else 1.0 if not b.done.wait(LIMIT / 8) else LIMIT)   # a lock held by thread one may block thread two
    a.go.set()
    a.done.wait(LIMIT)
    b.go.set()
    b.done.wait(LIMIT)
    if not (a.done.is_set() and b.done.is_set()):
        raise RuntimeError("threads did not finish (deadlock)")
    for t in (a, b):
        if t.exc is not None:
            raise t.exc
    return a.res, b.res


def isolated(fn):
    """Result of fn in a child of this process, in which weac is imported but was never used."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(600)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("exception", "%s: %s" % (type(e).__name__, str(e)[:200]))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("exception", "process died")


def trace(fn):
    """Line events of fn run alone."""
    log = []
    t = Thread(fn, None, log)
    t.run()
    if t.exc is not None:
        raise t.exc
    return log


def points(log, cap, final=False):
    """Event numbers before which to preempt: every line the first time, the first `cap` times and (final) the last time it is reached."""
    seen, last = {}, {}
    for i, p in enumerate(log, 1):
        last[p] = i
    out = []
    for i, p in enumerate(log, 1):
        seen[p] = seen.get(p, 0) + 1
        if seen[p] <= max(cap, 1) or final and last[p] == i:
            out.append(i)
    return out


def run(task, ctx):
    import weac          # imported, never used in this process
    import weac.tools
    kind, ia, ib = task[:3]
    own = kind.startswith("own") or kind == "make"
    if own:
        prog = construct if kind == "make" else program
        what = "%s %s and %s" % ("models" if kind == "make" else "computations", CONFIGS[ia], CONFIGS[ib])
        alone = [isolated(lambda i=i: prog(i)) for i in (ia, ib)]
        logs = [isolated(lambda i=i: trace(lambda: prog(i))) for i in (ia, ib)]
    else:
        what = "evaluations '%s' and '%s' of one %s model" % (NAMES[ia], NAMES[ib], ("skiers", "pst-", "-vpst")[task[6]])

        def ask(w, n, v):
            return lambda: QUERY[NAMES[n]](w, v)
        alone = [isolated(lambda n=n, v=v: ask(world(task[6]), n, v)()) for v, n in ((0, ia), (1, ib))]
        logs = [isolated(lambda n=n, v=v: trace(ask(world(task[6]), n, v))) for v, n in ((0, ia), (1, ib))]
    for s, r in alone + logs:
        if s != "ok":
            ctx.fail("alone", "%s: %s" % (what, r))
            return
    alone, logs = [r for _, r in alone], [r for _, r in logs]
    th = task[5]
    pa, pb = points(logs[0], 0), points(logs[1], 0)
    if kind == "own":
        plan = [(k, None) for k in (points(logs[0], 2, True) if th else pa)]
    elif kind == "make":
        plan = [(k, None, old) for k in points(logs[0], 1000 if th else 3, True) for old in (False, True)]
    elif kind == "own2":
        plan = [(k, j) for k in pa[::3] for j in pb[::3]]
    elif kind == "shared":
        plan = [(k, None) for k in points(logs[0], 40 if th else 2, True)]
    else:
        plan = [(k, j) for k in pa for j in (pb if th else pb[::1 + len(pb) // 60])]
    plan = plan[task[3]::task[4]]
    if own:
        todo = [[p] for p in plan]
    else:
        todo = [plan[i:i + 40] for i in range(0, len(plan), 40)]       # evaluations share one process and one model

    def batch(ps):
        out = []
        w = None if own else world(task[6])
        for k, j, *old in ps:
            if own:
                fa, fb = (lambda: prog(ia)), (lambda: prog(ib))
            else:
                fa, fb = ask(w, ia, 0), ask(w, ib, 1)
            if any(old):                                               # another model was built before
                prog((max(ia, ib) + 3) % len(CONFIGS))
            d = verdict(alone, schedule(fa, fb, k, j), own)
            if d is None and old:                                      # nothing stays behind for later models
                d = verdict(alone, (prog(ia), prog(ib)), own)
                d = d and "afterwards " + d
            out.append(d)
        return out
    for ps in todo:
        s, r = isolated(lambda: batch(ps))
        if s != "ok":
            ctx.fail("exception", "%s, preempted at %s: %s" % (what, where(logs, ps[0]), r), {"schedules": ps})
            return
        for p, d in zip(ps, r):
            ctx.trace()
            ctx.step(2 if p[1] is None else 3)
            ctx.state("%s %d" % (kind, p[0]))
            if d:
                ctx.fail("interference", "%s: preempted at %s, %s" % (what, where(logs, p), d), {"schedule": p})
                return


def where(logs, p):
    out = []
    for log, k in zip(logs, p[:2]):
        if k is not None and k <= len(log):
            f, n = log[k - 1]
            out.append("%s:%d" % (os.path.basename(f), n))
    return " and ".join(out)


def verdict(alone, got, own):
    for n, (want, have) in enumerate(zip(alone, got)):
        who = ("first", "second")[n]
        if own:
            d = ops.differ(want, have, 1e-9)
        else:
            want, have = np.asarray(want, float), np.asarray(have, float)
            d = None
            if want.shape != have.shape or not np.allclose(want, have, rtol=1e-9, atol=1e-9 * float(np.nanmax(np.abs(want))), equal_nan=True):
                d = "shape %s instead of %s" % (have.shape, want.shape) if want.shape != have.shape else "value %.9g instead of %.9g" % next(
                    (x, y) for x, y in zip(have.ravel(), want.ravel()) if not (x == y or np.isnan(x) and np.isnan(y)))
        if d:
            return "the %s thread gets another result: %s" % (who, d)
    return None
