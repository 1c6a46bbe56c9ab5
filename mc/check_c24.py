"""C24: plots that are interrupted, cannot be written or run in several processes at once leave later and other plots as they are."""
import os
import pickle
import shutil
import signal
import sys
import tempfile

import check_c16 as c16

ID, LEVEL = "C24", "model_checking"
BOUNDS = {"quick": "17 plots of one and 4 of another model interrupted before every line of weac.plot (first and last time it is reached), three or four plots afterwards; two processes that plot in one "
                   "folder: 7 pairs of plots, process one preempted before every line, the lines around saving for 3 initial states of the folder; both processes preempted at "
                   "the lines around saving (3 pairs x 2 states); 4 kinds of unwritable targets x 12 plots",
          "thorough": "6 models, first four and last times, all plots afterwards; 36 pairs of processes; two preemptions for 9 pairs x 3 states"}
ASSUME = ["preemption and interruption between lines of weac.plot, matplotlib itself is taken as correct", "Agg backend, default style before plotting"]
CHUNK = 1
AFTER = ["displacements", "slab_profile", "u"]
BOTH = [("displacements", "stresses"), ("stresses", "displacements"), ("u", "displacements"), ("slab_profile", "u"), ("err_comp", "err_modes"),
        ("section_forces", "section_forces"), ("fea_disp", "Szz")]
STATES = ("missing", "empty", "older plots")
PLOTDIR = "plots"


def plots(i):
    from weac import plot
    b = c16.Bench(i, False)
    xs, xb, z = b.x[::5], b.xb[::5], b.z[:, ::5]
    p = {n: c[0] for n, c in c16.calls(b).items()}
    p["Szz"] = lambda: plot.deformed(b.m, xs, xb, z, b.phi, dz=90, levels=6, field="Szz", dark=True, filename="dark one")
    p["u"] = lambda: plot.deformed(b.m, xs, xb, z, b.phi, dz=90, levels=6, field="u")
    p["principal"] = lambda: plot.deformed(b.m, xs, xb, z, b.phi, dz=90, levels=6, filename="princ")
    return p, b.what


NAMES = ["displacements", "displacements 7", "section_forces", "stresses", "stress_criteria", "slab_profile", "fea_disp", "fea_stress", "err_comp", "err_comp 1",
         "err_comp 2", "err_modes", "err_modes dif", "err_modes default", "Szz", "u", "principal"]


def tasks(tier):
    th = tier == "thorough"
    out = []
    for i in (0, 8, 3, 5, 10, 12) if th else (0, 8):
        for n in NAMES if th or i == 0 else ["Szz", "stresses", "slab_profile", "fea_disp"]:
            for r in range(4 if th else 1):
                out.append(["interrupt", i, n, r, 4 if th else 1, th])
    two = [(a, b) for a in NAMES[::3] for b in NAMES[::3]] if th else []
    for a, b in dict.fromkeys(BOTH + two):
        out += [["processes", a, b, th, r, 4] for r in range(4)]
    for n, (a, b) in enumerate(BOTH + [("u", "u"), ("slab_profile", "slab_profile")] if th else BOTH[::3]):
        for s in STATES if th else STATES[:2]:
            out.append(["processes2", a, b, th, s])
    for n in NAMES[:12] if not th else NAMES:
        out.append(["unwritable", 0, n])
    return out


# --- processes ---------------------------------------------------------------------------------------------

class Tracer:
    """Calls `act` before line event k (numbers from 1) of weac.plot; other code runs unobserved."""

    def __init__(self, k=None, act=None):
        self.k, self.act, self.n, self.log = k, act, 0, []

    def line(self, code, no):
        self.n += 1
        self.log.append(no)
        if self.n == self.k:
            self.act()

    def run(self, fn):
        from weac import plot
        mon = sys.monitoring
        mon.use_tool_id(4, "mc")
        mon.register_callback(4, mon.events.LINE, self.line)
        for c in codes(plot):
            mon.set_local_events(4, c, mon.events.LINE)
        try:
            return fn()
        finally:
            for c in codes(plot):
                mon.set_local_events(4, c, 0)
            mon.free_tool_id(4)


def codes(module):
    """All code objects of a module."""
    import types
    todo = []
    for v in vars(module).values():
        for f in [v] + (list(vars(v).values()) if isinstance(v, type) else []):
            f = getattr(f, "__wrapped__", f)
            f = getattr(f, "__func__", f)
            if isinstance(f, types.FunctionType) and f.__code__.co_filename == module.__file__:
                todo.append(f.__code__)
    out = []
    while todo:
        c = todo.pop()
        if c not in out:
            out.append(c)
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return out


def child(fn):
    """Start fn in a fork; returns (pid, read end)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 1
    try:
        os.close(r)
        signal.alarm(300)
        try:
            out = ("ok", fn())
        except BaseException as e:
            out = ("exception", "%s: %s" % (type(e).__name__, str(e)[:200]))
        with os.fdopen(w, "wb") as f:
            pickle.dump(out, f)
        code = 0
    finally:
        os._exit(code)


def result(pid, r):
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("exception", "process died")


def isolated(fn):
    return result(*child(fn))


class Stopped:
    """A process that stops before line event k until it is released."""

    def __init__(self, fn, k):
        self.sr, sw = os.pipe()
        gr, self.gw = os.pipe()

        def stop():
            os.write(sw, b"s")
            os.read(gr, 1)

        def body():
            os.close(self.sr)
            os.close(self.gw)
            return Tracer(k, stop).run(fn)
        self.pid, self.r = child(body)
        os.close(sw)
        os.close(gr)
        os.read(self.sr, 1)                                            # stopped, or at its end

    def release(self):
        try:
            os.write(self.gw, b"g")
        except BrokenPipeError:
            pass
        os.close(self.gw)
        os.close(self.sr)
        return result(self.pid, self.r)


def points(log, cap):
    seen, last = {}, {p: i for i, p in enumerate(log, 1)}
    out = []
    for i, p in enumerate(log, 1):
        seen[p] = seen.get(p, 0) + 1
        if seen[p] <= cap or last[p] == i:
            out.append(i)
    return out


def shoot(fns):
    """What is drawn and where it is saved."""
    with c16.Capture(False) as cap:
        for f in fns:
            f()
    return [c16.plain(s) for s in cap.shots]


class Folder:
    """A working directory of its own, the plot folder in one of several states."""

    def __init__(self, state="missing", old=()):
        self.home = os.getcwd()
        self.d = tempfile.mkdtemp(dir=self.home)
        if state != "missing":
            os.mkdir(os.path.join(self.d, PLOTDIR))
        if state == "older plots":
            for n in old:
                with open(os.path.join(self.d, PLOTDIR, n), "wb") as f:
                    f.write(b"old" * 40000)

    def __enter__(self):
        os.chdir(self.d)
        return self

    def files(self):
        out = {}
        for q, _, fs in os.walk(self.d):
            for f in fs:
                with open(os.path.join(q, f), "rb") as g:
                    out[os.path.relpath(os.path.join(q, f), self.d)] = g.read()
        return out

    def __exit__(self, *a):
        os.chdir(self.home)
        shutil.rmtree(self.d, ignore_errors=True)


def run(task, ctx):
    import matplotlib
    import matplotlib.backends.backend_agg
    import matplotlib.figure as mf
    matplotlib.rcdefaults()
    real = mf.Figure.savefig

    def small(fig, fname, *a, **k):
        k.setdefault("dpi", 25)
        return real(fig, fname, *a, **k)
    canvas = matplotlib.backends.backend_agg.FigureCanvasAgg
    idle = canvas.draw_idle
    mf.Figure.savefig, canvas.draw_idle = small, lambda *a, **k: None  # pyplot draws again after saving
    try:
        explore(task, ctx)
    finally:
        mf.Figure.savefig, canvas.draw_idle = real, idle


def explore(task, ctx):
    if task[0] == "interrupt":
        interrupted(task, ctx)
    elif task[0] == "unwritable":
        unwritable(task, ctx)
    else:
        processes(task, ctx)


def interrupted(task, ctx):
    _, i, name, part, parts, th = task
    p, what = plots(i)
    after = NAMES if th else AFTER + ([name] if name not in AFTER else [])
    alone = {}
    for n in after:
        with Folder():
            s, alone[n] = isolated(lambda: shoot([p[n]]))
        if s != "ok" or len(alone[n]) != 1:
            ctx.fail("alone", "plot '%s' of %s: %s" % (n, what, alone[n] if s != "ok" else "saves %d figures" % len(alone[n])))
            return

    def log():
        t = Tracer()
        with c16.Capture(False):
            t.run(p[name])
        return t.log
    with Folder():
        s, lines = isolated(log)
    todo = set(points(lines, 4 if th else 1)[part::parts])

    class Branch(Tracer):
        """Forks before the chosen line events; the fork is interrupted there and draws the later plots."""

        def line(self, code, no):
            self.n += 1
            if self.n in todo:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    todo.clear()
                    self.out, self.inside = w, True
                    raise KeyboardInterrupt
                os.close(w)
                self.got.append((self.n, result(pid, r)))

    def body():
        t = Branch()
        t.got, t.inside = [], False
        try:
            with c16.Capture(False):
                t.run(p[name])
        except KeyboardInterrupt:
            pass
        if not t.inside:
            return t.got
        try:
            signal.alarm(300)
            try:
                d = tempfile.mkdtemp(dir=os.getcwd())
                os.chdir(d)
                out = ("ok", shoot([p[n] for n in after]))
            except BaseException as e:
                out = ("exception", "%s: %s" % (type(e).__name__, str(e)[:200]))
            with os.fdopen(t.out, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    with Folder():
        s, forks = isolated(body)
    if s != "ok" or len(forks) != len(todo):
        ctx.fail("interrupt", "plot '%s' of %s: %s" % (name, what, forks if s != "ok" else "not every line was reached again"))
        return
    for k, (s, r) in forks:
        ctx.step(1 + len(after))
        where = "plot '%s' of %s interrupted before line %d of plot.py" % (name, what, lines[k - 1])
        if s != "ok":
            ctx.fail("interrupt", "%s: later plots fail with %s" % (where, r))
            return
        ctx.state((name, k))
        for n, got in zip(after, r):
            if got != alone[n][0]:
                ctx.fail("interrupt", "%s: plot '%s' shows something else afterwards" % (where, n))
                return
        ctx.trace()


def unwritable(task, ctx):
    """The target cannot be written: an error is raised, and later plots are as always."""
    _, i, name = task
    p, what = plots(i)
    with Folder() as f:
        s, r = isolated(p[name])
        file = list(f.files())
    if s != "ok" or len(file) != 1:
        ctx.fail("alone", "plot '%s' of %s: %s, files %s" % (name, what, r, file))
        return
    with Folder():
        s, want = isolated(lambda: shoot([p["displacements"], p["u"]]))
    for kind in ("plot folder is a file", "plot folder is a dangling link", "file name is a folder", "disk is full"):
        def body():
            import matplotlib.pyplot as plt
            import matplotlib.figure as mf
            real = mf.Figure.savefig
            if kind == "plot folder is a file":
                open(PLOTDIR, "w").close()
            elif kind == "plot folder is a dangling link":
                os.symlink("nowhere/at/all", PLOTDIR)
            elif kind == "file name is a folder":
                os.makedirs(file[0])
            else:
                def full(fig, name, *a, **k):
                    with open(name, "wb") as f:
                        f.write(b"\x89PNG")
                    raise OSError(28, "No space left on device")
                mf.Figure.savefig = full
            raised = False
            try:
                p[name]()
            except OSError:
                raised = True
            mf.Figure.savefig = real
            if kind == "plot folder is a file":
                os.remove(PLOTDIR)
            elif kind == "plot folder is a dangling link":
                os.unlink(PLOTDIR)
            elif kind == "file name is a folder":
                shutil.rmtree(file[0].split(os.sep)[0])
            n = len(plt.get_fignums())
            return raised, n, shoot([p["displacements"], p["u"]])
        with Folder():
            s, r = isolated(body)
        ctx.step(3)
        where = "plot '%s' of %s, %s" % (name, what, kind)
        if s != "ok":
            ctx.fail("unwritable", "%s: %s" % (where, r))
            return
        if not r[0]:
            ctx.fail("silent", "%s: the plot is not saved and no error is raised" % where)
            return
        if r[2] != want:
            ctx.fail("unwritable", "%s: later plots show something else" % where)
            return
        ctx.state((name, kind))
        ctx.trace()


def processes(task, ctx):
    kind, na, nb, th = task[:4]
    p, wa = plots(0)
    q, wb = plots(8)
    fa, fb = p[na], q[nb]
    what = "process one plots '%s', process two '%s'" % (na, nb)
    with Folder():
        shoot([fa, fb])                                                # fonts and formulas are in matplotlib's caches
    alone = []
    for f in (fa, fb):
        with Folder() as d:
            s, r = isolated(f)
            alone.append(d.files())
        if s != "ok" or len(alone[-1]) != 1:
            ctx.fail("alone", "%s: %s, files %s" % (what, r, list(alone[-1])))
            return

    def log(f):
        t = Tracer()
        t.run(f)
        return t.log
    with Folder():
        s, la = isolated(lambda: log(fa))
        s, lb = isolated(lambda: log(fb))
    late = 12                                                          # lines around saving
    ka, kb = points(la, 1), points(lb, 1)
    if kind == "processes":
        plan = [(k, None, s) for k in ka for s in (STATES if k > len(la) - late else STATES[:1])]
    else:
        plan = [(k, j, task[4]) for k in ka if k > len(la) - late for j in kb if j > len(lb) - late]
    plan = plan[task[4]::task[5]] if kind == "processes" else plan
    want = {}
    for a in alone:
        for n, v in a.items():
            want.setdefault(n, []).append(v)
    old = [os.path.basename(n) for n in want]
    for k, j, state in plan:
        with Folder(state, old) as d:
            a = Stopped(fa, k)
            if j is None:
                rb = isolated(fb)
                ra = a.release()
            else:
                b = Stopped(fb, j)
                ra = a.release()
                rb = b.release()
            got = d.files()
        ctx.step(2 if j is None else 3)
        where = "%s; preempted before line %d%s of plot.py, plot folder %s" % (what, la[k - 1], "" if j is None else " and %d" % lb[j - 1], state)
        for r, w in ((ra, "one"), (rb, "two")):
            if r[0] != "ok":
                ctx.fail("processes", "%s: process %s fails with %s" % (where, w, r[1]))
                return
        if got.keys() != want.keys():
            ctx.fail("processes", "%s: files %s instead of %s" % (where, sorted(got), sorted(want)))
            return
        for n, v in want.items():
            if got[n] not in v:
                ctx.fail("processes", "%s: '%s' is not the plot a process saves alone" % (where, n))
                return
        ctx.state((kind, k, j, state))
        ctx.trace()
