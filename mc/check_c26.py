"""C26: the package leaves the state of the calling process alone and does not depend on it."""
import contextlib
import itertools
import json
import multiprocessing as mp
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

import check_c04 as c04
import check_c05 as c05
import check_c24 as c24
import ops
from core import REPO, sig

ID, LEVEL = "C26", "model_checking"
BOUNDS = {"quick": "import of 7 modules; every history of 1 operation over the alphabet of C04 (40) on 5 models and every pair of a core and any operation on 2 of them; every query "
                   "of C05 (41) on 14 models and 37 calls with unusual options or data on 4, plots on 6; 18 calls of the tools; each in 2 states of the process, ~35 neighbours of 5 configurations one after another in a customised process, "
                   "15 operations interrupted before every line of weac (first time it is reached)",
          "thorough": "pairs over the full alphabet on 5 models, plots on 14 models; interruption at the first four and last times a line is reached"}
ASSUME = ["Python warnings are not counted as output", "messages about short boundary segments and unsupported systems are documented output"]
CHUNK = 1
PROCESS = ["default", "custom"]
PLOTTING = ("figures", "rcParams", "fontsize")


# --- what belongs to the process -----------------------------------------------------------------------------

def prepare(state):
    """Brings the process into a state of its own (custom) or leaves it as the interpreter started."""
    import decimal
    import gc
    import locale
    import logging
    import random
    import signal
    import socket
    import threading
    import warnings

    import matplotlib
    import matplotlib.pyplot as plt
    warnings.resetwarnings()
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    if state != "custom":
        return
    np.seterr(divide="ignore", over="call", under="warn", invalid="ignore")
    np.seterrcall(note)
    np.setbufsize(16384)
    np.set_printoptions(precision=2, suppress=True, threshold=3, edgeitems=1)
    warnings.filterwarnings("error", category=FutureWarning, module="nothing")
    warnings.simplefilter("ignore")
    random.seed(7)
    np.random.seed(7)
    decimal.getcontext().prec = 5
    sys.setrecursionlimit(3210)
    sys.setswitchinterval(0.01)
    matplotlib.rcParams.update({"lines.linewidth": 3, "font.size": 7, "image.cmap": "gray"})
    plt.figure(7)
    plt.plot([0, 1], [1, 0])
    gc.disable()
    logging.basicConfig(level=logging.ERROR)
    signal.signal(signal.SIGUSR1, lambda *a: None)
    os.environ["WEAC"] = os.environ["OMP_THREADS"] = "3"
    with contextlib.suppress(locale.Error):
        locale.setlocale(locale.LC_ALL, "C.UTF-8")
    os.umask(0o77)
    socket.setdefaulttimeout(3)
    sys.setprofile(None)
    sys.excepthook = lambda *a: None
    threading.excepthook = lambda *a: None
    with open("data.csv", "w") as f:
        f.write("1, 2, 3")


def note(*args):
    """A caller's handler of floating-point errors."""


def probe():
    """Everything global to the process, as comparable values."""
    import decimal
    import gc
    import locale
    import logging
    import multiprocessing
    import random
    import resource
    import signal
    import socket
    import threading
    import time
    import types
    import warnings

    import matplotlib
    import matplotlib.pyplot as plt
    p = {}
    p["numpy errors"] = (np.geterr(), id(np.geterrcall()), np.getbufsize())
    p["print options"] = {k: repr(v) for k, v in np.get_printoptions().items()}
    p["warning filters"] = [repr(f) for f in warnings.filters], id(warnings.showwarning)
    p["random"] = sig_bytes(repr(random.getstate()).encode())
    s = np.random.get_state()
    p["numpy random"] = sig_bytes(s[1].tobytes() + repr((s[0],) + s[2:]).encode())
    p["cwd"] = os.getcwd()
    p["environment"] = dict(os.environ)
    mask = os.umask(0)
    os.umask(mask)
    p["umask"] = mask
    files = {}
    for q, _, fs in os.walk("."):
        for f in fs + [""]:
            st = os.stat(os.path.join(q, f))
            files[os.path.join(q, f)] = st.st_size if f else 0
    p["files"] = files
    held = {}
    for n in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            held[n] = os.readlink("/proc/self/fd/" + n)
    # matplotlib keeps its fonts open
    p["open files"] = {n: f for n, f in held.items() if not f.endswith((".ttf", ".otf", ".afm", ".ttc")) and not f.startswith("/proc/")}
    p["import path"] = list(sys.path), [id(f) for f in sys.meta_path], sys.dont_write_bytecode
    p["interpreter"] = (sys.getrecursionlimit(), sys.getswitchinterval(), id(sys.gettrace()), id(sys.getprofile()), id(sys.excepthook), id(sys.displayhook),
                        id(threading.excepthook), sys.get_int_max_str_digits(), id(sys.stdout), id(sys.stderr), list(sys.argv))
    p["signals"] = [str(signal.getsignal(n)) for n in range(1, signal.NSIG) if n not in (9, 19)] + [signal.getitimer(signal.ITIMER_REAL)[1]]
    p["threads"] = sorted(t.name for t in threading.enumerate()), len(multiprocessing.active_children())
    p["locale"] = locale.setlocale(locale.LC_ALL), time.tzname
    p["decimal"] = repr(decimal.getcontext().copy())
    p["logging"] = (logging.root.level, len(logging.root.handlers), logging.root.manager.disable)
    p["gc"] = gc.isenabled(), gc.get_threshold(), gc.get_debug()
    p["socket"] = socket.getdefaulttimeout()
    p["limits"] = [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CPU)] + [os.nice(0)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p["rcParams"] = {k: repr(matplotlib.rcParams[k]) for k in matplotlib.rcParams}
    p["figures"] = plt.get_fignums(), [[len(a.lines) for a in plt.figure(n).axes] if len(plt.get_fignums()) == 1 else n for n in plt.get_fignums()]
    p["backend"] = matplotlib.get_backend(), plt.isinteractive(), sorted(matplotlib.colormaps)
    import builtins
    import copy
    import math

    import scipy.integrate
    import scipy.linalg
    import scipy.optimize
    for m in (builtins, math, os, copy, warnings, random, np, np.linalg, scipy.integrate, scipy.linalg, scipy.optimize, matplotlib, plt,
              matplotlib.figure, matplotlib.axes.Axes, matplotlib.figure.Figure):
        names = vars(m)
        p["module " + m.__name__] = {k: id(v) for k, v in names.items() if isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType, np.ufunc))}
    return p


def sig_bytes(b):
    import hashlib
    return hashlib.md5(b).hexdigest()


def changed(a, b, skip=()):
    """Names of what changed, with details.  New functions in modules (imported lazily) are no change."""
    out = []
    for k in a:
        if k in skip:
            continue
        if k.startswith("module "):
            d = [n for n in a[k] if n in b[k] and a[k][n] != b[k][n] or n not in b[k]]
            if d:
                out.append("%s: %s" % (k, d[:5]))
        elif a[k] != b[k]:
            if isinstance(a[k], dict):
                d = sorted(n for n in a[k].keys() | b[k].keys() if a[k].get(n) != b[k].get(n))
                out.append("%s: %s" % (k, d[:5]))
            else:
                out.append("%s: %s -> %s" % (k, str(a[k])[:120], str(b[k])[:120]))
    return out


# --- one operation in a process of its own ----------------------------------------------------------------------

def inprocess(state, setup, op, skip=(), after=None, interrupt=False, points=None):
    """Runs setup and op in a fork; returns what op changed, what it wrote and what `after` computes."""
    d = tempfile.mkdtemp(dir=os.getcwd())

    def body():
        os.chdir(d)
        os.mkdir("work")
        os.mkdir("out")
        os.chdir("work")
        o = os.open("../out/stdout", os.O_WRONLY | os.O_CREAT)
        os.dup2(o, 1)
        os.dup2(o, 2)
        os.close(o)
        sys.stdout, sys.stderr = os.fdopen(os.dup(1), "w"), os.fdopen(os.dup(2), "w")
        import warnings
        warnings.showwarning = lambda *a, **k: None
        prepare(state)
        w = setup()
        probe()
        sys.stdout.flush()
        written = os.path.getsize("../out/stdout")
        p0 = probe()
        raised, res = None, None
        forks = []
        try:
            if points is None:
                res = op(w)
            else:
                stops(lambda: op(w), points, p0, skip, forks)
        except Exception as e:
            raised = "%s: %s" % (type(e).__name__, str(e)[:100])
        p1 = probe()
        sys.stdout.flush()
        sys.stderr.flush()
        with open("../out/stdout") as f:
            text = f.read()[written:]
        return changed(p0, p1, skip), text, raised, after(w, res) if after else None, forks
    try:
        return c24.isolated(body)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Lines(c24.Tracer):
    """Line events of the whole package."""

    def run(self, fn):
        mon = sys.monitoring
        mon.use_tool_id(4, "mc")
        mon.register_callback(4, mon.events.LINE, self.line)
        cs = [c for m in package() for c in c24.codes(m)]
        for c in cs:
            mon.set_local_events(4, c, mon.events.LINE)
        try:
            return fn()
        finally:
            for c in cs:
                mon.set_local_events(4, c, 0)
            mon.free_tool_id(4)

    def line(self, code, no):
        self.n += 1
        self.log.append((os.path.basename(code.co_filename), no))


def package():
    import weac
    import weac.eigensystem
    import weac.inverse
    import weac.layered
    import weac.mixins
    import weac.plot
    import weac.tools
    return [weac.eigensystem, weac.inverse, weac.layered, weac.mixins, weac.tools, weac.plot]


def stops(fn, cap, p0, skip, forks):
    """A fork is interrupted at every line; what changed by then is reported."""
    class Branch(Lines):
        inside = None
        seen = {}

        def line(self, code, no):
            self.n += 1
            p = (os.path.basename(code.co_filename), no)
            self.seen[p] = self.seen.get(p, 0) + 1
            if self.inside is None and self.seen[p] <= cap:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self.inside, self.at = w, p
                    raise KeyboardInterrupt
                os.close(w)
                forks.append((p, c24.result(pid, r)))
    b = Branch()
    b.seen = {}
    try:
        b.run(fn)
    except KeyboardInterrupt:
        pass
    except BaseException:
        if b.inside is None:
            raise
    if b.inside is not None:
        try:
            r = b.inside
            q = dict(probe())
            # pipes to the parent
            q["open files"] = p0["open files"]
            q["random"] = p0["random"]                                 # reseeded by the fork
            with os.fdopen(r, "wb") as f:
                pickle.dump(("ok", changed(p0, q, skip)), f)
        finally:
            os._exit(0)


# --- operations ------------------------------------------------------------------------------------------------

def toolcalls():
    from weac import tools as t
    layers = [[180, 100], [270, 150], [320, 80]]
    s = np.array([[180, 100, 1.0], [270, 150, 3.0]])
    return {
        "time": lambda: t.time(), "isnotebook": t.isnotebook,
        "center": lambda: t.calc_center_of_gravity(layers), "vertical": lambda: t.calc_vertical_bc_center_of_gravity(s, 30),
        "vertical flat": lambda: t.calc_vertical_bc_center_of_gravity(s, 0),
        "bergfeld": lambda: t.bergfeld(np.array([180.0, 300])), "scapozza": lambda: t.scapozza(np.array([180.0, 300])),
        "gerling": lambda: t.gerling(np.array([180.0, 300])), "tensile": lambda: t.tensile_strength_slab(np.array([180.0, 300])),
        "profile a": lambda: t.load_dummy_profile("a"), "profile h": lambda: t.load_dummy_profile("h"),
        "profile none": lambda: t.load_dummy_profile("nope"),
        "touchdown": lambda: t.touchdown_distance(layers=layers, Ewl=0.4, t=15, phi=12),
        "touchdown profile": lambda: t.touchdown_distance(layers="b", Ewl=0.4, t=15, phi=-12),
        "touchdown bad": lambda: t.touchdown_distance(layers="nope"),
        "touchdown stiff": lambda: t.touchdown_distance(layers=layers, Ewl=1e6, t=1, phi=0),
        "zero density": lambda: t.bergfeld(np.array([0.0, -300])), "bad center": lambda: t.calc_center_of_gravity([[0, 0]]),
    }


STOPPED = ["calc_segments", "solve", "rasterize", "gdif", "gdif J", "ginc", "Sxx", "Szz", "principal normalised", "principal weak normalised", "shear",
           "displacement", "set again", "tools", "stiffness rested rot", "external potential", "internal potential"]
OPT = (0, 4, 7, 9)
MODULES = ["weac", "weac.tools", "weac.eigensystem", "weac.mixins", "weac.layered", "weac.inverse", "weac.plot"]


def tasks(tier):
    import weac          # noqa: F401  imported but not used in this process
    import weac.plot     # noqa: F401
    th = tier == "thorough"
    out = [["import", m, s] for m in MODULES for s in PROCESS]
    for s in PROCESS:
        for i in c04.INIT:
            out += [["history", s, i, [], k, 4] for k in range(4)]
            if th or i in ("pst", "skier"):
                out += [["history", s, i, [o], 0, 1] for o in (c04.FULL if th else c04.CORE)]
        for i in range(len(c05.MODELS)):
            out.append(["queries", s, i, False])
            if th or i in (0, 3, 5, 7, 9, 10):
                out.append(["queries", s, i, True])
        out.append(["tools", s])
    for s, i in itertools.product(PROCESS, range(len(c05.MODELS))) if th else (("custom", 0), ("default", 0), ("default", 3), ("custom", 7)):
        out += [["stopped", s, i, n, 4 if th else 1] for n in STOPPED]
    for s, i in itertools.product(PROCESS, (0, 7)) if th else (("custom", 0), ("default", 0)):
        out += [["stopped", s, i, n, 2 if th else 1] for n in ("plot deformed", "plot profile", "plot stresses", "plot modes")]
    for f in c04.BASES:
        out += [["neighbours", f, k, 3] for k in range(3)]
    P = sorted({s for f in c04.BASES for s in c04.neighbours(f)})
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for c, o in p.imap_unordered(c04.pgolden, P, 1):
            c04.GOLD[c] = o
    cfgs = {c04.final(c04.INIT[t[2]], t[3] + [o]) for t in out if t[0] == "history" for o in c04.FULL}
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for c, o in p.imap_unordered(c04.golden, sorted(cfgs), 1):
            c04.GOLD[c] = o
    return out


def run(task, ctx):
    {"import": imported, "history": history, "queries": queried, "tools": tooled, "stopped": stopped, "neighbours": neighbours}[task[0]](task, ctx)


def judge(ctx, where, s, r, outputs=False):
    """Verdict on one operation; False ends the task."""
    if s != "ok":
        ctx.fail("process", "%s: %s" % (where, r))
        return False
    diff, text, raised, _, _ = r
    ctx.step()
    if diff:
        ctx.fail("state", "%s changes %s" % (where, "; ".join(diff)))
        return False
    if text and not outputs and raised is None:
        ctx.fail("output", "%s writes %r" % (where, text[:120]))
        return False
    ctx.trace()
    return True


def imported(task, ctx):
    _, mod, state = task
    code = ("import sys, os, json\nsys.path[:0] = [%r, %r]\nsys.dont_write_bytecode = True\n"
            "import warnings\nwarnings.showwarning = lambda *a, **k: None\n"
            "try:\n import IPython\nexcept ImportError:\n pass\n"
            "import numpy as np, scipy, scipy.optimize, scipy.integrate, scipy.linalg, scipy.special, matplotlib, matplotlib.pyplot, matplotlib.colors, colorsys\n"
            "import check_c26 as c\nc.prepare(%r)\nc.probe()\na = c.probe()\nimport importlib\nimportlib.import_module(%r)\nb = c.probe()\n"
            "sys.stderr.flush()\nos.write(3, json.dumps(c.changed(a, b)).encode())\n"
            ) % (os.path.dirname(os.path.abspath(__file__)), REPO, state, mod)
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        r, w = os.pipe()

        def third():
            if w != 3:
                os.dup2(w, 3)
        p = subprocess.Popen([sys.executable, "-c", code], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=(w, 3) if w != 3 else (w,),
                             preexec_fn=third)
        out, err = p.communicate(timeout=200)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.step()
    ctx.state((mod, state))
    if p.returncode:
        ctx.fail("import", "import of %s fails: %s" % (mod, err.decode()[-300:]))
        return
    diff = json.loads(data)
    if diff:
        ctx.fail("import", "import of %s changes %s" % (mod, "; ".join(diff)))
    elif out or err:
        ctx.fail("output", "import of %s writes %r" % (mod, (out + err)[:200]))
    else:
        ctx.trace()


def history(task, ctx):
    _, state, init, pre, part, parts = task

    def start():
        w = c04.World(c04.INIT[init])
        for o in pre:
            c04.FULL[o](w)
        return w

    def after(w, res):
        return w.cfg, ops.observe(w.m, c04.exps(w.cfg), full=False)
    for o in list(c04.FULL)[part::parts]:
        where = "'%s' on model '%s' after %s (process state: %s)" % (o, init, pre, state)
        plot = o in ("plot", "bad plot") or o in ("analyse",) and False
        skip = PLOTTING + ("files",) if plot else ()
        s, r = inprocess(state, start, c04.FULL[o], skip, after)
        if not judge(ctx, where, s, r, outputs=plot):
            return
        cfg, obs = r[3]
        ctx.state((state, o, sig(obs["laminate"][0])))
        d = ops.differ(c04.gold(cfg), obs)
        if d:
            ctx.fail("result", "%s: %s than in a new process" % (where, d))
            return


def queried(task, ctx):
    _, state, i, plot = task
    b = c05.Bench(i, "array")
    names = list(plots(b, i) if plot else dict(c05.queries(b), **options(b, i in OPT)))

    def start():
        b = c05.Bench(i, "array")
        return b, dict(c05.queries(b), **options(b, i in OPT)), plots(b, i)
    for n in names:
        skip = PLOTTING + ("files",) if plot and n != "helper" else ()
        where = "'%s' on %s (process state: %s)" % (n, c05.MODELS[i], state)

        def op(w):
            return w[2 if plot else 1][n]()
        get = None if plot else (lambda w, r: c05.deep(r))
        s, r = inprocess(state, start, op, skip, get)
        if not judge(ctx, where, s, r):
            return
        ctx.state((state, i, n))
        if not plot and state != "default":
            s, q = inprocess("default", start, op, skip, get)
            if s != "ok" or (q[2] or "").split(":")[0] != (r[2] or "").split(":")[0] or not c05.equal(q[3], r[3], 1e-10):
                ctx.fail("result", "%s gives another result than in the default state" % where)
                return


def options(b, every):
    """Calls with unusual options or data, some of which fail."""
    if not every:
        return {}
    m, c, phi = b.m, b.seg["crack"], b.phi
    gap = b.zs.copy()
    gap[:, ::2] = np.nan
    zero = 0 * b.zs
    q = {}
    for n, z in (("gaps", gap), ("zeros", zero), ("field", b.zs)):
        for val in ("min", "max", "none"):
            for norm in (False, True):
                q["principal weak %s %s %s" % (n, val, norm)] = lambda z=z, v=val, o=norm: m.principal_stress_weaklayer(z, val=v, normalize=o)
                q["principal %s %s %s" % (n, val, norm)] = lambda z=z, v=val, o=norm: m.principal_stress_slab(z, phi, dz=60, val=v, normalize=o)
        q["stresses " + n] = lambda z=z: [m.Sxx(z, phi, dz=60, unit="kPa"), m.Txz(z, phi, dz=60), m.Szz(z, phi, dz=60)]
        q["accessors " + n] = lambda z=z: [m.tau(z), m.sig(z), m.Gi(z), m.Gii(z), m.psi(z, unit="deg"), m.N(z), m.M(z)]
        q["no unit " + n] = lambda z=z: m.Sxx(z, phi, unit="none")
    q["gdif no unit"] = lambda: m.gdif(C=b.C1, phi=phi, unit="none", **c)
    q["steep"] = lambda: [m.get_weight_load(90), m.zp(3.0, 90), m.zp(3.0, -90, False)]
    q["unsolvable"] = lambda: m.assemble_and_solve(phi=phi, **dict(c, li=[np.nan for _ in c["li"]]))
    q["lengths"] = lambda: m.assemble_and_solve(phi=phi, li=c["li"], mi=[0] * 9, ki=c["ki"])
    q["empty"] = lambda: m.rasterize_solution(C=b.C1, phi=phi, li=c["li"], ki=c["ki"], num=0)
    q["gradient of nothing"] = lambda: m.ginc(C0=b.C0, C1=b.C1, phi=phi, **dict(b.seg["both"], ki=b.seg["both"]["k0"]))
    q["no foundation"] = lambda: m.set_foundation_properties(t=0, update=True)
    q["singular"] = lambda: m.set_foundation_properties(E=0, update=True)
    q["endless foundation"] = lambda: m.set_foundation_properties(E=float("inf"), update=True)
    q["no layers"] = lambda: m.set_beam_properties([], update=True)
    q["massless"] = lambda: m.set_beam_properties([[0, 100]], update=True)
    q["far"] = lambda: [m.zh(1e7, 1e7), m.zh(1e7, 10)]
    return q


def plots(b, i):
    p = dict(c05.plots(b))
    if i in (0, 7):
        p.update({"plot " + k: v for k, v in c24.plots((0, 8)[i == 7])[0].items()})
    return p


def neighbours(task, ctx):
    """Two models that differ in one input, one after the other in a process of custom state."""
    _, fam, part, parts = task
    base = c04.BASES[fam]
    todo = c04.neighbours(fam)[1 + part::parts]

    def op(w):
        out = []
        m = c04.build(base)
        out.append((base, c04.look(m, base)))
        for j, s in enumerate(todo):
            if j % 2:
                m = c04.build(base)
                c04.move(m, base, s, 1)
            else:
                m = c04.build(s)
            out.append((s, c04.look(m, s)))
        return out
    where = "one model after another (process state: custom)"
    s, r = inprocess("custom", lambda: None, op, (), lambda w, res: res)
    if not judge(ctx, where, s, r):
        return
    for c, o in r[3]:
        ctx.step()
        ctx.state(("neighbours", c))
        d = ops.differ(c04.gold(c), o)
        if d:
            ctx.fail("result", "%s: %s, for %s" % (where, d, dict(zip(c04.AXES, c))))
            return
        ctx.trace()


def tooled(task, ctx):
    _, state = task
    for n in toolcalls():
        res = {}
        for st in dict.fromkeys([state, "default"]):
            s, r = inprocess(st, toolcalls, lambda t: t[n](), (), lambda t, r: c05.deep(r))
            if not judge(ctx, "tools '%s' (process state: %s)" % (n, st), s, r):
                return
            res[st] = r[3]
            ctx.state((st, n, r[2]))
        if n not in ("time",) and not c05.equal(res[state], res["default"], 1e-10):
            ctx.fail("result", "tools '%s' gives another result in state %s" % (n, state))
            return


def stopped(task, ctx):
    """Interrupted before every line of the package."""
    _, state, i, n, cap = task
    plot = n.startswith("plot")

    def start():
        b = c05.Bench(i, "array")
        return b, dict(c05.queries(b), **c05.plots(b))

    def op(w):
        return w[1][n]()
    if n not in start()[1]:
        return
    skip = PLOTTING + ("files",) if plot else ()
    s, r = inprocess(state, start, op, skip, points=cap)
    where = "'%s' on %s (process state: %s)" % (n, c05.MODELS[i], state)
    if not judge(ctx, where, s, r):
        return
    for p, (st, diff) in r[4]:
        ctx.step()
        ctx.state((n, p))
        if st != "ok" or diff:
            ctx.fail("interrupted", "%s interrupted before %s:%d: %s" % (where, p[0], p[1], diff if st != "ok" else "changes " + "; ".join(diff)))
            return
        ctx.trace()
