"""C06: a computation that dies in a numerical kernel leaves the model usable (exhaustive fault injection)."""
import types

import numpy as np

import ops
import space
from common import has_crack
from core import sig

ID, LEVEL = "C06", "model_checking"
BOUNDS = {"quick": "every kernel call index of 15 operations on 8 models x {fails with an error, is interrupted before, is interrupted after}; every "
                   "ordered pair of fault points of the short operations",
          "thorough": "the same on 14 models, pairs of fault points also for the touchdown computations (second point: first, middle and last 12 "
                      "of each distinct kernel)"}
ASSUME = ["kernels: every function of numpy.linalg, scipy.linalg, scipy.optimize and scipy.integrate that weac calls, and saving a figure",
          "an operation that survives a fault must return its usual result", "a configuration setter that failed has to be repeated"]

MODELS = [  # system, touchdown, experiment, layers, weak layer
    ("pst-", True, 1, 0, 0), ("-pst", True, 1, 2, 1), ("pst-", True, 0, 3, 1), ("-pst", True, 2, 0, 0), ("pst-", False, 0, 0, 0),
    ("skier", False, 0, 2, 0), ("skiers", True, 0, 0, 1), ("-vpst", True, 0, 3, 0),
    ("-pst", True, 0, 1, 0), ("pst-", True, 2, 1, 2), ("vpst-", False, 1, 1, 1), ("skier", True, 1, 0, 0), ("skiers", False, 1, 3, 0),
    ("-pst", False, 1, 7, 3)]
KINDS = ("error", "interrupt", "late")
NP = 6


def tasks(tier):
    th = tier == "thorough"
    out = []
    for i in range(len(MODELS) if th else 8):
        for o in OPS:
            if not applies(o, MODELS[i]) or o == "helper" and not th and i != 0:
                continue
            long = o in ("calc_segments", "a2", "lC", "helper", "a1", "observe")
            for k in KINDS:
                for part in range(NP if long else 1):
                    out.append(["one", i, o, k, part, NP if long else 1])
            if o not in ("helper", "observe") and (th or not long and o not in ("plot", "contour")):
                out.append(["two", i, o, "interrupt", 0, 1])
    return out


CHUNK = 1


def applies(o, md):
    td = md[1] and md[0] in ("pst-", "-pst")
    if o in ("a1", "a2"):
        return td
    if o in ("lC", "stiffness"):
        return td and (o != "lC" or md[2] == 1)
    if o == "ginc":
        return True
    return True


class Fault:
    """Counts kernel calls and lets one of them fail."""

    def __init__(self):
        import scipy.integrate
        import scipy.linalg
        import scipy.optimize
        import matplotlib.pyplot as plt
        import weac
        import weac.eigensystem
        import weac.inverse
        import weac.layered
        import weac.mixins
        import weac.plot
        import weac.tools
        self.n, self.at, self.kind, self.names, self.on, self.hit = 0, -1, None, [], False, False
        wrapped = {}
        for mod in (np.linalg, scipy.linalg, scipy.optimize, scipy.integrate):
            for n in dir(mod):
                f = getattr(mod, n)
                if not n.startswith("_") and callable(f) and not isinstance(f, (type, types.ModuleType)):
                    wrapped[id(f)] = (f, self.wrap(n, f))
        wrapped[id(plt.savefig)] = (plt.savefig, self.wrap("savefig", plt.savefig))
        for mod in (np.linalg, scipy.linalg, scipy.optimize, scipy.integrate, plt, weac.eigensystem, weac.mixins, weac.tools, weac.layered,
                    weac.inverse, weac.plot):
            for n, f in list(vars(mod).items()):
                if id(f) in wrapped and wrapped[id(f)][0] is f:
                    setattr(mod, n, wrapped[id(f)][1])

    def wrap(self, name, f):
        def g(*a, **k):
            if not self.on:
                return f(*a, **k)
            n = self.n
            self.n += 1
            self.names.append(name)
            if n == self.at:
                self.hit = True
                if self.kind == "late":
                    f(*a, **k)
                self.boom(name)
            return f(*a, **k)
        return g

    def boom(self, name):
        if self.kind == "error":
            raise np.linalg.LinAlgError("injected") if name not in ("brentq", "savefig") else (
                RuntimeError("injected") if name == "brentq" else OSError("injected"))
        raise KeyboardInterrupt

    def run(self, op, at, kind):
        """Run op with the fault; returns ('ok', result) or ('died', None)."""
        self.n, self.at, self.kind, self.names, self.hit = 0, at, kind, [], False
        self.on = True
        try:
            return "ok", op()
        except (KeyboardInterrupt, np.linalg.LinAlgError, RuntimeError, OSError):
            if not self.hit:
                raise
            return "died", None
        finally:
            self.on = False
            if self.names and "savefig" in self.names:
                import matplotlib.pyplot as plt
                plt.close("all")


_fault = None


def fault():
    global _fault
    if _fault is None:
        _fault = Fault()
    return _fault


class Bench:
    def __init__(self, i):
        s, td, n, la, wk = MODELS[i]
        self.exps = ops.experiments(s, td)
        self.e = e = self.exps[n % len(self.exps)]
        self.cfg = {"system": s, "layers": space.LAYERS[la], "weak": space.WEAK[wk], "mat": space.MAT[0], "g": 9810, "lski": 1000, "p": 3e-4}
        self.m = m = space.model(self.cfg, touchdown=td)
        self.td = td
        self.phi = e["phi"]
        self.seg = m.calc_segments(**e)
        self.C1 = m.assemble_and_solve(phi=self.phi, **self.seg["crack"])
        self.C0 = m.assemble_and_solve(phi=self.phi, **self.seg["nocrack"])
        c = self.seg["crack"]
        self.x, self.z, self.xb = m.rasterize_solution(C=self.C1, phi=self.phi, li=c["li"], ki=c["ki"], num=40)


def o_segments(b):
    s = b.m.calc_segments(**b.e)
    return [s["both"][k] for k in ("li", "mi", "ki", "k0")] + [ord(b.m.mode)]


def o_ginc(b):
    return b.m.ginc(C0=b.C0, C1=b.C1, phi=b.phi, **b.seg["both"]) if has_crack(b.seg) else 0.0


def o_solve(b):
    return b.m.assemble_and_solve(phi=b.phi, **b.seg["crack"])


def o_stiff(b):
    return [b.m.substitute_stiffness(600.0, a, d) for a in ("supported", "rested") for d in ("rot", "trans")]


def o_stress(b):
    m, z = b.m, b.z[:, ::9]
    return [m.Sxx(z, b.phi, dz=50), m.Txz(z, b.phi, dz=50), m.Szz(z, b.phi, dz=50), m.principal_stress_slab(z, b.phi, dz=50),
            m.principal_stress_weaklayer(z)]


def o_raster(b):
    c = b.seg["crack"]
    return list(b.m.rasterize_solution(C=b.C1, phi=b.phi, li=c["li"], ki=c["ki"], num=30))


def o_weak(b):
    b.m.set_foundation_properties(*b.cfg["weak"], update=True)
    return [b.m.kn, b.m.zh(10.0, 100.0)]


def o_beam(b):
    C0, C1, nu = b.cfg["mat"]
    b.m.set_beam_properties(b.cfg["layers"], C0=C0, C1=C1, nu=nu, update=True)
    return [b.m.kA55, b.m.zh(10.0, 100.0)]


def o_fund(b):
    b.m.calc_fundamental_system()
    return [b.m.zh(10.0, 100.0)]


def o_helper(b):
    from weac.tools import touchdown_distance
    return list(touchdown_distance(layers=b.cfg["layers"], Ewl=0.3, t=20, phi=15))


def o_plot(b):
    from weac import plot
    plot.displacements(b.m, b.x, b.z, **b.seg["crack"])
    return 0


def o_contour(b):
    from weac import plot
    plot.deformed(b.m, b.x, b.xb, b.z, b.phi, dz=60, levels=6)
    return 0


OPS = {"calc_segments": o_segments, "solve": o_solve, "solve uncracked": lambda b: b.m.assemble_and_solve(phi=b.phi, **b.seg["nocrack"]),
       "rasterize": o_raster, "gdif": lambda b: b.m.gdif(C=b.C1, phi=b.phi, **b.seg["crack"]), "ginc": o_ginc, "stresses": o_stress,
       "stiffness": o_stiff, "a1": lambda b: b.m.calc_a1(), "a2": lambda b: b.m.calc_a2(), "lC": lambda b: b.m.calc_lC(),
       "foundation": o_weak, "beam": o_beam, "system": o_fund, "helper": o_helper, "plot": o_plot, "contour": o_contour}
SETTERS = ("foundation", "beam", "system")


def flat(v):
    if isinstance(v, (list, tuple)):
        return np.concatenate([flat(x) for x in v]) if len(v) else np.zeros(0)
    return np.asarray(v, float).ravel()


def same(a, b):
    a, b = flat(a), flat(b)
    if a.shape != b.shape:
        return False
    s = np.max(np.abs(b[np.isfinite(b)]), initial=0.0)
    return bool(np.all((np.abs(a - b) <= 1e-9 * np.maximum(np.abs(b), 1e-6 * s)) | (np.isnan(a) & np.isnan(b))))


def probe(b):
    """State the model answers from, without setting anything up again."""
    m = b.m
    return [m.kn, m.kt, m.A11, m.B11, m.D11, m.kA55, m.h, m.zs, m.g, m.lski, m.p, m.t, float(m.touchdown),
            m.zh(7.0, 300.0), m.zh(7.0, 300.0, False), m.zp(7.0, 20), m.zp(7.0, 20, False), m.get_weight_load(20), m.calc_system_matrix(),
            o_raster(b), b.m.gdif(C=b.C1, phi=b.phi, **b.seg["crack"])]


def run(task, ctx):
    mode, i, o, kind, part, parts = task
    f = fault()
    b = Bench(i)
    op = OPS[o]
    want = op(b)
    want = op(b)
    p0 = probe(b)
    sysname = b.m.system
    fresh = Bench(i)
    exps = [b.e] + [e for e in b.exps if e is not b.e][:1]
    gold = ops.observe(fresh.m, exps, full=False)
    st, r = f.run(lambda: op(b), -1, None)
    names = list(f.names)
    n = len(names)
    ctx.notes["max_kernel_calls"] = n
    what = "operation '%s' on %s touchdown=%s %s" % (o, b.cfg["system"], b.td, b.e)
    ctx.state((o, n))

    def judge(where):
        if b.m.system != sysname:
            ctx.fail("system", "the model's system is '%s' instead of '%s' after %s; %s" % (b.m.system, sysname, where, what))
            return False
        if o not in SETTERS and not same(probe(b), p0):
            ctx.fail("state", "the model answers differently after %s; %s" % (where, what))
            return False
        return True

    def again(where):
        got = op(b)
        if not same(got, want):
            ctx.fail("repeat", "repeating the call after %s gives %s instead of %s; %s" % (where, flat(got)[:4], flat(want)[:4], what))
            return False
        return True

    if mode == "one":
        for k in range(part, n, parts):
            st, r = f.run(lambda: op(b), k, kind)
            ctx.step()
            where = "'%s' call number %d of %d (%s) %s" % (names[k], k + 1, n, kind, st)
            if st == "ok" and f.hit and not same(r, want):
                ctx.fail("survived", "%s: result is %s instead of %s; %s" % (where, flat(r)[:4], flat(want)[:4], what))
                return
            if not judge(where):
                return
            if o in SETTERS or k % 3 == 0:
                if not again(where):
                    return
            if k % 3 != 1 or n < 12:
                d = ops.differ(gold, ops.observe(b.m, exps, full=False))
                if d:
                    ctx.fail("later", "after %s, %s than on a fresh model; %s" % (where, d, what))
                    return
                b.m.calc_segments(**b.e)
                if o == "solve":
                    b.seg = b.m.calc_segments(**b.e)
            elif not again(where):
                return
            ctx.state((o, names[k], kind, st))
            ctx.trace()
    else:
        idx = list(range(n))
        if n > 24:
            byname = {}
            for k, q in enumerate(names):
                byname.setdefault(q, []).append(k)
            idx = sorted({k for v in byname.values() for k in v[:4] + v[len(v) // 2:len(v) // 2 + 4] + v[-4:]})
        for k in idx:
            for j in idx:
                f.run(lambda: op(b), k, "interrupt")
                f.run(lambda: op(b), j, "error")
                ctx.step(2)
                where = "faults at kernel calls %d and then %d of %d" % (k + 1, j + 1, n)
                if not judge(where):
                    return
                ctx.state((o, names[k], names[j]))
            if not again(where):
                return
            ctx.trace(len(idx))
        d = ops.differ(gold, ops.observe(b.m, exps, full=False))
        if d:
            ctx.fail("later", "after faults, %s than on a fresh model; %s" % (d, what))
    ctx.outcomes.add(sig(flat(want)))
