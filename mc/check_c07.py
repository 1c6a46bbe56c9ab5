"""C07: touchdown regime, unsupported length and contact conditions against an independent cantilever-on-springs model."""
import numpy as np
from scipy.optimize import brentq

import ref
import space
from core import sig

ID, LEVEL = "C07", "model_checking"
BOUNDS = {"quick": "every configuration within 1 deviation (23 layerings, 8 weak layers, 15 slopes, 6 loads, 4 parametrisations, 3 gravities) of 2 "
                   "bases x 2 cut directions x 9 (base) or 4 of 9 (column length, collapse factor, stiffness ratio) x 13 crack lengths around the regime changes",
          "thorough": "the same within 2 deviations x 2 cut directions, 16 columns and 25 crack lengths"}
ASSUME = ["columns for which the reference has no first or full contact between L/1000 and 999 L/1000, or whose slab already rests on the collapsed "
          "layer under its own weight, are outside the domain",
          "the touchdown length may saturate at 0.999 of the crack length right after full contact",
          "regimes are not judged within 1e-6 (relative) of a threshold"]

COLS = [(2500.0, 0.5, 1000), (6000.0, 0.5, 1000), (2500, 0.2, 1000), (4000.0, 0.8, 1000), (2500.0, 0.5, 2), (3000.0, 0.3, 1e5), (800.0, 0.1, 1000),
        (30000.0, 0.5, 1000), (1500.0, 0.05, 100)]
COLS_T = COLS + [(100000.0, 0.5, 1000), (2500.0, 0.5, 1), (1000.0, 0.4, 50), (3500, 1, 1000), (2200.0, 0.9, 3), (700.0, 0.02, 1000), (12000.0, 0.99, 200)]
AX = ["layers", "weak", "phi", "p", "mat", "g"]
SIZES = [len(space.LAYERS), len(space.WEAK), len(space.PHI), len(space.P), len(space.MAT), len(space.G)]


def tasks(tier):
    th = tier == "thorough"
    seen, out = set(), []
    for b in ((0, 0, 0, 0, 0, 0), (1, 1, 1, 1, 0, 0)):
        for idx in space.deviations(SIZES, 2 if th else 1, list(b)):
            if idx not in seen and space.PHI[idx[2]] != 90.0:
                seen.add(idx)
                for s in ("pst-", "-pst"):
                    out.append([s, list(idx), th])
    for s in ("vpst-", "-vpst", "skier", "skiers", "off pst-", "off -pst"):
        for i in range(4):
            out.append(["ignored " + s, i, th])
    return out


def config(s, idx):
    v = [space.LAYERS, space.WEAK, space.PHI, space.P, space.MAT, space.G]
    c = {a: x[i] for a, x, i in zip(AX, v, idx)}
    return dict(c, system=s, lski=1000)


def bracket(f, lo, hi):
    a, b = f(lo), f(hi)
    if not (np.isfinite(a) and np.isfinite(b)) or a * b > 0:
        return None
    return brentq(f, lo, hi, xtol=1e-9, rtol=1e-13)


class Oracle:
    def __init__(self, c, L, cf, ratio):
        self.r = r = ref.Ref(c["layers"], c["weak"], c["mat"], c["phi"], c["p"], c["g"])
        self.L, self.ratio = L, ratio
        self.q = r.qn + r.pn
        self.tc = cf * r.t - self.q / r.kn
        self.a1 = self.a2 = None
        if self.tc <= 0 or self.q <= 0:
            return
        k = lambda x: (r.spring(L - x, "trans"), r.spring(L - x, "rot"))
        tip = lambda x, bc: r.cantilever(x, *k(x), bc, tc=self.tc)
        lo, hi = L / 1000, 0.999 * L
        self.a1 = bracket(lambda x: tip(x, "free")[0] - self.tc, lo, hi)
        self.a2 = bracket(lambda x: tip(x, "touch")[1], lo, hi)

    def td(self, a):
        r = self.r
        kN, kR = r.spring(self.L - a, "trans"), r.spring(self.L - a, "rot")

        def f(x):
            kr = r.spring(a - x, "rot", self.ratio)
            return r.cantilever(x, kN, kR, "rest", kr, self.tc)[1]
        if f(a / 1000) * f(0.999 * a) > 0:
            return None
        return brentq(f, a / 1000, 0.999 * a, xtol=1e-9, rtol=1e-13)


def run(task, ctx):
    if task[0].startswith("ignored"):
        return ignored(task, ctx)
    s, idx, th = task
    c = config(s, idx)
    m = space.model(c, touchdown=True)
    if abs(c["phi"]) > 88:
        return
    n = 0
    dev = sum(a != b for a, b in zip(idx, (0, 0, 0, 0, 0, 0)))
    cols = COLS_T if th else COLS if dev == 0 else [COLS[(sum(idx) + 2 * j) % 9] for j in range(4)]
    for L, cf, ratio in cols:
        o = Oracle(c, L, cf, ratio)
        if o.a1 is None or o.a2 is None or not o.a1 < o.a2 < 0.99 * L:
            ctx.notes["columns outside the domain"] = ctx.notes.get("columns outside the domain", 0) + 1
            continue
        what = "system=%s layers=%s weak=%s phi=%s p=%s mat=%s g=%s L=%s cf=%s ratio=%s" % (
            s, c["layers"], c["weak"], c["phi"], c["p"], c["mat"], c["g"], L, cf, ratio)
        a1, a2 = o.a1, o.a2
        av = [0.3 * a1, a1 * (1 - 2e-6), a1 * (1 + 2e-6), 0.5 * (a1 + a2), a2 * (1 - 2e-6), a2 * (1 + 2e-6), a2 * 1.01, 1.3 * a2, 2 * a2, 0.5 * (a2 + L),
              0.97 * L, 0, round(a1)]
        if th:
            av += [a1 * f for f in (0.01, 0.9, 0.999, 1.001)] + [a2 * f for f in (0.999, 1.0005, 1.003, 1.1, 1.6, 4, 8)] + [L * 0.9]
        for a in av:
            if a > 0.985 * L or min(abs(a - a1) / a1, abs(a - a2) / a2) < 1e-6:
                continue
            n += 1
            if not one(ctx, c, m, o, L, a, cf, ratio, what + " a=%s" % a, first=(n % 5 == 1)):
                return


def rel(x, y):
    return abs(float(x) - float(y)) / max(abs(float(y)), 1e-12)


def one(ctx, c, m, o, L, a, cf, ratio, what, first):
    s, r = c["system"], o.r
    seg = m.calc_segments(L=L, a=a, phi=c["phi"], cf=cf, ratio=ratio)
    ctx.step()
    mode = "A" if a <= o.a1 else "B" if a <= o.a2 else "C"
    ctx.state((mode, sig([o.a1, o.a2, a])))
    if rel(m.tc, o.tc) > 1e-9:
        ctx.fail("collapse height", "free collapse height is %.9g instead of %.9g: %s" % (m.tc, o.tc, what))
        return False
    if first:
        g1, g2 = m.calc_a1(), m.calc_a2()
        ctx.trace()
        if rel(g1, o.a1) > 1e-6 or rel(g2, o.a2) > 1e-6:
            ctx.fail("thresholds", "first and full contact at %.9g, %.9g instead of %.9g, %.9g: %s" % (g1, g2, o.a1, o.a2, what))
            return False
    if first:
        # the touchdown parameters set directly, and the documented default of the stiffness ratio
        m.calc_touchdown_system(L=L, a=a, cf=cf, phi=c["phi"], **({} if ratio == 1000 else {"ratio": ratio}))
        got = [str(m.mode), float(m.td), float(m.tc)]
        m.set_stiffness_ratio()
        if m.ratio != 1000:
            ctx.fail("default ratio", "stiffness ratio is %r by default: %s" % (m.ratio, what))
            return False
        seg = m.calc_segments(L=L, a=a, phi=c["phi"], cf=cf, ratio=ratio)
        if got[0] != str(m.mode) or rel(got[1], m.td) > 1e-9 and m.td or rel(got[2], m.tc) > 1e-9:
            ctx.fail("direct", "calc_touchdown_system gives %s, calc_segments %s: %s" % (got, [m.mode, m.td, m.tc], what))
            return False
    if m.mode != mode:
        ctx.fail("regime", "regime %s instead of %s (thresholds %.6f, %.6f): %s" % (m.mode, mode, o.a1, o.a2, what))
        return False
    td = a if mode != "C" else o.td(a)
    left = s == "pst-"
    li, ki = [float(x) for x in seg["crack"]["li"]], [bool(k) for k in seg["crack"]["ki"]]
    if ki != ([True, False] if left else [False, True]) or len(li) != 2:
        ctx.fail("layout", "support pattern %s: %s" % (ki, what))
        return False
    free, bed = (li[1], li[0]) if left else (li[0], li[1])
    if rel(bed, L - a) > 1e-9:
        ctx.fail("supported length", "supported length %.9g instead of %.9g: %s" % (bed, L - a, what))
        return False
    if mode != "C" or td is not None:
        ok = rel(free, td) < 1e-6 if td else abs(free) < 1e-9
    else:                                         # rested part has just vanished
        ok = 0.9985 * a <= free <= a
        td = free
    if not ok and td > 0.998 * a and 0.998 * a <= free <= a:
        ok, td = True, free
    if not ok or rel(m.td, free) > 1e-12 and free > 0:
        ctx.fail("unsupported length", "unsupported length is %.9g instead of %.9g in regime %s: %s" % (free, td, mode, what))
        return False
    # end conditions of the solution
    C = m.assemble_and_solve(phi=c["phi"], **seg["crack"])
    e = []
    for i in (0, 1):
        Z = m.z(np.array([0.0, li[i]]), C[:, [i]], li[i], c["phi"], bed=ki[i])
        e.append(np.array([m.u(Z, z0=0), m.N(Z), m.w(Z), m.V(Z), m.psi(Z), m.M(Z)], float))
    h = r.h
    Y = np.hstack(e)
    F = max(o.q, abs(r.qt + r.pt)) * max(free, r.h, 1e-3 * L)
    ms = max(np.max(np.abs(Y[5])), F * (h + free) / 10)
    fs = max(np.max(np.abs(Y[[1, 3]])), F / 10)
    ds = max(np.max(np.abs(Y[[0, 2]])), h * np.max(np.abs(Y[4])), 1e-3 * o.tc)
    sc = np.array([ds, fs, ds, fs, ds / h, ms])
    lo, li_, ri, ro = e[0][:, 0], e[0][:, 1], e[1][:, 0], e[1][:, 1]
    tol = 1e-6
    if np.max(np.abs(li_ - ri) / sc) > tol:
        ctx.fail("interface", "solution jumps at the crack tip in regime %s: %s" % (mode, what))
        return False
    far, tip = (lo, ro) if left else (ro, lo)
    if np.max(np.abs(far[[1, 3, 5]]) / sc[[1, 3, 5]]) > tol:
        ctx.fail("far end", "supported end is not free of section forces in regime %s: %s" % (mode, what))
        return False
    if mode == "A":
        res = [("end forces", np.max(np.abs(tip[[1, 3, 5]]) / sc[[1, 3, 5]]))]
    else:
        N = r.qt * (a - free) + r.pt * (a - free) if mode == "C" else 0.0
        res = [("end deflection", abs(tip[2] - o.tc) / ds), ("end normal force", abs(tip[1] - (N if left else -N)) / max(fs, abs(N)))]
        if mode == "B":
            res.append(("end moment", abs(tip[5]) / ms))
        else:
            kr = r.spring(a - free, "rot", ratio)
            res.append(("end moment", abs(tip[5] + (kr if left else -kr) * tip[4]) / max(ms, abs(kr * tip[4]))))
    for n, v in res:
        ctx.notes["max_residual"] = max(ctx.notes.get("max_residual", 0), float(v))
        if not v < 2e-6:
            ctx.fail(n, "%s of the unsupported part misses the contact condition of regime %s by %.2g: %s" % (n, mode, v, what))
            return False
    ctx.trace()
    return True


def ignored(task, ctx):
    """Touchdown concerns only PSTs with slope-normal faces, and only if enabled."""
    s, i, th = task
    s = s.split(" ", 1)[1]
    off = s.startswith("off ")
    s = s.replace("off ", "")
    c = config(s, [(0, 2, 3, 12)[i], (0, 1, 0, 3)[i], (0, 2, 6, 0)[i], 0, 0, 0])
    exps = ([dict(L=L, a=a, phi=c["phi"]) for L in (2500.0, 1500.0) for a in (100.0, 700.0, 1000.0, 1300.0)] if s in ("pst-", "-pst", "vpst-", "-vpst") else
            [dict(L=22000.0, a=a, m=80, phi=c["phi"]) for a in (100.0, 800.0, 2500.0, 4000)] if s == "skier" else
            [dict(li=[8e3, a, 500.0, 8e3], mi=[80, 0, 50], ki=[True, False, True, True], k0=[True] * 4, phi=c["phi"]) for a in (300.0, 2500.0)])
    m, n = space.model(c, touchdown=not off), space.model(c, touchdown=False)
    for e in exps:
        if off:       # a history with touchdown before must not matter
            m.touchdown = True
            m.calc_segments(L=2500.0, a=1200.0, phi=c["phi"])
            m.touchdown = False
        a, b = m.calc_segments(**e)["crack"], n.calc_segments(**e)["crack"]
        ctx.step()
        C, D = m.assemble_and_solve(phi=e["phi"], **a), n.assemble_and_solve(phi=e["phi"], **b)
        ctx.state(sig(D))
        if str(m.mode) != "A" or not np.allclose(np.asarray(a["li"], float), np.asarray(b["li"], float)) or \
                np.max(np.abs(C - D) / (np.max(np.abs(D), axis=1, keepdims=True) + 1e-300)) > 1e-9:
            ctx.fail("ignored", "touchdown=%s changes the result of %s: %s" % (not off, s, e))
            return
        if s in ("pst-", "-pst"):
            L = sum(float(x) for x in a["li"])
            if abs(L - e["L"]) > 1e-9 * L:
                ctx.fail("ignored", "column shortened without touchdown: %s %s" % (s, e))
                return
