"""C13: energy release rates follow from the weak-layer stresses at the cracks."""
import numpy as np

import space
from check_c03 import GW, GX, graded
from check_c08 import TD_GEO
from common import close, rates, solve_both
from core import sig

ID, LEVEL = "C13", "model_checking"
BOUNDS = {"quick": "every support pattern of 2..5 segments with free or infinite ends, and all configurations within 2 axis deviations "
                   "(incremental rates: 1 deviation) per system, plus PSTs in every touchdown regime",
          "thorough": "support patterns up to 6 segments, 3 axis deviations (incremental rates: 2)"}
ASSUME = ["configuration alphabets of mc/space.py", "tip stresses taken from the real solution on the supported side of a tip",
          "differential rates to 1e-7, incremental rates to 5e-3 (the code's quadrature tolerance is 1e-3)"]
LEN = [700.0, 300.0, 450.0, 250.0, 600.0, 350.0]


def tasks(tier):
    th = tier == "thorough"
    near = {str(t) for t in space.space(space.SYSTEMS, 2 if th else 1)}
    out = [["cfg"] + t + [str(t) in near] for t in space.space(space.SYSTEMS, 3 if th else 2)]
    axes = [len(v) for _, v in space.axes("pst-")][:-1]
    for g in range(len(TD_GEO)):
        for idx in space.deviations(axes, 2 if th else 1):
            out.append(["td", "pst-", list(idx), g])
            if th:
                out.append(["td", "-pst", list(idx), g])
    for s in ("pst-", "-vpst", "skiers"):
        for n in range(2, 7 if th else 6):
            for k in range(1, 2**n):
                ki = [bool(k >> i & 1) for i in range(n)]
                if s == "skiers" and not (ki[0] and ki[-1]):
                    continue
                for k0 in range(n + 1):         # all supported before, or one segment without support before
                    kk = [i != k0 or ki[i] for i in range(n)]
                    if k0 < n and all(kk):
                        continue
                    if s == "skiers" and not (kk[0] and kk[-1]):
                        continue
                    out.append(["pat", s, ki, kk])
    return out


def run(task, ctx):
    kind, s = task[:2]
    inc, td = True, False
    if kind == "cfg":
        c = space.config(s, task[2])
        inc = task[3]
    elif kind == "td":
        c = space.config("pst-", list(task[2]) + [0])
        c["system"], c["geo"], td = s, TD_GEO[task[3]], True
    else:
        c = space.config(s, [0] * 8)
    R = space.refmodel(c)
    m = space.model(c, touchdown=td)
    phi = c["phi"]
    what = space.name(c)
    if kind == "pat":
        ki, k0 = task[2:4]
        n = len(ki)
        li = LEN[:n]
        if s == "skiers":
            li = [8000.0] + li[1:-1] + [8000.0]
        mi = [0.0] * (n - 1)
        mi[(n - 1) // 2] = 70.0
        if s == "skiers":
            seg = m.calc_segments(li=li, mi=mi, ki=ki, k0=k0, phi=phi)
        else:
            m.calc_segments(L=1000, a=100, phi=phi)
            v = dict(li=np.array(li), mi=np.array(mi))
            seg = {"nocrack": dict(v, ki=np.array(k0)), "crack": dict(v, ki=np.array(ki)),
                   "both": dict(v, ki=np.array(ki), k0=np.array(k0))}
        what += " ki=%s k0=%s" % (ki, k0)
        inc = sum(ki) % 2 == 0 or n < 5
    else:
        try:
            seg = space.segments(m, c)
        except ValueError as e:
            if not td or "sign" not in str(e):
                raise
            ctx.notes["regime undefined"] = ctx.notes.get("regime undefined", 0) + 1
            return
    C0, C1 = solve_both(m, seg, phi)
    li, ki, k0 = ([q for q in seg["both"][k]] for k in ("li", "ki", "k0"))
    li, ki, k0 = [float(v) for v in li], [bool(v) for v in ki], [bool(v) for v in k0]

    def z(C, i, x, bed):
        return m.z(np.asarray(x, float), C[:, [i]], li[i], phi, bed=bed)

    # differential rates from the tip stresses
    tips = [j for j in range(len(li) - 1) if ki[j] != ki[j + 1]]
    G = np.zeros(3)
    for n, j in enumerate(tips):
        Z = z(C1, j, [li[j]], True) if ki[j] else z(C1, j + 1, [0.0], True)
        g1 = float(R.sig(Z)[0])**2 / (2 * R.kn)
        g2 = float(R.tau(Z)[0])**2 / (2 * R.kt)
        edge = (n == 0 and not ki[0]) or (n == len(tips) - 1 and not ki[-1])
        wgt = 1.0 if edge else 0.5
        G += wgt * np.array([g1 + g2, g1, g2])
    gd = np.asarray(m.gdif(C=C1, phi=phi, **seg["crack"]), float)
    close(ctx, "dif", gd, G, "differential energy release rates; %s" % what, 1e-7)
    ctx.expect(gd.shape == (3,) and abs(gd[0] - gd[1] - gd[2]) <= 1e-12 * max(gd[0], 1e-300), "dif/sum",
               "total differential rate %s is not the sum of the modes; %s" % (gd, what))
    ctx.expect(np.all(gd >= 0), "dif/sign", "negative differential rate %s; %s" % (gd, what))
    for unit, f in (("kJ/m^2", 1.0), ("N/mm", 1.0), ("J/m^2", 1e3)):
        close(ctx, "dif/unit", np.asarray(m.gdif(C=C1, phi=phi, unit=unit, **seg["crack"])), f * gd,
              "differential rates in %s; %s" % (unit, what), 1e-12)
    # no crack, no release
    if all(k0):
        g0 = np.asarray(m.gdif(C=C0, phi=phi, **seg["nocrack"]), float)
        ctx.expect(g0.shape == (3,) and np.all(g0 == 0), "nocrack/dif", "release rate %s without a crack; %s" % (g0, what))
        i0 = np.asarray(m.ginc(C0=C0, C1=C0, phi=phi, li=li, ki=np.array(k0), k0=np.array(k0)), float)
        ctx.expect(i0.shape == (3,) and np.all(np.nan_to_num(i0) == 0), "nocrack/inc",
                   "release rate %s without a crack; %s" % (i0, what))
    ctx.step(len(tips))
    # incremental rates from the closing work
    new = [i for i in range(len(li)) if k0[i] and not ki[i]]
    a = sum(li[i] for i in new)
    if inc and a > 0:
        g1 = g2 = s1 = s2 = 0.0
        for i in new:
            if li[i] == 0:
                continue
            e = graded(li[i], 3.0 / R.lam())
            xg = ((e[1:] + e[:-1])[:, None] / 2 + (e[1:] - e[:-1])[:, None] / 2 * GX[None, :]).ravel()
            wg = ((e[1:] - e[:-1])[:, None] / 2 * GW[None, :]).ravel()
            Z0, Z1 = z(C0, i, xg, True), z(C1, i, xg, False)
            q1 = R.sig(Z0) * -Z1[2]
            q2 = R.tau(Z0) * (Z1[0] + R.h / 2 * Z1[4] - R.t / 2 * Z1[3])
            g1, s1 = g1 + np.sum(wg * q1), s1 + np.sum(wg * np.abs(q1))
            g2, s2 = g2 + np.sum(wg * q2), s2 + np.sum(wg * np.abs(q2))
            ctx.step(xg.size)
        w = np.array([g1 + g2, g1, g2]) / (2 * a)
        gi = np.asarray(m.ginc(C0=C0, C1=C1, phi=phi, **seg["both"]), float)
        # the code integrates each segment to an absolute tolerance of 1e-3 N
        tol = np.array([s1 + s2, s1, s2]) / (2 * a) * 5e-3 + 1e-10
        r = np.abs(gi - w) / tol
        ctx.notes["max_inc_err_over_tol"] = max(ctx.notes.get("max_inc_err_over_tol", 0), float(np.max(r)))
        ctx.expect(gi.shape == (3,) and bool(np.all(r < 1)), "inc",
                   "incremental rates %s, closing work per length %s; %s" % (gi, w, what))
        ctx.expect(abs(gi[0] - gi[1] - gi[2]) <= 1e-10 * np.abs(gi).max() + 1e-300, "inc/sum",
                   "total incremental rate %s is not the sum of the modes; %s" % (gi, what))
    ctx.trace()
    ctx.state(sig(gd))
    ctx.states += len(tips)
