"""C21: strain energy and work of the loads of PSTs from first principles (Gauss quadrature of the reference fields)."""
import numpy as np

import space
from check_c08 import TD_GEO
from core import sig

ID, LEVEL = "C21", "model_checking"
BOUNDS = {"quick": "all configurations within 2 axis deviations of the rich and 1 of the simple base for both PSTs (cracked and uncracked), layouts of free beams on several supports "
                   "within 1, touchdown columns in every regime within 1 (splits, gaps, zero-length pieces); all compared with exact quadrature",
          "thorough": "3 axis deviations, free beams 2, touchdown 2"}
ASSUME = ["the potentials are integrated on the default grid of rasterised solutions: deviations below 3 times the error of the trapezoidal rule on 250 "
          "intervals are not judged", "configuration alphabets of mc/space.py"]
GX, GW = np.polynomial.legendre.leggauss(6)


def tasks(tier):
    th = tier == "thorough"
    if th:
        out = [["lin"] + t for t in space.space(["pst-", "-pst"], 3)]
    else:
        out = [["lin"] + t for t in space.space(["pst-", "-pst"], 2, bases=("rich",))]
        out += [t for t in (["lin"] + t for t in space.space(["pst-", "-pst"], 1, bases=("simple",))) if t not in out]
    out += [["lin"] + t for t in space.space(["pst-*"], 2 if th else 1)]
    axes = [len(v) for _, v in space.axes("pst-")][:-1]
    for s in ("pst-", "-pst"):
        for g in range(len(TD_GEO)):
            for idx in space.deviations(axes, 2 if th else 1):
                if abs(space.PHI[idx[2]]) < 85:
                    out.append(["td", s, list(idx), g])
    return out


def densities(R, Z, bed):
    """Energy per length of slab and weak layer, work per length of the loads."""
    u, N, w, V, psi, M = R.y(Z)
    det = R.A * R.D - R.B**2
    slab = (R.D * N**2 - 2 * R.B * N * M + R.A * M**2) / (2 * det) + V**2 / (2 * R.kA)
    weak = (R.sig(Z)**2 / R.kn + R.tau(Z)**2 / R.kt) / 2 if bed else 0 * w
    work = (R.qn + R.pn) * w + R.qt * (u + R.zs * psi) + R.pt * (u - R.h / 2 * psi)
    return np.array([slab, weak, work])


def integrals(R, S, lmax):
    """Exact integrals, the trapezoidal ones on the default grid, and the magnitude of the work."""
    ex, tr, mag = np.zeros(3), np.zeros(3), 0.0
    tot = sum(S.li)
    for i, l in enumerate(S.li):
        if l <= 0:
            continue
        n = max(4, int(np.ceil(l / lmax)))
        e = np.linspace(0, l, n + 1)
        x = ((e[:-1] + e[1:])[:, None] / 2 + (e[1:] - e[:-1])[:, None] / 2 * GX).ravel()
        W = ((e[1:] - e[:-1])[:, None] / 2 * GW).ravel()
        d = densities(R, S.z(i, x), S.ki[i])
        ex += d @ W
        u, _, w, _, psi, _ = R.y(S.z(i, x))
        mag += (np.abs(R.qn + R.pn) * np.abs(w) + (abs(R.qt) + abs(R.pt)) * (np.abs(u) + R.h / 2 * np.abs(psi))) @ W
        n = max(int(np.ceil(l / tot * 250)), 1)
        x = np.linspace(0, l, n + 1)
        d = densities(R, S.z(i, x), S.ki[i])
        tr += ((d[:, 1:] + d[:, :-1]) / 2 * np.diff(x)).sum(axis=1)
    return ex, tr, mag


def run(task, ctx):
    td = task[0] == "td"
    if td:
        c = space.config(task[1], list(task[2]) + [0])
        c["geo"] = TD_GEO[task[3]]
    else:
        c = space.config(*task[1:])
        if c["system"].endswith("*"):                       # the potentials are defined without skiers
            c["geo"] = (c["geo"][0], [0.0] * len(c["geo"][1])) + tuple(c["geo"][2:])
    R = space.refmodel(c)
    m = space.model(c, touchdown=td)
    try:
        seg = space.segments(m, c)
    except ValueError as e:
        if not td or "sign" not in str(e):
            raise
        ctx.notes["regime undefined"] = ctx.notes.get("regime undefined", 0) + 1
        return
    free = c["system"].endswith("*")
    what = space.name(c) + (" with touchdown, regime %s" % m.mode if td else "")
    lmax = min(1.5 * R.ell(), 200.0)
    for crack in (True, False):
        S = space.Solved(c, crack, m=m, seg=seg)
        L = sum(S.li) if free else float(c["geo"][0])
        ex, tr, mag = integrals(R, S, lmax)
        ctx.step(len(S.li))
        Pint, Pext = ex[0] + ex[1], -ex[2]
        rest = L - sum(S.li)
        left = not c["system"].startswith("-")
        Z = S.z(len(S.li) - 1, [S.li[-1]]) if left else S.z(0, [0.0])
        u, _, w, _, psi, M = R.y(Z)[:, 0]
        if rest > 1e-9 * L:
            tc = 0.5 * R.t - (R.qn + R.pn) / R.kn
            Pext -= rest * ((R.qn + R.pn) * tc + R.qt * (u + R.zs * psi) + R.pt * (u - R.h / 2 * psi))
            mag += rest * abs((R.qn + R.pn) * tc)
            Pint += abs(M * psi) / 2
        err = np.abs(tr - ex)
        d = {k: S.s[k] for k in ("li", "mi", "ki")}
        for key, got, want, tol in (
                ("internal", m.internal_potential(S.C, c["phi"], L, **d), Pint, 3 * (err[0] + err[1]) + 1e-4 * Pint),
                ("external", m.external_potential(S.C, c["phi"], L, **d), Pext, 3 * err[2] + 1e-4 * mag),
                ("total", m.total_potential(S.C, c["phi"], L, **d), Pint + Pext, 3 * err.sum() + 1e-4 * (Pint + mag))):
            got = float(got)
            ctx.trace()
            dev = abs(got - want) / (abs(want) + 1e-300)
            ctx.notes["judged to 1 percent or better"] = ctx.notes.get("judged to 1 percent or better", 0) + bool(tol < 0.01 * abs(want))
            ctx.notes["judged more coarsely"] = ctx.notes.get("judged more coarsely", 0) + bool(tol >= 0.01 * abs(want))
            if not abs(got - want) <= tol + 1e-30:
                ctx.fail(key, "%s potential is %.8g instead of %.8g (relative %.1e, cracked=%s): %s" % (key, got, want, dev, crack, what))
                return
        ctx.state(sig(np.append(ex, crack)))
