"""C03: global balance of forces and moment between weak-layer stresses and applied loads."""
import json

import numpy as np

import space
from core import sig

ID, LEVEL = "C03", "model_checking"
BOUNDS = {"quick": "all configurations within 2 axis deviations of 2 bases per system, cracked and uncracked; "
                   "stress integrals by Gauss quadrature on cells of one decay length, and by the rasterised outputs",
          "thorough": "3 axis deviations"}
ASSUME = ["configuration alphabets of mc/space.py", "relative tolerance 1e-6 (quadrature), 2e-3 (rasterised output)"]
TOL = 1e-6
GX, GW = np.polynomial.legendre.leggauss(8)


def tasks(tier):
    near = {json.dumps(t) for t in space.space(space.SYSTEMS, 1 if tier == "quick" else 2)}
    return [t + [json.dumps(t) in near] for t in space.space(space.SYSTEMS, 3 if tier == "thorough" else 2)]


def graded(l, s0):
    """Cell edges on [0, l], growing geometrically away from both ends (solutions decay from the ends)."""
    half = [0.0]
    while half[-1] < l / 2:
        half.append(half[-1] + max(s0, 0.5 * half[-1]))
    half = np.array(half)
    half *= (l / 2) / half[-1]
    return np.concatenate([half, (l - half[::-1])[1:]])


def run(task, ctx):
    c = space.config(*task[:2])
    R = space.refmodel(c)
    m = space.model(c)
    seg = space.segments(m, c)
    for crack in (True, False):
        S = space.Solved(c, crack, m=m, seg=seg)
        balance(S, R, ctx, c, task[2])
    undisturbed(m, R, ctx, c)


def balance(S, R, ctx, c, output):
    m = S.m
    T = SG = XS = 0.0
    aT = aS = aX = 0.0
    x0 = 0.0
    fields = []
    for i, l in enumerate(S.li):
        if l > 0 and S.ki[i]:
            e = graded(l, 3.0 / R.lam())
            xg = ((e[1:] + e[:-1])[:, None] / 2 + (e[1:] - e[:-1])[:, None] / 2 * GX[None, :]).ravel()
            wg = ((e[1:] - e[:-1])[:, None] / 2 * GW[None, :]).ravel()
            Z = S.z(i, xg)
            tau, sg = np.asarray(m.tau(Z)), np.asarray(m.sig(Z))
            if (i + len(S.li)) % 2:      # the output accessors in a different unit see the same stress
                tau = np.asarray(m.get_weaklayer_shearstress(xg, Z, unit="kPa")[1]) * 1e-3
                sg = np.asarray(m.get_weaklayer_normalstress(xg, Z, unit="kPa")[1]) * 1e-3
            T += np.sum(wg * tau)
            SG += np.sum(wg * sg)
            XS += np.sum(wg * sg * (x0 + xg))
            aT += np.sum(wg * np.abs(tau))
            aS += np.sum(wg * np.abs(sg))
            aX += np.sum(wg * np.abs(sg) * (x0 + xg))
            ctx.step(xg.size)
        x0 += l
    L = x0
    ZL, Z0 = S.z(len(S.li) - 1, [S.li[-1]]), S.z(0, [0.0])
    N0, V0, M0 = float(m.N(Z0)[0]), float(m.V(Z0)[0]), float(m.M(Z0)[0])
    N1, V1, M1 = float(m.N(ZL)[0]), float(m.V(ZL)[0]), float(m.M(ZL)[0])
    xs = np.cumsum(S.li)[:-1]
    Fn = np.array([R.skier(k)[0] for k in S.mi])
    Ft = np.array([R.skier(k)[1] for k in S.mi])
    qn, qt = R.qn + R.pn, R.qt + R.pt
    # slope-parallel, slope-normal and moment balance of the whole slab
    rN = (N1 - N0) - (T - qt * L - Ft.sum())
    rV = (V1 - V0) - (-SG - qn * L - Fn.sum())
    rM = (M1 - M0) - (L * V1 + XS + qn * L**2 / 2 + np.sum(Fn * xs)
                      + (R.h + R.t) / 2 * T - R.qt * R.zs * L + R.pt * R.h / 2 * L + Ft.sum() * R.h / 2)
    sN = aT + (abs(R.qt) + abs(R.pt)) * L + np.abs(Ft).sum() + abs(N0) + abs(N1)
    sV = aS + (abs(R.qn) + abs(R.pn)) * L + np.abs(Fn).sum() + abs(V0) + abs(V1)
    sN = max(sN, 1e-3 * sV)
    sM = (abs(M0) + abs(M1) + abs(L * V1) + aX + (abs(R.qn) + abs(R.pn)) * L**2 / 2 + (R.h + R.t) / 2 * aT
          + np.sum(np.abs(Fn) * xs) + sV * R.h)
    worst = 0.0
    for nm, r, s in (("slope-parallel", rN, sN), ("slope-normal", rV, sV), ("moment", rM, sM)):
        worst = max(worst, abs(r) / s)
        if not abs(r) <= TOL * s:
            ctx.fail("balance/%s" % nm, "%s balance is violated by %.3e of %.3e; %s" % (nm, r, s, space.name(c)))
    ctx.notes["max_residual"] = max(ctx.notes.get("max_residual", 0), worst)
    ctx.trace()
    ctx.state(sig([T, SG, XS]))
    # the same balance from what a user gets: rasterised outputs with the weak-layer mask
    if output and L <= 3000 and R.lam() * L < 60:
        xq, zq, xb = m.rasterize_solution(C=S.C, phi=S.phi, li=S.s["li"], ki=S.s["ki"], num=800)
        xc, tau = m.get_weaklayer_shearstress(xb, zq)
        _, sg = m.get_weaklayer_normalstress(xb, zq)
        I = np.isfinite(xc)
        both = I[1:] & I[:-1]
        # intervals inside unsupported segments do not count
        edges = np.concatenate([[0], np.cumsum(S.li)])
        mid = (xq[1:] + xq[:-1]) / 2
        idx = np.clip(np.searchsorted(edges, mid, side="right") - 1, 0, len(S.li) - 1)
        both &= np.array(S.ki)[idx]
        dx = np.diff(10 * xc)
        Tq = np.sum((dx * (tau[1:] + tau[:-1]) / 2)[both])
        Sq = np.sum((dx * (sg[1:] + sg[:-1]) / 2)[both])
        h = np.max(np.diff(xq)) * R.lam()
        tol = 2e-3 + h**2
        if not (abs(Tq - T) <= tol * max(aT, 0.5 * aS) and abs(Sq - SG) <= tol * aS):
            ctx.fail("balance/output", "stress outputs over the weak layer carry %.6g/%.6g, expected %.6g/%.6g; %s" % (
                Tq, Sq, T, SG, space.name(c)))
        ctx.state()


def undisturbed(m, R, ctx, c):
    """Far from ends and disturbances, stresses are weight and load per area resolved on the slope."""
    s = m.system
    if s not in ("skier", "skiers"):
        return
    li = np.array([8e3, 8e3])
    mi, ki = np.array([0]), np.array([True, True])
    C = m.assemble_and_solve(phi=c["phi"], li=li, mi=mi, ki=ki)
    x, z, xb = m.rasterize_solution(C=C, phi=c["phi"], li=li, ki=ki, num=12)
    tau, sg = np.asarray(m.tau(z)), np.asarray(m.sig(z))
    qn, qt = R.qn + R.pn, R.qt + R.pt
    s0 = max(abs(qn), abs(qt), 1e-12)
    if not (np.max(np.abs(sg + qn)) < 1e-7 * s0 and np.max(np.abs(tau - qt)) < 1e-7 * s0):
        ctx.fail("undisturbed", "undisturbed slab carries tau=%.6g sig=%.6g, expected %.6g, %.6g; %s" % (
            tau[0], sg[0], qt, -qn, space.name(c)))
    ctx.state(sig([tau[0], sg[0]]))
