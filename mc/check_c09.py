"""C09: superposition of loads, slope components and skiers; quadratic energy release."""
import numpy as np

import space
from common import close, compare, has_crack, observe, scale, solve_both
from core import sig

ID, LEVEL = "C09", "model_checking"
BOUNDS = {"quick": "all configurations within 2 axis deviations of the rich base per system; every load component, one skier at a time, "
                   "load factors -2 and 0.37, slope decomposition; incremental rates within 1 deviation",
          "thorough": "3 axis deviations"}
ASSUME = ["configuration alphabets of mc/space.py", "relative tolerance 1e-6 of the field maxima"]


def tasks(tier):
    d = 3 if tier == "thorough" else 2
    near = {str(t) for t in space.space(space.SYSTEMS, 1)}
    return [t + [str(t) in near] for t in space.space(space.SYSTEMS, d, bases=("rich",))]


def run(task, ctx):
    c = space.config(*task[:2])
    inc = task[2]
    m = space.model(c)
    seg = space.segments(m, c)
    base = space.Solved(c, True, m=m, seg=seg)
    n = len(base.mi)
    what = space.name(c)

    def resp(g, p, mi, phi, crack=True):
        m.g = g
        m.set_surface_load(p)
        s = {"crack": dict(seg["crack"], mi=np.array(mi, float)), "nocrack": dict(seg["nocrack"], mi=np.array(mi, float))}
        q = dict(c, phi=phi)
        S = space.Solved(q, crack, m=m, seg=s)
        ctx.trace()
        return S, observe(S)

    g, p, phi, mi = c["g"], c["p"], c["phi"], base.mi
    zero = [0.0] * n
    h = float(m.h)
    S, F = resp(g, p, mi, phi)
    Fg = resp(g, 0.0, zero, phi)[1]
    Fp = resp(0.0, p, zero, phi)[1]
    parts = [Fg, Fp]
    for j in range(n):
        if mi[j]:
            parts.append(resp(g, 0.0, [mi[k] if k == j else 0.0 for k in range(n)], phi)[1] - Fg)
    # scales: the largest of the parts, so that cancellation does not matter
    sc = np.max([scale(np.moveaxis(x, 1, 0).reshape(8, -1), h) for x in parts + [F]], axis=0)
    compare(ctx, "superposition", sum(parts), F, h, "sum of weight, surface load and skiers; %s" % what, sc=sc)
    for f in (-2.0, 0.37):
        Sf, Ff = resp(f * g, f * p, mi, phi)
        compare(ctx, "scaling", Ff, f * F, h, "loads scaled by %g; %s" % (f, what), sc=sc * abs(f))
        if len(S.li) > 1:
            G = np.asarray(m.gdif(C=Sf.C, phi=phi, **seg["crack"]), float)
            m.g, _ = g, m.set_surface_load(p)
            G1 = np.asarray(m.gdif(C=S.C, phi=phi, **seg["crack"]), float)
            close(ctx, "rates/dif", G, f**2 * G1, "differential rates under loads scaled by %g; %s" % (f, what), 2e-6)
        if inc and f < 0 and has_crack(seg):
            Gs = []
            for ff in (1.0, f):
                m.g, _ = ff * g, m.set_surface_load(ff * p)
                C0, C1 = solve_both(m, seg, phi)
                Gs.append(np.asarray(m.ginc(C0=C0, C1=C1, phi=phi, **seg["both"]), float))
            close(ctx, "rates/inc", Gs[1], f**2 * Gs[0], "incremental rates under loads scaled by %g; %s" % (f, what), 2e-2)
    if n and any(mi):
        S2, F2 = resp(g, p, [3 * v for v in mi], phi)
        compare(ctx, "skiers", F2, 3 * F - 2 * resp(g, p, zero, phi)[1], h, "skier weights tripled; %s" % what, sc=3 * sc)
    if "vpst" not in c["system"]:
        F0, F90 = resp(g, p, mi, 0.0)[1], resp(g, p, mi, 90.0)[1]
        co, si = np.cos(np.deg2rad(phi)), np.sin(np.deg2rad(phi))
        sc2 = np.maximum(sc, np.max([scale(np.moveaxis(x, 1, 0).reshape(8, -1), h) for x in (F0, F90)], axis=0))
        compare(ctx, "slope", co * F0 + si * F90, F, h, "slope-normal plus slope-parallel response; %s" % what, sc=sc2)
        Fm = resp(g, p, mi, -phi)[1]
        compare(ctx, "slope", co * F0 - si * F90, Fm, h, "opposite slope; %s" % what, sc=sc2)
    ctx.step(6 + n)
    ctx.state(sig(F[:, :3, 2]))
