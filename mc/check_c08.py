"""C08: mirrored configurations yield mirrored fields and identical energy release rates."""
import numpy as np

import space
from common import close, compare, fields, has_crack, observe, rates, solve_both
from core import sig

ID, LEVEL = "C08", "model_checking"
BOUNDS = {"quick": "all configurations within 2 axis deviations of the rich base per system (incremental rates within 1), and "
                   "touchdown columns in every regime within 1 axis deviation; all mirrored",
          "thorough": "3 axis deviations, touchdown 2"}
ASSUME = ["configuration alphabets of mc/space.py", "relative tolerance 1e-6 of the field maxima"]
SGN = np.array([-1, 1, -1, 1, -1, 1, -1, 1.0])
MIRROR = {"pst-": "-pst", "vpst-": "-vpst", "skier": "skier", "skiers": "skiers", "pst-*": "-pst*",
          "vpst-*": "-vpst*"}
TD_GEO = [(2500.7, 300.3), (2500, 1400.6), (3000.0, 2700.0), (6000, 3500.0), (1200, 800), (8000, 1800)]


def tasks(tier):
    d = 3 if tier == "thorough" else 2
    near = {str(t) for t in space.space(list(MIRROR), d - 1)}
    out = [t + [str(t) in near] for t in space.space(list(MIRROR), d)]
    axes = [len(v) for _, v in space.axes("pst-")][:-1]
    for g in range(len(TD_GEO)):
        for idx in space.deviations(axes, 2 if tier == "thorough" else 1):
            if space.PHI[idx[2]] < 85:
                out.append(["td", list(idx), g])
    return out


def mirrored(c):
    d = dict(c)
    d["system"] = MIRROR[c["system"]]
    d["phi"] = -c["phi"]
    if c["system"] == "skiers" or c["system"].endswith("*"):
        d["geo"] = tuple(list(v)[::-1] for v in c["geo"])
    return d


def run(task, ctx):
    if task[0] == "td":
        return touchdown(task, ctx)
    c = space.config(*task[:2])
    pair(c, ctx, task[2])


def pair(c, ctx, inc, td=False):
    d = mirrored(c)
    R = space.refmodel(c)
    S = []
    for q in (c, d):
        m = space.model(q, touchdown=td)
        seg = space.segments(m, q)
        C0, C1 = solve_both(m, seg, q["phi"])
        s = space.Solved(q, True, m=m, seg=seg)
        s.C = C1
        G = [np.asarray(m.gdif(C=C1, phi=q["phi"], **seg["crack"]), float)]
        if inc and has_crack(seg):
            G.append(np.asarray(m.ginc(C0=C0, C1=C1, phi=q["phi"], **seg["both"]), float))
        S.append((s, observe(s), G))
        ctx.step(len(s.li))
    (a, Fa, Ga), (b, Fb, Gb) = S
    close(ctx, "segments", b.li[::-1], a.li, "mirrored segment lengths; %s" % space.name(c), 1e-7)
    close(ctx, "segments", b.mi[::-1], a.mi, "mirrored skiers; %s" % space.name(c), 1e-9)
    if b.ki[::-1] != a.ki:
        ctx.fail("segments", "mirrored support pattern differs; %s" % space.name(c))
        return
    # mirror b onto a: segment order reversed, positions reversed, odd components negated
    fr = 1.0 - np.array([0.0, 0.07, 0.5, 0.83, 1.0])
    Fm = np.array([fields(b.m, b.z(i, fr * l)) for i, l in enumerate(b.li)])[::-1] * SGN[None, :, None]
    compare(ctx, "fields", Fm, Fa, R.h, "mirror image of %s" % space.name(c))
    for k, (x, y) in enumerate(zip(Ga, Gb)):
        close(ctx, "rates/%s" % ("dif", "inc")[k], y, x, "energy release rate of mirror image of %s" % space.name(c), 2e-5)
    ctx.trace(2)
    ctx.state(sig(Fa[:, :3, 2]))
    ctx.states += len(a.li)


def touchdown(task, ctx):
    _, idx, g = task
    c = space.config("pst-", list(idx) + [0])
    c["geo"] = TD_GEO[g]
    try:
        pair(c, ctx, True, td=True)
    except ValueError as e:
        if "sign" not in str(e):
            raise
        ctx.notes["regime undefined"] = ctx.notes.get("regime undefined", 0) + 1
