"""C02: segment lists follow the documented geometry; ends and interfaces satisfy the declared conditions."""
import numpy as np

import space
from core import sig

ID, LEVEL = "C02", "model_checking"
BOUNDS = {"quick": "all configurations within 2 axis deviations of 2 bases per system (8 system kinds), every interface and end; "
                   "plus every support pattern and skier mask of up to 5 segments for every system",
          "thorough": "3 axis deviations; every support pattern and skier mask of up to 7 segments"}
ASSUME = ["configuration alphabets of mc/space.py", "relative tolerance 1e-6 of the field maxima",
          "infinite ends: midplane displacements and rotation equal those of the undisturbed slab"]
TOL = 1e-6

LENS = [900.0, 250.0, 400.0, 150.0, 320.0, 210.0, 500.0]
MASS = [80.0, 35.0, 0.4, 60.0, 110.0, 75.0]


def tasks(tier):
    out = space.space(space.SYSTEMS, 3 if tier == "thorough" else 2)
    nmax = 7 if tier == "thorough" else 5
    for s in ("pst-", "-pst", "vpst-", "-vpst", "skiers", "skier"):
        for n in range(1, nmax + 1):
            for phi in (33.0, -20):
                out.append(["pattern", s, n, phi])
    return out


def ends(c, R):
    """Declared conditions at the outer ends: ('force', [N,M,V]) or ('disp', [u,w,psi])."""
    s = c["system"].rstrip("*")
    if s == "pst-" or s == "-pst":
        return "force", np.zeros(3)
    if "vpst" in s:
        return "force", R.wedge()
    y = R.undisturbed()
    return "disp", y[[0, 2, 4]]


def verify(S, R, ctx, c):
    n = len(S.li)
    Y0, Y1 = [], []
    for i, l in enumerate(S.li):
        Z = S.z(i, [0.0, l])
        Y = R.y(Z)
        if Y.shape != (6, 2) or not np.all(np.isfinite(Y)):
            ctx.fail("shape", "solution of segment %d is not a finite 6xN matrix; %s" % (i, space.name(c)))
            return
        Y0.append(Y[:, 0])
        Y1.append(Y[:, 1])
    # include interior maxima for the scale
    inner = [R.y(S.z(i, [l * f for f in (0.02, 0.5, 0.98)])) for i, l in enumerate(S.li)]
    sc = R.scales(np.hstack([np.array(Y0).T, np.array(Y1).T] + inner))
    F = max([abs(v) for m in S.mi for v in R.skier(m)] + [0.0])
    F = max(F, (R.q + abs(R.p)) * R.h)
    sc = np.maximum(sc, [0, F, 0, F, 0, F * R.h])
    sc = np.where(sc > 0, sc, 1.0)
    worst = 0.0
    names = ["u", "N", "w", "V", "psi", "M"]
    for i in range(n - 1):
        Fn, Ft = R.skier(S.mi[i])
        jump = np.array([0, Ft, 0, Fn, 0, -Ft * R.h / 2])
        r = np.abs(Y1[i] - Y0[i + 1] - jump) / sc
        worst = max(worst, float(r.max()))
        ctx.step()
        if not r.max() < TOL:
            k = int(np.argmax(r))
            ctx.fail("interface/%s" % ("loaded" if S.mi[i] else "plain"),
                     "%s jumps wrongly by %.2e (relative) at interface %d of %d segments (m=%g); %s" % (
                         names[k], r.max(), i, n, S.mi[i], space.name(c)))
    kind, want = ends(c, R)
    rows = [1, 5, 3] if kind == "force" else [0, 2, 4]
    for nm, y in (("left", Y0[0]), ("right", Y1[-1])):
        r = np.abs(y[rows] - want) / sc[rows]
        worst = max(worst, float(r.max()))
        ctx.step()
        if not r.max() < TOL:
            k = int(np.argmax(r))
            ctx.fail("end/%s" % nm, "%s=%.6g at the %s end, expected %.6g; %s" % (
                names[rows[k]], y[rows[k]], nm, want[k], space.name(c)))
    ctx.trace()
    ctx.states += n
    ctx.outcomes.add(sig(np.array(Y1)))
    ctx.notes["max_residual"] = max(ctx.notes.get("max_residual", 0), worst)


def run(task, ctx):
    if task[0] == "pattern":
        return patterns(task, ctx)
    c = space.config(*task)
    R = space.refmodel(c)
    m = space.model(c)
    seg = space.segments(m, c)
    for crack, key in ((True, "crack"), (False, "nocrack")):
        S = space.Solved(c, crack, m=m, seg=seg)
        li, mi, ki = space.layout(c, crack)
        ok = (len(li) == len(S.li) and np.allclose(li, S.li, rtol=1e-12, atol=1e-9) and ki == S.ki
              and len(mi) == len(S.mi) and np.allclose(mi, S.mi))
        if not ok:
            ctx.fail("segments", "segment list %s %s %s does not describe the %s geometry; %s" % (
                S.li, S.mi, S.ki, key, space.name(c)))
            return
        verify(S, R, ctx, c)
    b = seg["both"]
    li, mi, ki = space.layout(c, True)
    k0 = space.layout(c, False)[2]
    if not (np.allclose(b["li"], li) and [bool(k) for k in b["ki"]] == ki and [bool(k) for k in b["k0"]] == k0):
        ctx.fail("segments", "combined segment list disagrees with the geometry; %s" % space.name(c))


def patterns(task, ctx):
    """All support patterns and skier masks of n segments."""
    _, system, n, phi = task
    infinite = system in ("skier", "skiers")
    c = {"system": system + "*" if not infinite else system, "layers": space.LAYERS[0], "weak": space.WEAK[0], "phi": phi, "p": 3e-4,
         "mat": space.MAT[0], "g": 9810, "lski": 1000, "geo": None}
    R = space.refmodel(c)
    m = space.model(c, system=system)
    m.calc_segments(L=1000, a=100, phi=phi, li=[1000, 1000], mi=[0], ki=[True, True], k0=[True, True])
    li = list(LENS[:n])
    if infinite:
        li[0], li[-1] = li[0] + 5000.0, li[-1] + 6000.0
    for bits in range(2**n):
        ki = [bool(bits >> j & 1) for j in range(n)]
        if not any(ki) or (infinite and not (ki[0] and ki[-1])):
            continue
        for mm in range(2**(n - 1)):
            mi = [MASS[j] if mm >> j & 1 else 0.0 for j in range(n - 1)]
            c["geo"] = [li, mi, [int(k) for k in ki]]
            seg = {"crack": {"li": np.array(li), "mi": np.array(mi), "ki": np.array(ki)}}
            verify(space.Solved(c, True, m=m, seg=seg), R, ctx, c)
            if len(ctx.fails) >= 4:
                return
