"""C01: the field equations hold between any two neighbouring positions of every segment."""
import numpy as np

import space
from core import sig

ID, LEVEL = "C01", "model_checking"
BOUNDS = {"quick": "all configurations within 2 axis deviations of 2 bases per system (8 system kinds, 8 axes), cracked and uncracked; "
                   "every position on a grid resolving the shortest decay length",
          "thorough": "the same within 3 axis deviations"}
ASSUME = ["configuration alphabets of mc/space.py", "relative residual tolerance 1e-6 of the field maxima",
          "reference flow integrates the first-order beam equations by matrix exponentials"]
TOL = 1e-7
FLOOR = 1e-3


def tasks(tier):
    return space.space(space.SYSTEMS, 3 if tier == "thorough" else 2)


def grid(l, bed, lam):
    n = int(np.ceil(l * lam / 1.2)) if bed else 6
    return np.linspace(0.0, l, max(3, min(n, 3000)) + 1)


def run(task, ctx):
    c = space.config(*task)
    R = space.refmodel(c)
    for crack in ((True, False) if not c["system"].endswith("pst") else (True,)):
        S = space.Solved(c, crack)
        check(S, R, ctx, c)


def check(S, R, ctx, c, tag=""):
    m = S.m
    segs = []
    for i, l in enumerate(S.li):
        if l <= 0:
            continue
        x = grid(l, S.ki[i], R.lam())
        Z = S.z(i, x)
        if Z.shape != (6, x.size) or not np.all(np.isfinite(Z)):
            ctx.fail("shape", "solution is not a finite 6xN matrix in segment %d: %s" % (i, space.name(c)))
            return
        segs.append((i, x, Z, R.y(Z)))
    sc = R.scales(np.hstack([s[3] for s in segs]))
    worst = 0.0
    for i, x, Z, Y in segs:
        P, f = R.flow(x[1] - x[0], S.ki[i])
        res = Y[:, 1:] - (P @ Y[:, :-1] + f[:, None])
        # relative to the local state, with a floor at a small fraction of the global field maxima
        loc = np.maximum(np.abs(Y[:, 1:]), np.abs(Y[:, :-1]))
        amp = np.maximum(loc, FLOOR * sc[:, None]) + np.abs(f)[:, None]
        r = np.abs(res) / amp
        worst = max(worst, float(r.max()))
        if r.max() > TOL:
            k = np.unravel_index(int(np.argmax(r)), r.shape)
            ctx.fail("flow/%s" % ("bedded" if S.ki[i] else "free"),
                     "%s violates its equation by %.2e (relative) at x=%.6g of segment %d (%s); %s%s" % (
                         ["u'", "N'", "w'", "V'", "psi'", "M'"][k[0]], r.max(), x[k[1]], i,
                         "supported" if S.ki[i] else "free", tag, space.name(c)))
        # section-force accessors satisfy the constitutive law
        for got, row, nm in ((m.N(Z), 1, "N"), (m.V(Z), 3, "V"), (m.M(Z), 5, "M")):
            e = np.max(np.abs(np.asarray(got) - Y[row])) / sc[row]
            if not e < 1e-8:
                ctx.fail("constitutive", "%s deviates from the laminate law by %.2e; %s" % (nm, e, space.name(c)))
        ctx.step(x.size - 1)
    ctx.trace()
    ctx.state(sig([s[3][:, [0, -1]] for s in segs][0]))
    ctx.states += sum(s[1].size for s in segs) - 1
    ctx.notes["max_residual"] = max(ctx.notes.get("max_residual", 0), worst)
