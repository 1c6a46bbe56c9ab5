"""C10: splitting segments or layers or lengthening an infinite model changes nothing."""
import itertools

import numpy as np

import space
from check_c08 import TD_GEO
from common import close, compare, fields, has_crack, scale
from core import sig

ID, LEVEL = "C10", "model_checking"
BOUNDS = {"quick": "all configurations within 2 axis deviations per system, each with: every segment split at fractions 0.3, 1 "
                   "(rates, within 1 deviation: also 0, 0.7 and every pair of segments), every layer split at 3 ratios and into 3, "
                   "infinite models lengthened on either side; touchdown lengths and regimes under layer splits",
          "thorough": "3 axis deviations, pairs of splits within 2"}
ASSUME = ["configuration alphabets of mc/space.py", "relative tolerance 1e-6 of the field maxima",
          "lengthening is compared where the outer segments exceed 40 decay lengths"]
FR = np.array([0.0, 0.21, 0.5, 0.83, 1.0])


def tasks(tier):
    th = tier == "thorough"
    near = {str(t) for t in space.space(space.SYSTEMS, 2 if th else 1)}
    out = [t + [str(t) in near] for t in space.space(space.SYSTEMS, 3 if th else 2, bases=("rich",))]
    axes = [len(v) for _, v in space.axes("pst-")][:-1]
    for g in range(len(TD_GEO)):
        for idx in space.deviations(axes, 1):
            out.append(["td", list(idx), g])
    return out


class Bare:
    pass


def solved(c, m, seg, both):
    """Evaluator of fields at (original segment, fraction) plus energy release rates."""
    phi = c["phi"]
    s = seg["crack"]
    C1 = m.assemble_and_solve(phi=phi, **s)
    b = Bare()
    b.m, b.C, b.li, b.ki = m, C1, [float(x) for x in s["li"]], [bool(x) for x in s["ki"]]
    b.z = lambda i, x: m.z(np.asarray(x, float), C1[:, [i]], b.li[i], phi, bed=b.ki[i])
    b.gd = np.asarray(m.gdif(C=C1, phi=phi, **s), float) if len(b.li) > 1 else None
    b.gi = None
    if both and has_crack(seg):
        C0 = m.assemble_and_solve(phi=phi, **seg["nocrack"])
        b.gi = np.asarray(m.ginc(C0=C0, C1=C1, phi=phi, **seg["both"]), float)
    return b


def split(seg, cuts):
    """seg with every (segment, fraction) of cuts cut in two; also the map piece -> (segment, start, end)."""
    v = seg["both"]
    li, mi, ki, k0, own = [], [], [], [], []
    n = len(v["li"])
    for i in range(n):
        l = float(v["li"][i])
        xs = [0.0] + sorted(f * l for j, f in cuts if j == i) + [l]
        for a, b in zip(xs[:-1], xs[1:]):
            if li:
                mi.append(0.0 if a > 0 or own[-1][0] == i else float(v["mi"][i - 1]))
            own.append((i, a, b))
            li.append(b - a)
            ki.append(bool(v["ki"][i]))
            k0.append(bool(v["k0"][i]))
    d = {"li": np.array(li), "mi": np.array(mi)}
    return {"nocrack": dict(d, ki=np.array(k0)), "crack": dict(d, ki=np.array(ki)),
            "both": dict(d, ki=np.array(ki), k0=np.array(k0))}, own


def sublayers(layers, i, parts):
    return [list(r) for r in layers[:i]] + [[layers[i][0], layers[i][1] * f] for f in parts] + [list(r) for r in
                                                                                              layers[i + 1:]]


def same_rates(ctx, key, a, b, what):
    if a.gd is not None and b.gd is not None:
        close(ctx, key + "/dif", b.gd, a.gd, "differential rates; %s" % what, 2e-6)
    if a.gi is not None and b.gi is not None:
        close(ctx, key + "/inc", b.gi, a.gi, "incremental rates; %s" % what, 1e-2)


def run(task, ctx):
    if task[0] == "td":
        return touchdown(task, ctx)
    c = space.config(*task[:2])
    near = task[2]
    m = space.model(c)
    seg = space.segments(m, c)
    h = float(m.h)
    a = solved(c, m, seg, near)
    Fa = np.array([fields(m, a.z(i, FR * l)) for i, l in enumerate(a.li)])
    n = len(a.li)
    what = space.name(c)
    # -- segments -----------------------------------------------------------
    fr = (0.0, 0.3, 0.7, 1.0) if near else (0.3, 1.0)
    cuts = [[(i, f)] for i in range(n) for f in fr]
    if near:
        cuts += [[(i, 0.3), (j, f)] for i, j in itertools.combinations_with_replacement(range(n), 2) for f in (0.7, 1.0)]
    for cut in cuts:
        s2, own = split(seg, cut)
        b = solved(c, m, s2, near and len(cut) == 1)
        ctx.trace()
        ctx.step(len(own))
        w = "segments split at %s; %s" % (cut, what)
        G, W = [], []
        for k, (i, x0, x1) in enumerate(own):
            x = x0 + FR * (x1 - x0)
            G.append(fields(m, b.z(k, FR * (x1 - x0))))
            W.append(fields(m, a.z(i, x)))
        sc = scale(np.moveaxis(Fa, 1, 0).reshape(8, -1), h)
        if not compare(ctx, "segments", np.array(G), np.array(W), h, w, sc=sc):
            break
        same_rates(ctx, "segments", a, b, w)
        ctx.state()
    # -- layers -------------------------------------------------------------
    if not isinstance(c["layers"], str):
        ly = c["layers"]
        which = range(len(ly)) if near or len(ly) <= 3 else (0, len(ly) - 1)
        for i in which:
            for parts in ((0.5, 0.5), (0.1, 0.9), (0.8, 0.2), (0.2, 0.3, 0.5))[: 4 if near else 2]:
                d = dict(c, layers=sublayers(ly, i, parts))
                m2 = space.model(d)
                b = solved(d, m2, space.segments(m2, d), near)
                Fb = np.array([fields(m2, b.z(k, FR * l)) for k, l in enumerate(b.li)])
                w = "layer %d split into %s; %s" % (i, parts, what)
                compare(ctx, "layers", Fb, Fa, h, w)
                same_rates(ctx, "layers", a, b, w)
                if near:
                    stresses(ctx, m, m2, a.z(0, [0.4 * a.li[0]]), c, w)
                ctx.trace()
                ctx.state()
    # -- lengthening --------------------------------------------------------
    if c["system"].startswith("skier"):
        R = space.refmodel(c)
        if R.lam_min() * min(a.li[0], a.li[-1]) > 40 and n > 1:
            for e0, e1 in ((3000.0, 0.0), (0.0, 7000.0), (5000.0, 5000.0)):
                if c["system"] == "skier":
                    if e0 != e1:
                        continue
                    d = dict(c, geo=(c["geo"][0] + e0 + e1,) + tuple(c["geo"][1:]))
                else:
                    li = list(c["geo"][0])
                    li[0] += e0
                    li[-1] += e1
                    d = dict(c, geo=(li,) + tuple(c["geo"][1:]))
                b = solved(d, m, space.segments(m, d), near)
                w = "lengthened by %g and %g; %s" % (e0, e1, what)
                for i in range(n):
                    x = FR * a.li[i]
                    xb = x + (e0 if i == 0 else 0.0)
                    compare(ctx, "lengthen", fields(m, b.z(i, xb)), fields(m, a.z(i, x)), h, w,
                            sc=scale(np.moveaxis(Fa, 1, 0).reshape(8, -1), h))
                same_rates(ctx, "lengthen", a, b, w)
                ctx.trace()
                ctx.state()
    ctx.state(sig(Fa[:, :3, 2]))


def stresses(ctx, m, m2, Z, c, w):
    """Stresses at the top and bottom of the slab do not depend on the numerical layering."""
    dz = float(m.h) / 300
    ref = max(float(np.max(np.abs(getattr(m, k)(Z, c["phi"], dz=dz)))) for k in ("Sxx", "Txz", "Szz"))
    for nm in ("Sxx", "Txz", "Szz"):
        a = np.asarray(getattr(m, nm)(Z, c["phi"], dz=dz), float)[[0, -1]]
        b = np.asarray(getattr(m2, nm)(Z, c["phi"], dz=dz), float)[[0, -1]]
        close(ctx, "layers/" + nm, b, a, "%s at top and bottom; %s" % (nm, w), 1e-3 if nm == "Szz" else 1e-6, floor=ref)


def touchdown(task, ctx):
    _, idx, g = task
    c = space.config("pst-", list(idx) + [0])
    c["geo"] = TD_GEO[g]
    if isinstance(c["layers"], str):
        return
    what = space.name(c)

    def regime(d):
        m = space.model(d, touchdown=True)
        try:
            space.segments(m, d)
        except ValueError as e:
            if "sign" not in str(e):
                raise
            return None
        return m.mode, m.td, m.tc, m.calc_a1(), m.calc_a2()

    a = regime(c)
    for i in {0, len(c["layers"]) - 1}:
        b = regime(dict(c, layers=sublayers(c["layers"], i, (0.3, 0.7))))
        ctx.trace()
        if a is None or b is None:
            ctx.expect(a is b, "touchdown", "touchdown defined for only one of two identical slabs; %s" % what)
            continue
        if not (abs(c["geo"][1] - a[3]) > 1e-6 * a[3] and abs(c["geo"][1] - a[4]) > 1e-6 * a[4]):
            continue
        ctx.expect(a[0] == b[0], "touchdown", "regime %s becomes %s by splitting a layer; %s" % (a[0], b[0], what))
        close(ctx, "touchdown", b[1:], a[1:], "touchdown lengths after splitting a layer; %s" % what, 1e-6)
        ctx.state(a[0])
