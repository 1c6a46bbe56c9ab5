"""C19: the touchdown helper agrees with the regimes of a very long column, for every order of calls."""
import numpy as np

import ops
import ref
import space
from check_c07 import Oracle, rel
from core import sig

ID, LEVEL = "C19", "model_checking"
BOUNDS = {"quick": "every parameter set within 1 deviation of 6 bases over 23 layerings, 4 parametrisations, 6 moduli, 7 thicknesses and 9 slopes; every "
                   "ordered pair of 12 parameter sets and every ordered triple of 5, with a live model in between",
          "thorough": "3 deviations of 2 bases; every ordered pair of 24 and triple of 8"}
ASSUME = ["columns of 100 m, collapse factor 0.5, stiffness ratio 1000 (the defaults of the model)",
          "parameter sets whose slab already rests on the collapsed layer are outside the domain",
          "far behind the tip: 5 and 9 first-contact lengths, equal to 2 % of each other"]
C01 = [(6.5, 4.4), (6.0, 4.6), (2.0, 3.0), (8.0, 4.4)]
EWL = [0.25, 0.2, 0.1, 1.0, 0.6, 0.02]
T = [10, 20.6, 30.0, 100.0, 5.0, 50, 15]
PHI = [0, 33.3, -33.0, 5.0, 20, 45.0, -60.0, -0.7, 70]
SIZES = [len(space.LAYERS), len(C01), len(EWL), len(T), len(PHI)]
BASES = [(1, 0, 0, 0, 0), (0, 1, 1, 1, 1), (2, 0, 2, 2, 2), (12, 2, 0, 1, 5), (3, 0, 1, 1, 6), (7, 0, 3, 4, 3)]
DEFAULT = [[240, 200]]


def sets(n):
    """Parameter sets of the order exploration."""
    out = [(1, 0, 0, 0, 0), (0, 1, 1, 1, 1), (2, 0, 1, 2, 2), (3, 2, 0, 1, 3), (12, 0, 0, 1, 4), (15, 0, 2, 3, 0), (7, 3, 1, 6, 5), (0, 0, 0, 0, 8),
           (14, 0, 4, 1, 6), (1, 0, 5, 5, 7), (8, 1, 3, 2, 1), (11, 0, 0, 3, 2), (4, 1, 1, 1, 0), (0, 1, 1, 1, 2), (0, 0, 1, 1, 1), (0, 1, 0, 1, 1),
           (0, 1, 1, 0, 1), (13, 0, 2, 2, 4), (9, 0, 1, 3, 3), (16, 2, 0, 1, 0), (17, 0, 0, 5, 5), (18, 3, 3, 6, 1), (19, 0, 1, 2, 6), (20, 0, 0, 1, 0)]
    return out[:n]


def tasks(tier):
    th = tier == "thorough"
    seen, out = set(), []
    for b in BASES[:2] if th else BASES:
        for idx in space.deviations(SIZES, 3 if th else 1, list(b)):
            if idx not in seen:
                seen.add(idx)
                out.append(list(idx))
    groups = [["value", out[i:i + 8]] for i in range(0, len(out), 8)]
    P, Q = (24, 8) if th else (12, 5)
    groups += [["pairs", i, P] for i in range(P)] + [["triples", i, j, Q] for i in range(Q) for j in range(Q)]
    return groups


def kw(idx):
    la, c, e, t, p = idx
    ly = space.LAYERS[la]
    return dict(layers=ly if isinstance(ly, str) else [list(r) for r in ly], C0=C01[c][0], C1=C01[c][1], Ewl=EWL[e], t=T[t], phi=PHI[p])


def helper(k):
    from weac.tools import touchdown_distance
    return np.array([float(v) for v in touchdown_distance(**k)])


def column(k, L=1e5):
    import weac
    m = weac.Layered(system="pst-", layers=k["layers"], touchdown=True)
    m.set_beam_properties(k["layers"], C0=k["C0"], C1=k["C1"])
    m.set_foundation_properties(E=k["Ewl"], t=k["t"])
    m.calc_fundamental_system()
    return m


def oracle(k):
    return Oracle({"layers": k["layers"], "weak": (k["t"], k["Ewl"], 0.25), "mat": (k["C0"], k["C1"], 0.25), "phi": k["phi"], "p": 0.0, "g": 9810.0},
                  1e5, 0.5, 1000)


def run(task, ctx):
    import weac.tools
    kind = task[0]
    if kind == "value":
        for idx in task[1]:
            if not value(ctx, kw(idx)):
                return
        return
    P = sets(task[-1])
    P = [p for p in P if oracle(kw(p)).a1]
    if task[1] >= len(P) or kind == "triples" and task[2] >= len(P):
        return
    cfg = {"system": "-pst", "layers": space.LAYERS[0], "weak": space.WEAK[1], "mat": space.MAT[0], "g": 9810, "lski": 1000, "p": 2e-4}
    e = ops.experiments("-pst", True)[1:2]
    live = space.model(cfg, touchdown=True)
    before = ops.observe(live, e, full=False)
    gold = {p: np.array([*thresholds(kw(p))]) for p in P}
    pre = [P[task[1]]] + ([P[task[2]]] if kind == "triples" else [])
    for last in P:
        word = pre + [last]
        for n, p in enumerate(word):
            a = kw(p)
            b = kw(p)
            got = helper(a)
            ctx.step()
            if a != b:
                ctx.fail("input", "touchdown_distance changes the data passed in: %s" % b)
                return
            if np.max(np.abs(got - gold[p]) / gold[p]) > 1e-6:
                ctx.fail("order", "touchdown_distance(%s) gives %s instead of %s after %d earlier calls (%s)" % (
                    b, got, gold[p], n, [kw(q) for q in word[:n]]))
                return
        ctx.trace()
        ctx.state(sig(np.concatenate([gold[p] for p in word])))
    d = ops.differ(before, ops.observe(live, e, full=False))
    if d:
        ctx.fail("model", "calls of touchdown_distance change another model: %s" % d)


def thresholds(k):
    o = oracle(k)
    return o.a1, o.a2, o.td(5 * o.a1)


def value(ctx, k):
    o = oracle(k)
    what = "touchdown_distance(%s)" % k
    if o.a1 is None or o.a2 is None or 9 * o.a1 > 9.9e4:
        ctx.notes["outside the domain"] = ctx.notes.get("outside the domain", 0) + 1
        return True
    fc, full, ss = got = helper(k)
    ctx.step()
    ctx.state(sig(got))
    if not np.all(got > 0):
        ctx.fail("positive", "%s = %s is not positive" % (what, got))
        return False
    td = o.td(5 * o.a1)
    for n, g, w in (("first contact", fc, o.a1), ("full contact", full, o.a2), ("steady state", ss, td)):
        if w is None or rel(g, w) > 1e-6:
            ctx.fail(n, "%s of %s is %.9g instead of %s" % (n, what, g, w))
            return False
    m = column(k)
    modes = ""
    for a in (fc * (1 - 1e-6), fc * (1 + 1e-6), full * (1 - 1e-6), full * (1 + 1e-6)):
        m.calc_segments(L=1e5, a=a, phi=k["phi"])
        modes += str(m.mode)
        ctx.step()
    if modes != "ABBC":
        ctx.fail("regimes", "the column is in regimes %s around the lengths of %s" % (modes, what))
        return False
    for f in (5, 9):
        seg = m.calc_segments(L=1e5, a=f * fc, phi=k["phi"])["crack"]
        if rel(float(seg["li"][1]), ss) > (1e-6 if f == 5 else 0.02):
            ctx.fail("steady", "a column with a crack of %d first-contact lengths reports %.9g instead of %s" % (f, float(seg["li"][1]), what))
            return False
    if k["layers"] == DEFAULT:
        from weac.tools import touchdown_distance
        q = {a: b for a, b in k.items() if a != "layers"}
        if np.max(np.abs(np.array(touchdown_distance(**q)) - got) / got) > 1e-9:
            ctx.fail("default", "default layering gives other lengths than %s" % what)
            return False
    ctx.trace()
    return True
