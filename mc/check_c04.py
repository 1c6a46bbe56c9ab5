"""C04: results depend only on the current configuration, not on the call history."""
import itertools
import multiprocessing as mp

import numpy as np

import ops
from core import sig

ID, LEVEL = "C04", "model_checking"
BOUNDS = {"quick": "every history of up to 2 operations over the full alphabet of 40 and up to 3 over the core alphabet of 11 from a touchdown "
                   "PST and a skier model, one operation less from 3 other initial models; every ordered pair of the ~35 single-axis neighbours of 5 configurations; every final configuration compared with a fresh model in a fresh process",
          "thorough": "3 operations over the full alphabet from 2 initial models, 4 over the core alphabet from 4"}
ASSUME = ["operation alphabet: setters, system and touchdown changes, segment set-ups in every contact regime, solves, analyses, failing "
          "calls, a second live model, the touchdown helper, plots, scribbling over returned and passed-in arrays",
          "equality to 1e-7 of each quantity's scale"]
LAY = [([[180, 100], [270, 150], [320, 80]], 6.5, 4.4), ([[240, 200]], 6.5, 4.4), ([[350, 60], [150, 200]], 6.0, 4.2), ("b", 6.5, 4.4)]
WK = [(20.0, 0.2, 0.2), (30.0, 0.25, 0.25), (12.0, 0.5, 0.3)]
PP, GG, KK = [4e-4, 0.0], [9810, 9000.0], [1000, 1500.0]
SYS = ["pst-", "-pst", "vpst-", "-vpst", "skier", "skiers"]
# configuration: (layers, weak, p, g, lski, system, touchdown)
INIT = {"pst": (0, 0, 0, 0, 0, 0, 1), "-pst": (1, 1, 1, 0, 0, 1, 0), "skier": (0, 0, 0, 0, 0, 4, 0), "vpst": (0, 0, 0, 0, 0, 2, 1),
        "skiers": (2, 2, 0, 0, 0, 5, 0)}


class World:
    """A model with the configuration it ought to have, plus a second model."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.m = fresh(cfg)
        self.other = None
        self.ocfg = None

    def put(self, **kw):
        names = ("layers", "weak", "p", "g", "lski", "system", "td")
        self.cfg = tuple(kw.get(n, v) for n, v in zip(names, self.cfg))


def fresh(cfg):
    import weac
    la, wk, p, g, k, s, td = cfg
    m = weac.Layered(system=SYS[s], layers=LAY[la][0], touchdown=bool(td))
    m.g, m.lski = GG[g], KK[k]
    m.set_foundation_properties(*WK[wk])
    m.set_beam_properties(LAY[la][0], C0=LAY[la][1], C1=LAY[la][2])
    m.calc_fundamental_system()
    m.set_surface_load(PP[p])
    return m


def exps(cfg):
    e = ops.experiments(SYS[cfg[5]], bool(cfg[6]))
    return e[1:2] if cfg[6] and cfg[5] < 2 else e[:2]


def beam(i, update=True):
    def f(w):
        w.m.set_beam_properties(LAY[i][0], C0=LAY[i][1], C1=LAY[i][2], update=update)
        w.put(layers=i)
    return f


def weak(i):
    def f(w):
        w.m.set_foundation_properties(t=WK[i][0], E=WK[i][1], nu=WK[i][2], update=True)
        w.put(weak=i)
    return f


def both(i, j):
    def f(w):
        w.m.set_beam_properties(LAY[i][0], C0=LAY[i][1], C1=LAY[i][2])
        w.m.set_foundation_properties(*WK[j])
        w.m.calc_fundamental_system()
        w.put(layers=i, weak=j)
    return f


def scribbled(w):
    a = np.array(LAY[1][0], float)
    w.m.set_beam_properties(a, C0=LAY[1][1], C1=LAY[1][2], update=True)
    a[:] = 77.0
    w.put(layers=1)


def scribble(w):
    """Overwrite every array that was handed out."""
    m, e = w.m, exps(w.cfg)[0]
    seg = m.calc_segments(**e)
    C = m.assemble_and_solve(phi=e["phi"], **seg["crack"])
    x, z, xb = m.rasterize_solution(C=C, phi=e["phi"], li=seg["crack"]["li"], ki=seg["crack"]["ki"], num=5)
    got = [m.get_ply_coordinates(), m.get_zmesh(dz=50), m.calc_system_matrix(), m.get_load_vector(12.0), m.w(z), m.N(z),
           m.zh(3.0, 10.0), m.zp(3.0, 10.0), m.zh(3.0, 10.0, False), m.zp(3.0, 10.0, False), C, x, z, xb]
    from weac import tools
    for k in "abcdefh":
        got += list(tools.load_dummy_profile(k))
    for s in seg.values():
        got += [s["li"], s["ki"]]
    for v in got:
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 1


def setter(attr, vals, name, i):
    def f(w):
        if name == "p":
            w.m.set_surface_load(vals[i])
        else:
            setattr(w.m, attr, vals[i])
        w.put(**{name: i})
    return f


def segs(n):
    def f(w):
        e = ops.experiments(w.m.system, bool(w.cfg[6]))
        w.m.calc_segments(**e[n % len(e)])
    return f


def solve(w):
    ops.observe(w.m, exps(w.cfg)[:1], full=False)


def analyse(w):
    ops.observe(w.m, exps(w.cfg)[-1:], full=True)


def failing(g):
    def f(w):
        try:
            g(w)
        except Exception:
            return
    return f


def bad_lengths(w):
    s = w.m.calc_segments(**exps(w.cfg)[0])["crack"]
    w.m.assemble_and_solve(phi=5, li=s["li"], mi=[0] * 9, ki=s["ki"])


def bad_support(w):
    s = w.m.calc_segments(**exps(w.cfg)[0])["crack"]
    w.m.assemble_and_solve(phi=5, li=s["li"], mi=s["mi"], ki=[False] * len(s["ki"]))


def bad_system(w):
    s = w.m.system
    w.m.system = "bogus"
    try:
        w.m.calc_segments(L=1000, a=300, phi=3)
    finally:
        w.m.system = s


def bad_unit(w):
    e = exps(w.cfg)[0]
    s = w.m.calc_segments(**e)["crack"]
    C = w.m.assemble_and_solve(phi=e["phi"], **s)
    w.m.gdif(C=C, phi=e["phi"], unit="bogus", **s)


def bad_raster(w):
    e = exps(w.cfg)[0]
    s = w.m.calc_segments(**e)["crack"]
    w.m.rasterize_solution(C=np.zeros((6, 1)), phi=1, li=s["li"], ki=s["ki"])


def bad_plot(w):
    from weac import plot
    e = exps(w.cfg)[0]
    s = w.m.calc_segments(**e)["crack"]
    C = w.m.assemble_and_solve(phi=e["phi"], **s)
    x, z, xb = w.m.rasterize_solution(C=C, phi=e["phi"], li=s["li"], ki=s["ki"], num=30)
    plot.deformed(w.m, x, xb, z, e["phi"], field="bogus")


def good_plot(w):
    from weac import plot
    e = exps(w.cfg)[0]
    s = w.m.calc_segments(**e)["crack"]
    C = w.m.assemble_and_solve(phi=e["phi"], **s)
    x, z, xb = w.m.rasterize_solution(C=C, phi=e["phi"], li=s["li"], ki=s["ki"], num=40)
    plot.deformed(w.m, x, xb, z, e["phi"], dz=40, field="Sxx", levels=10)
    plot.displacements(w.m, x, z, **s)


def stiff(w):
    w.m.calc_segments(**exps(w.cfg)[0])
    for a in ("supported", "rested"):
        for d in ("rot", "trans"):
            w.m.substitute_stiffness(400.0, a, d)


def other(w):
    """A second model is configured and used; both stay what they are."""
    if w.other is None:
        w.ocfg = (2, 2, 1, 1, 1, 0, 1)
        w.other = fresh(w.ocfg)
    e = ops.experiments("pst-", True)[1]
    s = w.other.calc_segments(**e)["crack"]
    w.other.assemble_and_solve(phi=e["phi"], **s)


def another(w):
    w.ocfg = (1, 2, 1, 1, 1, 4, 0)
    w.other = fresh(w.ocfg)
    ops.observe(w.other, exps(w.ocfg)[:1], full=False)


def helper(w):
    from weac.tools import touchdown_distance
    touchdown_distance(layers=LAY[2][0], C0=6.0, C1=4.2, Ewl=0.5, t=25, phi=10)


def setters(w):
    """The touchdown parameters set directly."""
    m = w.m
    m.set_columnlength(4000.0)
    m.set_cracklength(900.0)
    m.set_phi(31.0)
    m.set_tc(0.3)
    m.set_stiffness_ratio()
    m.set_stiffness_ratio(20)
    m.calc_touchdown_system(L=3500.0, a=2600.0, cf=0.45, phi=-12.0)


CORE = {
    "beam1": beam(1), "weak1": weak(1), "load0": setter("p", PP, "p", 1), "system pst-": setter("system", SYS, "system", 0),
    "system skier": setter("system", SYS, "system", 4), "touchdown on": setter("touchdown", [False, True], "td", 1),
    "segments C": segs(1), "solve": solve, "other": other, "no collapse": failing(lambda w: w.m.calc_segments(L=2500.0, a=500.0, phi=9.0, cf=0.0)),
    "bad support": failing(bad_support),
}
FULL = dict(CORE)
FULL.update({
    "beam2": beam(2), "profile": beam(3), "setters": failing(setters), "beam0": beam(0), "both21": both(2, 1), "weak2": weak(2), "scribbled": scribbled, "gravity": setter("g", GG, "g", 1),
    "lski": setter("lski", KK, "lski", 1), "system -pst": setter("system", SYS, "system", 1),
    "system vpst-": setter("system", SYS, "system", 2), "system -vpst": setter("system", SYS, "system", 3),
    "system skiers": setter("system", SYS, "system", 5), "touchdown off": setter("touchdown", [False, True], "td", 0),
    "segments A": segs(0), "segments B": segs(2), "analyse": analyse, "scribble": failing(scribble), "bad lengths": failing(bad_lengths),
    "bad system": failing(bad_system), "bad unit": failing(bad_unit), "bad raster": failing(bad_raster), "bad plot": failing(bad_plot),
    "bad profile": failing(lambda w: w.m.set_beam_properties("nope")), "crack beyond column":
    failing(lambda w: w.m.calc_segments(L=500.0, a=900.0, phi=9.0)), "plot": failing(good_plot), "stiffness": failing(stiff), "helper": helper,
    "another": another,
})
GOLD = {}


def words(tier):
    th = tier == "thorough"
    full, core = list(FULL), list(CORE)
    for init in INIT:
        for n in range(0, 3 if th or init in ("pst", "skier") else 2):
            for w in itertools.product(full, repeat=n):
                yield init, w
        for n in range(2, (5 if init != "skiers" else 4) if th else (4 if init in ("pst", "skier") else 3)):
            if n == 2 and (th or init in ("pst", "skier")):
                continue
            for w in itertools.product(core, repeat=n):
                yield init, w
    if th:
        for init in ("pst", "skier"):
            for w in itertools.product(full, repeat=3):
                if not all(o in CORE for o in w):
                    yield init, w


def final(cfg, word):
    """Configuration a history ends in, from the setters alone."""
    class Rec(World):
        def __init__(self, cfg):
            self.cfg = cfg
            self.m = _Null()
    r = Rec(cfg)
    for o in word:
        if o in SETTERS:
            FULL[o](r)
    return r.cfg


class _Null:
    def __getattr__(self, n):
        return lambda *a, **k: None


SETTERS = {o for o in FULL if o.split()[0] in ("beam1", "beam2", "beam0", "both21", "weak1", "weak2", "scribbled", "gravity", "lski", "load0",
                                               "system", "touchdown", "profile")}


def golden(cfg):
    """Observation of a fresh model in a process in which no other model was ever used."""
    import warnings
    warnings.simplefilter("ignore")
    with np.errstate(all="ignore"):
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            return cfg, ops.observe(fresh(cfg), exps(cfg), full=False)


def gold(cfg):
    cfg = tuple(cfg)
    if cfg not in GOLD:
        with mp.get_context("fork").Pool(1) as p:
            GOLD[cfg] = p.apply(pgolden if len(cfg) == len(AXES) else golden, (cfg,))[1]
    return GOLD[cfg]


# --- every ordered pair of neighbouring configurations -----------------------------------------------------------
# Deviations are chosen such that any proper subset of the inputs of a computation stays equal: reversed layers, equal
# thickness, number and mass of layers, equal foundation stiffnesses, equal ratios, permuted segments, ...
L3 = [[180, 100], [270, 150], [320, 80]]
BEAMS = [(L3, 6.5, 4.4, 0.25), (L3[::-1], 6.5, 4.4, 0.25), ([[180, 150], [270, 80], [320, 100]], 6.5, 4.4, 0.25), (L3, 2.0, 4.4, 0.25),
         (L3, 6.5, 3.9, 0.25), (L3, 6.5, 4.4, 0.32), ([[200, 100], [230, 150], [370, 80]], 6.5, 4.4, 0.25), ([[84100 / 330, 330]], 6.5, 4.4, 0.25),
         ([[180, 150], [270, 225], [320, 120]], 6.5, 4.4, 0.25), ([[180, 50], [180, 50], [270, 150], [320, 80]], 6.5, 4.4, 0.25), ("b", 6.5, 4.4, 0.25)]
WEAKS = [(20.0, 0.2, 0.2), (40.0, 0.4, 0.2), (20.0, 0.4, 0.2), (10.0, 0.2, 0.2), (20.0, 0.2, 0.35)]
PS, GS, KS, TOLS = [4e-4, 0.0, 1e-3], [9810, 9000.0], [1000, 1500.0], [1e-3, 1e-6]
PST = dict(L=3000.0, a=2000.0, phi=-20.0, cf=0.4, ratio=1000)
SK = dict(L=20000.0, a=600.0, m=80, phi=-20.0)
SKS = dict(li=[7e3, 300.0, 500.0, 8e3], mi=[80, 0, 50], ki=[True, False, True, True], k0=[True] * 4, phi=-20.0)
EXPS = {"pst": [PST] + [dict(PST, **d) for d in (dict(L=3500.0), dict(a=300.0), dict(a=1200.0), dict(phi=20.0), dict(phi=5.0), dict(cf=0.5),
                                                 dict(ratio=100), dict(L=3600.0, a=2400.0))],
        "skier": [SK] + [dict(SK, **d) for d in (dict(L=24000.0), dict(a=0), dict(a=900.0), dict(m=0), dict(m=60), dict(phi=20.0),
                                                 dict(L=24000.0, a=720.0))],
        "skiers": [SKS] + [dict(SKS, **d) for d in (dict(li=[7e3, 500.0, 300.0, 8e3]), dict(li=[8e3, 300.0, 500.0, 7e3]), dict(mi=[50, 0, 80]),
                                                    dict(mi=[80, 50, 0]), dict(ki=[True, True, False, True]), dict(ki=[True] * 4), dict(phi=20.0),
                                                    dict(k0=[True, False, True, True]),
                                                    dict(li=[7e3, 800.0, 8e3], mi=[80, 50], ki=[True, False, True], k0=[True] * 3))]}
AXES = ("beam", "weak", "p", "g", "lski", "tol", "system", "td", "exp")
BASES = {"pst": (0, 0, 0, 0, 0, 0, 0, 1, 0), "cut": (0, 0, 0, 0, 0, 0, 1, 0, 0), "vpst": (0, 0, 0, 0, 0, 0, 2, 0, 0),
         "skier": (0, 0, 0, 0, 0, 0, 4, 0, 0), "skiers": (0, 0, 0, 0, 0, 0, 5, 0, 0)}


def kind(system):
    return "pst" if system < 4 else SYS[system]


def neighbours(fam):
    b = BASES[fam]
    n = dict(beam=len(BEAMS), weak=len(WEAKS), p=len(PS), g=len(GS), lski=len(KS), tol=len(TOLS), system=len(SYS), td=2, exp=len(EXPS[kind(b[6])]))
    out = [b]
    for i, a in enumerate(AXES):
        out += [b[:i] + (v,) + b[i + 1:] for v in range(n[a]) if v != b[i]]
    return out


def build(s):
    import weac
    m = weac.Layered(system=SYS[s[6]], touchdown=bool(s[7]))
    move(m, None, s, 0)
    return m


def move(m, old, new, how):
    ch = [a for i, a in enumerate(AXES) if old is None or old[i] != new[i]]
    v = dict(zip(AXES, new))
    m.system, m.touchdown = SYS[v["system"]], bool(v["td"])
    if "g" in ch:
        m.g = GS[v["g"]]
    if "lski" in ch:
        m.lski = KS[v["lski"]]
    if "tol" in ch:
        m.tol = TOLS[v["tol"]]
    if "p" in ch:
        m.set_surface_load(PS[v["p"]])
    la, C0, C1, nu = BEAMS[v["beam"]]
    t, E, nw = WEAKS[v["weak"]]
    if "beam" in ch:
        m.set_beam_properties(la, C0=C0, C1=C1, nu=nu, update=not how)
    if "weak" in ch:
        m.set_foundation_properties(t=t, E=E, nu=nw, update=not how)
    if how or old is None:
        m.calc_fundamental_system()


def look(m, s):
    return ops.observe(m, [EXPS[kind(s[6])][s[8]]], full=True)


def pgolden(s):
    import contextlib
    import io
    import warnings
    warnings.simplefilter("ignore")
    with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        return s, look(build(s), s)


def pairs(task, ctx):
    _, fam, i = task
    N = neighbours(fam)
    a, m = N[i], build(N[i])
    at = a
    look(m, a)
    for j, b in list(enumerate(N))[i + 1:]:          # a -> b -> a covers both orders
        for s in (b, a):
            move(m, at, s, (i + j) % 2)
            prev, at = at, s
            o = look(m, s)
            ctx.step()
            d = ops.differ(gold(s), o)
            ctx.state(("pair", fam, s))
            if d:
                ch = {x: (p, q) for x, p, q in zip(AXES, prev, s) if p != q}
                ctx.fail("history", "after changing %s: %s than on a fresh model (%s)" % (ch, d, fam), {"from": prev, "to": s, "axes": AXES})
                return
        ctx.trace()


def tasks(tier):
    import weac          # imported but never used in this process
    import weac.plot
    groups, cfgs = {}, {(2, 2, 1, 1, 1, 0, 1), (1, 2, 1, 1, 1, 4, 0)}
    for init, w in words(tier):
        groups.setdefault((init, w[:-1]), []).append(w[-1] if w else None)
        cfgs.add(final(INIT[init], w))
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for c, o in p.imap_unordered(golden, sorted(cfgs), 1):
            GOLD[c] = o
    P = sorted({s for f in BASES for s in neighbours(f)})
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for c, o in p.imap_unordered(pgolden, P, 1):
            GOLD[c] = o
    return [["pairs", f, i] for f in BASES for i in range(len(neighbours(f)))] + [[init, list(pre), last] for (init, pre), last in groups.items()]


def run(task, ctx):
    if task[0] == "pairs":
        return pairs(task, ctx)
    init, pre, lasts = task
    for last in lasts:
        word = list(pre) + ([last] if last else [])
        w = World(INIT[init])
        for o in word:
            FULL[o](w)
            ctx.step()
        ctx.trace()
        a = ops.observe(w.m, exps(w.cfg), full=False)
        d = ops.differ(gold(w.cfg), a)
        ctx.state((w.cfg, sig(a["laminate"][0]), len(a)))
        if d:
            ctx.fail("history", "after %s: %s than on a fresh model (initial model %s)" % (word, d, init), {"word": word, "init": init})
            return
        if w.other is not None:
            d = ops.differ(gold(w.ocfg), ops.observe(w.other, exps(w.ocfg), full=False))
            if d:
                ctx.fail("other", "second model after %s: %s than on a fresh model (initial model %s)" % (word, d, init))
                return
