"""Alphabets of the configuration space and construction of real models from configurations."""
import itertools

import numpy as np

import ref

LAYERS = [
    [[180.4, 100.25], [270, 150], [320.7, 80.5]],               # 0 base: three distinct layers
    [[240, 200]],                                             # homogeneous default
    [[350.0, 80.0], [120.0, 220.0]],                          # hard over soft
    [[120, 220], [350, 80]],                                  # soft over hard
    [[250, 100], [250, 100]],
    [[200, 10]],                                              # very thin
    [[300, 1500]],                                            # very thick
    [[100, 50], [300, 20], [150, 120], [400, 30], [200, 90]],
    [[110, 40], [160, 60], [210, 30], [260, 80], [310, 50], [360, 70], [190, 100]],
    [[150 + 20 * (i * 5 % 12), 15 + 5 * (i * 7 % 12)] for i in range(12)],
    [[90, 300]],
    [[450, 120], [80, 120], [450, 120]],
    "a", "b", "Profile C", "comp", "Profile soft", "d", "e", "f", "h", "medium", "HARD",
]
WEAK = [(20.6, 0.21, 0.2), (30.0, 0.25, 0.25), (10.0, 0.25, 0.25), (100.0, 1.0, 0.4), (2.0, 0.1, 0.0), (5.0, 0.6, 0.45),
        (50, 3, 0.3), (40.0, 0.02, 0.1)]
PHI = [33.3, 0.0, -33.0, 5.0, -5.0, 20, 45.0, -45.0, 60.0, -60.0, 80.0, 0.001, -0.7, 38, 90.0]
P = [4e-4, 0.0, 1e-3, 1e-2, -2e-4, 5e-5]
MAT = [(6.5, 4.4, 0.25), (6.0, 4.6, 0.25), (2.0, 3.0, 0.0), (8.0, 4.4, 0.4)]
G = [9810, 9000.7, 1620.0]
LSKI = [1000, 1700.5, 500.0]

PST = [(2500.7, 500.3), (1000, 300), (3000.0, 0), (3000, 0.4), (5000.0, 1400.0), (800, 770.0), (20000, 2000),
       (100000, 900), (300, 100), (2500, 2300), (600, 10)]
SKIER = [(24000.7, 600.3, 80.6), (30000, 0, 80), (20000, 2000.0, 0), (26000, 1.2, 100), (40000, 4000, 250.0),
         (100000, 1000, 60)]
# layouts for `skiers`: li, mi, ki, k0
SKIERS = [
    ([9000.6, 200.3, 400.0, 300.7, 9000.0], [80.6, 0, 60, 20.3], [1, 0, 1, 0, 1], [1, 1, 1, 1, 1]),
    ([12000, 12000], [80], [1, 1], [1, 1]),
    ([9000, 500, 8000], [0, 0], [1, 0, 1], [1, 1, 1]),
    ([8000, 300, 300, 8000], [0, 80, 0], [1, 0, 0, 1], [1, 1, 1, 1]),
    ([7000, 500, 600, 700, 7000], [80, 70, 0, 90], [1, 1, 1, 1, 1], [1, 1, 1, 1, 1]),
    ([8000, 200, 50, 700, 20, 8000], [10, 0, 80, 0, 5], [1, 0, 0, 1, 0, 1], [1, 1, 1, 1, 1, 1]),
    ([9000, 0, 500, 0, 7000], [0, 80, 0, 60], [1, 1, 0, 1, 1], [1, 1, 1, 1, 1]),
    ([9000, 200, 200, 200, 9000], [0, 80, 0, 0], [1, 0, 0, 0, 1], [1, 0, 1, 1, 1]),
    ([9000, 100, 900, 200, 900, 300, 9000], [50, 0, 60, 0, 70, 0], [1, 0, 1, 0, 1, 0, 1], [1] * 7),
    ([16000], [], [1], [1]),
    ([6000, 5, 6000], [0, 90], [1, 0, 1], [1, 1, 1]),
    ([9000, 400, 1200, 9000], [0, 0, 75], [1, 0, 1, 1], [1, 1, 1, 1]),
]
# arbitrary beam assemblies with free or vertical ends
CUSTOM = [
    ([400.3, 800.7, 300.0], [0, 0.7], [0, 1, 0], [1, 1, 1]),
    ([900.0, 400.0, 700.0], [0, 0], [1, 0, 1], [1, 1, 1]),
    ([500, 300, 300, 900], [0, 80, 0], [1, 0, 0, 1], [1, 1, 1, 1]),
    ([200, 600, 300, 500, 150], [0, 40, 0, 0], [0, 1, 0, 1, 0], [1, 1, 1, 1, 1]),
    ([1500.0], [], [1], [1]),
    ([700, 800], [60], [1, 1], [1, 1]),
    ([300, 0, 900, 0, 200], [0, 0, 30, 0], [1, 1, 0, 1, 1], [1, 1, 1, 1, 1]),
    ([100, 200, 300, 400, 500, 600], [1, 2, 3, 4, 5], [1, 0, 1, 1, 0, 1], [1, 1, 1, 1, 1, 1]),
]

SYSTEMS = ["pst-", "-pst", "vpst-", "-vpst", "skier", "skiers", "pst-*", "vpst-*"]


def geos(system):
    if system.endswith("*"):
        return CUSTOM
    if system == "skier":
        return SKIER
    if system == "skiers":
        return SKIERS
    return PST


def axes(system):
    return [("layers", LAYERS), ("weak", WEAK), ("phi", PHI), ("p", P), ("mat", MAT), ("g", G), ("lski", LSKI),
            ("geo", geos(system))]


def deviations(sizes, d, base=None):
    """All index vectors differing from `base` in at most d axes, simplest first."""
    n = len(sizes)
    base = base or [0] * n
    for k in range(d + 1):
        for which in itertools.combinations(range(n), k):
            for vals in itertools.product(*[[v for v in range(sizes[i]) if v != base[i]] for i in which]):
                idx = list(base)
                for i, v in zip(which, vals):
                    idx[i] = v
                yield tuple(idx)


SIMPLE = {"layers": 1, "weak": 1, "phi": 1, "p": 1, "mat": 0, "g": 0, "lski": 0, "geo": 0}


def space(systems, d, bases=("rich", "simple"), only=None, geo_all=False):
    """Deviation-bounded set of configurations (system, index vector), without repetitions."""
    out = []
    for s in systems:
        ax = axes(s)
        sizes = [len(v) for _, v in ax]
        if only:
            sizes = [n if (a in only) else 1 for n, (a, _) in zip(sizes, ax)]
        seen = set()
        for b in bases:
            base = [0] * len(ax) if b == "rich" else [SIMPLE[a] for a, _ in ax]
            gs = range(sizes[-1]) if geo_all else [0]
            for g0 in gs:
                bb = list(base)
                bb[-1] = g0
                sz = list(sizes)
                for i, v in enumerate(bb):
                    sz[i] = max(sz[i], 1)
                for idx in deviations(sz, d, bb):
                    if "vpst" in s and abs(PHI[idx[2]]) > 85:
                        continue                                # vertical faces are undefined on a vertical slope
                    if idx not in seen:
                        seen.add(idx)
                        out.append([s, list(idx)])
    return out


def config(system, idx):
    c = {a: v[i] for (a, v), i in zip(axes(system), idx)}
    c["system"] = system
    return c


def name(c):
    return "system=%s layers=%s weak=%s phi=%s p=%s mat=%s g=%s lski=%s geo=%s" % (
        c["system"], c["layers"], c["weak"], c["phi"], c["p"], c["mat"], c["g"], c["lski"], c["geo"])


def refmodel(c):
    return ref.Ref(c["layers"], c["weak"], c["mat"], c["phi"], c["p"], c["g"], c["lski"])


def model(c, touchdown=False, cls=None, system=None):
    """A real model with configuration c, built through the public interface."""
    import weac
    m = (cls or weac.Layered)(system=system or c["system"].rstrip("*"), layers=c["layers"], touchdown=touchdown)
    apply(m, c)
    return m


def apply(m, c):
    C0, C1, nu = c["mat"]
    t, E, n = c["weak"]
    m.g = c["g"]
    m.lski = c["lski"]
    m.set_foundation_properties(t=t, E=E, nu=n, update=True)
    m.set_beam_properties(c["layers"], C0=C0, C1=C1, nu=nu, update=True)
    m.set_surface_load(c["p"])
    return m


def segments(m, c):
    """Segment dictionaries for the geometry of c, through the public interface."""
    s, geo = c["system"], c["geo"]
    if s.endswith("*"):
        m.calc_segments(L=1000, a=100, phi=c["phi"])       # establishes the contact regime of the model
        li, mi, ki, k0 = geo
        li, mi = np.array(li, float), np.array(mi, float)
        ki, k0 = np.array(ki, bool), np.array(k0, bool)
        return {"nocrack": {"li": li, "mi": mi, "ki": k0}, "crack": {"li": li, "mi": mi, "ki": ki},
                "both": {"li": li, "mi": mi, "ki": ki, "k0": k0}}
    if s == "skiers":
        li, mi, ki, k0 = geo
        return m.calc_segments(li=list(li), mi=list(mi), ki=[bool(k) for k in ki], k0=[bool(k) for k in k0],
                               phi=c["phi"])
    if s == "skier":
        return m.calc_segments(L=geo[0], a=geo[1], m=geo[2], phi=c["phi"])
    return m.calc_segments(L=geo[0], a=geo[1], phi=c["phi"])


def layout(c, crack=True):
    """Expected segment layout (li, mi, ki) from the documentation of each system."""
    s, geo = c["system"], c["geo"]
    if s in ("skiers",) or s.endswith("*"):
        li, mi, ki, k0 = geo
        k = ki if crack else k0
        return [float(x) for x in li], [float(x) for x in mi], [bool(x) for x in k]
    if s == "skier":
        L, a, m = geo
        li = [(L - a) / 2, a / 2, a / 2, (L - a) / 2]
        mi, ki = [0.0, float(m), 0.0], [True, False, False, True]
    elif s in ("pst-", "vpst-"):
        L, a = geo
        li, mi, ki = [L - a, a], [0.0], [True, False]
    else:
        L, a = geo
        li, mi, ki = [a, L - a], [0.0], [False, True]
    return [float(x) for x in li], mi, (ki if crack else [True] * len(ki))


class Solved:
    """One solved configuration of the real code."""

    def __init__(self, c, crack=True, touchdown=False, m=None, seg=None):
        self.c = c
        self.m = m or model(c, touchdown)
        self.seg = seg or segments(self.m, c)
        self.s = self.seg["crack" if crack else "nocrack"]
        self.li = [float(x) for x in self.s["li"]]
        self.mi = [float(x) for x in self.s["mi"]]
        self.ki = [bool(x) for x in self.s["ki"]]
        self.phi = c["phi"]
        self.C = self.m.assemble_and_solve(phi=c["phi"], **{k: self.s[k] for k in ("li", "mi", "ki")})

    def z(self, i, x):
        """Solution matrix of segment i at local positions x."""
        return self.m.z(np.asarray(x, float), self.C[:, [i]], self.li[i], self.phi, bed=self.ki[i])
