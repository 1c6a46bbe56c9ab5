"""C17: the inverse-identification model is the same model with other parameters."""
import inspect

import numpy as np

import ops
import space
from core import sig

ID, LEVEL = "C17", "model_checking"
BOUNDS = {"quick": "every configuration within 2 axis deviations (layers, stiffness parametrisation, weak-layer modulus, load, gravity) per "
                   "system, with and without touchdown; every public method observed on both model kinds, also after reconfiguration",
          "thorough": "3 axis deviations"}
ASSUME = ["configuration alphabets of mc/space.py", "equality to 1e-9 of each quantity's scale"]
MATP = [(6.0, 4.6, 0.25), (6.5, 4.4, 0.25), (2.0, 3.0, 0.1), (8.0, 4.4, 1.0), (5.0, 5.0, 0.05), (7.0, 4.4, 1.5), (6.5, 4.2, 12.0), (6.3, 4.55, 0.012)]
SYS = ["pst-", "-pst", "vpst-", "-vpst", "skier", "skiers"]


def tasks(tier):
    d = 3 if tier == "thorough" else 2
    sizes = [len(space.LAYERS), len(MATP), len(space.P), len(space.G), len(space.WEAK)]
    out = [["api"]]
    for s in SYS:
        for td in ((False, True) if s in ("pst-", "-pst") else (False,)):
            for idx in space.deviations(sizes, d if not td else d - 1):
                out.append([s, td, list(idx)])
    return out


def run(task, ctx):
    import weac
    if task[0] == "api":
        pub = lambda c: {n for n, f in inspect.getmembers(c, callable) if not n.startswith("_")}
        miss = pub(weac.Layered) - pub(weac.Inverse)
        ctx.expect(not miss, "api", "methods missing from the inverse model: %s" % sorted(miss))
        ctx.state()
        same(ctx, weac.Inverse(), base(weac.Layered(), (6.0, 4.6, 0.25), [[240, 200]]), "pst-", False, "default parameters")
        for s in SYS:
            a = weac.Inverse(system=s)
            same(ctx, a, base(weac.Layered(system=s), (6.0, 4.6, 0.25), [[240, 200]]), s, False, "default parameters")
        return
    s, td, idx = task
    layers, par, p, g, wk = (v[i] for v, i in zip((space.LAYERS, MATP, space.P, space.G, space.WEAK), idx))
    what = "%s touchdown=%s layers=%s parameters=%s p=%s g=%s" % (s, td, layers, par, p, g)
    a = weac.Inverse(system=s, layers=layers, parameters=par)
    b = base(weac.Layered(system=s, layers=layers, touchdown=td), par, layers)
    for m in (a, b):
        m.touchdown = td
        m.g = g
        m.set_surface_load(p)
    near = sum(i > 0 for i in idx) < 2
    same(ctx, a, b, s, td, what, near)
    # the usual setters apply to both alike
    for m in (a, b):
        m.set_foundation_properties(t=wk[0], E=wk[1], nu=wk[2], update=True)
        m.lski = 1300.0
    same(ctx, a, b, s, td, what + ", weak layer %s" % (wk,), near)
    ctx.trace(2)


def base(m, par, layers):
    m.set_beam_properties(layers, C0=par[0], C1=par[1])
    m.set_foundation_properties(E=par[2])
    m.calc_fundamental_system()
    return m


def same(ctx, a, b, s, td, what, full=True):
    e = ops.experiments(s, td)[: 3 if full else 1]
    A, B = ops.observe(a, e, full=full), ops.observe(b, e, full=full)
    ctx.step(2 * len(A))
    d = ops.differ(B, A, 1e-9)
    ctx.expect(d is None, "inverse", "inverse model: %s; %s" % (d, what))
    ctx.state(sig(np.concatenate([B[k][0].ravel()[:3] for k in sorted(B)])))
