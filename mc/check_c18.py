"""C18: ill-posed input is rejected, well-posed input gives the same result whatever its form."""
import itertools
import os

import numpy as np

import ref
import space
from common import close, fields
from core import sig

ID, LEVEL = "C18", "model_checking"
BOUNDS = {"quick": "every combination of list lengths 0..5 for lengths, skiers and supports in every system; every support pattern up to "
                   "5 segments; 24 unknown names and all near misses of the known ones per option; every combination of input forms up to 4 segments",
          "thorough": "list lengths 0..7, support patterns and forms up to 6 segments"}
ASSUME = ["any exception counts as rejection", "results of different input forms equal to 1e-9"]
SYS = ["pst-", "-pst", "vpst-", "-vpst", "skier", "skiers"]
L_, S_, R_, G_ = ("m", "cm", "mm", "um"), ("kPa", "MPa"), ("deg", "degree", "degrees", "rad", "radian", "radians"), ("kJ/m^2", "J/m^2", "N/mm")
VALID = {"w": L_, "u": L_, "psi": R_, "sig": S_, "tau": S_, "Gi": G_, "Gii": G_, "gdif": G_, "Sxx": S_, "Txz": S_, "Szz": S_,
         "principal_stress_slab unit": S_, "principal_stress_slab val": ("min", "max"), "principal_stress_weaklayer unit": S_,
         "principal_stress_weaklayer val": ("min", "max"), "get_weaklayer_shearstress": S_, "get_weaklayer_normalstress": S_,
         "get_slab_displacement unit": L_, "get_slab_displacement loc": ("top", "mid", "bot"), "get_slab_deflection": L_,
         "get_slab_rotation": R_, "tensile_strength_slab": S_, "eqs": ("l", "left", "m", "mid", "r", "right"),
         "deformed field": ("w", "u", "principal", "Sxx", "Txz", "Szz")}


def near(valid):
    """Names that look like valid ones."""
    out = []
    for v in valid:
        out += [v + "x", v + "2", "x" + v, v[:-1], v[:1], v[1:], v.swapcase(), v + " ", " " + v, v + v]
    return [v for v in dict.fromkeys(out) if v not in valid]


BAD = ["", "x", "PST-", "pst", "-skier", "kpa", "N", "mid ", " mm", "km", "principal2", "Max", "0", None, 3, "J", "Pa", "left ", "unknown"]


def tasks(tier):
    n = 8 if tier == "thorough" else 6
    out = [["len", s, i] for s in SYS for i in range(n)]
    out += [["pat", s, k] for s in SYS for k in range(1, n)]
    out += [["sys", 0], ["profile", 0], ["options", 0], ["layers", 0], ["tools", 0]]
    out += [["options", s] for s in SYS[1:]]
    out += [["form", s, k] for s in SYS for k in range(1, n - 1)]
    out += [["full", s] for s in SYS]
    return out


def run(task, ctx):
    globals()["do_" + task[0]](ctx, *task[1:])


def rejected(f):
    try:
        f()
    except Exception:
        return True
    return False


def prepared(s):
    import weac
    m = weac.Layered(system=s, layers=[[180, 100], [270, 150]])
    if s == "skiers":
        m.calc_segments(li=[9e3, 9e3], mi=[80], ki=[True, True], k0=[True, True])
    else:
        m.calc_segments(L=20000, a=300, m=80, phi=30)
    return m


def lengths(s, n):
    l = [300.0 + 50 * i for i in range(n)]
    if n and "skier" in s:
        l[0] = l[-1] = 9000.0
    return l


def do_len(ctx, s, i):
    m = prepared(s)
    N = 8 if i > 5 else 6
    for nm, nk in itertools.product(range(N), repeat=2):
        good = i >= 1 and nk == i and nm == i - 1
        f = lambda: m.assemble_and_solve(phi=20, li=np.array(lengths(s, i)), mi=np.array([50.0] * nm), ki=np.array([True] * nk))
        r = rejected(f)
        ctx.expect(r != good, "lengths", "%s: %d lengths, %d skiers, %d supports are %s" % (
            s, i, nm, nk, "rejected" if r else "accepted"))
        ctx.state((s, i, nm, nk, r))
        ctx.step()


def do_pat(ctx, s, n):
    import weac
    m = prepared(s)
    for k in range(2**n):
        ki = [bool(k >> i & 1) for i in range(n)]
        good = any(ki) and (not s.startswith("skier") or (ki[0] and ki[-1]))
        for form in (np.array, list):
            r = rejected(lambda: m.assemble_and_solve(phi=20, li=form(lengths(s, n)), mi=form([0.0] * (n - 1)), ki=form(ki)))
            ctx.expect(r != good, "support", "%s: support pattern %s is %s" % (s, ki, "rejected" if r else "accepted"))
            ctx.step()
        ctx.state((s, tuple(ki), r))
        # models that never computed segments solve the same assemblies
        want = None if not good else m.assemble_and_solve(phi=20, li=lengths(s, n), mi=[30.0] * (n - 1), ki=ki)
        for cls in (weac.Layered, weac.Inverse):
            for td in (False, True) if cls is weac.Layered else (None,):
                q = cls(system=s, layers=[[180, 100], [270, 150]], **({} if td is None else {"touchdown": td}))
                if td is None:
                    q.set_beam_properties([[180, 100], [270, 150]], update=True)
                try:
                    got = q.assemble_and_solve(phi=20, li=lengths(s, n), mi=[30.0] * (n - 1), ki=ki)
                except Exception as e:
                    got = None
                    ctx.expect(not good, "fresh", "%s: support pattern %s is rejected by a new %s: %r" % (s, ki, cls.__name__, e))
                if got is not None:
                    ctx.expect(good, "fresh", "%s: support pattern %s is accepted by a new %s" % (s, ki, cls.__name__))
                    if good:
                        close(ctx, "fresh", got, want, "constants of support pattern %s (%s) on a new %s" % (ki, s, cls.__name__), tol=1e-9)
                ctx.step()


def do_sys(ctx, _):
    import weac
    for s in BAD + ["pst-pst", "vpst", "skis", "SKIER", "-pst-", "rested", True]:
        def go():
            m = weac.Layered(system=s)
            return m.calc_segments(L=20000, a=300, m=80, phi=20, li=[9e3, 9e3], mi=[0], ki=[True, True], k0=[True, True])

        def solve():
            m = weac.Layered(system=s)
            return m.assemble_and_solve(phi=20, li=np.array([9e3, 9e3]), mi=np.array([0]), ki=np.array([True, True]))
        ctx.expect(rejected(go), "system", "unknown system %r gets segments" % (s,))
        ctx.expect(rejected(solve), "system", "unknown system %r is solved" % (s,))
        ctx.state(str(s))
        ctx.step(2)
    for s in SYS:
        prepared(s)


def do_profile(ctx, _):
    import weac
    from weac.tools import load_dummy_profile
    known = list(ref.PROFILES)
    for p in near(known):
        if p.lower().strip() not in known:
            ctx.expect(rejected(lambda: weac.Layered(layers=p)), "profile", "unknown profile %r is accepted" % p)
            ctx.expect(rejected(lambda: load_dummy_profile(p)), "profile", "unknown profile %r is loaded" % p)
            ctx.state(p)
            ctx.step(2)
    for p in ["", "x", "g", "profile", "aa", "hardest", "profile 1", "a b c x", "i", "soft-", "default"]:
        ctx.expect(rejected(lambda: weac.Layered(layers=p)), "profile", "unknown profile %r is accepted" % p)
        ctx.expect(rejected(lambda: load_dummy_profile(p)), "profile", "unknown profile %r is loaded" % p)
        m = weac.Layered()
        ctx.expect(rejected(lambda: m.set_beam_properties(p)), "profile", "unknown profile %r is accepted by set_beam_properties" % p)
        ctx.state(p)
        ctx.step(3)


def do_options(ctx, s):
    from weac import plot, tools
    s = s or "pst-"
    c = space.config(s, [0] * 8)
    m = space.model(c)
    S = space.Solved(c, True, m=m)
    x, z, xb = m.rasterize_solution(C=S.C, phi=c["phi"], li=S.s["li"], ki=S.s["ki"], num=60)
    phi = c["phi"]
    cases = {
        "w": lambda v: m.w(z, unit=v), "u": lambda v: m.u(z, z0=0, unit=v), "psi": lambda v: m.psi(z, unit=v),
        "sig": lambda v: m.sig(z, unit=v), "tau": lambda v: m.tau(z, unit=v), "Gi": lambda v: m.Gi(z, unit=v),
        "Gii": lambda v: m.Gii(z, unit=v), "gdif": lambda v: m.gdif(C=S.C, phi=phi, unit=v, **S.s),
        "Sxx": lambda v: m.Sxx(z, phi, unit=v), "Txz": lambda v: m.Txz(z, phi, unit=v), "Szz": lambda v: m.Szz(z, phi, unit=v),
        "principal_stress_slab unit": lambda v: m.principal_stress_slab(z, phi, unit=v),
        "principal_stress_slab val": lambda v: m.principal_stress_slab(z, phi, val=v),
        "principal_stress_weaklayer unit": lambda v: m.principal_stress_weaklayer(z, unit=v),
        "principal_stress_weaklayer val": lambda v: m.principal_stress_weaklayer(z, val=v),
        "get_weaklayer_shearstress": lambda v: m.get_weaklayer_shearstress(xb, z, unit=v),
        "get_weaklayer_normalstress": lambda v: m.get_weaklayer_normalstress(xb, z, unit=v),
        "get_slab_displacement unit": lambda v: m.get_slab_displacement(x, z, unit=v),
        "get_slab_displacement loc": lambda v: m.get_slab_displacement(x, z, loc=v),
        "get_slab_deflection": lambda v: m.get_slab_deflection(x, z, unit=v),
        "get_slab_rotation": lambda v: m.get_slab_rotation(x, z, unit=v),
        "tensile_strength_slab": lambda v: tools.tensile_strength_slab(200.0, unit=v),
        "eqs": lambda v: m.eqs(m.zh(0.0, 100.0), m.zh(100.0, 100.0), True, v),
        "deformed field": lambda v: plot.deformed(m, x, xb, z, phi, field=v),
    }
    for nm, f in cases.items():
        for v in BAD + [v for v in near(VALID[nm]) if v not in BAD]:
            ctx.expect(rejected(lambda: f(v)), "option/%s" % nm, "%s accepts the unknown option %r" % (nm, v))
            ctx.state((nm, str(v)))
            ctx.step()
    for nm, f in (("slab compression", lambda: m.principal_stress_slab(z, phi, val="min", normalize=True)),
                  ("weak-layer tension", lambda: m.principal_stress_weaklayer(z, val="max", normalize=True))):
        ctx.expect(rejected(f), "normalize", "normalisation of %s is accepted" % nm)
    # the well-posed ones are accepted
    ok = {"w": "cm", "u": "um", "psi": "deg", "sig": "kPa", "tau": "MPa", "Gi": "J/m^2", "Gii": "N/mm", "gdif": "J/m^2", "Sxx": "MPa",
          "Txz": "kPa", "Szz": "MPa", "principal_stress_slab unit": "MPa", "principal_stress_slab val": "min",
          "principal_stress_weaklayer unit": "MPa", "principal_stress_weaklayer val": "max", "get_weaklayer_shearstress": "kPa",
          "get_weaklayer_normalstress": "kPa", "get_slab_displacement unit": "cm", "get_slab_displacement loc": "bot",
          "get_slab_deflection": "um", "get_slab_rotation": "rad", "tensile_strength_slab": "MPa", "eqs": "mid"}
    for nm, v in ok.items():
        cases[nm](v)
        ctx.trace()
    for v in ("l", "left", "m", "mid", "r", "right"):
        cases["eqs"](v)


def snapshot(m, seg, phi, C0=None):
    C1 = m.assemble_and_solve(phi=phi, **seg["crack"])
    li, ki = seg["crack"]["li"], seg["crack"]["ki"]
    x, z, xb = m.rasterize_solution(C=C1, phi=phi, li=li, ki=ki, num=13)
    out = [fields(m, z).ravel() / np.repeat([1, 1, 1e-3, 1, 1, 1e2, 1e-3, 1e-3], z.shape[1]), x / 1e3, np.nan_to_num(xb) / 1e3]
    if len(li) > 1:
        out.append(np.asarray(m.gdif(C=C1, phi=phi, **seg["crack"]), float))
        C0 = m.assemble_and_solve(phi=phi, **seg["nocrack"])
        out.append(np.asarray(m.ginc(C0=C0, C1=C1, phi=phi, **seg["both"]), float))
    return out


def same(ctx, key, a, b, what):
    if len(a) != len(b):
        ctx.fail(key, "different number of results; %s" % what)
        return
    for x, y in zip(a, b):
        close(ctx, key, x, y, what, 1e-8)


def do_form(ctx, s, n):
    """Lists, tuples and arrays of integers or floats."""
    m = prepared(s)
    mi0 = [0, 40, 0, 25, 10][: n - 1]
    li0 = [int(v) for v in lengths(s, n)]
    ints = {"list": list, "tuple": tuple, "array": np.array, "float list": lambda v: [float(q) for q in v],
            "float array": lambda v: np.array(v, float)}
    bools = {"list": list, "tuple": tuple, "array": np.array}
    for k in sorted({2**n - 1, 2**n - 1 - (2 if n > 2 else 0), 1, 2**(n - 1)}):
        ki = [bool(k >> i & 1) for i in range(n)]
        if not any(ki) or s.startswith("skier") and not (ki[0] and ki[-1]):
            continue
        k0 = [True] * n

        def build(a, b, cc):
            d = {"li": a(li0), "mi": b(mi0)}
            return {"crack": dict(d, ki=cc(ki)), "nocrack": dict(d, ki=cc(k0)), "both": dict(d, ki=cc(ki), k0=cc(k0))}
        base = snapshot(m, build(ints["float array"], ints["float array"], bools["array"]), 30.0)
        for (na, a), (nb, b), (nc, cc) in itertools.product(ints.items(), ints.items(), bools.items()):
            what = "%s li=%s as %s, mi as %s, ki=%s as %s" % (s, li0, na, nb, ki, nc)
            for phi in (30, 30.0):
                same(ctx, "form", snapshot(m, build(a, b, cc), phi), base, what)
                if na != nb or na == "list":
                    break
            ctx.trace()
            ctx.step(5)
        ctx.state(sig(base[0]))


def do_full(ctx, s):
    """Forms of the arguments of calc_segments and of the layering."""
    import weac
    ly = [[180, 100], [270, 150]]
    base = None
    forms = [lambda v: [list(r) for r in v], lambda v: tuple(tuple(r) for r in v), lambda v: np.array(v),
             lambda v: np.array(v, float), lambda v: [[float(q) for q in r] for r in v], lambda v: [np.array(r) for r in v]]
    for j, f in enumerate(forms):
        for how in ("init", "set"):
            if how == "init":
                m = weac.Layered(system=s, layers=f(ly))
            else:
                m = weac.Layered(system=s)
                m.set_beam_properties(f(ly), update=True)
            for g in (list, np.array, tuple):
                if s == "skiers":
                    seg = m.calc_segments(li=g([9000, 400, 9000]), mi=g([80, 0]), ki=g([True, False, True]), k0=g([True] * 3), phi=30)
                else:
                    if g is not list:
                        continue
                    seg = m.calc_segments(L=20000, a=400, m=80, phi=30)
                v = snapshot(m, seg, 30)
                base = base or v
                same(ctx, "form", v, base, "%s layers form %d (%s), segments as %s" % (s, j, how, g.__name__))
                ctx.trace()
                ctx.state((j, how))


def do_layers(ctx, _):
    """Profile names against the same profile given in other spellings; one-layer input."""
    import ref
    import weac
    for p in ref.PROFILES:
        b = None
        for sp in (p, p.upper(), "Profile " + p, "database profile " + p.capitalize()):
            m = weac.Layered("pst-", layers=sp)
            seg = m.calc_segments(L=2000, a=300, phi=25)
            v = snapshot(m, seg, 25)
            b = b or v
            same(ctx, "form", v, b, "profile spelled %r" % sp)
            ctx.state(sp)
            ctx.trace()


def do_tools(ctx, _):
    from weac.tools import touchdown_distance
    ly = [[180, 100], [270, 150]]
    b = None
    for f in (ly, np.array(ly), np.array(ly, float), tuple(map(tuple, ly))):
        v = np.array(touchdown_distance(layers=f, phi=20, t=20), float)
        b = v if b is None else b
        close(ctx, "form", v, b, "touchdown_distance with layers as %s" % type(f).__name__, 1e-9)
        ctx.state()
        ctx.trace()
    a = np.array(touchdown_distance(), float)
    close(ctx, "form", np.array(touchdown_distance(layers=[[240, 200]]), float), a, "touchdown_distance default layers", 1e-9)
    close(ctx, "form", np.array(touchdown_distance(layers="Profile a"), float), np.array(touchdown_distance(layers="a"), float),
          "touchdown_distance with profile name", 1e-9)
    ctx.expect(rejected(lambda: touchdown_distance(layers="nope")), "profile", "touchdown_distance accepts an unknown profile")
