"""C05: analysing a solution changes neither the model nor the caller's data."""
import copy

import numpy as np

import ops
import space
from core import sig

ID, LEVEL = "C05", "model_checking"
BOUNDS = {"quick": "every ordered pair of queries (of 41 analyses, outputs and set-ups) on 14 solved models, every ordered pair of plots and "
                   "14 queries on 6, every ordered triple of 11 queries on 4, in three input forms",
          "thorough": "pairs on 30 models, triples of 16 queries on 8"}
ASSUME = ["queries leave every attribute the model had before equal, new private attributes are allowed",
          "repeated answers equal to 1e-10 of the answer's maximum"]

MODELS = [  # system, touchdown, experiment number, layers, weak layer
    ("pst-", True, 1, 0, 0), ("pst-", True, 0, 0, 0), ("-pst", True, 2, 2, 1), ("-pst", False, 0, 1, 0), ("pst-", False, 1, 3, 2),
    ("vpst-", False, 0, 0, 0), ("-vpst", True, 0, 2, 3), ("skier", False, 0, 0, 0), ("skier", False, 1, 1, 1), ("skiers", False, 0, 0, 0),
    ("skiers", True, 1, 7, 0), ("skiers", False, 0, 12, 1), ("-pst", True, 1, 0, 1), ("pst-", True, 2, 3, 3)]
FORMS = {"array": np.array, "list": list, "float": lambda v: np.array(v, float)}


def tasks(tier):
    th = tier == "thorough"
    out = []
    for i in range(len(MODELS)):
        for f in FORMS if th else [list(FORMS)[i % 3], list(FORMS)[(i + 1) % 3]] if i in (0, 3, 7, 9) else [list(FORMS)[i % 3]]:
            out.append(["pairs", i, f, None, None])
    for i in (0, 3, 5, 7, 9, 10) if not th else range(len(MODELS)):
        for k in range(4):
            out.append(["plots", i, "array", k, 4])
    for i in (0, 4, 7, 9) if not th else range(0, len(MODELS), 2):
        for k in range(8):
            out.append(["triples", i, "array", k, 8])
    return out


CHUNK = 1


def sequence(n, order):
    """De Bruijn sequence: every word of `order` symbols occurs as consecutive steps."""
    a = [0] * n * order
    seq = []

    def db(t, p):
        if t > order:
            if order % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, n):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:order - 1]


class Bench:
    """A solved model together with all data a caller holds."""

    def __init__(self, i, form):
        s, td, n, la, wk = MODELS[i]
        e = ops.experiments(s, td)
        self.e = dict(e[n % len(e)])
        fm = FORMS[form]
        for k in ("li", "mi", "ki", "k0"):
            if k in self.e:
                self.e[k] = fm(self.e[k]) if k in ("li", "mi") else (list if form == "list" else np.array)(self.e[k])
        self.form = form
        ly = space.LAYERS[la]
        self.layers = ly if isinstance(ly, str) else fm(copy.deepcopy(ly))
        self.m = m = space.model({"system": s, "layers": self.layers, "weak": space.WEAK[wk], "mat": space.MAT[0], "g": 9810, "lski": 1000,
                                  "p": 3e-4}, touchdown=td)
        self.seg = m.calc_segments(**self.e)
        if form != "array":
            c = {"list": lambda v: np.asarray(v).tolist(), "float": lambda v: np.array(v)}[form]
            for d in self.seg.values():
                for k in d:
                    d[k] = c(d[k])
        self.phi = self.e["phi"]
        self.C1 = m.assemble_and_solve(phi=self.phi, **self.seg["crack"])
        self.C0 = m.assemble_and_solve(phi=self.phi, **self.seg["nocrack"])
        k = {k: self.seg["crack"][k] for k in ("li", "ki")}
        self.x, self.z, self.xb = m.rasterize_solution(C=self.C1, phi=self.phi, num=60, **k)
        self.zs = self.z[:, ::17].copy()
        self.da = np.linspace(10, 400, self.x.size)
        self.G = np.outer([2.0, 1.5, 0.5], self.da)
        self.fea = np.column_stack([np.linspace(0, 500, self.x.size)] + [np.sin(np.arange(self.x.size) + j) for j in range(5)])
        self.slab = m.slab

    def caller(self):
        return {k: v for k, v in vars(self).items() if k not in ("m", "form", "slab")}


def queries(b):
    m = b.m
    c, u, bo = b.seg["crack"], b.seg["nocrack"], b.seg["both"]
    phi = b.phi
    lk = {k: c[k] for k in ("li", "ki")}
    i0 = 0
    l0, k0 = c["li"][i0], bool(c["ki"][i0])
    q = {
        "calc_segments": lambda: m.calc_segments(**b.e),
        "solve": lambda: m.assemble_and_solve(phi=phi, **c),
        "solve uncracked": lambda: m.assemble_and_solve(phi=phi, **u),
        "rasterize": lambda: m.rasterize_solution(C=b.C1, phi=phi, num=60, **lk),
        "rasterize 7": lambda: m.rasterize_solution(C=b.C1, phi=phi, num=7, **c),
        "rasterize uncracked": lambda: m.rasterize_solution(C=b.C0, phi=phi, num=9, **u),
        "z": lambda: m.z(np.array([0.0, l0 / 3, l0]), b.C1[:, [0]], l0, phi, k0),
        "z scalar": lambda: m.z(l0 / 2, b.C1[:, [0]], l0, phi, k0),
        "gdif": lambda: m.gdif(C=b.C1, phi=phi, **c),
        "gdif J": lambda: m.gdif(C=b.C1, phi=phi, unit="J/m^2", **c),
        "gdif uncracked": lambda: m.gdif(C=b.C0, phi=phi, **u),
        "ginc": lambda: m.ginc(C0=b.C0, C1=b.C1, phi=phi, **bo),
        "Sxx": lambda: m.Sxx(b.zs, phi, dz=40), "Txz": lambda: m.Txz(b.zs, phi, dz=40), "Szz": lambda: m.Szz(b.zs, phi, dz=40, unit="MPa"),
        "principal": lambda: m.principal_stress_slab(b.zs, phi, dz=40),
        "principal normalised": lambda: m.principal_stress_slab(b.zs, phi, dz=40, normalize=True),
        "principal weak": lambda: m.principal_stress_weaklayer(b.z),
        "principal weak normalised": lambda: m.principal_stress_weaklayer(b.z, normalize=True, unit="MPa"),
        "shear": lambda: m.get_weaklayer_shearstress(b.xb, b.z, unit="kPa"),
        "normal": lambda: m.get_weaklayer_normalstress(b.xb, b.z),
        "shear removed": lambda: m.get_weaklayer_shearstress(b.xb, b.z, removeNaNs=True),
        "normal removed": lambda: m.get_weaklayer_normalstress(b.xb, b.z, unit="kPa", removeNaNs=True),
        "displacement": lambda: m.get_slab_displacement(b.x, b.z, loc="bot", unit="cm"),
        "deflection": lambda: m.get_slab_deflection(b.x, b.z),
        "rotation": lambda: m.get_slab_rotation(b.x, b.z),
        "accessors": lambda: [m.w(b.z), m.u(b.z, z0=3.0), m.psi(b.z), m.N(b.z), m.M(b.z), m.V(b.z), m.tau(b.z), m.sig(b.z), m.eps(b.z),
                              m.gamma(b.z), m.du_dx(b.z, 2.0), m.dw_dx(b.z), m.dpsi_dx(b.z)],
        "accessors units": lambda: [m.w(b.z, unit="um"), m.u(b.z, z0=0, unit="cm"), m.psi(b.z, unit="deg"), m.tau(b.z, unit="kPa"),
                                    m.sig(b.z, unit="kPa"), m.Gi(b.z), m.Gii(b.z, unit="J/m^2")],
        "derivatives": lambda: [m.dz_dx(b.z, phi), m.dz_dxdx(b.z, phi), m.du0_dxdx(b.z, phi), m.dpsi_dxdxdx(b.z, phi)],
        "mesh": lambda: [m.get_zmesh(), m.get_zmesh(dz=17), m.get_ply_coordinates()],
        "loads": lambda: [m.get_weight_load(phi), m.get_surface_load(phi), m.get_skier_load(70, phi)],
        "matrices": lambda: [m.calc_system_matrix(), m.get_load_vector(phi), m.zh(3.0, 9.0), m.zh(3.0, 9.0, False), m.zp(3.0, phi),
                             m.zp(3.0, phi, False)],
        "set again": lambda: [m.calc_fundamental_system(), m.kn],
        "tools": lambda: tools(b),
    }
    if m.system in ("pst-", "-pst"):
        L = b.e["L"]
        q["external potential"] = lambda: m.external_potential(b.C1, phi, L, **c)
        q["internal potential"] = lambda: m.internal_potential(b.C1, phi, L, **c)
        q["total potential"] = lambda: m.total_potential(b.C1, phi, L, **c)
    for a in ("supported", "rested"):
        for d in ("rot", "trans"):
            q["stiffness %s %s" % (a, d)] = lambda a=a, d=d: m.substitute_stiffness(500.0, a, d)
    if m.touchdown and m.system in ("pst-", "-pst"):
        q["a1"], q["a2"] = m.calc_a1, m.calc_a2
        q["mode"] = lambda: [m.calc_touchdown_mode(), ord(m.mode)]
        q["lC"] = lambda: m.calc_lC() if m.mode == "C" else None
        q["touchdown"] = lambda: [m.calc_touchdown_length(), m.td]
    return q


def tools(b):
    from weac import tools as t
    s = np.asarray(b.m.slab)
    return [t.calc_center_of_gravity(s[:, :2]), t.calc_vertical_bc_center_of_gravity(s, b.phi), t.bergfeld(s[:, 0]), t.scapozza(s[:, 0]),
            t.gerling(s[:, 0]), t.tensile_strength_slab(s[:, 0])]


def plots(b):
    from weac import plot
    m, c = b.m, b.seg["crack"]
    return {
        "plot profile": lambda: plot.slab_profile(m),
        "plot deformed": lambda: plot.deformed(m, b.x, b.xb, b.z, b.phi, dz=60, levels=8),
        "plot Txz": lambda: plot.deformed(m, b.x, b.xb, b.z, b.phi, dz=60, levels=8, field="Txz", dark=True),
        "plot Szz": lambda: plot.deformed(m, b.x, b.xb, b.z, b.phi, dz=60, levels=8, field="Szz", window=50),
        "plot u": lambda: plot.deformed(m, b.x, b.xb, b.z, b.phi, dz=60, levels=8, field="u"),
        "plot displacements": lambda: plot.displacements(m, b.x, b.z, **c),
        "plot forces": lambda: plot.section_forces(m, b.x, b.z, **c),
        "plot stresses": lambda: plot.stresses(m, b.xb, b.z, **c),
        "plot criteria": lambda: plot.stress_criteria(b.x, b.da, **c),
        "plot err": lambda: plot.err_comp(b.da, b.G, b.G),
        "plot modes": lambda: plot.err_modes(b.da, b.G),
        "plot fea": lambda: plot.fea_disp(m, b.x, b.z, b.fea),
        "plot fea stress": lambda: plot.fea_stress(m, b.x, b.z, b.fea),
        "helper": lambda: helper(b),
    }


def helper(b):
    from weac.tools import touchdown_distance
    return touchdown_distance(layers=b.layers, t=15, Ewl=0.4, phi=12)


def deep(v):
    """Value of an answer, attribute or argument as plain data."""
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [deep(x) for x in v]
    if isinstance(v, np.ndarray):
        return np.array(v)
    return copy.copy(v)


def equal(a, b, tol=0.0):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k], tol) for k in a)
    if isinstance(a, list):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(a, (float, complex, np.generic)) and not isinstance(a, (bool, np.bool_)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return False
        if x.dtype.kind not in "fc":
            return bool(np.all(x == y))
        s = np.max(np.abs(x[np.isfinite(x)]), initial=0.0) * tol
        with np.errstate(invalid="ignore"):
            return bool(np.all((np.abs(x - y) <= s) | (x == y) | (np.isnan(x) & np.isnan(y))))
    return type(a) is type(b) and a == b


def run(task, ctx):
    kind, i, form, part, parts = task
    b = Bench(i, form)
    q = queries(b)
    if kind == "plots":
        p = plots(b)
        keep = ["calc_segments", "solve", "rasterize", "gdif", "ginc", "Sxx", "principal weak", "shear", "rotation", "mesh", "matrices",
                "accessors"]
        q = dict({k: q[k] for k in keep}, **p)
    elif kind == "triples":
        keep = ["calc_segments", "solve", "solve uncracked", "rasterize", "gdif", "ginc", "Szz", "normal", "displacement",
                "stiffness rested rot", "derivatives"]
        q = {k: q[k] for k in keep}
    names = list(q)
    seq = sequence(len(names), 3 if kind == "triples" else 2)
    if parts:
        n = -(-len(seq) // parts)
        seq = seq[max(0, part * n - 2):(part + 1) * n]
    what = "%s touchdown=%s %s" % (b.m.system, b.m.touchdown, b.e)
    before = deep(vars(b.m))
    data = deep(b.caller())
    first, held = {}, {}
    hist = []
    for k in seq:
        n = names[k]
        r = q[n]()
        hist.append(n)
        ctx.step()
        now = deep(r)
        if n not in first:
            first[n], held[n] = now, (r, now)
            ctx.state(n)
        elif not equal(first[n], now, 1e-10):
            ctx.fail("answer/" + n, "'%s' gives a different answer after %s; %s" % (n, hist[-4:-1], what))
            return
        after = vars(b.m)
        for a in before:
            if a.startswith("_") or before[a] is None or (before[a] is False and a != "touchdown"):
                continue                                    # private memory and values not computed before are free
            if a not in after or not equal(before[a], deep(after[a]), 1e-12):
                ctx.fail("model/" + a, "'%s' changes the model attribute %s; %s" % (n, a, what))
                return
        if not equal(data, deep(b.caller())):
            bad = [k for k, v in b.caller().items() if not equal(data[k], deep(v))]
            ctx.fail("input/" + n, "'%s' changes the data passed in (%s); %s" % (n, bad, what))
            return
        for o, (obj, val) in held.items():
            if o != n and not equal(val, deep(obj)):
                ctx.fail("held/" + o, "'%s' changes the answer returned earlier by '%s'; %s" % (n, o, what))
                return
        ctx.states += 1
    ctx.trace(len(seq))
    ctx.outcomes.add(sig(b.z[2]))
