"""C15: stratigraphy and weak-layer data yield the correct laminate properties."""
import itertools

import numpy as np

import ref
import space
from common import close
from core import sig

ID, LEVEL = "C15", "model_checking"
ROWS = [(120, 50), (250, 100), (350, 30), (180.5, 412.5)]
BOUNDS = {"quick": "every sequence of 1..5 layers over 4 layer kinds, 9 kinds for up to 2 layers, plus 12 layers; every profile in every "
                   "spelling; times stiffness parametrisations, weak layers, slopes and loads (each alphabet in full)",
          "thorough": "sequences of 1..7 layers"}
ASSUME = ["alphabets above; laminate integrals in closed form to 1e-10"]
ROWS2 = ROWS + [(90, 1), (450, 999), (300, 2.5), (240, 200), (917, 10)]
MATS = [(6.5, 4.4, 0.25), (6.0, 4.6, 0.25), (2.0, 3.0, 0.0), (8.0, 5.1, 0.45), (6.5, 4.4, 0.3)]


def tasks(tier):
    out = []
    for n in range(1, 8 if tier == "thorough" else 6):
        for seq in itertools.product(range(4), repeat=n):
            out.append(["seq", [list(ROWS[i]) for i in seq]])
    for n in (1, 2):
        for seq in itertools.product(range(9), repeat=n):
            out.append(["seq", [list(ROWS2[i]) for i in seq]])
    out += [["seq", l] for l in space.LAYERS if not isinstance(l, str)]
    out += [["profile", p] for p in ref.PROFILES]
    out += [["foundation", i] for i in range(len(space.WEAK))]
    out += [["param", 0], ["wedge", 0]]
    return out


def run(task, ctx):
    {"seq": seq, "profile": profile, "foundation": foundation, "param": param, "wedge": wedge}[task[0]](task[1], ctx)


def laminate(ctx, m, R, what):
    T = 1e-10
    h = R.h
    close(ctx, "thickness", m.h, h, "slab thickness; %s" % what, T)
    close(ctx, "zs", m.zs, R.zs, "centre of gravity; %s" % what, T, floor=h)
    close(ctx, "A11", m.A11, R.A, "extensional stiffness; %s" % what, T)
    close(ctx, "B11", m.B11, R.B, "coupling stiffness; %s" % what, T, floor=R.A * h)
    close(ctx, "D11", m.D11, R.D, "bending stiffness; %s" % what, T)
    close(ctx, "kA55", m.kA55, R.kA, "shear stiffness; %s" % what, T)
    close(ctx, "K0", m.K0, R.B**2 - R.A * R.D, "stiffness determinant; %s" % what, T, floor=R.A * R.D)
    close(ctx, "kn", m.kn, R.kn, "weak-layer normal stiffness; %s" % what, T)
    close(ctx, "kt", m.kt, R.kt, "weak-layer shear stiffness; %s" % what, T)
    close(ctx, "ply", m.get_ply_coordinates(), R.top, "layer coordinates; %s" % what, T)
    want = np.column_stack([R.rho, R.hi, R.Ei, R.Gi, np.full(R.hi.size, R.nu)])
    for j, nm in enumerate(("density", "thickness", "Young's modulus", "shear modulus", "Poisson's ratio")):
        close(ctx, "slab", np.asarray(m.slab, float)[:, j], want[:, j], "%s of the layers; %s" % (nm, what), T)
    ctx.step(12)


def loads(ctx, m, R, what):
    for phi in space.PHI:
        R.set_phi(phi)
        a = np.ravel([float(v) for v in m.get_weight_load(phi)])
        close(ctx, "weight", a, [R.qn, R.qt], "weight load at %g; %s" % (phi, what), 1e-10)
        a = np.ravel([float(v) for v in m.get_surface_load(phi)])
        close(ctx, "surface", a, [R.pn, R.pt], "surface load at %g; %s" % (phi, what), 1e-10, floor=1e-9 * R.q)
        for k in (0, 80, 120.5):
            close(ctx, "skier", np.ravel([float(v) for v in m.get_skier_load(k, phi)]), R.skier(k), "skier load at %g; %s" % (phi, what),
                  1e-10)
        ctx.step(5)


def system(ctx, m, R, what):
    """System matrix and load vector of a supported beam reproduce the governing equations."""
    R.set_phi(-27.0)
    K = np.asarray(m.calc_system_matrix(), float)
    q = np.asarray(m.get_load_vector(-27.0), float).ravel()
    F, f = R.field(True)
    Z = np.diag([1.0, 1 / R.h, 1.0, 1 / R.h, 1 / R.h, 1 / R.h**2])     # scaled unit states
    W = np.diag([1.0, R.h, 1.0, R.h, R.h, R.h**2]) * R.h
    want = np.zeros((6, 6))
    Y = R.y(Z)
    D = F @ Y
    det = R.A * R.D - R.B**2
    want = np.array([D[0], (R.D * D[1] - R.B * D[5]) / det, D[2], D[3] / R.kA - D[4], D[4], (R.A * D[5] - R.B * D[1]) / det])
    wq = np.array([0, (R.D * f[1] - R.B * f[5]) / det, 0, f[3] / R.kA, 0, (R.A * f[5] - R.B * f[1]) / det])
    close(ctx, "system", W @ K @ Z, W @ want, "system matrix; %s" % what, 1e-9)
    close(ctx, "system", W @ q, W @ wq, "load vector; %s" % what, 1e-9)


def seq(layers, ctx):
    import weac
    what = "layers=%s" % layers
    R = ref.Ref(layers)
    m = weac.Layered(layers=[list(r) for r in layers])
    laminate(ctx, m, R, what)
    k = int(sum(r[0] + 3 * r[1] for r in layers))
    for j, mat in enumerate(MATS):
        wk = space.WEAK[(k + j) % len(space.WEAK)]
        R = ref.Ref(layers, weak=wk, mat=mat, p=space.P[(k + j) % len(space.P)], g=space.G[(k + j) % 3],
                    lski=space.LSKI[(k + j) % 3])
        w = "%s weak=%s mat=%s" % (what, wk, mat)
        form = (lambda l: [list(r) for r in l], np.array, lambda l: [tuple(r) for r in l])[j % 3]
        # both orders of the setters lead to the same laminate
        if j % 2:
            m.set_foundation_properties(t=wk[0], E=wk[1], nu=wk[2])
            m.set_beam_properties(form(layers), C0=mat[0], C1=mat[1], nu=mat[2], update=True)
        else:
            m.set_beam_properties(form(layers), C0=mat[0], C1=mat[1], nu=mat[2])
            m.set_foundation_properties(t=wk[0], E=wk[1], nu=wk[2], update=True)
        m.g, m.lski = R.g, R.lski
        m.set_surface_load(R.p)
        laminate(ctx, m, R, w)
        loads(ctx, m, R, w) if j == 0 or len(layers) < 3 else None
        system(ctx, m, R, w)
        # reversal
        a = np.array([m.h, m.A11, m.D11, m.kA55])
        b = np.array([m.zs, m.B11 / m.A11])
        m.set_beam_properties(form(layers[::-1]), C0=mat[0], C1=mat[1], nu=mat[2], update=True)
        close(ctx, "reversal", np.array([m.h, m.A11, m.D11, m.kA55]) / a, np.ones(4), "reversed %s" % w, 1e-10)
        close(ctx, "reversal", np.array([m.zs, m.B11 / m.A11]), -b, "reversed %s" % w, 1e-10, floor=R.h)
        ctx.state(sig([m.h, m.zs, m.A11, m.B11, m.D11, m.kA55]))
    ctx.trace(1 + 2 * len(MATS))


def profile(name, ctx):
    import weac
    from weac.tools import load_dummy_profile
    for sp in (name, name.upper(), name.capitalize(), "profile " + name, "a " + name.upper(), "my own Profile " + name.capitalize()):
        for mat in MATS:
            R = ref.Ref(name, mat=mat)
            m = weac.Layered(layers=sp)
            m.set_beam_properties(sp, C0=mat[0], C1=mat[1], nu=mat[2], update=True)
            laminate(ctx, m, R, "profile '%s' mat=%s" % (sp, mat))
            ctx.trace()
        if " " not in sp:
            l, E = load_dummy_profile(sp)
            close(ctx, "profile", np.column_stack([l, E]), np.array(ref.PROFILES[name]), "load_dummy_profile(%s)" % sp, 1e-12)
        m = weac.Layered(layers=sp)
        laminate(ctx, m, ref.Ref(name), "profile '%s'" % sp)
        ctx.state(sp)


def foundation(i, ctx):
    import weac
    t, E, nu = space.WEAK[i]
    base = [[180, 100], [270, 150], [320, 80]]
    for kw, wk in (({}, (30.0, 0.25, 0.25)), ({"t": t}, (t, 0.25, 0.25)), ({"E": E}, (30.0, E, 0.25)), ({"nu": nu}, (30.0, 0.25, nu)),
                   ({"t": t, "E": E, "nu": nu}, (t, E, nu))):
        m = weac.Layered(layers=base)
        m.set_foundation_properties(update=True, **kw)
        laminate(ctx, m, ref.Ref(base, weak=wk), "weak layer %s" % (kw,))
        m.set_foundation_properties(t=77.0, E=3.0, nu=0.1, update=True)
        m.set_foundation_properties(update=True, **kw)
        laminate(ctx, m, ref.Ref(base, weak=wk), "weak layer %s set again" % (kw,))
        ctx.state()
        ctx.trace(2)
    m = weac.Layered()
    laminate(ctx, m, ref.Ref([[240, 200]]), "default model")
    loads(ctx, m, ref.Ref([[240, 200]]), "default model")


def param(_, ctx):
    from weac import tools
    rho = np.array([30.0, 100, 180, 240, 333, 450, 917])
    for form in (lambda f: f(rho), lambda f: np.array([f(r) for r in rho])):
        close(ctx, "bergfeld", form(tools.bergfeld), 6.5e3 * (rho / 917)**4.4, "Bergfeld parametrisation", 1e-12)
        close(ctx, "scapozza", form(tools.scapozza), 5.07e3 * (rho / 917)**5.13, "Scapozza parametrisation", 1e-12)
        close(ctx, "gerling", form(tools.gerling), 6.0e-10 * rho**4.6, "Gerling parametrisation", 1e-12)
        for C0 in (1.0, 6.0, 9.3):
            for C1 in (3.0, 4.6):
                close(ctx, "gerling", form(lambda r: tools.gerling(r, C0=C0, C1=C1)), C0 * 1e-10 * rho**C1, "Gerling parametrisation", 1e-12)
                for r0 in (917, 900.0):
                    close(ctx, "bergfeld", form(lambda r: tools.bergfeld(r, rho0=r0, C0=C0, C1=C1)), C0 * 1e3 * (rho / r0)**C1,
                          "Bergfeld parametrisation", 1e-12)
                ctx.state()
        ctx.step(3)
    for rows in itertools.product(ROWS2, repeat=2):
        l = np.array(rows, float)
        H, zs = tools.calc_center_of_gravity(l)
        R = ref.Ref(rows)
        close(ctx, "gravity", [H, zs], [R.h, R.zs], "calc_center_of_gravity(%s)" % (rows,), 1e-10, floor=0.0)
        ctx.state()


def wedge(_, ctx):
    """Weight and centroid of the snow wedge at a vertical face."""
    from weac.tools import calc_vertical_bc_center_of_gravity
    for rows in list(itertools.product(ROWS, repeat=1)) + list(itertools.product(ROWS, repeat=2)) + list(itertools.product(ROWS, repeat=3)):
        for phi in (0.0, 0.5, 20.0, -20.0, 38.0, -45.0, 60.0):
            R = ref.Ref(rows, phi=phi)
            slab = np.column_stack([R.rho, R.hi, R.Ei, R.Gi, np.full(R.hi.size, R.nu)])
            xs, zs, w = (float(v) for v in calc_vertical_bc_center_of_gravity(slab, phi))
            N, M, V = R.wedge()
            g = np.array([-R.g * w * R.s, -R.g * w * (xs * R.c + zs * R.s), R.g * w * R.c])
            close(ctx, "wedge", g / np.array([1, R.h, 1]), np.array([N, M, V]) / np.array([1, R.h, 1]), "wedge of %s at %g" % (rows, phi), 1e-9)
            ctx.state(sig(g))
