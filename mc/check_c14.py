"""C14: unit options only rescale results and all accessors agree."""
import itertools

import numpy as np

import space
from common import close
from core import sig

ID, LEVEL = "C14", "model_checking"
BOUNDS = {"quick": "every accessor x unit x option on the six unit states (the accessors are linear), on their pairwise sums and on the "
                   "solved fields of all configurations within 1 axis deviation per system; every NaN mask of 7 points for the outputs",
          "thorough": "2 axis deviations"}
ASSUME = ["configuration alphabets of mc/space.py", "exact factors to 1e-12"]
LENU = {"m": 1e-3, "cm": 1e-1, "mm": 1.0, "um": 1e3}
ANG = {"rad": 1.0, "radian": 1.0, "radians": 1.0, "deg": 180 / np.pi, "degree": 180 / np.pi, "degrees": 180 / np.pi}
STR = {"MPa": 1.0, "kPa": 1e3}
ERR = {"kJ/m^2": 1.0, "N/mm": 1.0, "J/m^2": 1e3}


def tasks(tier):
    d = 2 if tier == "thorough" else 1
    return space.space(space.SYSTEMS, d) + [["masks", k] for k in range(4)] + [["strength", 0]]


def run(task, ctx):
    if task[0] == "masks":
        return masks(ctx, task[1])
    if task[0] == "strength":
        return strength(ctx)
    c = space.config(*task)
    m = space.model(c)
    S = space.Solved(c, True, m=m)
    R = space.refmodel(c)
    what = space.name(c)
    basis = np.eye(6)
    sets = [basis * np.array([1.0, 1e-4, 1.0, 1e-3, 1e-3, 1e-6])[:, None]]
    sets.append(sets[0] + np.roll(sets[0], 1, axis=1))
    x, z, xb = m.rasterize_solution(C=S.C, phi=c["phi"], li=S.s["li"], ki=S.s["ki"], num=17)
    sets.append(z)
    for Z in sets:
        accessors(ctx, m, R, Z, c["phi"], what)
    outputs(ctx, m, R, x, xb, z, what)
    outputs(ctx, m, R, xb, xb, z, what)
    ctx.trace()
    ctx.state(sig(z[2, [0, -1]]))


def accessors(ctx, m, R, Z, phi, w):
    u, du, ww, dw, psi, dpsi = Z
    T = 1e-10
    eq = lambda k, a, b: close(ctx, k, a, b, "%s; %s" % (k, w), T)
    for n, f in LENU.items():
        eq("w [%s]" % n, m.w(Z, unit=n), f * ww)
        for z0 in (0, -R.h / 2, R.h / 2, 13.0):
            eq("u [%s] z0=%g" % (n, z0), m.u(Z, z0=z0, unit=n), f * (u + z0 * psi))
    eq("w", m.w(Z), ww)
    eq("u", m.u(Z, z0=3.0), u + 3.0 * psi)
    eq("psi", m.psi(Z), psi)
    for n, f in ANG.items():
        eq("psi [%s]" % n, m.psi(Z, unit=n), f * psi)
    eq("dw_dx", m.dw_dx(Z), dw)
    eq("dpsi_dx", m.dpsi_dx(Z), dpsi)
    for z0 in (0, -R.h / 2, 21.0):
        eq("du_dx", m.du_dx(Z, z0=z0), du + z0 * dpsi)
    s, t = R.sig(Z), R.tau(Z)
    Y = R.y(Z)
    eq("N", m.N(Z), Y[1])
    eq("V", m.V(Z), Y[3])
    eq("M", m.M(Z), Y[5])
    for n, f in STR.items():
        eq("sig [%s]" % n, m.sig(Z, unit=n), f * s)
        eq("tau [%s]" % n, m.tau(Z, unit=n), f * t)
    eq("sig", m.sig(Z), s)
    eq("tau", m.tau(Z), t)
    eq("eps", m.eps(Z), s / R.kn / R.t)
    eq("gamma", m.gamma(Z), t / R.kt / R.t)
    for n, f in ERR.items():
        eq("Gi [%s]" % n, m.Gi(Z, unit=n), f * s**2 / (2 * R.kn))
        eq("Gii [%s]" % n, m.Gii(Z, unit=n), f * t**2 / (2 * R.kt))
    eq("Gi", m.Gi(Z), s**2 / (2 * R.kn))
    eq("Gii", m.Gii(Z), t**2 / (2 * R.kt))
    # closing integrands are work densities: uncracked stress times cracked displacement jump
    Zr = Z[:, ::-1]
    eq("int1", m.int1(0.0, z0=lambda _: Z, z1=lambda _: Zr), s * -Zr[2])
    eq("int2", m.int2(0.0, z0=lambda _: Z, z1=lambda _: Zr), t * R.tau(Zr) / R.kt)
    # derivatives along the beam
    F, f = R.field(True)
    D1 = F @ Y + f[:, None]
    z1 = der(R, D1)
    z2 = der(R, F @ D1)
    # the state derivative includes weight and surface load; round-off of the largest terms sets the accuracy
    T = 1e-8
    k1 = np.max(np.abs(z1), axis=1) + 1e-300
    for nm, a, b in (("dz_dx", m.dz_dx(Z, phi), z1), ("dz_dxdx", m.dz_dxdx(Z, phi), z2)):
        a = np.asarray(a, float)
        if a.shape != b.shape:
            ctx.fail(nm, "shape %s; %s" % (a.shape, w))
            continue
        for i in range(6):
            close(ctx, nm, a[i], b[i], "%s row %d; %s" % (nm, i, w), 1e-6, floor=bound(R, Z, i, 1 if nm == "dz_dx" else 2))
    eq("du0_dxdx", m.du0_dxdx(Z, phi), np.asarray(m.dz_dx(Z, phi))[1])
    eq("dpsi_dxdx", m.dpsi_dxdx(Z, phi), np.asarray(m.dz_dx(Z, phi))[5])
    eq("du0_dxdxdx", m.du0_dxdxdx(Z, phi), np.asarray(m.dz_dxdx(Z, phi))[1])
    eq("dpsi_dxdxdx", m.dpsi_dxdxdx(Z, phi), np.asarray(m.dz_dxdx(Z, phi))[5])
    ctx.step(46)
    ctx.state()


def der(R, D):
    """z' from y'."""
    u, N, w, V, psi, M = D
    det = R.A * R.D - R.B**2
    return np.array([u, (R.D * N - R.B * M) / det, w, V / R.kA - psi, psi, (R.A * M - R.B * N) / det])


def bound(R, Z, i, order):
    """Magnitude of the terms that add up to row i of the derivative (round-off scale)."""
    K = np.abs(np.array([R.z(R.field(True, loads=False)[0] @ R.y(e)) for e in np.eye(6)]).T)
    K[3] = np.abs(np.array([der(R, R.field(True, loads=False)[0] @ R.y(e)) for e in np.eye(6)]).T)[3]
    v = np.max(np.abs(Z), axis=1)
    d = max(v[0], v[2], R.h * max(v[1], v[3], v[4], R.h * v[5]))
    v = np.maximum(v, 1e-6 * d * np.array([1, 1 / R.h, 1, 1 / R.h, 1 / R.h, 1 / R.h**2]))
    for _ in range(order):
        v = K @ v
    return v[i]


def outputs(ctx, m, R, x, xb, z, w):
    T = 1e-12
    I = np.isfinite(xb)
    for fn, v in (("get_weaklayer_shearstress", R.tau(z)), ("get_weaklayer_normalstress", R.sig(z))):
        f = getattr(m, fn)
        for n, k in [(None, 1.0)] + list(STR.items()):
            kw = {} if n is None else {"unit": n}
            a, b = f(xb, z, **kw)
            close(ctx, fn, a, xb / 10, "coordinates of %s(%s); %s" % (fn, n, w), T)
            close(ctx, fn, b, np.where(I, k * v, np.nan), "%s(%s); %s" % (fn, n, w), 1e-10)
            a, b = f(xb, z, removeNaNs=True, **kw)
            close(ctx, fn + "/nan", a, xb[I] / 10, "coordinates of %s(%s, removeNaNs); %s" % (fn, n, w), T)
            close(ctx, fn + "/nan", b, (k * v)[I], "%s(%s, removeNaNs); %s" % (fn, n, w), 1e-10)
            a, b = f(xb, z, removeNaNs=False, **kw)
            close(ctx, fn, b, np.where(I, k * v, np.nan), "%s(%s, removeNaNs=False); %s" % (fn, n, w), 1e-10)
    for loc, z0 in (("top", -R.h / 2), ("mid", 0.0), ("bot", R.h / 2)):
        for n, k in [(None, 1.0)] + list(LENU.items()):
            kw = {} if n is None else {"unit": n}
            a, b = m.get_slab_displacement(x, z, loc=loc, **kw)
            close(ctx, "displacement", a, x / 10, "coordinates of get_slab_displacement; %s" % w, T)
            close(ctx, "displacement", b, k * (z[0] + z0 * z[4]), "get_slab_displacement(%s, %s); %s" % (loc, n, w), 1e-10)
    close(ctx, "displacement", m.get_slab_displacement(x, z)[1], z[0], "get_slab_displacement default; %s" % w, T)
    for n, k in [(None, 1.0)] + list(LENU.items()):
        a, b = m.get_slab_deflection(x, z, **({} if n is None else {"unit": n}))
        close(ctx, "deflection", a, x / 10, "coordinates of get_slab_deflection; %s" % w, T)
        close(ctx, "deflection", b, k * z[2], "get_slab_deflection(%s); %s" % (n, w), T)
    for n, k in [(None, 180 / np.pi)] + list(ANG.items()):
        a, b = m.get_slab_rotation(x, z, **({} if n is None else {"unit": n}))
        close(ctx, "rotation", a, x / 10, "coordinates of get_slab_rotation; %s" % w, T)
        close(ctx, "rotation", b, k * z[4], "get_slab_rotation(%s); %s" % (n, w), T)
    ctx.step(40)


def masks(ctx, part):
    """Every pattern of defined and undefined weak-layer coordinates."""
    c = space.config("pst-", [part] + [0] * 7)
    m, R = space.model(c), space.refmodel(c)
    x = np.linspace(0, 600.0, 7)
    z = np.array([np.sin(np.arange(7) + i) * s for i, s in enumerate([1, 1e-4, 2, 1e-3, 1e-3, 1e-6])])
    for bits in itertools.product([0, 1], repeat=7):
        xb = np.where(np.array(bits, bool), x, np.nan)
        outputs(ctx, m, R, x, xb, z, "mask %s" % (bits,))
        ctx.state(bits)


def strength(ctx):
    from weac.tools import tensile_strength_slab
    rho = np.array([50.0, 120, 200, 250, 333.3, 400, 550, 917])
    for n, k in ((None, 1.0), ("kPa", 1.0), ("MPa", 1e-3)):
        kw = {} if n is None else {"unit": n}
        close(ctx, "tensile strength", tensile_strength_slab(rho, **kw), k * 240 * (rho / 917)**2.44, "tensile_strength_slab(%s)" % n, 1e-12)
        for r in rho:
            close(ctx, "tensile strength", tensile_strength_slab(r, **kw), k * 240 * (r / 917)**2.44, "tensile_strength_slab(%s)" % n, 1e-12)
        ctx.state(n)
    ctx.step(27)
