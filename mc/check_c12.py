"""C12: slab stresses are in equilibrium and consistent with section forces."""
import numpy as np

import space
from check_c08 import TD_GEO
from common import close
from core import sig

ID, LEVEL = "C12", "model_checking"
BOUNDS = {"quick": "all configurations within 2 axis deviations per system, 5 positions in every segment, one of 6 mesh sizes "
                   "(all 6 within 1 deviation), both units, all components and options; PSTs in every touchdown regime",
          "thorough": "3 axis deviations, all mesh sizes within 2"}
ASSUME = ["configuration alphabets of mc/space.py", "reference stresses: exact through-thickness integration of the field equations of mc/ref.py",
          "Szz to the error bound of the trapezoidal rule on the mesh; everything else to 1e-6"]
DZ = [2, 11.3, 5.3, 1000.0, 20.0, 77.0]
FR = [0.0, 0.03, 0.4, 0.9, 1.0]


def tasks(tier):
    th = tier == "thorough"
    near = {str(t) for t in space.space(space.SYSTEMS, 2 if th else 1, bases=("rich",))}
    out = [["cfg"] + t + [str(t) in near] for t in space.space(space.SYSTEMS, 3 if th else 2, bases=("rich",))]
    axes = [len(v) for _, v in space.axes("pst-")][:-1]
    for g in range(len(TD_GEO)):
        for idx in space.deviations(axes, 1):
            out.append(["td", list(idx), g, False])
    return out


def run(task, ctx):
    td = task[0] == "td"
    if td:
        c = space.config("pst-", list(task[1]) + [0])
        c["geo"] = TD_GEO[task[2]]
    else:
        c = space.config(*task[1:3])
    near = task[3]
    m = space.model(c, touchdown=td)
    try:
        S = space.Solved(c, True, m=m)
    except ValueError as e:
        if not td or "sign" not in str(e):
            raise
        return
    R = space.refmodel(c)
    what = space.name(c)
    k = sum(task[1]) if td else sum(task[2])
    free = None
    for i, l in enumerate(S.li):
        if l == 0:
            continue
        Z = S.z(i, np.array(FR) * l)
        for dz in (DZ if near else [DZ[(k + i) % len(DZ)] * (2 if R.h > 400 else 1)]):
            if dz < R.h / 1000:
                continue
            r = stresses(ctx, m, R, Z, c["phi"], dz, S.ki[i], "segment %d dz=%g %s" % (i, dz, what))
            if r is False:
                return
            free = free or r
        weak(ctx, m, R, Z, "segment %d %s" % (i, what))
    if free:
        ctx.fail("unsupported", free)


def layered(R, zi):
    """Layer index of each mesh row (rows run top to bottom, interfaces appear once per adjacent layer)."""
    own, j = [], 0
    for k, z in enumerate(zi):
        if k and j + 1 < len(R.hi) and zi[k] - zi[k - 1] < 1e-9 * R.h and abs(z - R.top[j + 1]) < 1e-7 * R.h:
            j += 1
        own.append(j)
    return np.array(own)


def stresses(ctx, m, R, Z, phi, dz, bed, w):
    """Returns False after a violation, a message when only the free lower face carries traction, else None."""
    zi = np.asarray(m.get_zmesh(dz=dz), float)[:, 0]
    own = layered(R, zi)
    ok = (abs(zi[0] + R.h / 2) < 1e-7 * R.h and abs(zi[-1] - R.h / 2) < 1e-7 * R.h and np.all(np.diff(zi) >= -1e-9 * R.h)
          and own[-1] == len(R.hi) - 1)
    if not ctx.expect(ok, "mesh", "mesh does not run through all layers from top to bottom; %s" % w):
        return False
    if not ctx.expect(np.all(np.diff(zi) <= dz * (1 + 1e-9)), "mesh", "mesh is coarser than requested; %s" % w):
        return False
    un = "MPa" if dz == 2 or dz > 50 else "kPa"
    f = {"MPa": 1.0, "kPa": 1e3}[un]
    sx, tx, sz = (np.asarray(getattr(m, q)(Z, phi, dz=dz, unit=un), float) / f for q in ("Sxx", "Txz", "Szz"))
    shape = (zi.size, Z.shape[1])
    if not ctx.expect(all(a.shape == shape and np.all(np.isfinite(a)) for a in (sx, tx, sz)), "shape",
                      "stress arrays %s %s %s are not finite arrays of shape %s; %s" % (sx.shape, tx.shape, sz.shape, shape, w)):
        return False
    ctx.step(sx.size)
    ctx.trace()
    Ep = R.Ep[own]
    # axial stress, its resultants
    ex = Ep[:, None] * (Z[1][None, :] + zi[:, None] * Z[5][None, :])
    s0 = np.max(np.abs(ex)) + 1e-300
    res = abs(R.qn) + abs(R.qt) + abs(R.pn) + abs(R.pt) + 1e-9
    if not close(ctx, "Sxx", sx.ravel(), ex.ravel(), "axial stress; %s" % w, 1e-6, floor=1e-3 * res):
        return False
    d = np.diff(zi)[:, None]
    N = np.sum(d * (sx[1:] + sx[:-1]) / 2, axis=0)
    zm = zi[:, None]
    M = np.sum(d * (sx[1:] * zm[1:] * 2 + sx[:-1] * zm[:-1] * 2 + sx[1:] * zm[:-1] + sx[:-1] * zm[1:]) / 6, axis=0)
    Nw, Mw = np.asarray(m.N(Z), float), np.asarray(m.M(Z), float)
    a = close(ctx, "resultants", N, Nw, "axial force from axial stress; %s" % w, 1e-6, floor=s0 * R.h)
    b = close(ctx, "resultants", M, Mw, "bending moment from axial stress; %s" % w, 1e-6, floor=s0 * R.h**2)
    if not (a and b):
        return False
    # principal stresses and options belong to the reported components
    eig = [np.linalg.eigvalsh(np.array([[sx.ravel(), tx.ravel()], [tx.ravel(), sz.ravel()]]).transpose(2, 0, 1))[:, j].reshape(shape)
           for j in (0, 1)]
    pf = np.max(np.abs(eig))
    for val, e in zip(("min", "max"), eig):
        p = np.asarray(m.principal_stress_slab(Z, phi, dz=dz, unit=un, val=val), float) / f
        if not close(ctx, "principal", p.ravel(), e.ravel(), "%s principal slab stress; %s" % (val, w), 1e-7, floor=pf):
            return False
    strength = 240e-3 * (R.rho[own] / 917.0)**2.44
    for u in ("kPa", "MPa"):
        p = np.asarray(m.principal_stress_slab(Z, phi, dz=dz, unit=u, val="max", normalize=True), float)
        if not close(ctx, "normalize", p.ravel(), (eig[1] / strength[:, None]).ravel(),
                     "tensile stress over strength (%s); %s" % (u, w), 1e-6, floor=pf / strength.min()):
            return False
    for bad in (dict(val="mid"), dict(val="min", normalize=True), dict(val="MAX")):
        try:
            m.principal_stress_slab(Z, phi, dz=dz, **bad)
            ctx.fail("invalid", "principal_stress_slab accepts %s" % bad)
            return False
        except ValueError:
            pass
    other = {"MPa": "kPa", "kPa": "MPa"}[un]
    g = {"MPa": 1.0, "kPa": 1e3}[other]
    for q, v in (("Sxx", sx), ("Txz", tx), ("Szz", sz)):
        if not close(ctx, "unit", np.asarray(getattr(m, q)(Z, phi, dz=dz, unit=other), float).ravel() / g, v.ravel(),
                     "%s in %s; %s" % (q, other, w), 1e-12):
            return False
    # equilibrium through the thickness
    sup = bed
    Y = R.y(Z)
    msgs = []
    for use in ((True,) if sup else (False, True)):
        F, fl = R.field(use)
        D1 = F @ Y + fl[:, None]
        D2 = F @ D1
        txe, sze, err = integrate(R, zi, own, D1, D2)
        sc = np.max(np.abs(txe)) + abs(R.pt) + 0.05 * res + 1e-3 * s0
        sc2 = np.max(np.abs(sze)) + abs(R.pn) + 0.05 * res + 1e-3 * s0
        r1 = np.max(np.abs(tx - txe)) / sc
        r2 = np.max(np.abs(sz - sze) - 1.2 * err) / sc2
        msgs.append((r1, r2, txe, sze))
        if use:
            ctx.notes["max_Txz_residual"] = max(ctx.notes.get("max_Txz_residual", 0), float(r1))
            ctx.notes["max_Szz_residual"] = max(ctx.notes.get("max_Szz_residual", 0), float(r2))
    if sup:
        r1, r2, txe, sze = msgs[0]
        if not ctx.expect(r1 < 1e-6, "Txz", "shear stress is off equilibrium by %.1e; %s" % (r1, w)):
            return False
        if not ctx.expect(r2 < 1e-6, "Szz", "transverse normal stress is off equilibrium by %.1e; %s" % (r2, w)):
            return False
        if not close(ctx, "boundary", np.r_[tx[0], tx[-1]], np.r_[np.full(Z.shape[1], R.pt), R.tau(Z)],
                     "shear stress at top and bottom; %s" % w, 1e-6, floor=0.05 * res + 1e-3 * s0):
            return False
        ctx.expect(np.allclose(sz[0], -R.pn, rtol=1e-9, atol=1e-9 * res), "boundary", "top face carries %s, surface load is %g; %s" % (
            sz[0], -R.pn, w))
        ctx.state(sig(sx[[0, -1], 2]))
        return None
    ctx.state()
    # consistent with one of: the true free lower face, or (known) the supported system
    if msgs[0][0] < 1e-6 and msgs[0][1] < 1e-6:
        return None
    if not ctx.expect(msgs[1][0] < 1e-6 and msgs[1][1] < 1e-6, "free-face", "stresses above a crack are off equilibrium with and "
                      "without weak layer (%.1e, %.1e); %s" % (msgs[0][0], msgs[0][1], w)):
        return False
    return "traction %.3g kPa on the free lower face of an unsupported stretch; %s" % (1e3 * np.max(np.abs(tx[-1])), w)


def integrate(R, zi, own, D1, D2):
    """Exact through-thickness integration of axial stress gradients and weight at the mesh points."""
    det = R.A * R.D - R.B**2
    n, k = zi.size, D1.shape[1]
    gr = []
    for D in (D1, D2):
        N, M = D[1], D[5]
        gr.append(((R.D * N - R.B * M) / det, (R.A * M - R.B * N) / det))
    tx, sz, err = (np.zeros((n, k)) for _ in range(3))
    tx[0], sz[0] = R.pt, -R.pn
    G = np.zeros(k)                       # integral of d2Sxx/dx2
    E = np.zeros(k)
    for i in range(1, n):
        a, b = zi[i - 1], zi[i]
        e = R.Ep[own[i]] if b > a else 0.0
        d = b - a
        rho = R.rho[own[i]] * 1e-12 * R.g
        tx[i] = tx[i - 1] + e * (gr[0][0] * d + gr[0][1] * (b * b - a * a) / 2) - rho * R.s * d
        u, p = e * gr[1][0], e * gr[1][1]
        # G(z) = G + u (z-a) + p (z^2-a^2)/2
        sz[i] = sz[i - 1] + G * d + u * d * d / 2 + p * (d**3 / 6 + a * d * d / 2) - rho * R.c * d
        G = G + u * d + p * (b * b - a * a) / 2
        E = E + np.abs(p) * d**3 / 12
        err[i] = E
    return tx, sz, err


def weak(ctx, m, R, Z, w):
    s, t = R.sig(Z), R.tau(Z)
    e = np.linalg.eigvalsh(np.array([[s, t], [t, 0 * s]]).transpose(2, 0, 1)).T
    fl = np.max(np.abs(e))
    for u, f in (("kPa", 1e3), ("MPa", 1.0)):
        for val, x in zip(("min", "max"), e):
            p = np.asarray(m.principal_stress_weaklayer(Z, unit=u, val=val), float) / f
            close(ctx, "weak/principal", p, x, "%s principal weak-layer stress (%s); %s" % (val, u, w), 1e-7, floor=fl)
        for sc in (None, 2.6, 1.3, 7.0):
            kw = {} if sc is None else {"sc": sc}
            p = np.asarray(m.principal_stress_weaklayer(Z, unit=u, val="min", normalize=True, **kw), float)
            close(ctx, "weak/normalize", p, e[0] * 1e3 / (sc or 2.6), "normalised weak-layer stress (%s, sc=%s); %s" % (u, sc, w), 1e-7,
                  floor=fl * 1e3 / (sc or 2.6))
    for bad in (dict(val="mid"), dict(val="max", normalize=True)):
        try:
            m.principal_stress_weaklayer(Z, **bad)
            ctx.fail("invalid", "principal_stress_weaklayer accepts %s" % bad)
        except ValueError:
            pass
    ctx.trace()
