"""Complete observation of a model: everything a user can ask for, as named arrays with comparison scales."""
import numpy as np

import space
from common import FR, fields, has_crack, scale

PSTS = ("pst-", "-pst", "vpst-", "-vpst")


def experiments(system, td=False):
    """Small experiments per system: keyword arguments of calc_segments."""
    if system in PSTS:
        if td and system in ("pst-", "-pst"):
            return [dict(L=2500.0, a=300.0, phi=32.0), dict(L=3000.0, a=2000.0, phi=-20.0, cf=0.4),
                    dict(L=2500.7, a=1200.3, phi=10.4, ratio=100.5)]
        return [dict(L=2500.7, a=500.3, phi=32.4), dict(L=900, a=200, phi=-20)]
    if system == "skier":
        return [dict(L=22000.7, a=600.3, m=80.6, phi=32.4), dict(L=20000, a=0, m=60, phi=-20)]
    return [dict(li=[8e3, 300.3, 500.7, 8e3], mi=[80.6, 0, 50], ki=[True, False, True, True], k0=[True] * 4, phi=32.0),
            dict(li=[9000, 9000], mi=[70], ki=[True, True], k0=[True, True], phi=-20)]


def observe(m, exps, full=True, td_all=True):
    """Set up and solve the experiments; returns {name: (array, scale)}."""
    out = {}
    h = float(m.h)

    def put(k, v, s=None):
        v = np.asarray(v, float)
        f = np.abs(v[np.isfinite(v)])
        out[k] = (v, s if s is not None else (float(f.max()) if f.size else 0.0) + 1e-300)

    for n, e in enumerate(exps):
        try:
            seg = m.calc_segments(**e)
        except ValueError as x:
            out["%d undefined" % n] = (np.array([1.0]), 1.0)
            continue
        phi = e["phi"]
        put("%d lengths" % n, seg["both"]["li"])
        put("%d skiers" % n, seg["both"]["mi"], 1.0)
        put("%d support" % n, np.r_[seg["crack"]["ki"], seg["nocrack"]["ki"], seg["both"]["k0"]], 1.0)
        put("%d mode" % n, [ord(str(m.mode)[0])])
        if m.touchdown and m.system in ("pst-", "-pst"):
            put("%d touchdown" % n, [m.td, m.tc, m.a, m.L])
        C1 = m.assemble_and_solve(phi=phi, **seg["crack"])
        li, ki = seg["crack"]["li"], seg["crack"]["ki"]
        x, z, xb = m.rasterize_solution(C=C1, phi=phi, li=li, ki=ki, num=23)
        F = fields(m, z)
        sc = scale(F, h)
        for i, r in enumerate(F):
            put("%d field%d" % (n, i), r, sc[i])
        put("%d x" % n, x)
        put("%d xb" % n, xb)
        put("%d gdif" % n, m.gdif(C=C1, phi=phi, unit="J/m^2", **seg["crack"]))
        if not full:
            continue
        C0 = m.assemble_and_solve(phi=phi, **seg["nocrack"])
        z0 = m.rasterize_solution(C=C0, phi=phi, li=li, ki=seg["nocrack"]["ki"], num=11)[1]
        for i, r in enumerate(fields(m, z0)):
            put("%d uncracked%d" % (n, i), r, sc[i])
        put("%d gdif0" % n, m.gdif(C=C0, phi=phi, **seg["nocrack"]))
        if has_crack(seg):
            put("%d ginc" % n, m.ginc(C0=C0, C1=C1, phi=phi, **seg["both"]))
        zz = z[:, ::7]
        S = [np.asarray(getattr(m, q)(zz, phi, dz=23.0), float) for q in ("Sxx", "Txz", "Szz")]
        s = max(np.max(np.abs(v)) for v in S)
        for q, v in zip(("Sxx", "Txz", "Szz"), S):
            put("%d %s" % (n, q), v, s)
        put("%d principal" % n, m.principal_stress_slab(zz, phi, dz=23.0), s)
        put("%d principal normalised" % n, m.principal_stress_slab(zz, phi, dz=23.0, normalize=True))
        put("%d weak" % n, m.principal_stress_weaklayer(zz, normalize=True))
        put("%d tau" % n, m.get_weaklayer_shearstress(xb, z, unit="kPa")[1], 1e3 * sc[6])
        put("%d sig" % n, m.get_weaklayer_normalstress(xb, z, removeNaNs=True)[1], sc[7])
        put("%d us" % n, m.get_slab_displacement(x, z, loc="top", unit="um")[1], 1e3 * (sc[0] + h * sc[2]))
        put("%d ws" % n, m.get_slab_deflection(x, z, unit="cm")[1], 0.1 * sc[1])
        put("%d rs" % n, m.get_slab_rotation(x, z)[1], 180 / np.pi * sc[2])
        if m.system in ("pst-", "-pst"):
            L = e["L"]
            put("%d potentials" % n, [m.external_potential(C1, phi, L, **seg["crack"]), m.internal_potential(C1, phi, L, **seg["crack"]),
                                      m.total_potential(C1, phi, L, **seg["crack"])])
    put("laminate", [m.A11 / 1e3, m.D11 / 1e7, m.kA55 / 1e3], None)
    put("coupling", [m.B11, m.zs], m.A11 * h)
    put("weak layer", [m.kn, m.kt])
    return out


def differ(a, b, tol=1e-7):
    """First difference between two observations, or None."""
    if a.keys() != b.keys():
        return "observations %s exist in only one of them" % sorted(a.keys() ^ b.keys())[:4]
    for k in a:
        (x, s), (y, _) = a[k], b[k]
        if x.shape != y.shape:
            return "%s has %s values instead of %s" % (k, x.shape, y.shape)
        d = np.abs(x - y)
        bad = ~(d <= tol * s) & ~(np.isnan(x) & np.isnan(y))
        if bad.any():
            i = int(np.argmax(bad.ravel()))
            return "%s is %.9g instead of %.9g" % (k, y.ravel()[i], x.ravel()[i])
    return None
