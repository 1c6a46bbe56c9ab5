"""C20: dimensional similarity: scaled copies of a configuration give scaled results."""
import copy

import numpy as np

import space
from common import close, compare, has_crack, observe, rates
from core import sig

ID, LEVEL = "C20", "model_checking"
BOUNDS = {"quick": "every configuration within 1 and every fifth within 2 deviations of 2 bases (layer lists only) of 8 systems, and touchdown PSTs within 1 deviation in every regime, each "
                   "against all 5 scaled copies (2 deviations: one)",
          "thorough": "3 deviations and every scaled copy"}
ASSUME = ["layer lists only (moduli of database profiles are fixed)",
          "length scaling keeps densities and moduli and divides gravity by the factor, so that loads per area are constant",
          "equal to 1e-6 of each quantity's scale"]
# (length factor, stiffness factor)
FACTORS = [(1, 3.0), (2.0, 1), (0.25, 40.0), (10.0, 0.02), (0.5, 1)]
TD = [(2500.0, 60.0, 0.5, 1000), (3000.0, 2000.0, 0.4, 1000), (2500.0, 1100.0, 0.5, 100), (2500.0, 700.0, 0.1, 1000), (6000.0, 1500.0, 0.3, 1000),
      (2000.0, 1300.0, 0.5, 10)]


def tasks(tier):
    th = tier == "thorough"
    out, n = [], 0
    for s, idx in space.space(space.SYSTEMS, 3 if th else 2):
        c = space.config(s, idx)
        if isinstance(c["layers"], str):
            continue
        n += 1
        k = min(sum(a != b for a, b in zip(idx, base)) for base in ([0] * 8, [1, 1, 1, 1, 0, 0, 0, 0]))
        if k > 1 and not th and n % 5:
            continue
        out.append(["plain", s, idx, list(range(5)) if th or k < 2 else [n // 5 % 5]])
    for s in ("pst-", "-pst"):
        for _, idx in space.space([s], 2 if th else 1, only=("layers", "weak", "phi", "p", "mat", "g")):
            c = space.config(s, idx)
            if not isinstance(c["layers"], str) and abs(c["phi"]) < 80:
                for i in range(len(TD)):
                    out.append(["touchdown", s, idx, [i]])
    return out


def scaled(c, s, f):
    d = copy.deepcopy(c)
    d["layers"] = [[r, h * s] for r, h in c["layers"]]
    t, E, nu = c["weak"]
    d["weak"] = (t * s, E * f, nu)
    C0, C1, n = c["mat"]
    d["mat"] = (C0 * f, C1, n)
    d["g"] = c["g"] / s
    g = c["geo"]
    if c["system"] == "skiers" or c["system"].endswith("*"):
        d["geo"] = ([x * s for x in g[0]], [m * s * s for m in g[1]], g[2], g[3])
    elif c["system"] == "skier":
        d["geo"] = (g[0] * s, g[1] * s, g[2] * s * s)
    else:
        d["geo"] = tuple(x * s for x in g)
    return d


def run(task, ctx):
    kind, s, idx, which = task
    c = space.config(s, idx)
    if kind == "plain":
        a = full(c, 1.0, None)
        for i in which:
            L, f = FACTORS[i]
            if not cmp(ctx, a, full(scaled(c, L, f), L, None), L, f, c, ""):
                return
    else:
        td = TD[which[0]]
        try:
            a = full(c, 1.0, td)
        except ValueError:
            a = None
        for L, f in FACTORS:
            t2 = (td[0] * L, td[1] * L, td[2] / f, td[3])
            try:
                b = full(scaled(c, L, f), L, t2)
            except ValueError:
                b = None
            if (a is None) != (b is None):
                ctx.fail("undefined", "touchdown defined in only one of two similar configurations (%s, length factor %s, stiffness factor %s): %s" % (
                    td, L, f, space.name(c)))
                return
            if a is None:
                return
            if not cmp(ctx, a, b, L, f, c, " touchdown %s" % (td,)):
                return


def full(c, L, td):
    m = space.model(c, touchdown=td is not None)
    if td:
        seg = m.calc_segments(L=td[0], a=td[1], phi=c["phi"], cf=td[2], ratio=td[3])
    else:
        seg = space.segments(m, c)
    S = space.Solved(c, m=m, seg=seg)
    S0 = space.Solved(c, m=m, seg=seg, crack=False)
    out = {"F": observe(S), "F0": observe(S0), "li": np.array(S.li), "h": float(m.h), "kn": np.array([m.kn, m.kt]),
           "gd": np.asarray(m.gdif(C=S.C, phi=c["phi"], li=S.li, ki=S.ki), float), "mode": str(m.mode)}
    if has_crack(seg):
        out["gd"], out["gi"] = rates(m, S0.C, S.C, seg, c["phi"])
    i = int(np.argmax(S.ki))
    Z = S.z(i, np.array([0.0, 0.3, 1.0]) * S.li[i])
    dz = 40.0 * L
    out["S"] = np.array([m.Sxx(Z, c["phi"], dz=dz), m.Txz(Z, c["phi"], dz=dz), m.Szz(Z, c["phi"], dz=dz)], float)
    out["P"] = np.asarray(m.principal_stress_slab(Z, c["phi"], dz=dz, normalize=True), float)
    if td:
        out["td"] = np.array([m.td, m.tc, m.calc_a1(), m.calc_a2()], float)
        out["k"] = np.array([m.substitute_stiffness(500.0 * L, s, d) for s in ("supported", "rested") for d in ("rot", "trans")])
    return out


def cmp(ctx, a, b, L, f, c, more):
    what = "length factor %s, stiffness factor %s of %s%s" % (L, f, space.name(c), more)
    ctx.step()
    ctx.state(sig(b["F"][:, 1]))
    if a["mode"] != b["mode"]:
        ctx.fail("regime", "regime %s instead of %s: %s" % (b["mode"], a["mode"], what))
        return False
    # u, w, psi, N, V, M, tau, sig
    k = np.array([L / f, L / f, 1 / f, L, L, L * L, 1, 1])[None, :, None]
    for n in ("F", "F0"):
        if not compare(ctx, "fields", b[n] / k, a[n], a["h"], what):
            return False
    g0 = np.max(np.abs(a["gd"]))
    if not close(ctx, "differential rates", b["gd"] / L * f, a["gd"], what):
        return False
    if "gi" in a and not close(ctx, "incremental rates", b["gi"] / L * f, a["gi"], what, tol=1e-3, floor=g0 * 1e-3):
        return False
    if not close(ctx, "slab stresses", b["S"].ravel(), a["S"].ravel(), what, tol=3e-6):
        return False
    if not close(ctx, "normalised stresses", b["P"].ravel(), a["P"].ravel(), what, tol=3e-6, floor=1e-6):
        return False
    if not close(ctx, "lengths", b["li"] / L, a["li"], what):
        return False
    if "td" in a:
        if not close(ctx, "touchdown", b["td"] / np.array([L, L / f, L, L]) / a["td"], np.ones(4), what):
            return False
        if not close(ctx, "springs", b["k"] / np.array([L * L * f, f] * 2) / a["k"], np.ones(4), what):
            return False
    ctx.trace()
    return True
