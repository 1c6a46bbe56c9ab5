"""Observation helpers shared by the relational checks."""
import numpy as np

FR = np.array([0.0, 0.07, 0.5, 0.83, 1.0])
NAMES = ["u", "w", "psi", "N", "V", "M", "tau", "sig"]


def fields(m, Z):
    """Rows NAMES of the real accessors for solution columns Z."""
    return np.array([np.asarray(a, float) for a in (
        m.u(Z, z0=0), m.w(Z), m.psi(Z), m.N(Z), m.V(Z), m.M(Z), m.tau(Z), m.sig(Z))])


def scale(F, h):
    """Comparison scales of the rows of fields()."""
    a = np.max(np.abs(F.reshape(8, -1)), axis=1)
    d = max(a[0], a[1], h * a[2])
    s = max(a[6], a[7])
    n = max(a[3], a[4], a[5] / (10 * h), 0.05 * s * h)
    return np.array([d, d, max(a[2], d / (10 * h)), n, n, max(a[5], n * h), s, s]) + 1e-300


def observe(S, fr=FR):
    """fields at fractions of every segment: array [segments, 8, len(fr)]."""
    return np.array([fields(S.m, S.z(i, np.asarray(fr) * l)) for i, l in enumerate(S.li)])


def at(S, xs):
    """fields at global positions, evaluated in the segment that contains them (right-most for interior ends)."""
    e = np.concatenate([[0.0], np.cumsum(S.li)])
    out = []
    for x in xs:
        i = int(np.clip(np.searchsorted(e, x, side="right") - 1, 0, len(S.li) - 1))
        while S.li[i] == 0 and i > 0:
            i -= 1
        out.append(fields(S.m, S.z(i, [min(max(x - e[i], 0.0), S.li[i])])))
    return np.hstack(out)


def compare(ctx, key, got, want, h, what, tol=1e-6, sc=None):
    """Compare field arrays component-wise relative to the field scales; True when equal."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not np.all(np.isfinite(got)):
        ctx.fail(key, "fields are not comparable (shape %s vs %s or not finite): %s" % (got.shape, want.shape, what))
        return False
    ax = 1 if got.ndim == 3 else 0
    g = np.moveaxis(got, ax, 0).reshape(8, -1)
    w = np.moveaxis(want, ax, 0).reshape(8, -1)
    s = scale(w, h) if sc is None else sc
    r = np.abs(g - w) / s[:, None]
    worst = float(r.max()) if r.size else 0.0
    ctx.notes["max_field_diff"] = max(ctx.notes.get("max_field_diff", 0), worst)
    if not worst < tol:
        k = np.unravel_index(int(np.argmax(r)), r.shape)
        ctx.fail(key, "%s is %.8g, expected %.8g (relative difference %.1e): %s" % (
            NAMES[k[0]], g[k], w[k], worst, what))
        return False
    return True


def close(ctx, key, got, want, what, tol=1e-6, floor=0.0):
    got, want = np.atleast_1d(np.asarray(got, float)), np.atleast_1d(np.asarray(want, float))
    if got.shape != want.shape:
        ctx.fail(key, "shape %s, expected %s: %s" % (got.shape, want.shape, what))
        return False
    fin = want[np.isfinite(want)]
    s = max(float(np.max(np.abs(fin))) if fin.size else 0.0, floor) + 1e-300
    bad = ~(np.abs(got - want) <= tol * s)
    bad &= ~(np.isnan(got) & np.isnan(want))
    if want.size and np.all(np.isfinite(got) & np.isfinite(want)):
        ctx.notes["max_scalar_diff"] = max(ctx.notes.get("max_scalar_diff", 0), float(np.max(np.abs(got - want)) / s))
    if bad.any():
        ctx.fail(key, "got %s, expected %s: %s" % (np.array2string(got[:6], precision=9),
                                                  np.array2string(want[:6], precision=9), what))
        return False
    return True


def rates(m, C0, C1, seg, phi):
    """(gdif, ginc) triples of a solved model."""
    gd = m.gdif(C=C1, phi=phi, **{k: seg["crack"][k] for k in ("li", "ki")})
    gi = m.ginc(C0=C0, C1=C1, phi=phi, **{k: seg["both"][k] for k in ("li", "ki", "k0")})
    return np.asarray(gd, float), np.asarray(gi, float)


def solve_both(m, seg, phi):
    C1 = m.assemble_and_solve(phi=phi, **seg["crack"])
    C0 = m.assemble_and_solve(phi=phi, **seg["nocrack"])
    return C0, C1


def has_crack(seg):
    ki, k0, li = seg["both"]["ki"], seg["both"]["k0"], seg["both"]["li"]
    return any(bool(b) and not bool(a) and float(x) > 0 for a, b, x in zip(ki, k0, li))
