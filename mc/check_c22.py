"""C22: the coupled-criterion analysis in examples/criterion_check.py: segment bookkeeping, envelopes, critical loads and crack lengths."""
import importlib.util
import inspect
import itertools
import os

import numpy as np

import ref
import space
from core import REPO, sig

ID, LEVEL = "C22", "model_checking"
BOUNDS = {"quick": "all segment lists up to 4 segments over 4 lengths with every support pattern; all coordinates on a half-unit grid; every envelope, parameter and stress of the grids; "
                   "critical loads, anticracks (also for loads at which only one side of the skier exceeds the envelope), coupled solutions and self-propagation lengths of all configurations within 1 deviation (layering, slope, envelope, weak layer)",
          "thorough": "segment lists up to 6 segments, configurations within 2 (critical loads, anticracks: 3) deviations"}
ASSUME = ["the stress field is judged on the 800-point grid the analysis uses; anticracks finer than that grid are outside the claim",
          "stresses and energy release rates are reconstructed with the independent solver ref.Infinite"]
CHUNK = 1

LEN = [1.0, 2.0, 5.0, 0.1]
PROFILE = [[[350, 120], [270, 120], [180, 120]],
           [[170, 100.5], [190, 40], [230, 130], [250, 20], [210, 70], [380, 20], [280, 100]],
           [[250, 400]],
           [[154.5, 120.25], [312.5, 60.5]],
           [[120, 30], [90, 45]]]
PHI = [30, 0, -35, 12.5, 45]
# envelope, scaling factor, order of magnitude, density
ENV = [("adam_unpublished", 1, 1, 250), ("adam_unpublished", 0.5, 3, 125), ("adam_unpublished", 0.8, 2, 200), ("adam_unpublished", 1.3, 3, 325),
       ("schottner", 1, 4.5, 137.5), ("schottner", 1, 4, 125), ("mede_s-RG1", 1, 1, 250), ("mede_s-RG2", 1, 1, 250), ("mede_s-FCDH", 1, 1, 250)]
WEAK = [(1, 30), (0.25, 30), (0.6, 12.5), (2.5, 45)]
FACT = [0.9, 1.02, 1.5, 4, 12]
AXES = [len(PROFILE), len(PHI), len(ENV), len(WEAK)]


MEDE = {"mede_s-RG1": (7.0, 3.53, 1.49), "mede_s-RG2": (2.33, 1.22, 0.19), "mede_s-FCDH": (1.45, 0.61, 0.17)}


def tasks(tier):
    th = tier == "thorough"
    out = [["split", n, k] for n in range(1, 7 if th else 5) for k in range(len(LEN))]
    out += [["index", n, k] for n in range(1, 5) for k in range(len(LEN))]
    out += [["env", e] for e in range(len(ENV))] + [["curve", k] for k in range(3)]
    out += [["place", n] for n in range(2, 6 if th else 5)]
    cfg = {d: [list(x) for x in space.deviations(AXES, d)] for d in (1, 2, 3)}
    out += [["coupled", x] for x in cfg[2 if th else 1]]
    out += [["side", x] for x in cfg[1]]
    out += [["fallback", x, v] for x in cfg[1] for v in (0, 1)]
    out += [["force", x] for x in cfg[3 if th else 2]]
    out += [["self", x] for x in cfg[2] if x[2] == 0]
    return out


_cc = None


def lib():
    global _cc
    if _cc is None:
        spec = importlib.util.spec_from_file_location("criterion_check", os.path.join(REPO, "examples", "criterion_check.py"))
        _cc = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_cc)
    return _cc


# --- oracles -----------------------------------------------------------------------------------------------

def envelope(sigma, tau, e):
    """Distance to the failure envelope: one on it, larger outside."""
    name, sf, om, rho = e
    sigma, tau = np.abs(np.asarray(sigma, float)), np.abs(np.asarray(tau, float))
    if name == "adam_unpublished":
        om = 0.7 if sf > 1 else om
        f = max(sf, 0.55)**om
        return (sigma / (6.16 * f))**2 + (tau / (5.09 * f))**2
    if name == "schottner":
        sc = 26000 * (rho / 916.7)**om
        return (sigma / sc)**2 + (tau * 6.16 / (5.09 * sc))**2
    return None


def curve(sigma, e):
    """Shear stress on the failure envelope."""
    name, sf, om, rho = e
    if name.startswith("mede"):
        p0, tT, pT = MEDE[name]
        if sigma <= pT:
            return tT / p0 * (sigma + p0 - pT)
        return tT * np.sqrt(max(1 - ((sigma - pT) / p0)**2, 0))
    if name == "schottner":
        sc, tc = 26000 * (rho / 916.7)**om, 26000 * (rho / 916.7)**om * 5.09 / 6.16
    else:
        f = max(sf, 0.55)**(0.7 if sf > 1 else om)
        sc, tc = 6.16 * f, 5.09 * f
    return tc * np.sqrt(max(1 - (sigma / sc)**2, 0))


def top(e):
    """Largest normal stress of the envelope."""
    name = e[0]
    if name.startswith("mede"):
        return {"mede_s-RG1": 8.49, "mede_s-RG2": 2.52, "mede_s-FCDH": 1.62}[name]
    return 26000 * (e[3] / 916.7)**e[2] if name == "schottner" else 6.16 * max(e[1], 0.55)**(0.7 if e[1] > 1 else e[2])


def toughness(g1, g2):
    return (abs(g1) / 0.56)**5 + (abs(g2) / 0.79)**(1 / 0.45)


def support(li, ki, x):
    """Support at coordinate x (inside a segment)."""
    for l, k in zip(li, ki):
        if x < l:
            return bool(k)
        x -= l
    return bool(ki[-1])


def slab(c, weight, li, ki):
    """Independent solution with a skier at the center."""
    prof, phi, e, (E, t) = c
    mi = np.zeros(len(li) - 1)
    mi[np.argmin(np.abs(np.cumsum(li)[:-1] - sum(li) / 2))] = weight
    return ref.Infinite(ref.Ref(prof, weak=(t, E, 0.25), phi=phi), li, ki, mi)


def stresses(c, weight, L, xs):
    """Normal and shear stress in kPa of the uncracked slab at distances xs from the skier."""
    I = slab(c, weight, [L / 2, L / 2], [True, True])
    xs = np.asarray(xs, float)
    sg, ta = np.empty(xs.size), np.empty(xs.size)
    for i in (0, 1):
        sel = (xs <= 0) if i == 0 else (xs > 0)
        if sel.any():
            Z = I.z(i, xs[sel] + (L / 2 if i == 0 else 0))
            sg[sel], ta[sel] = 1e3 * I.R.sig(Z), 1e3 * I.R.tau(Z)
    return sg, ta


def config(x):
    return PROFILE[x[0]], PHI[x[1]], ENV[x[2]], WEAK[x[3]]


def label(c):
    return "profile=%s phi=%s envelope=%s E,t=%s" % c


def kw(c, weak=True):
    d = dict(envelope=c[2][0], scaling_factor=c[2][1], order_of_magnitude=c[2][2], density=c[2][3])
    if weak:
        d.update(E=c[3][0], t=c[3][1])
    return d


def critical(cc, c, ctx, L):
    """Critical load of the stress criterion, checked; None when the slab fails on its own."""
    prof, phi, e, (E, t) = c
    w, skier, C, seg, x, sg, ta, dmax, dmin = cc.find_minimum_force(prof, phi, [L / 2, 0, 0, L / 2], [True] * 4, **kw(c))
    ctx.trace()
    if w == 0:
        ctx.notes["critical load not found (reported as 0)"] = ctx.notes.get("critical load not found (reported as 0)", 0) + 1
        ctx.state("none")
        return None
    own = cc.stress_envelope(sg, ta, **kw(c, False))
    if not (np.isclose(dmax, np.max(own), rtol=1e-9) and np.isclose(dmin, np.min(own), rtol=1e-9)):
        ctx.fail("force-distance", "distances %.6g and %.6g do not belong to the returned stresses (%.6g, %.6g): %s" % (
            dmax, dmin, np.max(own), np.min(own), label(c)))
        return None
    s2, t2 = stresses(c, w, L, np.asarray(x) * 10 - L / 2)
    s3, t3 = stresses(c, w, L, np.where(np.abs(np.asarray(x) * 10 - L / 2) < 1e-6, 1e-9, np.asarray(x) * 10 - L / 2))
    for what, a, b, d in (("normal", sg, s2, s3), ("shear", np.abs(ta), np.abs(t2), np.abs(t3))):      # the shear stress jumps below the skier
        b = np.where(np.abs(a - b) < np.abs(a - d), b, d)
        if not np.allclose(a, b, rtol=1e-6, atol=1e-6 * (1e-9 + np.max(np.abs(b)))):
            ctx.fail("force-field", "returned %s stresses are not those of a skier of %.6g kg at the center (largest %.6g instead of %.6g): %s" % (
                what, w, np.max(np.abs(a)), np.max(np.abs(b)), label(c)))
            return None
    if dmin >= 1:
        ctx.state("self")
        return None
    ok = abs(dmax - 1) <= 0.0101
    if not ok:                                                           # acceptable only when exceeded without skier
        s0, t0 = stresses(c, 0.0, L, [0.0, 1e-9])
        if float(np.max(cc.stress_envelope(s0, t0, **kw(c, False)))) >= 1:
            ctx.state("exceeded")
            return None
        ctx.fail("force", "the load %.6g kg returned as critical brings the stress criterion to %.6g: %s" % (w, dmax, label(c)))
        return None
    want = envelope(sg, ta, e)
    if want is not None and abs(np.max(want) - dmax) > 1e-6:
        ctx.fail("force-envelope", "stress criterion %.8g instead of %.8g: %s" % (dmax, np.max(want), label(c)))
        return None
    ctx.state(sig([w, dmax]))
    return float(w)


def anticrack(cc, c, w, L, li, ki, a, ctx):
    """Do li, ki describe exactly the stretches where the uncracked stresses exceed the envelope?"""
    if not ctx.expect(abs(sum(li) - L) <= 1e-9 * L, "crack-length", "segments of the anticrack add up to %.10g instead of %.10g: %s" % (sum(li), L, label(c))):
        return False
    un = sum(l for l, k in zip(li, ki) if not k)
    if not ctx.expect(abs(un - a) <= 1e-9 * L, "crack-sum", "crack length %.10g but %.10g unsupported: %s" % (a, un, label(c))):
        return False
    b = np.cumsum(li)[:-1]
    if not ctx.expect(np.min(np.abs(b - L / 2)) <= 1e-9 * L, "crack-center", "no segment boundary at the skier, boundaries %s: %s" % (b, label(c))):
        return False
    edges = [x for x, l, r in zip(b, ki[:-1], ki[1:]) if bool(l) != bool(r)]
    near = np.concatenate([[x + d - L / 2 for d in (-0.5, 0.5)] for x in edges]) if edges else np.empty(0)
    grid = np.concatenate([[-L / 2, 0.0, L / 2], near, np.linspace(-0.45 * L, 0.45 * L, 40)])
    grid = grid[(grid >= -L / 2) & (grid <= L / 2)]
    s, t = stresses(c, w, L, [0.0, 1e-9])
    f = cc.stress_envelope(s, t, **kw(c, False))
    one = (f[0] - 1) * (f[1] - 1) <= 0                   # only one side of the skier exceeds the envelope
    s, t = stresses(c, w, L, grid)
    f = cc.stress_envelope(s, t, **kw(c, False))
    ctx.step(len(grid))
    for x, v in zip(grid, f):
        if abs(v - 1) < 1e-7 or any(abs(x + L / 2 - q) < 1e-3 for q in edges):
            continue
        if support(li, ki, x + L / 2) == (v > 1):
            ctx.fail("one-sided" if one else "crack-place", "at %.6g mm from the skier the criterion is %.8g but the segment is %s (load %.6g kg, segments %s): %s" % (
                x, v, "supported" if v > 1 else "cracked", w, li, label(c)))
            return False
    if edges:
        s, t = stresses(c, w, L, np.array(edges) - L / 2)
        f = cc.stress_envelope(s, t, **kw(c, False))
        if np.max(np.abs(f - 1)) > 1e-5:
            ctx.fail("crack-edge", "criterion at the crack tips is %s: %s" % (f, label(c)))
            return False
    return True


def gdelta(c, w, li, ki):
    """Incremental energy release of the cracked against the uncracked slab, as toughness criterion."""
    G = slab(c, w, li, ki).ginc(slab(c, w, li, [True] * len(ki)))
    return toughness(1000 * G[0], 1000 * G[1])


# --- recorded defects: the exact values they yield (anything else is reported) --------------------------------

def mede_recorded(sigma, tau, e):
    """Values of the Mede criterion as recorded in known_findings.txt."""
    p0, tT, pT = MEDE[e[0]]
    s, t = np.abs(np.asarray(sigma, float)), np.abs(np.asarray(tau, float))
    return np.where(s <= pT, -t * (p0 / (tT * pT)) + s / pT + p0 / pT, t**2 + (tT / p0)**2 * (s - pT)**2)


def mede_defective(cc, e):
    """Is the Mede criterion the recorded one?  Then nothing can be said about searches that use it."""
    if not e[0].startswith("mede"):
        return False
    s, t = np.array([0.05, 1.0]), np.array([0.3, 0.9])
    v = np.asarray(cc.stress_envelope(s, t, envelope=e[0]), float)
    return bool(np.allclose(v, mede_recorded(s, t, e), rtol=1e-9) and not np.allclose(v, (t / [curve(x, e) for x in s])**2, rtol=1e-3))


def truncated(a, b):
    """Are the values a the whole-number parts of the values b (recorded defect)?"""
    a, b = np.asarray(a), np.asarray(b, float)
    return a.dtype.kind == "i" and a.shape == b.shape and bool(np.all(np.abs(a - np.trunc(b)) <= np.isclose(b, np.round(b))))


# --- explored regions --------------------------------------------------------------------------------------

def run(task, ctx):
    cc = lib()
    kind = task[0]
    if kind == "split":
        n, k = task[1:]
        for li in itertools.product(LEN, repeat=n - 1):
            li = [LEN[k]] + list(li)
            T = sum(li)
            for ki in itertools.product([True, False], repeat=n):
                a, b = list(li), list(ki)
                nl, nk = cc.split_segments_at_midpoint(a, b)
                ctx.trace()
                nl = [float(x) for x in nl]
                good = len(nl) == len(nk) and abs(sum(nl) - T) < 1e-9 and min(nl) > -1e-9 and np.min(np.abs(np.cumsum(nl) - T / 2)) < 1e-9
                if good:
                    for x in np.arange(0.025, T, 0.05):
                        if abs(x - T / 2) > 1e-6 and support(nl, nk, x) != support(li, ki, x):
                            good = False
                            break
                if not good and T / 2 <= li[0] and len(nl) == n + 1 and np.allclose(nl, [T / 2] + li, rtol=1e-12) and list(nk) == [ki[0]] + list(ki):
                    ctx.fail("first-segment", "segments %s are split into %s" % (li, nl))
                    continue
                if not good:
                    ctx.fail("split", "segments %s with support %s are split into %s, %s" % (li, list(ki), nl, list(nk)))
                    return
                if a != list(li) or b != list(ki):
                    ctx.fail("split-input", "splitting changed its input %s" % (li,))
                    return
                ctx.state()
    elif kind == "index":
        n, k = task[1:]
        for li in itertools.product(LEN, repeat=n - 1):
            li = [LEN[k]] + list(li)
            cum = np.cumsum(li)
            for x in np.arange(0.0, cum[-1] + 2, 0.25):
                if n > 1 and np.min(np.abs(cum - x)) < 1e-9:
                    continue                                          # either neighbour
                i, r = cc.find_segment_index(li, x)
                ctx.trace()
                want = int(np.searchsorted(cum, x))
                if n == 1:
                    ok = i == 0 and r == x
                elif want == n:
                    ok = i == -1 and r is None
                else:
                    ok = i == want and abs(r - (x - (cum[want] - li[want]))) < 1e-9
                if not ok:
                    ctx.fail("index", "coordinate %s in segments %s is found at %s" % (x, li, (i, r)))
                    return
                ctx.state()
    elif kind == "env":
        e = ENV[task[1]]
        sc = top(e)
        arg = dict(envelope=e[0], scaling_factor=e[1], order_of_magnitude=e[2], density=e[3])
        for s in np.concatenate([np.linspace(0, 0.999, 41) * sc]):
            tc = float(curve(s, e))
            taus = np.array([0, 0.5, 0.9, 0.999, 1.0, 1.001, 1.1, 2.0]) * tc
            v = np.array(cc.stress_envelope(np.full(8, s), taus, **arg), float)
            ctx.trace()
            if e[0].startswith("mede") and mede_defective(cc, e) and np.allclose(v, mede_recorded(np.full(8, s), taus, e), rtol=1e-9):
                ctx.fail("mede-criterion", "%s at sigma=%.5g and tau=(0 .5 .9 .999 1 1.001 1.1 2) times the shear strength gives %s" % (e, s, v))
                v = None
            if v is not None and not (abs(v[4] - 1) < 1e-9 and np.all(v[:4] < 1) and np.all(v[5:] > 1) and np.all(np.diff(v) > 0)):
                ctx.fail("envelope", "%s at sigma=%.5g and tau=(0 .5 .9 .999 1 1.001 1.1 2) times the shear strength %.5g gives %s" % (e, s, tc, v))
                return
            w = np.array(cc.stress_envelope(np.full(8, -s), -taus, **arg), float)
            if v is None:
                v = w
                if not np.allclose(w, mede_recorded(np.full(8, s), taus, e), rtol=1e-9):
                    ctx.fail("envelope-sign", "%s depends on the sign of stresses" % (e,))
                    return
            if not np.array_equal(v, w):
                ctx.fail("envelope-sign", "%s depends on the sign of stresses" % (e,))
                return
            one = [float(cc.stress_envelope(s, x, **arg)) for x in taus]
            if not np.allclose(one, v, rtol=1e-12):
                ctx.fail("envelope-scalar", "%s: single stresses give %s, arrays %s" % (e, one, v))
                return
            r = envelope(np.full(8, s), taus, e)
            if r is not None and not np.allclose(r, v, rtol=1e-9):
                ctx.fail("envelope-value", "%s: %s instead of %s" % (e, v, r))
                return
            ctx.state(sig(v))
        for s, t in itertools.product(range(0, int(sc) + 1), range(0, 6)):
            a, b = cc.stress_envelope(np.array([s]), np.array([t]), **arg), cc.stress_envelope(np.array([float(s)]), np.array([float(t)]), **arg)
            if not np.allclose(np.asarray(a, float), b, rtol=1e-12):
                if truncated(a, b):
                    ctx.fail("whole-numbers/criterion", "%s: whole-number stresses %s give %s instead of %s" % (e, (s, t), a, b))
                    continue
                ctx.fail("envelope-int", "%s: whole-number stresses %s give %s, the same as floats %s" % (e, (s, t), a, b))
                return
            ctx.state()
        out = float(np.asarray(cc.stress_envelope(np.array([1.2 * sc]), np.array([0.0]), **arg))[0])
        ctx.expect(out > 1 or mede_defective(cc, e), "envelope-top", "%s: normal stress beyond the strength gives %.4g" % (e, out))
        for s in np.linspace(0, 1, 33) * sc:                              # plotted curves
            got = float(np.asarray(plotted(cc, np.array([s]), e))[0])
            if abs(got - curve(s, e)) > 1e-6 * (1 + top(e)):
                f = e[1]**e[2]
                if e[0] == "adam_unpublished" and abs(got - (5.09 * f * np.sqrt(max(1 - (s / (6.16 * f))**2, 0)) if s <= 6.16 * f else 0)) < 1e-9:
                    ctx.fail("adam-unlimited", "%s: plotted shear strength at sigma=%.5g is %.6g instead of %.6g" % (e, s, got, curve(s, e)))
                    continue
                ctx.fail("curve", "%s: plotted shear strength at sigma=%.5g is %.6g instead of %.6g" % (e, s, got, curve(s, e)))
                return
            ctx.state()
        whole = np.arange(0, int(sc) + 1)
        a, b = plotted(cc, whole, e), plotted(cc, whole.astype(float), e)
        ctx.expect(np.allclose(a, b, rtol=1e-12), "whole-numbers/curve" if truncated(a, b) else "curve-int",
                   "%s: whole-number stresses give another curve than the same floats" % (e,))
    elif kind == "curve":
        if task[1] == 0:
            for g in np.linspace(0, 0.56, 113):
                g2 = float(np.asarray(cc.fracture_toughness_envelope(np.array([g])))[0])
                v = float(cc.fracture_toughness_criterion(g, g2))
                ctx.state(sig([g2]))
                if abs(g2 - 0.79 * (1 - (g / 0.56)**5)**(1 / 2.2)) < 1e-12 and 0.1 < g < 0.55:
                    ctx.fail("toughness-exponent", "criterion on its own envelope at G_I=%.4g, G_II=%.6g is %.8g" % (g, g2, v))
                elif abs(v - 1) > 1e-9 and abs(g2 - 0.79 * (1 - (g / 0.56)**5)**(1 / 2.2)) > 1e-12:
                    ctx.fail("toughness", "criterion on its own envelope at G_I=%.4g, G_II=%.6g is %.8g" % (g, g2, v))
                    return
                for f in (0.5, 0.9, 1.1, 2):
                    w = float(cc.fracture_toughness_criterion(f * g, -f * g2))
                    if abs(w - toughness(f * g, f * g2)) > 1e-9 * w:
                        ctx.fail("toughness-value", "criterion at %s" % ((f * g, f * g2),))
                        return
            whole = cc.fracture_toughness_envelope(np.array([0, 1, 2]))
            ctx.expect(np.allclose(whole, [0.79, 0, 0]), "whole-numbers/toughness" if truncated(whole, [0.79, 0, 0]) else "toughness-int", "whole-number rates give %s" % (whole,))
        else:
            typ = ("FCsf", "FCso")[task[1] - 1]
            for s in np.linspace(0, 9, 91):
                got = float(np.asarray(cc.failure_envelope_chandel(np.array([s]), typ))[0])
                if typ == "FCsf":
                    want = 4.1 * np.sqrt(max(1 - (s / 6.05)**2, 0))
                else:
                    f = np.tan(np.radians(22))
                    want = 7.3 + s * f if s <= 2.5 else (7.3 + 2.5 * f) * np.sqrt(max(1 - ((s - 2.5) / 5)**2, 0))
                ctx.state(sig([got]))
                if abs(got - want) > 1e-6:
                    ctx.fail("chandel", "%s at %.3g: %.6g instead of %.6g" % (typ, s, got, want))
                    return
            a, b = cc.failure_envelope_chandel(np.arange(8), typ), cc.failure_envelope_chandel(np.arange(8.0), typ)
            ctx.expect(np.allclose(a, b), "whole-numbers/chandel" if truncated(a, b) else "chandel-int", "%s: whole numbers give %s" % (typ, a))
    elif kind == "place":
        n = task[1]
        c = config([0, 0, 0, 0])
        for li in itertools.product([0.0, 300.0, 1050.5], repeat=n):
            T = sum(li)
            b = np.cumsum(li)
            if T == 0 or not np.any(np.abs(b[:-1] - T / 2) < 1e-9) or b[0] == 0 or li[-1] == 0:
                continue
            for ki in itertools.product([True, False], repeat=n):
                if not (ki[0] and ki[-1]):
                    continue
                for case in ("crack", "nocrack"):
                    skier, C, seg, x, sg, ta = cc.create_skier_object(c[0], 85.0, c[1], list(li), list(ki), crack_case=case, E=c[3][0], t=c[3][1])
                    ctx.trace()
                    mi = np.asarray(seg["mi"], float)
                    pos = [float(q) for q, m in zip(b[:-1], mi) if m]
                    if abs(mi.sum() - 85) > 1e-9 or any(abs(q - T / 2) > 1e-9 for q in pos):
                        ctx.fail("place", "a skier of 85 kg on segments %s is put at %s (weights %s) instead of %s" % (li, pos, mi, T / 2))
                        return
                    want = list(ki) if case == "crack" else [True] * n
                    if [bool(k) for k in seg["ki"]] != want or not np.allclose(seg["li"], li):
                        ctx.fail("place-layout", "%s layout of %s, %s is %s, %s" % (case, li, ki, seg["li"], seg["ki"]))
                        return
                    ctx.state(sig(np.append(sg[:3], ta[:3])))
    elif kind == "side":
        one_sided(cc, config(task[1]), ctx)
    elif kind == "force":
        c = config(task[1])
        if mede_defective(cc, c[2]):
            ctx.state("criterion recorded as defective")
            return
        L = 1000 * sum(l[1] for l in c[0])
        w = critical(cc, c, ctx, L)
        for f in FACT if w else [0.0, 80.0]:
            load = f * (w or 1)
            a, li, ki = cc.find_new_anticrack_length(c[0], load, c[1], [L / 2, 0, 0, L / 2], [True] * 4, **kw(c))
            ctx.trace()
            if not anticrack(cc, c, load, L, [float(x) for x in li], list(ki), float(a), ctx):
                return
            ctx.state(sig([a]))
    elif kind == "coupled":
        coupled(cc, task[1], ctx)
    elif kind == "fallback":
        fallback(cc, task[1], task[2], ctx)
    elif kind == "self":
        c = config(task[1])
        prof, phi, e, (E, t) = c
        L = 1000 * sum(l[1] for l in prof)

        def crit(a):
            li, ki = [L / 2 - a / 2, a / 2, a / 2, L / 2 - a / 2], [True, False, False, True]
            G = slab(c, 0.0, li, ki).gdif()
            return toughness(1000 * G[0], 1000 * G[1]), li, ki
        for iv in ((1, 3000), (20, 1500.5)):
            lo, hi = crit(iv[0])[0], crit(iv[1])[0]
            if (lo - 1) * (hi - 1) >= 0:
                ctx.state("no bracket")
                continue
            a = cc.find_min_crack_length_self_propagation(prof, phi, E, t, initial_interval=iv)
            ctx.trace()
            v, li, ki = crit(a)
            if not (iv[0] <= a <= iv[1] and abs(v - 1) < 1e-6):
                ctx.fail("self", "criterion at the self-propagation length %.8g mm is %.8g: %s" % (a, v, label(c)))
                return
            got, met = cc.check_crack_propagation_criterion(prof, phi, {"li": np.array(li), "ki": np.array(ki)}, 0, E=E, t=t)
            g2, m2 = cc.check_crack_propagation_criterion(prof, phi, {"li": np.array(crit(1.05 * a)[1]), "ki": np.array(ki)}, 0, E=E, t=t)
            if abs(got - 1) > 1e-6 or bool(met) != (got >= 1) or abs(g2 - crit(1.05 * a)[0]) > 1e-6 * g2 or bool(m2) != (g2 >= 1):
                ctx.fail("propagation", "criterion %.8g (met %s) and %.8g (met %s) at and above the critical length: %s" % (got, met, g2, m2, label(c)))
                return
            ctx.state(sig([a]))


def plotted(cc, s, e):
    if e[0].startswith("mede"):
        return cc.failure_envelope_mede(s, e[0][5:])
    if e[0] == "schottner":
        return cc.failure_envelope_schottner(s, e[2], e[3])
    return cc.failure_envelope_adam_unpublished(s, e[1], e[2])


def one_sided(cc, c, ctx):
    """A load between those for which the first and the second side of the skier exceed the envelope."""
    L = 1000 * sum(l[1] for l in c[0])

    def sides(w):
        s, t = stresses(c, w, L, [0.0, 1e-9])
        return np.sort(np.asarray(cc.stress_envelope(s, t, **kw(c, False)), float))
    loads = []
    for i in (0, 1):
        lo, hi = 0.0, 5000.0
        if (sides(lo)[i] - 1) * (sides(hi)[i] - 1) > 0:
            ctx.state("no load")
            return
        for _ in range(60):
            w = (lo + hi) / 2
            lo, hi = (w, hi) if sides(w)[i] < 1 else (lo, w)
        loads.append(hi)
    if abs(loads[0] - loads[1]) < 1e-6 * loads[0]:
        ctx.state("both at once")
        return
    for f in (0.1, 0.5, 0.9):
        w = loads[1] + f * (loads[0] - loads[1])
        a, li, ki = cc.find_new_anticrack_length(c[0], w, c[1], [L / 2, 0, 0, L / 2], [True] * 4, **kw(c))
        ctx.trace()
        if not anticrack(cc, c, w, L, [float(x) for x in li], list(ki), float(a), ctx):
            return
        ctx.state(sig([a]))


def coupled(cc, x, ctx):
    """Converged solutions fulfil both criteria, exactly those of the returned load."""
    c = config(x)
    if mede_defective(cc, c[2]):
        ctx.state("criterion recorded as defective")
        return
    prof, phi, e, (E, t) = c
    for damp in (False, True):
        L = (100 if damp else 1000) * sum(l[1] for l in prof)
        f = cc.check_coupled_criterion_anticrack_nucleation_dampened if damp else cc.check_coupled_criterion_anticrack_nucleation
        r = f(prof, phi, 0, **kw(c))
        ctx.trace()
        ok, a, w, skier, C, seg = r[:6]
        its, collapse, pure, crit, g = r[9], r[13], r[14], r[15], r[16]
        li, ki = [float(q) for q in seg["li"]], [bool(k) for k in seg["ki"]]
        what = "%s%s" % (label(c), ", dampened" if damp else "")
        name = "coupled%s" % ("-dampened" if damp else "")
        if not ok:
            ctx.notes["not converged"] = ctx.notes.get("not converged", 0) + 1
            ctx.state("not converged")
            continue
        if collapse:
            s0, t0 = stresses(c, 0.0, L, [0.0, 1e-9])
            v = float(np.max(cc.stress_envelope(s0, t0, **kw(c, False))))
            if not (v > 0.99 and w == 0 and a == L):
                ctx.fail(name + "-collapse", "self collapse reported where the criterion without skier is %.6g (load %s, length %s): %s" % (v, w, a, what))
                return
            ctx.state("collapse")
            continue
        L = sum(li)
        if pure:
            v = gdelta(c, w, li, ki)
            s2, t2 = stresses(c, w, L, [0.0, 1e-9])
            st = float(np.max(cc.stress_envelope(s2, t2, **kw(c, False))))
            if not (v > 0.979 and abs(v - g) < 1e-6 * v and a > 0 and st > 0.97):
                ctx.fail(name + "-pure", "pure stress criterion reported with energy criterion %.6g (returned %.6g), stress criterion %.6g: %s" % (v, g, st, what))
                return
            ctx.state("pure")
            continue
        if all(not k for k in ki):
            ctx.state("all cracked")
            continue
        v = gdelta(c, w, li, ki)
        if abs(v - 1) > 0.0021 or abs(v - g) > 1e-5:
            ctx.fail(name, "energy criterion of the returned state is %.6g (returned %.6g) at %.6g kg and %.6g mm: %s" % (v, g, w, a, what))
            return
        if its > 1 and not anticrack(cc, c, w, L, li, ki, float(a), ctx):
            return
        if not w >= crit * 0.99:
            ctx.fail(name + "-load", "load %.6g below that of the stress criterion %.6g: %s" % (w, crit, what))
            return
        ctx.notes["coupled solutions"] = ctx.notes.get("coupled solutions", 0) + 1
        ctx.state(sig([w, a]))


def fallback(cc, x, variant, ctx):
    """When the search does not settle, the dampened search takes over with the same inputs."""
    c = config(x)
    if c[2][0].startswith("mede"):
        return
    seen = []
    old = cc.check_coupled_criterion_anticrack_nucleation_dampened, cc.fracture_toughness_criterion, cc.find_new_anticrack_length
    flip = itertools.count()

    def rec(*a, **k):
        b = inspect.signature(old[0]).bind(*a, **k)
        b.apply_defaults()
        seen.append(b.arguments)
        return "dampened"
    cc.check_coupled_criterion_anticrack_nucleation_dampened = rec
    n = [0]

    def tough(*a):
        n[0] += 1
        if variant == 0:
            return 0.5                                               # never settles
        return 0.5 if n[0] == 1 else 1.0                             # settles on the second load
    cc.fracture_toughness_criterion = tough
    if variant == 1:                                                 # ... where the stress criterion yields no crack
        cc.find_new_anticrack_length = lambda prof, w, phi, li, ki, **k: (0.0, [sum(li) / 2] * 2, [True, True])
    try:
        r = cc.check_coupled_criterion_anticrack_nucleation(c[0], c[1], 0, **kw(c))
    finally:
        (cc.check_coupled_criterion_anticrack_nucleation_dampened, cc.fracture_toughness_criterion, cc.find_new_anticrack_length) = old
    del flip
    ctx.trace()
    if not seen:
        ctx.state("no fallback")
        return
    want = dict(kw(c), phi=c[1], snow_profile=c[0])
    defaults = {k: p.default for k, p in inspect.signature(old[0]).parameters.items()}
    for k, v in want.items():
        if seen[0].get(k) != v:
            if k in ("density", "t") and seen[0].get(k) == defaults.get(k):
                ctx.fail("dampened-arguments", "the dampened search is given %s=%s instead of %s: %s" % (k, seen[0].get(k), v, label(c)))
                continue
            ctx.fail("fallback", "the dampened search is given %s=%s instead of %s: %s" % (k, seen[0].get(k), v, label(c)))
            return
    ctx.expect(r == "dampened", "fallback-result", "the result of the dampened search is not returned: %s" % label(c))
    ctx.state("fallback %d" % variant)
