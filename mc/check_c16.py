"""C16: the artists of every plot are the computed quantities, saved under the documented name, leaving the caller's plots alone."""
import os
import shutil
import tempfile

import numpy as np

import ops
import space
from core import sig

ID, LEVEL = "C16", "model_checking"
BOUNDS = {"quick": "11 plot functions with their options over 14 solved models (all systems, crack patterns with interior, edge and several cracks, "
                   "skiers, contact regimes), 6 contour fields x {normalised, dark, window, scale}, and every ordered pair of 14 plots on 3 models",
          "thorough": "26 models, all contour options, pairs on 10"}
ASSUME = ["matplotlib's Agg backend; artists are inspected at the moment the figure is saved; label positions and line styles are not judged",
          "before plotting, matplotlib has its default style"]

MODELS = [  # system, touchdown, experiment, layers, weak layer, custom experiment
    ("pst-", True, 1, 0, 0, None), ("-pst", True, 0, 2, 1, None), ("pst-", False, 0, 3, 0, None), ("-pst", False, 1, 12, 0, None),
    ("vpst-", False, 0, 0, 1, None), ("-vpst", False, 1, 2, 0, None), ("skier", False, 0, 0, 0, None), ("skier", False, 1, 7, 1, None),
    ("skiers", False, 0, 3, 0, None), ("skiers", False, 1, 0, 2, None),
    ("skiers", False, 0, 0, 0, dict(li=[6e3, 400.0, 300.0, 250.0, 700, 6e3], mi=[0, 80, 0, 50, 70], ki=[True, False, False, True, False, True],
                                    k0=[True] * 6, phi=-25.0)),
    ("skiers", False, 0, 2, 1, dict(li=[7e3, 300, 200, 7e3], mi=[60, 0, 90], ki=[True, True, False, True], k0=[True] * 4, phi=40)),
    ("-pst", True, 2, 0, 0, None), ("skiers", False, 0, 0, 0, dict(li=[6e3, 900.0, 7e3], mi=[0, 0], ki=[True, False, True], k0=[True] * 3, phi=0)),
]
SIMPLE = ["displacements", "section_forces", "stresses", "stress_criteria", "err_comp", "err_modes", "fea_disp", "fea_stress", "slab_profile"]
FIELDS = ["u", "w", "Sxx", "Txz", "Szz", "principal"]


def models(th):
    out = list(MODELS)
    if th:
        for s, td, n, la, wk, ex in MODELS[:12]:
            out.append((s, td, n + 1, (la + 5) % 12, (wk + 1) % 3, ex))
    return out


def tasks(tier):
    th = tier == "thorough"
    out = []
    for i in range(len(models(th))):
        out.append(["simple", i, th])
        for j, f in enumerate(FIELDS):
            opts = [dict(), dict(dark=True, window=60, scale=50, aspect=1, filename="my contour"), dict(dz=17, pad=5, scale=300, levels=40)]
            if f == "principal":
                opts.append(dict(normalize=False))
            for k, o in enumerate(opts):
                if th or k == (i + j) % 3 or f == "principal" and i % 3 == 0:
                    out.append(["contour", i, th, f, o])
    for i in range(10) if th else (1, 4, 8):
        for k in range(7):
            out.append(["pairs", i, th, k, 7])
    out += [["folder", i, th] for i in range(3)] + [["reject", i, th] for i in range(3)]
    return out


CHUNK = 1


class Capture:
    """Records what is drawn in the figure at the moment it is saved."""

    def __init__(self, real=True):
        import matplotlib.axes
        import matplotlib.figure
        self.F, self.A = matplotlib.figure.Figure, matplotlib.axes.Axes
        self.real, self.shots, self.cont = real, [], []

    def __enter__(self):
        self.sf, self.cf = self.F.savefig, self.A.contourf
        cap = self

        def savefig(fig, fname, *a, **k):
            cap.shots.append(snap(fig, os.path.abspath(str(fname)), cap.cont))
            cap.cont = []
            if cap.real:
                k["dpi"] = 20
                return cap.sf(fig, fname, *a, **k)
            open(fname, "w").close()

        def contourf(ax, *a, **k):
            r = cap.cf(ax, *a, **k)
            cap.cont.append((np.array(a[0], float), np.array(a[1], float), np.array(np.ma.filled(a[2], np.nan), float),
                             np.array(r.levels), r.get_cmap()(0.3), id(ax)))
            return r
        self.F.savefig, self.A.contourf = savefig, contourf
        return self

    def __exit__(self, *a):
        self.F.savefig, self.A.contourf = self.sf, self.cf


def snap(fig, fname, cont):
    import matplotlib.colors as mc
    axes = []
    for ax in fig.axes:
        lines = [(np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float), mc.to_hex(ln.get_color()), ln.get_linestyle(), bool(ln.get_visible()))
                 for ln in ax.lines]
        texts = [(t.get_text(), mc.to_hex(t.get_color())) for t in ax.texts]
        spans = []
        for p in ax.patches:
            v = p.get_path().transformed(p.get_patch_transform()).vertices
            spans.append((float(np.min(v[:, 0])), float(np.max(v[:, 0]))))
        polys = [pp.vertices.copy() for c in ax.collections for pp in c.get_paths()] if not cont else []
        axes.append({"lines": lines, "texts": texts, "spans": spans, "polys": polys, "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
                     "title": ax.get_title(), "xlim": ax.get_xlim(), "ylim": ax.get_ylim(), "id": id(ax)})
    return {"file": fname, "axes": axes, "contours": list(cont)}


def plain(s):
    """Shot as comparable data."""
    def lines(L):
        return [(np.nan_to_num(x, nan=-9e9).tolist(), np.nan_to_num(y, nan=-9e9).tolist(), c, st) for x, y, c, st, _ in L]
    return [(lines(a["lines"]), a["texts"], a["spans"], [p.tolist() for p in a["polys"]], a["xlabel"], a["ylabel"], a["title"],
             tuple(a["xlim"]), tuple(a["ylim"])) for a in s["axes"]] + \
        [[np.nan_to_num(v, nan=-9e9).tolist() for v in c[:4]] for c in s["contours"]] + [os.path.basename(s["file"])]


class Bench:
    def __init__(self, i, th):
        s, td, n, la, wk, ex = models(th)[i]
        e = ops.experiments(s, td)
        self.e = ex or e[n % len(e)]
        self.cfg = {"system": s, "layers": space.LAYERS[la], "weak": space.WEAK[wk], "mat": space.MAT[0], "g": 9810, "lski": 1000, "p": 3e-4}
        self.m = m = space.model(self.cfg, touchdown=td)
        self.seg = m.calc_segments(**self.e)["crack"]
        self.phi = self.e["phi"]
        self.C = m.assemble_and_solve(phi=self.phi, **self.seg)
        self.li, self.ki = [float(x) for x in self.seg["li"]], [bool(k) for k in self.seg["ki"]]
        self.mi = [float(x) for x in self.seg["mi"]]
        self.x, self.z, self.xb = m.rasterize_solution(C=self.C, phi=self.phi, li=self.seg["li"], ki=self.seg["ki"], num=150)
        self.n = len(self.x)
        self.da = np.linspace(15, 400, 80)
        self.G = np.array([2.0, 1.4, 0.6])[:, None] * (1e-6 * self.da)**[[1.1], [1.2], [0.9]]
        self.H = 0.7 * self.G + 1e-5
        self.fea = np.column_stack([np.linspace(0, 500, 90)] + [1e-2 * np.sin(0.03 * np.arange(90) * (j + 1) + j) for j in range(5)])
        self.what = "%s touchdown=%s %s" % (s, td, self.e)


def calls(b):
    """name -> (call, file, expected series [(x, y, label)], expected words in axis labels, shading?)."""
    from weac import plot
    m, x, z, xb, s = b.m, b.x, b.z, b.xb, b.seg
    u0, w, psi = z[0], z[2], np.rad2deg(z[4])
    tau, sg = 1e3 * m.tau(z), 1e3 * m.sig(z)
    f = b.fea
    fl = np.flipud
    disp = [(x / 10, u0, "u_0"), (x / 10, -w, "-w"), (x / 10, psi, r"\psi")]
    pos = ("Horizontal position", "(cm)")
    J = r"J/m$^2$"
    c = {
        "displacements": (lambda: plot.displacements(m, x, z, **s), "disp", disp, pos, ("Displacements",), True),
        "displacements 7": (lambda: plot.displacements(m, x, z, i=7, **s), "disp7", disp, pos, ("Displacements",), True),
        "section_forces": (lambda: plot.section_forces(m, x, z, **s), "forc", [(x / 10, m.N(z), "N"), (x / 10, m.M(z), "M"), (x / 10, m.V(z), "V")],
                           pos, ("Section forces",), True),
        "section_forces b": (lambda: plot.section_forces(m, x, z, i="b", **s), "forcb", [(x / 10, m.N(z), "N"), (x / 10, m.M(z), "M"),
                                                                                         (x / 10, m.V(z), "V")], pos, ("Section forces",), True),
        "stresses": (lambda: plot.stresses(m, xb, z, **s), "stress", [(xb / 10, tau, r"\tau"), (xb / 10, sg, r"\sigma")], pos, ("kPa",), True),
        "stresses 2": (lambda: plot.stresses(m, xb, z, i=2, **s), "stress2", [(xb / 10, tau, r"\tau"), (xb / 10, sg, r"\sigma")], pos, ("kPa",), True),
        "stress_criteria": (lambda: plot.stress_criteria(x, 0.1 * sg**2 + tau, **s), "crit", [(x / 10, 0.1 * sg**2 + tau, r"\sigma/\sigma")], pos,
                            ("Criteria",), True),
        "slab_profile": (lambda: plot.slab_profile(m), "profile", None, ("Density", "kg/m"), ("weak layer", "mm"), False),
        "fea_disp": (lambda: plot.fea_disp(m, x, z, f), "fea_disp", [
            (f[:, 0] / 10, -fl(f[:, 1]), "FEA $u_0"), (f[:, 0] / 10, fl(f[:, 2]), "FEA $w_0"), (f[:, 0] / 10, fl(np.rad2deg(f[:, 5])), r"FEA $\psi"),
            (x / 10, u0, "$u_0"), (x / 10, -w, "$-w"), (x / 10, psi, r"$\psi")], pos, ("mm",), False),
        "fea_stress": (lambda: plot.fea_stress(m, xb, z, f), "fea_stress", [
            (f[:, 0] / 10, 1e3 * fl(f[:, 2]), r"FEA $\sigma_2"), (f[:, 0] / 10, 1e3 * fl(f[:, 3]), r"FEA $\tau_{12}"),
            (xb / 10, tau, r"$\tau"), (xb / 10, sg, r"$\sigma")], pos, ("kPa",), False),
    }
    d = b.da / 10
    for mode in (0, 1, 2):
        c["err_comp" if not mode else "err_comp %d" % mode] = (
            lambda mode=mode: plot.err_comp(b.da, b.G, b.H, mode=mode), "err",
            [(d, 1e3 * b.G[mode], r"$\mathcal{G}$"), (d, 1e3 * b.H[mode], r"$\bar{\mathcal{G}}$")], ("Crack length", "(cm)"), (J,), None)
    for kind in ("inc", "dif"):
        g = r"$\bar{\mathcal{G}}$" if kind == "inc" else r"$\mathcal{G}$"
        c["err_modes" if kind == "inc" else "err_modes dif"] = (
            lambda kind=kind: plot.err_modes(b.da, b.G, kind=kind), "modes",
            [(d, 1e3 * b.G[2], g + r"$_\mathrm{I\!I}$"), (d, 1e3 * b.G[1], g + r"$_\mathrm{I}$"), (d, 1e3 * b.G[0], g + r"$_\mathrm{I+I\!I}$")],
            ("Crack length", "(cm)"), (J,), None)
    c["err_modes default"] = (lambda: plot.err_modes(b.da, b.G), "modes", c["err_modes"][2], *c["err_modes"][3:])
    return c


def veq(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    fin = b[np.isfinite(b)]
    s = tol * (np.max(np.abs(fin)) if fin.size else 1.0)
    return bool(np.all((np.abs(a - b) <= s) | (np.isnan(a) & np.isnan(b))))


def judge_lines(ctx, shot, name, series, xl, yl, shade, b):
    what = "plot '%s' of %s" % (name, b.what)
    ax = shot["axes"][0]
    if len(shot["axes"]) != 1:
        ctx.fail("axes/" + name, "%d axes: %s" % (len(shot["axes"]), what))
        return False
    for w in xl:
        if w not in ax["xlabel"]:
            ctx.fail("xlabel/" + name, "x axis is labelled '%s': %s" % (ax["xlabel"], what))
            return False
    for w in yl:
        if w not in ax["ylabel"]:
            ctx.fail("ylabel/" + name, "y axis is labelled '%s': %s" % (ax["ylabel"], what))
            return False
    if series is None:
        return profile(ctx, ax, b, what)
    white = "#ffffff"
    curves = [ln for ln in ax["lines"] if len(ln[0]) > 2 and ln[2] != white and ln[4]]
    left = list(curves)
    for x, y, lab in series:
        hit = [c for c in left if veq(c[0], x) and veq(c[1], y)]
        if not hit:
            ctx.fail("curve/" + name, "no curve shows %s: %s" % (lab, what))
            return False
        c = hit[0]
        left = [k for k in left if k is not c]
        if np.isfinite(x).sum() and not any(lab in t and ("FEA" in t) == ("FEA" in lab) and col == c[2] for t, col in ax["texts"]):
            ctx.fail("label/" + name, "the curve of %s has no such label in its colour (labels %s): %s" % (lab, ax["texts"], what))
            return False
        for v, lim in ((x, ax["xlim"]), (y[np.isfinite(x)], ax["ylim"])):
            v = v[np.isfinite(v)]
            if v.size and (np.min(v) < min(lim) - 1e-6 * abs(lim[1] - lim[0]) or np.max(v) > max(lim) + 1e-6 * abs(lim[1] - lim[0])):
                ctx.fail("limits/" + name, "the curve of %s leaves the axis limits %s: %s" % (lab, lim, what))
                return False
    if left:
        ctx.fail("extra/" + name, "%d curves show none of the quantities: %s" % (len(left), what))
        return False
    if len(ax["texts"]) != sum(1 for x, _, _ in series if np.isfinite(x).sum()):
        ctx.fail("label/" + name, "labels %s: %s" % (ax["texts"], what))
        return False
    vert = sorted({round(float(ln[0][0]), 6) for ln in ax["lines"] if len(ln[0]) == 2 and ln[0][0] == ln[0][1]})
    spans = sorted((round(a, 6), round(c, 6)) for a, c in ax["spans"])
    e = np.concatenate([[0.0], np.cumsum(b.li)]) / 10
    if shade is None:
        want_v, want_s = [], []
    else:
        want_v = sorted({0.0} | ({round(e[i], 6) for i, m in enumerate(b.mi, start=1) if m > 0} if shade else set()))
        want_s = sorted((round(e[i], 6), round(e[i + 1], 6)) for i, k in enumerate(b.ki) if not k) if shade else []
    if not veq(vert, want_v, 1e-6):
        ctx.fail("skiers/" + name, "vertical lines at %s instead of %s cm: %s" % (vert, want_v, what))
        return False
    if not veq(spans, want_s, 1e-6):
        ctx.fail("shading/" + name, "shaded stretches %s instead of %s cm: %s" % (spans, want_s, what))
        return False
    return True


def profile(ctx, ax, b, what):
    from matplotlib.path import Path
    rows = b.cfg["layers"]
    rows = [tuple(r[:2]) for r in np.asarray(b.m.slab)] if isinstance(rows, str) else rows
    e = np.concatenate([[0.0], np.cumsum([r[1] for r in rows[::-1]])])
    if ax["xlim"][0] <= ax["xlim"][1]:
        ctx.fail("profile", "density must increase to the left: %s" % what)
        return False
    paths = [Path(p) for p in ax["polys"] if len(p)]
    for i, r in enumerate(rows[::-1]):
        for y in (e[i] + 0.02 * r[1], e[i] + 0.5 * r[1], e[i + 1] - 0.02 * r[1]):
            for x, want in ((r[0] - 1, True), (r[0] + 1, False), (1, True)):
                if any(p.contains_point((x, y)) for p in paths) != want:
                    ctx.fail("profile", "layer of %g kg/m3 is not drawn from 0 to its density at height %.4g mm: %s" % (r[0], y, what))
                    return False
        ctx.step()
    if max(ax["ylim"]) < e[-1] - 1e-6 or min(ax["ylim"]) > 1e-6:
        ctx.fail("profile", "axis limits %s do not show the slab: %s" % (ax["ylim"], what))
        return False
    if any(p.contains_point((1, e[-1] + 1)) for p in paths):
        ctx.fail("profile", "profile is higher than the slab: %s" % what)
        return False
    return True


def guarded(ctx, b, fn, real=True, what=""):
    """Run one plot in a fresh folder with open figures of the caller; returns the shot."""
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    os.chdir(d)
    try:
        plt.close("all")
        mpl.rcdefaults()
        f1, a1 = plt.subplots()
        a1.plot([0, 1, 2], [3, 1, 2])
        f2, a2 = plt.subplots(2, 1)
        plt.figure(f1.number)
        plt.sca(a1)
        cm0 = [plt.cm.RdBu_r(v) for v in (-0.5, 0.0, 0.5, 1.0, 1.5)]
        rc0 = dict(mpl.rcParams)
        n0 = [len(f1.axes), len(a1.lines), len(a1.collections), len(a1.patches), len(a1.texts), len(f2.axes), len(a2[0].lines), len(a2[1].lines),
              len(a2[1].collections), len(a2[0].texts)]
        t0 = (a1.get_xlabel(), a1.get_title(), a1.get_xlim(), a1.get_ylim())
        with Capture(real) as cap:
            fn()
        if sorted(plt.get_fignums()) != sorted([f1.number, f2.number]):
            ctx.fail("figures", "open figures of the caller are %s instead of %s after %s" % (plt.get_fignums(), [f1.number, f2.number], what))
            return None
        n1 = [len(f1.axes), len(a1.lines), len(a1.collections), len(a1.patches), len(a1.texts), len(f2.axes), len(a2[0].lines), len(a2[1].lines),
              len(a2[1].collections), len(a2[0].texts)]
        if n1 != n0 or t0 != (a1.get_xlabel(), a1.get_title(), a1.get_xlim(), a1.get_ylim()):
            ctx.fail("figures", "%s draws into the caller's figure" % what)
            return None
        bad = [k for k, v in rc0.items() if repr(mpl.rcParams[k]) != repr(v)]
        if bad or cm0 != [plt.cm.RdBu_r(v) for v in (-0.5, 0.0, 0.5, 1.0, 1.5)]:
            ctx.fail("style", "%s changes the plot style (%s)" % (what, bad[:4] or "colormap"))
            return None
        if len(cap.shots) != 1:
            ctx.fail("saved", "%s saves %d figures" % (what, len(cap.shots)))
            return None
        s = cap.shots[0]
        if os.path.dirname(s["file"]) != os.path.join(os.path.realpath(d), "plots") and os.path.dirname(s["file"]) != os.path.join(d, "plots"):
            ctx.fail("saved", "%s is saved in %s instead of the plot folder of %s" % (what, s["file"], d))
            return None
        if os.listdir(d) != ["plots"] or os.listdir(os.path.join(d, "plots")) != [os.path.basename(s["file"])] or \
                real and os.path.getsize(s["file"]) < 100:
            ctx.fail("saved", "%s leaves the files %s" % (what, os.listdir(d)))
            return None
        return s
    finally:
        plt.close("all")
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)


def run(task, ctx):
    kind, i, th = task[:3]
    b = Bench(i, th)
    if kind == "simple":
        for name, (fn, file, series, xl, yl, shade) in calls(b).items():
            s = guarded(ctx, b, fn, real=name in SIMPLE and i < 3, what="plot '%s' of %s" % (name, b.what))
            ctx.step()
            if s is None:
                return
            ctx.state((name, i))
            if os.path.basename(s["file"]) != file + ".png":
                ctx.fail("name/" + name, "saved as %s instead of %s.png: plot '%s' of %s" % (s["file"], file, name, b.what))
                return
            if not judge_lines(ctx, s, name, series, xl, yl, shade, b):
                return
            ctx.trace()
    elif kind == "contour":
        contour(ctx, b, task[3], task[4])
    elif kind == "pairs":
        pairs(ctx, b, task[3], task[4])
    elif kind == "folder":
        folder(ctx, b)
    else:
        reject(ctx, b)


def contour(ctx, b, field, opts):
    from weac import plot
    m, z, phi = b.m, b.z, b.phi
    kw = dict(dz=40, levels=12)
    kw.update(opts)
    dz, scale, nlev = kw["dz"], kw.get("scale", 100), kw["levels"]
    what = "contour plot of '%s' with %s of %s" % (field, opts, b.what)
    s = guarded(ctx, b, lambda: plot.deformed(m, b.x, b.xb, z, phi, field=field, **kw), real=len(opts) == 1, what=what)
    ctx.step()
    if s is None:
        return
    ctx.state((field, sig(z[2])))
    if os.path.basename(s["file"]) != kw.get("filename", "cont") + ".png":
        ctx.fail("name/contour", "saved as %s: %s" % (s["file"], what))
        return
    if len(s["contours"]) != 2:
        ctx.fail("contour", "%d fields are drawn instead of slab and weak layer: %s" % (len(s["contours"]), what))
        return
    zi = np.asarray(m.get_zmesh(dz=dz))[:, 0]
    h = float(m.h)
    U = 0.1 * (z[0][None, :] + zi[:, None] * z[4][None, :])
    W = 0.1 * np.repeat(z[2][None, :], len(zi), axis=0)
    shift = np.max(b.x) / 2 if m.system in ("skier", "skiers") else 0.0
    xs, xw = 0.1 * (b.x - shift), 0.1 * (b.xb - shift)
    X, Y = np.meshgrid(xs, 0.1 * (zi + h / 2))
    norm = kw.get("normalize", True)
    if field == "u":
        S, Wk, lab = 1e4 * U, 1e4 * U[-1], ("u", r"\mu")
    elif field == "w":
        S, Wk, lab = 1e4 * W, 1e4 * W[-1], ("w", r"\mu")
    elif field == "Sxx":
        S, Wk, lab = 1e3 * m.Sxx(z, phi, dz=dz, unit="MPa"), np.zeros(b.n), ("xx", "kPa")
    elif field == "Txz":
        S, Wk, lab = 1e3 * m.Txz(z, phi, dz=dz, unit="MPa"), 1e3 * m.tau(z), ("xz", "kPa")
    elif field == "Szz":
        S, Wk, lab = 1e3 * m.Szz(z, phi, dz=dz, unit="MPa"), 1e3 * m.sig(z), ("zz", "kPa")
    elif norm:
        S = m.principal_stress_slab(z, phi, dz=dz, val="max", unit="kPa", normalize=True)
        Wk, lab = m.principal_stress_weaklayer(z, val="min", unit="kPa", normalize=True), ("sigma_+", "sigma_-")
    else:
        S, Wk, lab = 1e3 * m.principal_stress_slab(z, phi, dz=dz, val="max", unit="MPa"), 1e3 * m.principal_stress_weaklayer(z, val="min", unit="MPa"), \
            ("kPa", "slab")
    (a0, a1, a2, lev, col, ax), (b0, b1, b2, lev2, col2, ax2) = s["contours"]
    tol = 1e-8
    if not (veq(a0, X + scale * U, tol) and veq(a1, Y + scale * W, tol)):
        ctx.fail("contour/geometry", "slab is not drawn at its position plus %g times its displacement: %s" % (scale, what))
        return
    if not veq(a2, S, tol):
        ctx.fail("contour/slab", "slab field drawn differs from the model's (largest %.6g instead of %.6g): %s" % (
            np.nanmax(np.abs(a2)), np.nanmax(np.abs(S)), what))
        return
    sup = np.isfinite(xw)
    if not veq(b0, np.vstack([xw + scale * U[-1], xw]), tol) or not veq(b1[0], 0.1 * h + scale * W[-1], tol):
        ctx.fail("contour/geometry", "weak layer is not drawn below the deformed slab: %s" % what)
        return
    if np.any(np.abs(b1[1] - b1[1][0]) > 1e-9) or b1[1][0] < np.max(b1[0]) - 1e-9:
        ctx.fail("contour/geometry", "weak layer has no level bottom below the slab: %s" % what)
        return
    if b2.shape != (2, b.n) or not all(veq(r[sup], np.asarray(Wk)[sup], tol) for r in b2):
        ctx.fail("contour/weak", "weak-layer field drawn differs from the model's: %s" % what)
        return
    if not veq(lev, lev2) or len(lev) != nlev + 1 or not veq(lev, -lev[::-1]) or col != col2 or ax != ax2:
        ctx.fail("contour/levels", "slab and weak layer do not share a symmetric scale: %s" % what)
        return
    top = np.max(np.abs(S))
    if not 0.6 * top < lev[-1] < 1.5 * max(top, np.nanmax(np.abs(b2))):
        ctx.fail("contour/levels", "colour scale ends at %g for a field up to %g: %s" % (lev[-1], top, what))
        return
    main = next(a for a in s["axes"] if a["id"] == ax)
    bar = [a for a in s["axes"] if a["id"] != ax]
    words = "".join(a["xlabel"] + a["ylabel"] for a in bar)
    if len(bar) != 1 or not all(q in words for q in lab):
        ctx.fail("contour/label", "colour bar is labelled '%s': %s" % (words, what))
        return
    if "(cm)" not in main["xlabel"] or "(cm)" not in main["ylabel"] or "depth" not in main["ylabel"] or str(scale) not in main["title"]:
        ctx.fail("contour/label", "axes are labelled '%s', '%s', '%s': %s" % (main["xlabel"], main["ylabel"], main["title"], what))
        return
    if main["ylim"][0] < main["ylim"][1]:
        ctx.fail("contour/axis", "depth does not increase downwards: %s" % what)
        return
    win = kw.get("window", np.inf)
    focus = xs[int(np.argmax(z[2]))]
    lim = sorted(main["xlim"])
    full = [min(X.min(), (X + scale * U).min()), max(X.max(), (X + scale * U).max())]
    want = [max(full[0] - kw.get("pad", 2), focus - win / 2), min(full[1] + kw.get("pad", 2), focus + win / 2)]
    if not veq(lim, want, 1e-6):
        ctx.fail("contour/window", "shown positions are %s instead of %s cm: %s" % (lim, want, what))
        return
    edge = {(round(p, 7), round(q, 7)) for v in ((X, Y), (X + scale * U, Y + scale * W)) for p, q in zip(
        np.concatenate([v[0][0], v[0][-1], v[0][:, 0], v[0][:, -1]]), np.concatenate([v[1][0], v[1][-1], v[1][:, 0], v[1][:, -1]]))}
    drawn = {(round(p, 7), round(q, 7)) for ln in main["lines"] if len(ln[0]) > 2 for p, q in zip(ln[0], ln[1])}
    miss = edge - drawn
    if len(miss) > 0.02 * len(edge):
        ctx.fail("contour/outline", "outline of the slab is not drawn (%d of %d points missing): %s" % (len(miss), len(edge), what))
        return
    ctx.trace()


def pairs(ctx, b, part, parts):
    from weac import plot
    p = {n: c[0] for n, c in calls(b).items() if n in SIMPLE}
    p["Szz"] = lambda: plot.deformed(b.m, b.x, b.xb, b.z, b.phi, dz=90, levels=6, field="Szz", dark=True)
    p["u"] = lambda: plot.deformed(b.m, b.x, b.xb, b.z, b.phi, dz=90, levels=6, field="u")
    p["principal"] = lambda: plot.deformed(b.m, b.x, b.xb, b.z, b.phi, dz=90, levels=6)
    alone = {n: plain(guarded(ctx, b, f, False, n) or {"axes": [], "contours": [], "file": ""}) for n, f in p.items()}
    if ctx.fails:
        return
    for n in list(p)[part::parts]:
        for k in p:
            shots = []

            def both():
                with Capture(False) as cap:
                    p[n]()
                    p[k]()
                shots.extend(cap.shots)
            import matplotlib.pyplot as plt
            home = os.getcwd()
            d = tempfile.mkdtemp(dir=home)
            os.chdir(d)
            try:
                both()
            finally:
                os.chdir(home)
                shutil.rmtree(d, ignore_errors=True)
                plt.close("all")
            ctx.step()
            if len(shots) != 2 or plain(shots[0]) != alone[n] or plain(shots[1]) != alone[k]:
                ctx.fail("pair", "plots '%s' and then '%s' show something else than each alone; %s" % (n, k, b.what))
                return
            ctx.state((n, k))
            ctx.trace()


def folder(ctx, b):
    """The plot folder of the current working directory, created when missing, kept when there; a second plot replaces the first."""
    import matplotlib.pyplot as plt
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    c = calls(b)
    try:
        for sub in ("a", "b", "a"):
            w = os.path.join(d, sub)
            os.makedirs(w, exist_ok=True)
            os.chdir(w)
            for n in ("displacements", "stresses", "section_forces b"):
                before = set(os.listdir(os.path.join(w, "plots"))) if os.path.isdir(os.path.join(w, "plots")) else set()
                c[n][0]()
                after = set(os.listdir(os.path.join(w, "plots"))) if os.path.isdir(os.path.join(w, "plots")) else set()
                ctx.step()
                if after != before | {c[n][1] + ".png"} or set(os.listdir(w)) != {"plots"}:
                    ctx.fail("folder", "plot '%s' in folder '%s' leaves %s; %s" % (n, sub, sorted(after), b.what))
                    return
                ctx.state((sub, n))
        ctx.trace()
    finally:
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)
        plt.close("all")


def reject(ctx, b):
    """A contour field that does not exist is refused without leaving a figure or a file."""
    import matplotlib.pyplot as plt
    from weac import plot
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    os.chdir(d)
    try:
        plt.close("all")
        for f in ("Syy", "", "sxx", None, "U"):
            fig = plt.figure()
            try:
                plot.deformed(b.m, b.x, b.xb, b.z, b.phi, dz=90, levels=6, field=f)
                ctx.fail("reject", "contour field %r is accepted; %s" % (f, b.what))
                return
            except ValueError:
                pass
            ctx.step()
            if plt.get_fignums() != [fig.number] or os.listdir(d):
                ctx.fail("reject", "the refused contour field %r leaves figures %s or files %s; %s" % (f, plt.get_fignums(), os.listdir(d), b.what))
                return
            ctx.state(str(f))
            plt.close("all")
        plt.rcdefaults()
        ctx.trace()
    finally:
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)
        plt.close("all")
