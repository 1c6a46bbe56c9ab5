"""C11: the rasterised solution is a complete, ordered and faithful sampling."""
import itertools

import numpy as np

import space
from check_c08 import TD_GEO
from common import solve_both
from core import sig

ID, LEVEL = "C11", "model_checking"
BOUNDS = {"quick": "every layout of 1..4 segments with lengths from {0, 3.7, 250, 1999.9} mm and any support pattern times 5 resolutions; "
                   "every configuration within 1 axis deviation (PSTs with and without touchdown) times 3 of 9 resolutions",
          "thorough": "layouts up to 5 segments, 2 axis deviations"}
ASSUME = ["configuration alphabets of mc/space.py", "columns compared to 1e-9 of the field maxima"]
LEN = [250.0, 1999.9, 3.7, 0.0]
NUM = [250, 1, 2, 7, 51]
NUMS = [250, 1, 3, 10, 99, 2, 5, 100, 800]


def tasks(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 6 if th else 5):
        for k in range(1, 2**n):
            out.append(["lay", n, k])
    out += [["cfg"] + t for t in space.space(space.SYSTEMS, 2 if th else 1, bases=("rich",), geo_all=True)]
    axes = [len(v) for _, v in space.axes("pst-")][:-1]
    for g in range(len(TD_GEO)):
        for idx in space.deviations(axes, 1):
            out.append(["td", list(idx), g])
    return out


def run(task, ctx):
    if task[0] == "lay":
        n, k = task[1:]
        ki = [bool(k >> i & 1) for i in range(n)]
        m = {s: space.model(space.config(s, [0] * 8)) for s in ("pst-", "vpst-")}
        for s in m:
            m[s].calc_segments(L=1000, a=100, phi=25.0)
        for j, li in enumerate(itertools.product(LEN, repeat=n)):
            if not any(l > 0 and b for l, b in zip(li, ki)):
                continue
            mm = m["vpst-" if j % 3 == 1 else "pst-"]
            mi = [[0, 50.0, 0, 20.0][(i + j) % 4] for i in range(n - 1)]
            form = (list, np.array, tuple)[j % 3]
            C = mm.assemble_and_solve(phi=25.0, li=np.array(li), mi=np.array(mi), ki=np.array(ki))
            if not np.all(np.isfinite(C)):
                continue
            check(mm, C, 25.0, li, ki, [NUM[j % 5], NUM[(j + 1) % 5]] if n > 3 else NUM, ctx, form)
        return
    td = task[0] == "td"
    if td:
        c = space.config("pst-", list(task[1]) + [0])
        c["geo"] = TD_GEO[task[2]]
    else:
        c = space.config(*task[1:])
    m = space.model(c, touchdown=td)
    try:
        seg = space.segments(m, c)
    except ValueError as e:
        if not td or "sign" not in str(e):
            raise
        return
    C0, C1 = solve_both(m, seg, c["phi"])
    s = seg["crack"]
    k = sum(c0 * 7**i for i, c0 in enumerate(task[1] if td else task[2])) if sum(task[1] if td else task[2]) else None
    nums = NUMS if k is None else [NUMS[(k + d) % 9] for d in (0, 3, 7)]
    check(m, C1, c["phi"], s["li"], s["ki"], nums, ctx, None, space.name(c))
    s = seg["nocrack"]
    check(m, C0, c["phi"], s["li"], s["ki"], nums[:1], ctx, None, space.name(c))


def check(m, C, phi, li, ki, nums, ctx, form=None, what=""):
    li, ki = [float(v) for v in li], [bool(v) for v in ki]
    nz = [i for i, l in enumerate(li) if l > 0]
    e = np.concatenate([[0.0], np.cumsum([li[i] for i in nz])])
    L = e[-1]
    what = "li=%s ki=%s %s" % (li, ki, what)
    for num in nums:
        fl = form or np.array
        x, z, xb = m.rasterize_solution(C=C, phi=phi, li=fl(li), ki=fl(ki), num=num)
        x, z, xb = np.asarray(x, float), np.asarray(z, float), np.asarray(xb, float)
        ctx.trace()
        w = "num=%d %s" % (num, what)
        if not (x.ndim == 1 and xb.shape == x.shape and z.shape == (6, x.size)):
            ctx.fail("shape", "shapes %s %s %s; %s" % (x.shape, z.shape, xb.shape, w))
            return
        if not (np.all(np.isfinite(x)) and np.all(np.isfinite(z))):
            ctx.fail("finite", "grid or solution has undefined entries; %s" % w)
            return
        if not (x[0] == 0 and abs(x[-1] - L) <= 1e-9 * L and np.all(np.diff(x) > 0)):
            ctx.fail("order", "grid does not increase from 0 to %g: %s ... %s; %s" % (L, x[:3], x[-3:], w))
            return
        near = np.abs(x[:, None] - e[None, :]) <= 1e-9 * L
        if not np.all(near.any(axis=0)):
            ctx.fail("boundaries", "segment boundaries %s are not on the grid; %s" % (e[~near.any(axis=0)], w))
            return
        zmax = np.max(np.abs(z), axis=1) + 1e-300
        zmax[[1, 5]] = max(zmax[1], zmax[5] * m.h)/np.array([1, m.h])
        # support of every grid point
        sup = np.zeros(x.size, bool)
        best = np.full(x.size, np.inf)
        for k, i in enumerate(nz):
            inside = (x >= e[k] - 1e-9 * L) & (x <= e[k + 1] + 1e-9 * L)
            sup |= inside & ki[i]
            xs = np.clip(x[inside] - e[k], 0, li[i])
            Z = m.z(xs, C[:, [i]], li[i], phi, bed=ki[i])
            best[inside] = np.minimum(best[inside], np.max(np.abs(z[:, inside] - Z) / zmax[:, None], axis=0))
        ctx.notes["max_column_diff"] = max(ctx.notes.get("max_column_diff", 0), float(best.max()))
        if not np.all(best < 1e-6):
            j = int(np.argmax(best))
            ctx.fail("columns", "column at x=%g differs from the solution there by %.1e; %s" % (x[j], best[j], w))
            return
        if not np.array_equal(np.isfinite(xb), sup):
            j = int(np.argmax(np.isfinite(xb) != sup))
            ctx.fail("support", "x=%g is %s but weak-layer coordinate is %s; %s" % (
                x[j], "supported" if sup[j] else "unsupported", xb[j], w))
            return
        if not np.array_equal(xb[sup], x[sup]):
            ctx.fail("support", "weak-layer coordinates differ from slab coordinates; %s" % w)
            return
        ctx.step(x.size)
        ctx.state((x.size, int(sup.sum()), sig(z[2, [0, -1]])))
