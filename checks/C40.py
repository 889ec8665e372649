"""C40: the figures of a grid show exactly the runs and values asked for."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
SCRATCH = vk.setup_env()
import copy
import functools
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.colors import to_rgb
from matplotlib.markers import MarkerStyle
import h5grid
from posydon.grids.psygrid import PSyGrid
from posydon.grids.SN_MODELS import SN_MODELS
from posydon.binary_evol.binarystar import BinaryStar
from posydon.utils.common_functions import check_state_of_star
from posydon.visualization.combine_TF import combine_TF12
from posydon.visualization.plot_defaults import (
    DEFAULT_LABELS, DEFAULT_MARKERS_COLORS_LEGENDS, PLOT_PROPERTIES)

ck = vk.Check("C40", "grids of random runs (flags known and unknown, missing "
              "histories, supernova models, extra grids) are plotted by the "
              "real PSyGrid.plot2D, plot and HR with random variables, "
              "slices, panels, colors and limits; the artists of the figure "
              "(positions, markers, colors, color scale, lines, legends, "
              "labels) are compared with the runs of the file; non-trivial "
              "by (kind of figure, flags shown, panels, color source)")

Zsun = 0.0142
NAMES = list(SN_MODELS)[:2]
TF1 = ["Primary has depleted central carbon", "gamma_center_limit",
       "Secondary has depleted central carbon", "forced_initial_RLO",
       "min_timestep_limit", "an unknown flag",
       "Terminate due to L2 overflow during case A"]
TF2 = ["no_RLOF", "case_A1", "?case_A2", "case_B1", "case_B1/C1",
       "case_A1/B1/BB1", "?case_A1/C2", "initial_RLOF", "L2_RLOF",
       "case_nonburning1", "contact_during_MS", "case_C1/BB1", "case_BA2"]
STATES = ["H-rich_Core_H_burning", "stripped_He_Core_He_burning", "BH",
          "H-rich_Shell_H_burning", "something_else"]
CLASSES = ["stable_MT", "unstable_MT", "no_MT", "initial_MT", "not_converged",
           "stable_reverse_MT"]
MARKS = ["o", "s", "D", "^", "v", ">", "<", "+", "x", "P", "*", "h", "p"]


def family(name, quick, thorough):
    def deco(fn):
        @functools.wraps(fn)
        def quiet(rng, c):
            with vk.quiet(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    return fn(rng, c)
                finally:
                    plt.close("all")
        return ck.family(name, quick, thorough)(quiet)
    return deco


def make(rng, c, tag="a", n=None):
    n = n or int(rng.integers(6, 40))
    tf1 = rng.choice(TF1, int(rng.integers(1, len(TF1) + 1)), replace=False)
    runs = []
    for i in range(n):
        co = rng.random() < .1
        r = h5grid.R(rng, 10 ** rng.uniform(.5, 2), 10 ** rng.uniform(-.5, 1),
                     10 ** rng.uniform(-1, 4), co=co)
        r.supernovae(rng, NAMES)
        for h in r.h:
            if h is not None:
                h["log_Teff"] = rng.uniform(3.3, 5.4, len(h))
        r.final["termination_flag_1"] = str(rng.choice(tf1))
        r.final["termination_flag_2"] = str(rng.choice(TF2))
        r.final["termination_flag_3"] = str(rng.choice(STATES))
        r.final["termination_flag_4"] = str(rng.choice(STATES))
        r.final["S1_state"] = str(rng.choice(STATES))
        r.final["interpolation_class"] = str(rng.choice(CLASSES))
        runs.append(r)
    path = os.path.join(SCRATCH, "%s_%d_%s.h5" % (c.family, c.index, tag))
    h5grid.write(path, runs)
    g = PSyGrid(path)
    return runs, g


class Want:
    """the values of the runs, computed from what was written to the file"""

    def __init__(self, runs, markers=None):
        self.runs = runs
        self.markers = markers

    def initial(self, key):
        if key == "mass_ratio":
            return np.array([r.m2 / r.m1 for r in self.runs])
        if key == "Z_Zsun":
            return np.ones(len(self.runs))
        own = {"star_1_mass": "m1", "star_2_mass": "m2", "period_days": "P"}
        if key in own:
            return np.array([getattr(r, own[key]) for r in self.runs])
        return np.array([float(r.bh[key][0]) for r in self.runs])

    def flags(self, flag):
        if "SN_MODEL" in flag:
            m, short = split(flag)
            return [r.sn[m][short] for r in self.runs]
        if flag == "debug":
            flag = "termination_flag_1"
        if flag == "interpolation_class_errors":
            flag = "interpolation_class"
        if flag == "combined_TF12":
            return list(combine_TF12(
                [r.final["interpolation_class"] for r in self.runs],
                [r.final["termination_flag_2"] for r in self.runs]))
        out = [r.final[flag] for r in self.runs]
        if flag == "termination_flag_2":
            out = [f.replace("?", "") for f in out]
        return out

    def final(self, z, star=1):
        if isinstance(z, np.ndarray):
            return z
        if "SN_MODEL" in z:
            m, short = split(z)
            return np.array([r.sn[m][short] for r in self.runs], float)
        if z.startswith("relative_change_"):
            k = z[len("relative_change_"):]
            i = self.initial(k)
            return (self.final(k) - i) / i
        out = []
        for r in self.runs:
            if z[:3] in ("S1_", "S2_"):
                h = r.h[int(z[1]) - 1]
                out.append(np.nan if h is None else h[z[3:]][-1])
            elif z in r.bh.dtype.names:
                out.append(r.bh[z][-1])
            else:
                h = r.h[star - 1]
                out.append(np.nan if h is None else h[z][-1])
        return np.array(out, float)


def split(key):
    m = [k for k in NAMES if key[3:].startswith(k + "_")][0]
    return m, key[:3] + key[3 + len(m) + 1:]


def path_of(marker):
    m = MarkerStyle(marker)
    return m.get_path().transformed(m.get_transform())


def same_path(p, marker):
    q = path_of(marker)
    return p.vertices.shape == q.vertices.shape and np.allclose(
        p.vertices, q.vertices)


def shown(ax):
    """every point drawn in these axes"""
    out = []
    for k in ax.collections:
        if not isinstance(k, PathCollection):
            continue
        xy = np.ma.asarray(k.get_offsets())
        a = k.get_array()
        fc = k.get_facecolors()
        if len(fc) == 0:
            fc = k.get_edgecolors()
        for i in range(len(xy)):
            if np.any(np.ma.getmaskarray(xy)[i]):
                continue
            v = None
            if a is not None:
                v = np.ma.masked_invalid(np.ravel(a))[i]
                if v is np.ma.masked:
                    continue
                v = float(v)
            out.append(dict(x=float(xy[i, 0]), y=float(xy[i, 1]), v=v,
                            color=None if a is not None or len(fc) == 0
                            else tuple(fc[min(i, len(fc) - 1)][:3]),
                            path=k.get_paths()[0], clim=k.get_clim(),
                            width=float(np.ravel(k.get_linewidths())[0])))
    return out


def rgb(color):
    c = color
    if isinstance(c, (list, np.ndarray)) and np.ndim(c) == 2:
        c = c[0]
    return to_rgb(c)


def style(want, flag, table):
    """marker, color, legend of a flag: [.] or None when not predefined"""
    return table.get(flag)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1., abs(a), abs(b))


def compare(c, ax, want, flag, x, y, z, sel, table, lx, ly, lz, where,
            at=None):
    """points of these axes against the selected runs"""
    xs, ys = want.initial(x), want.initial(y)
    xs = np.log10(xs) if lx else xs
    ys = np.log10(ys) if ly else ys
    zs = None
    if z is not None:
        zs = want.final(z)
        zs = np.log10(zs) if lz else zs
    flags = want.flags(flag)
    pts = shown(ax)
    used = set()
    order = sorted(range(len(pts)), key=lambda i: pts[i]["x"])
    px = np.array([pts[i]["x"] for i in order])
    for i in np.flatnonzero(sel):
        f = flags[i]
        st = table.get(f)
        value = zs[i] if zs is not None and (st is None or st[2] is None) \
            and st is not None else None
        if value is not None and not np.isfinite(value):
            continue
        lo = np.searchsorted(px, xs[i] - 1e-7 * max(1, abs(xs[i])))
        hit = None
        while lo < len(px) and px[lo] <= xs[i] + 1e-7 * max(1, abs(xs[i])):
            k = order[lo]
            if k not in used and close(pts[k]["y"], ys[i]) \
                    and close(pts[k]["x"], xs[i]):
                hit = k
                break
            lo += 1
        if not c.expect(hit is not None, "a run of the slice is not shown at "
                        "its initial values", where=where, run=int(i),
                        flag=f, x=float(xs[i]), y=float(ys[i])):
            return False
        used.add(hit)
        p = pts[hit]
        c.count("points")
        if st is None:
            continue
        if not c.expect(same_path(p["path"], st[0]), "a run does not have the "
                        "marker of its flag", where=where, flag=f,
                        marker=str(st[0])):
            return False
        c.expect(close(p["width"], st[1]), "a run does not have the line width "
                 "of its flag", where=where, flag=f, got=p["width"])
        if st[2] is not None:
            good = p["color"] is not None and np.allclose(
                p["color"], rgb(st[2]), atol=1e-6)
            if not c.expect(good, "a run does not have the color of its flag",
                            where=where, flag=f, color=str(p["color"]),
                            want=str(st[2])):
                return False
        elif zs is None:
            good = p["color"] is not None and np.allclose(
                p["color"], to_rgb("gray"), atol=1e-6)
            if not c.expect(good, "a run without a color is not gray",
                            where=where, flag=f, color=str(p["color"])):
                return False
        else:
            if not c.expect(p["v"] is not None and close(p["v"], value),
                            "a run is not colored by its value", where=where,
                            flag=f, shown=str(p["v"]), value=float(value),
                            z=str(z)[:60]):
                return False
    c.expect(len(used) == len(pts), "a point is shown which is no run of the "
             "slice", where=where, extra=len(pts) - len(used),
             first=str([(p["x"], p["y"]) for k, p in enumerate(pts)
                        if k not in used][:2]))
    return True


def texts(legend):
    return [t.get_text() for t in legend.get_texts()]


def check_legend(c, legend, flags, table, where):
    """exactly the flags shown, each with a marker of one of them"""
    if any(table.get(f) is None for f in flags):
        return
    names = {table[f][3] for f in flags}
    got = texts(legend)
    c.expect(len(got) == len(set(got)) and set(got) == names, "the legend "
             "does not list the flags shown", where=where, got=str(got)[:300],
             want=str(sorted(names))[:300])
    for h, t in zip(legend.legend_handles, got):
        if isinstance(h, PathCollection):
            c.expect(any(same_path(h.get_paths()[0], table[f][0])
                         for f in flags if table[f][3] == t),
                     "the legend has another marker than the runs",
                     where=where, entry=t)


def table_of(flag, custom):
    if custom is not None:
        return custom
    k = "SN_type" if "SN_type" in flag else "state" if (
        "CO_type" in flag or "state" in flag) else flag
    return copy.deepcopy(DEFAULT_MARKERS_COLORS_LEGENDS[k])


def custom(rng, flag, want):
    """own markers for the flags: {flag: [marker, width, color, legend]}"""
    fl = sorted(set(want.flags(flag)))
    marks = list(rng.permutation(MARKS))
    cols = ["red", "#12ab9f", None, None, None, [(.1, .4, .9)], "black"]
    t = {}
    for i, f in enumerate(fl):
        t[f] = [str(marks[i % len(marks)]), int(rng.integers(1, 3)),
                cols[int(rng.integers(len(cols)))],
                "flag %d" % (i if rng.random() < .8 else 0)]
    return t


XY = ["star_1_mass", "star_2_mass", "period_days", "mass_ratio",
      "binary_separation"]
FLAGS = ["termination_flag_1", "termination_flag_2", "termination_flag_3",
         "termination_flag_4", "combined_TF12", "debug",
         "interpolation_class", "interpolation_class_errors",
         "S1_%s_CO_type" % NAMES[0], "S2_%s_SN_type" % NAMES[1], "S1_state"]
ZS = [None, "star_1_mass", "period_days", "S1_log_L", "S2_log_R", "log_L",
      "relative_change_star_1_mass", "relative_change_period_days",
      "S1_%s_mass" % NAMES[0], "S2_%s_M4" % NAMES[1], "array",
      "binary_separation"]


def snapshot(g):
    return (np.array(g.initial_values).copy(), np.array(
        g.final_values).copy())


def unaltered(c, g, before, where):
    a, b = snapshot(g)
    for u, v, name in ((before[0], a, "initial"), (before[1], b, "final")):
        ok = u.dtype == v.dtype and all(
            np.array_equal(u[k], v[k], equal_nan=u[k].dtype.kind == "f")
            for k in u.dtype.names)
        c.expect(ok, "plotting altered the %s values of the grid" % name,
                 where=where)


def draw(c, g, x, y, z, where, **kw):
    try:
        g.plot2D(x, y, z, close_fig=False, **kw)
    except Exception as e:
        c.expect(False, "the figure fails", where=where, error=repr(e)[:300])
        return None
    return plt.gcf()


def scale(c, figure, zs, shown_sel, kw, where):
    """one color scale in the whole figure"""
    cl = {p["clim"] for ax in figure.axes if ax.get_label() != "<colorbar>"
          for p in shown(ax) if p["v"] is not None}
    if not cl:
        return
    c.count("scales")
    lo, hi = sorted(cl)[0]
    c.expect(all(close(lo, u) and close(hi, v) for u, v in cl),
             "points of a figure have different color scales", where=where,
             scales=str(sorted(cl)[:3]))
    if "zmin" in kw:
        c.expect(close(lo, kw["zmin"]) and close(hi, kw["zmax"]), "the color "
                 "scale is not the one asked for", where=where, lo=lo, hi=hi)
    elif shown_sel is not None:
        v = zs[shown_sel]
        v = v[np.isfinite(v)]
        if v.max() - v.min() < 1e-6 * max(1, abs(v.max())):
            return
        c.expect(close(lo, v.min()) and close(hi, v.max()), "the color scale "
                 "does not span the values shown", where=where, lo=lo, hi=hi,
                 want=str((v.min(), v.max())))


def pick(rng, want, g):
    x, y = rng.choice(XY, 2, replace=False)
    flag = str(rng.choice(FLAGS))
    z = ZS[int(rng.integers(len(ZS)))]
    if z is not None and z == "array":
        z = rng.normal(size=len(want.runs))
    kw = dict(log10_x=bool(rng.random() < .5), log10_y=bool(rng.random() < .5))
    if z is not None and not (isinstance(z, np.ndarray) or "relative" in z
                              or "log_" in z):
        kw["log10_z"] = bool(rng.random() < .5)
    own = None
    if rng.random() < .5:
        own = custom(rng, flag, want)
        k = "SN_type" if "SN_type" in flag else "state" if (
            "CO_type" in flag or "state" in flag) else flag
        kw["MARKERS_COLORS_LEGENDS"] = {k: copy.deepcopy(own)}
    return str(x), str(y), flag, z, kw, own


def label(key, log):
    return DEFAULT_LABELS[key][1 if log else 0]


@family("slices", 60, 600)
def slices(rng, c):
    """one panel, with none, one or two sliced variables"""
    runs, g = make(rng, c)
    want = Want(runs)
    before = snapshot(g)
    for rep in range(2):
        x, y, flag, z, kw, own = pick(rng, want, g)
        sel = np.ones(len(runs), bool)
        kind = int(rng.integers(3))
        for d, key in zip(("3D", "4D")[:kind], rng.permutation(
                ["mass_ratio", "period_days"])):
            v = want.initial(str(key))
            if rng.random() < .5:        # bounds are values of the grid
                lo, hi = sorted(rng.choice(v, 2))
            else:
                lo, hi = sorted(10 ** rng.uniform(*np.log10(
                    [v.min(), v.max()]), 2))
            kw.update({"grid_" + d: True, "slice_%s_var_str" % d: str(key),
                       "slice_%s_var_range" % d: (float(lo), float(hi))})
            sel &= (v >= lo) & (v <= hi)
        if not sel.any():
            c.count("empty")
            continue
        table = table_of(flag, own)
        zs = None
        if z is not None:
            zs = want.final(z)
            zs = np.log10(zs) if kw.get("log10_z") else zs
            usable = sel & np.isfinite(zs)
            if not usable.any():
                continue
            # a flag whose values are all missing warns and draws nothing
            fl = np.array(want.flags(flag))
            if any(not np.isfinite(zs[sel & (fl == f)]).any()
                   for f in set(fl[sel])):
                continue
        if rng.random() < .3:
            kw.update(zmin=-3., zmax=float(rng.uniform(1, 5)))
        if rng.random() < .3:
            kw.update(xmin=-1., xmax=7.5, ymin=-2.5, ymax=3.)
        where = "%s %s %s %s %s" % (x, y, flag, z if not isinstance(
            z, np.ndarray) else "array", kind)
        f = draw(c, g, x, y, z, where, termination_flag=flag, **kw)
        if f is None:
            return
        ax = f.axes[0]
        if not compare(c, ax, want, flag, x, y, z, sel, table, kw["log10_x"],
                       kw["log10_y"], kw.get("log10_z", False), where):
            return
        fl = [v for v, s in zip(want.flags(flag), sel) if s]
        check_legend(c, ax.get_legend(), fl, table, where)
        c.expect(ax.get_xlabel() == label(x, kw["log10_x"])
                 and ax.get_ylabel() == label(y, kw["log10_y"]),
                 "the axes are labelled for other variables", where=where,
                 got=(ax.get_xlabel(), ax.get_ylabel()))
        if "xmin" in kw:
            c.expect(np.allclose(ax.get_xlim(), (-1, 7.5)) and np.allclose(
                ax.get_ylim(), (-2.5, 3)), "the limits of the axes are not "
                "those asked for", where=where, got=(ax.get_xlim(),
                                                     ax.get_ylim()))
        if zs is not None:
            col = np.array([table.get(v) is not None
                            and table[v][2] is None
                            for v in want.flags(flag)])
            # (the scale spans all the runs of the slice)
            scale(c, f, zs, sel if col.any() else None, kw, where)
            c.count("colored")
            key = None if isinstance(z, np.ndarray) else z.replace(
                "S1_", "").replace("S2_", "")
            bars = [a for a in f.axes if a.get_label() == "<colorbar>"]
            c.expect(len(bars) <= 1, "more than one color bar", where=where)
            if key in DEFAULT_LABELS:
                for a in bars:
                    c.expect(label(key, kw.get("log10_z")) in (
                        a.get_xlabel(), a.get_ylabel()), "the color bar is "
                        "labelled for another variable", where=where,
                        got=(a.get_xlabel(), a.get_ylabel()))
                    c.count("color_bars")
        c.count("sliced%d" % kind)
        c.seen("slice", flag, kind, z is None, own is None)
        plt.close("all")
        unaltered(c, g, before, where)
    g.close()


@family("panels", 40, 400)
def panels(rng, c):
    """several slices in one figure: each panel shows its own"""
    runs, g = make(rng, c, n=int(rng.integers(15, 45)))
    want = Want(runs)
    before = snapshot(g)
    x, y, flag, z, kw, own = pick(rng, want, g)
    keys = [str(k) for k in rng.permutation(["mass_ratio", "star_2_mass"])]
    rngs = {}
    for d, key in (("3D", keys[0]), ("4D", keys[1])):
        v = np.sort(want.initial(key))
        n = int(rng.integers(2, 5)) if d == "3D" else int(rng.integers(1, 3))
        q = np.quantile(v, np.linspace(0, 1, n + 1))
        q = [float("%.4g" % u) for u in q]
        q[0], q[-1] = q[0] * .9, q[-1] * 1.1
        rngs[d] = [(a, b) for a, b in zip(q[:-1], q[1:])]
    use4 = rng.random() < .4
    kw.update(grid_3D=True, slice_3D_var_str=keys[0],
              slice_3D_var_range=rngs["3D"])
    if use4:
        kw.update(grid_4D=True, slice_4D_var_str=keys[1],
                  slice_4D_var_range=rngs["4D"] if len(rngs["4D"]) > 1
                  else rngs["4D"][0])
    kw.update(max_cols=int(rng.integers(1, 5)))
    kw["legend_pos"] = (int(rng.integers(1, 4)),) * 2
    if z is not None:
        zs = want.final(z)
        zs = np.log10(zs) if kw.get("log10_z") else zs
        if not np.isfinite(zs).all():
            z = None
            kw.pop("log10_z", None)
    if kw["legend_pos"][0] > kw["max_cols"]:
        kw["legend_pos"] = (1, 1)
    table = table_of(flag, own)
    v3 = want.initial(keys[0])
    v4 = want.initial(keys[1])
    first = (v3 >= rngs["3D"][0][0]) & (v3 <= rngs["3D"][0][1])
    if use4:
        first &= (v4 >= rngs["4D"][0][0]) & (v4 <= rngs["4D"][0][1])
    if not first.any():
        c.count("empty")
        g.close()
        return
    where = "%s %s %s %s %s" % (x, y, flag, "array" if isinstance(
        z, np.ndarray) else z, kw["legend_pos"])
    f = draw(c, g, x, y, z, where, termination_flag=flag, **kw)
    if f is None:
        return
    todo = {}
    for a in rngs["3D"]:
        for b in (rngs["4D"] if use4 else [None]):
            parts = ["%s" % round(.5 * (a[0] + a[1]), 15)]
            if use4 and len(rngs["4D"]) > 1:
                parts.append("%s" % round(.5 * (b[0] + b[1]), 15))
            todo[tuple("={}$".format(p) for p in parts)] = (a, b)
    fl = []
    for ax in f.axes:
        t = [u.get_text() for u in ax.texts]
        hits = [k for k in todo if t and all(p in t[0] for p in k)]
        if not hits:
            continue
        if not c.expect(len(hits) == 1, "a slice is shown twice or not named",
                        where=where, text=t[0]):
            return
        a, b = todo.pop(hits[0])
        sel = (v3 >= a[0]) & (v3 <= a[1])
        if b is not None:
            sel &= (v4 >= b[0]) & (v4 <= b[1])
        if not compare(c, ax, want, flag, x, y, z, sel, table, kw["log10_x"],
                       kw["log10_y"], kw.get("log10_z", False),
                       where + " panel %s" % (hits[0],)):
            return
        fl += [u for u, s in zip(want.flags(flag), sel) if s]
        c.count("panels")
    c.expect(not todo, "a slice asked for has no panel", where=where,
             left=str(list(todo))[:200])
    lg = [ax.get_legend() for ax in f.axes if ax.get_legend() is not None]
    c.expect(len(lg) == 1, "the panels do not have one legend", where=where,
             n=len(lg))
    if lg:
        check_legend(c, lg[0], fl, table, where)
    if z is not None:
        scale(c, f, None, None, kw, where)
    plt.close("all")
    unaltered(c, g, before, where)
    c.seen("panels", len(rngs["3D"]), use4, flag, z is None)
    g.close()


@family("flags4", 10, 80)
def flags4(rng, c):
    """all four termination flags in one figure"""
    runs, g = make(rng, c)
    want = Want(runs)
    x, y = [str(v) for v in rng.choice(XY, 2, replace=False)]
    kw = dict(log10_x=bool(rng.random() < .5), log10_y=bool(rng.random() < .5))
    sel = np.ones(len(runs), bool)
    if rng.random() < .5:
        v = want.initial("period_days")
        lo, hi = sorted(float(u) for u in rng.choice(v, 2))
        kw.update(grid_3D=True, slice_3D_var_str="period_days",
                  slice_3D_var_range=(lo, hi))
        sel = (v >= lo) & (v <= hi)
    f = draw(c, g, x, y, None, "all", termination_flag="all", **kw)
    if f is None:
        return
    c.expect(len(f.axes) == 4, "not four panels", n=len(f.axes))
    for i, ax in enumerate(f.axes):
        flag = "termination_flag_%d" % (i + 1)
        t = table_of(flag, None)
        if i == 1:      # flags with '?' are their own here
            t = {k: v for k, v in t.items() if not any(
                r.final[flag] in ("?" + k,) for r in runs)}
        if not compare(c, ax, want, flag, x, y, None, sel, t, kw["log10_x"],
                       kw["log10_y"], False, "all: " + flag):
            return
    c.count("four")
    c.seen("four", len(runs))
    g.close()


@family("extra", 24, 200)
def extra(rng, c):
    """a second grid on top: its runs with its values"""
    runs, g = make(rng, c)
    runs2, g2 = make(rng, c, "b")
    want, want2 = Want(runs), Want(runs2)
    before, before2 = snapshot(g), snapshot(g2)
    x, y, flag, z, kw, own = pick(rng, want, g)
    kw.pop("MARKERS_COLORS_LEGENDS", None)
    if isinstance(z, np.ndarray):
        z = None
    both = Want(runs + runs2)
    if z is not None:
        v = both.final(z)
        if not np.isfinite(np.log10(v) if kw.get("log10_z") else v).all():
            z = None
            kw.pop("log10_z", None)
    sel = np.ones(len(runs) + len(runs2), bool)
    if rng.random() < .5:
        v = both.initial("mass_ratio")
        lo, hi = float(np.quantile(v, .15)), float(np.quantile(v, .85))
        kw.update(grid_3D=True, slice_3D_var_str="mass_ratio",
                  slice_3D_var_range=(lo, hi))
        sel = (v >= lo) & (v <= hi)
    if not sel[:len(runs)].any() or not sel[len(runs):].any():
        g.close(), g2.close()
        return
    where = "extra %s %s %s %s" % (x, y, flag, z)
    f = draw(c, g, x, y, z, where, termination_flag=flag, extra_grid=g2, **kw)
    if f is None:
        return
    compare(c, f.axes[0], both, flag, x, y, z, sel, table_of(flag, None),
            kw["log10_x"], kw["log10_y"], kw.get("log10_z", False), where)
    plt.close("all")
    unaltered(c, g, before, where)
    unaltered(c, g2, before2, where)
    c.count("extra")
    c.seen("extra", flag, z is None)
    g.close(), g2.close()


@family("onset", 24, 240)
def onset(rng, c):
    """values at the onset of Roche-lobe overflow"""
    runs, g = make(rng, c, n=int(rng.integers(6, 18)))
    want = Want(runs)
    x, y = [str(v) for v in rng.choice(
        ["star_1_mass", "star_2_mass", "period_days", "binary_separation"], 2,
        replace=False)]
    z = [None, "log_R", "binary_separation", "log_L"][int(rng.integers(4))]
    star = int(rng.integers(1, 3))
    kw = dict(log10_x=bool(rng.random() < .5), log10_y=bool(rng.random() < .5))
    flag = "debug"
    t = custom(rng, flag, want)
    for k in t.values():
        k[2] = None if z is not None or rng.random() < .5 else "red"
    xi, yi = want.initial(x), want.initial(y)
    pts, lines, vals = [], [], []
    for i, r in enumerate(runs):
        on = np.flatnonzero((r.bh["rl_relative_overflow_1"] >= -.05)
                            & (r.bh["lg_mtransfer_rate"] >= -12))
        if len(on):
            k = on[0]
            pts.append((r.bh[x][k], r.bh[y][k]))
            lines.append((r.bh[x][:k + 1], r.bh[y][:k + 1]))
            if z is not None:
                h = r.bh if z in r.bh.dtype.names else r.h[star - 1]
                vals.append(np.nan if h is None else h[z][k])
        else:
            pts.append((xi[i], yi[i]))
            vals.append(np.nan)
    if z is not None and not np.isfinite(np.array(vals, float)).any():
        g.close()
        return
    from posydon.visualization.plot2D import plot2D
    where = "onset %s %s %s %d" % (x, y, z, star)
    try:
        f = plot2D(g, x, y, z, selected_star_history_for_z_var=star,
                   termination_flag=flag, slice_at_RLO=True, close_fig=False,
                   MARKERS_COLORS_LEGENDS={flag: t}, **kw)()
    except Exception as e:
        c.expect(False, "the figure fails", where=where, error=repr(e)[:300])
        return
    ax = f.axes[0]

    def tr(v, log):
        return np.log10(v) if log else np.asarray(v, float)
    got = shown(ax)
    for i, (u, v) in enumerate(pts):
        if z is not None and not np.isfinite(vals[i]):
            continue
        u, v = float(tr(u, kw["log10_x"])), float(tr(v, kw["log10_y"]))
        hit = [p for p in got if close(p["x"], u) and close(p["y"], v)]
        if not c.expect(hit, "a run is not shown at its onset of RLO (or "
                        "initial values)", where=where, run=i, x=u, y=v):
            return
        if z is not None:
            c.expect(any(p["v"] is not None and close(p["v"], vals[i])
                         for p in hit), "a run is not colored by its value at "
                     "the onset", where=where, run=i, value=float(vals[i]),
                     shown=str([p["v"] for p in hit]))
        c.count("onsets")
    have = [ln.get_xydata() for ln in ax.lines]
    for u, v in lines:
        w = np.column_stack([tr(u, kw["log10_x"]), tr(v, kw["log10_y"])])
        c.expect(any(h.shape == w.shape and np.allclose(h, w)
                     for h in have), "a track to the onset is not drawn",
                 where=where)
    c.seen("onset", z, star, len(lines) > 0)
    g.close()


@family("repeat", 16, 120)
def repeat(rng, c):
    """a figure does not depend on the figures before it"""
    runs, g = make(rng, c, n=20)
    want = Want(runs)
    props = copy.deepcopy({k: v for k, v in PLOT_PROPERTIES.items()})

    def one(spec):
        x, y, flag, z, kw, own = spec
        try:
            g.plot2D(x, y, z, close_fig=False, termination_flag=flag, **kw)
        except Exception as e:
            c.expect(False, "the figure fails", error=repr(e)[:300],
                     flag=flag)
            return None
        f = plt.gcf()
        out = []
        for ax in f.axes:
            lg = ax.get_legend()
            out.append((
                [(p["x"], p["y"], p["v"], p["color"]) for p in shown(ax)],
                None if lg is None else (
                    texts(lg), lg.get_title().get_text(),
                    tuple(np.round(lg.get_bbox_to_anchor().bounds, 4))),
                [t.get_text() for t in ax.texts]))
        plt.close("all")
        return repr(out)
    specs = []
    for i in range(2):
        x, y, flag, z, kw, own = pick(rng, want, g)
        z = None
        kw.pop("log10_z", None)
        if rng.random() < .5:
            v = np.quantile(want.initial("mass_ratio"), [0, .5, 1])
            kw.update(grid_3D=True, slice_3D_var_str="mass_ratio",
                      slice_3D_var_range=[(float(v[0]), float(v[1])),
                                          (float(v[1]), float(v[2]))])
        specs.append((x, y, flag, z, kw, own))
    a = one(specs[0])
    b = one(specs[1])
    a2 = one(specs[0])
    b2 = one(specs[1])
    if None in (a, b, a2, b2):
        return
    c.expect(a == a2 and b == b2, "a figure changed after another one was "
             "drawn", first=specs[0][2], other=specs[1][2])
    now = {k: v for k, v in PLOT_PROPERTIES.items()}
    c.expect(repr(now) == repr(props), "drawing altered the default plot "
             "properties", changed=str([k for k in now if repr(now[k])
                                        != repr(props[k])]))
    # files
    d = os.path.join(SCRATCH, "fig_%d/" % c.index)
    os.makedirs(d, exist_ok=True)
    g.plot2D("star_1_mass", "period_days", None, path_to_file=d,
             fname="a.png", dpi=30)
    c.expect(os.listdir(d) == ["a.png"] and os.path.getsize(d + "a.png") > 500
             and not plt.get_fignums(), "the figure was not saved where asked, "
             "or not closed", files=os.listdir(d), open=plt.get_fignums())
    c.count("repeats")
    c.seen("repeat", specs[0][2], specs[1][2])
    g.close()


@family("tracks", 40, 400)
def tracks(rng, c):
    """1D: the histories of the runs"""
    runs, g = make(rng, c, n=int(rng.integers(3, 12)))
    ok = [i for i, r in enumerate(runs) if r.h[1] is not None]
    if not ok:
        return
    hist = str(rng.choice(["binary_history", "history1", "history2"]))
    idx = [int(i) for i in rng.choice(ok, int(rng.integers(1, min(
        4, len(ok)) + 1)), replace=False)]
    ask = idx[0] if len(idx) == 1 and rng.random() < .5 else idx
    idx = [ask] if isinstance(ask, int) else idx
    if hist == "binary_history":
        cols = ["age", "star_1_mass", "star_2_mass", "period_days",
                "binary_separation"]
        tab = [runs[i].bh for i in idx]
    else:
        cols = ["star_age", "log_L", "log_R", "he_core_mass", "log_Teff"]
        tab = [runs[i].h[int(hist[-1]) - 1] for i in idx]
    cols = [str(v) for v in rng.permutation(cols)]
    x = cols[0]
    ys = cols[1:1 + int(rng.integers(1, 4))]
    z = cols[4] if len(ys) == 1 and rng.random() < .5 else None
    pos = all((t[k] > 0).all() for t in tab for k in [x] + ys)
    kw = dict(log10_x=bool(pos and rng.random() < .4),
              log10_y=bool(pos and rng.random() < .4))
    where = "tracks %s %s %s %s" % (hist, x, ys, z)
    try:
        g.plot(ask, x, ys if len(ys) > 1 or rng.random() < .3 else ys[0], z,
               history=hist, close_fig=False, **kw)
    except Exception as e:
        c.expect(False, "the figure fails", where=where, error=repr(e)[:300])
        return
    f = plt.gcf()
    axes = [a for a in f.axes if a.get_label() != "<colorbar>"]
    c.expect(len(axes) == len(ys), "not one panel for each variable",
             n=len(axes), where=where)
    for ax, yk in zip(axes, ys):
        c.expect(len(ax.lines) == len(tab), "not one track for each run",
                 where=where, n=len(ax.lines))
        for ln, t in zip(ax.lines, tab):
            u = np.log10(t[x]) if kw["log10_x"] else t[x]
            v = np.log10(t[yk]) if kw["log10_y"] else t[yk]
            h = ln.get_xydata()
            c.expect(h.shape == (len(u), 2) and np.allclose(h[:, 0], u)
                     and np.allclose(h[:, 1], v), "a track is not the history "
                     "of its run", where=where)
            c.count("tracks")
        if z is not None:
            sc = [k for k in ax.collections if isinstance(k, PathCollection)]
            c.expect(len(sc) == len(tab), "tracks without colors",
                     where=where)
            for k, t in zip(sc, tab):
                c.expect(np.allclose(np.ma.filled(k.get_array(), np.nan),
                                     t[z]), "a track is not colored by its "
                         "values", where=where)
            lims = {k.get_clim() for k in sc}
            lo = min(t[z].min() for t in tab)
            hi = max(t[z].max() for t in tab)
            c.expect(all(close(a, lo) and close(b, hi) for a, b in lims),
                     "the color scale does not span the values of the tracks",
                     where=where, got=str(lims), want=str((lo, hi)))
        c.expect(ax.get_ylabel() == label(yk, kw["log10_y"]), "the panel is "
                 "labelled for another variable", where=where,
                 got=ax.get_ylabel())
    c.expect(axes[-1].get_xlabel() == label(x, kw["log10_x"]), "the x axis is "
             "labelled for another variable", where=where)
    c.seen("tracks", hist, len(ys), z is None, len(idx))
    g.close()


@family("hr", 30, 300)
def hr(rng, c):
    """HR diagrams, with and without the states of the stars"""
    runs, g = make(rng, c, n=int(rng.integers(3, 10)))
    ok = [i for i, r in enumerate(runs) if r.h[1] is not None]
    if not ok:
        return
    idx = [int(i) for i in rng.choice(ok, int(rng.integers(1, min(
        4, len(ok)) + 1)), replace=False)]
    s = int(rng.integers(1, 3))
    tab = [runs[i].h[s - 1] for i in idx]
    states = bool(rng.random() < .5)
    conv = DEFAULT_MARKERS_COLORS_LEGENDS["termination_flag_4"]
    cols = None
    if states:
        cols = []
        for i in idx:
            b = BinaryStar.from_run(g[i], history=True, profiles=False)
            star = b.star_1 if s == 1 else b.star_2
            st = [check_state_of_star(star, i=k, star_CO=False)
                  for k in range(len(star.mass_history))]
            if any(u not in conv for u in st):
                c.count("unknown_state")
                g.close()
                return
            cols.append([rgb(conv[u][2]) for u in st])
    where = "HR %d %s" % (s, states)
    try:
        g.HR(idx, history="history%d" % s, states=states, close_fig=False)
    except Exception as e:
        c.expect(False, "the figure fails", where=where, error=repr(e)[:300])
        return
    ax = plt.gcf().axes[0]
    if states:
        lcs = [k for k in ax.collections if isinstance(k, LineCollection)]
        c.expect(len(lcs) == len(tab), "not one track for each run",
                 where=where)
        for k, t, col in zip(lcs, tab, cols):
            seg = k.get_segments()
            p = np.column_stack([t["log_Teff"], t["log_L"]])
            c.expect(len(seg) == len(p) - 1 and all(
                np.allclose(q, p[i:i + 2]) for i, q in enumerate(seg)),
                "a track is not the history of its star", where=where)
            have = k.get_colors()[:, :3]
            c.expect(all(np.allclose(have[i % len(have)], col[i])
                         for i in range(len(seg))), "a track does not have the "
                     "colors of the states of its star", where=where)
            c.count("state_tracks")
    else:
        c.expect(len(ax.lines) == len(tab), "not one track for each run",
                 where=where)
        for ln, t in zip(ax.lines, tab):
            c.expect(np.allclose(ln.get_xydata(), np.column_stack(
                [t["log_Teff"], t["log_L"]])), "a track is not the history of "
                "its star", where=where)
            c.count("hr_tracks")
    lo, hi = sorted(ax.get_xlim())
    c.expect(ax.get_xlim()[0] > ax.get_xlim()[1], "the temperature does not "
             "increase to the left", where=where)
    c.expect(all(lo <= t["log_Teff"].min() and hi >= t["log_Teff"].max()
                 and ax.get_ylim()[0] <= t["log_L"].min()
                 and ax.get_ylim()[1] >= t["log_L"].max() for t in tab),
             "a track is outside of the axes", where=where,
             xlim=ax.get_xlim(), ylim=ax.get_ylim())
    c.seen("hr", s, states, len(idx))
    g.close()


CASES = ["A", "B", "C", "BA", "BB"]


@family("combined", 60, 600)
def combined(rng, c):
    """combination of interpolation class and mass-transfer history"""
    ic, tf, want = [], [], []
    for _ in range(60):
        k = str(rng.choice(["stable_MT", "unstable_MT"] * 3 + [
            "no_MT", "initial_MT", "not_converged", "stable_reverse_MT"]))
        kind = int(rng.integers(5))
        s = str(rng.choice(["1", "2"]))
        name = {"stable_MT": "Stable", "unstable_MT": "Unstable"}.get(k)
        q = "?" if rng.random() < .3 else ""
        if kind == 0:
            a = str(rng.choice(CASES))
            t, w = "%scase_%s%s" % (q, a, s), "%s case %s" % (name, a)
        elif kind == 1:
            seq = [str(v) for v in rng.choice(CASES, int(rng.integers(2, 5)))]
            t = q + "case_" + "/".join(v + s for v in seq)
            w = "%s case %s%s" % (name, seq[0], seq[-1])
        elif kind == 2:
            seq = [str(v) for v in rng.choice(CASES, int(rng.integers(2, 4)))]
            o = "2" if s == "1" else "1"
            t = q + "case_" + "/".join(
                [v + s for v in seq[:-1]] + [seq[-1] + o])
            w = "Reverse %s MT" % (name or "").lower()
        elif kind == 3:
            t, w = "contact_during_MS", "%s contact" % name
        else:
            t, w = "case_nonburning" + s, "%s case n" % name
        w = {"no_MT": "no_RLOF", "initial_MT": "Initial RLOF",
             "not_converged": "Not converged",
             "stable_reverse_MT": "Reverse stable MT"}.get(k, w)
        ic.append(k), tf.append(t), want.append(w)
    keep = list(tf)
    got = combine_TF12(np.array(ic), np.array(tf, dtype="U70"))
    bad = [(i, t, str(g), w) for i, t, g, w in zip(ic, tf, got, want)
           if str(g) != w]
    c.expect(not bad, "class and mass-transfer history are combined to "
             "another flag", first=str(bad[:2]))
    c.expect(keep == tf, "the flags were altered")
    c.count("combined", 60)
    c.seen("combined", len(set(want)))


for k, v in (("points", 1500), ("panels", 40), ("onsets", 60),
             ("tracks", 60), ("hr_tracks", 15), ("state_tracks", 5),
             ("extra", 8), ("four", 5), ("repeats", 8), ("colored", 10),
             ("combined", 1000), ("color_bars", 3)):
    ck.require(k, v)

if __name__ == "__main__":
    sys.exit(ck.main())
