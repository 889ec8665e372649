"""C23  Post-processing adds the right quantities to every run of a grid."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import copy
import json
import shutil
import tempfile
import numpy as np
import h5py
import sn

ENGINES = ["N20", "S19.8", "W15", "W20", "W18"]


def build(data):
    g = np.random.default_rng(77)

    def fn(name, x, m):
        u = g.uniform(-1, 1)
        return {"mu4": 0.05 + 0.02 * m + 0.03 * u,
                "M4": 1.35 + 0.06 * m + 0.15 * u,
                "Xi": 0.05 * m + 0.2 + 0.2 * u,
                "sc": 0.85 + 0.045 * m + 0.1 * u}[name]
    sn.build_patton(data, fn)
    d = os.path.join(data, "Sukhbold+16")
    os.makedirs(d)
    for eng in ENGINES:
        he = np.sort(g.uniform(2, 16, 60))
        st = np.where(g.uniform(size=60) < 0.55, 13, 14)
        st[0], st[-1] = 13, 14
        rem = np.where(st == 13, g.uniform(1.2, 2.0, 60), he)
        with open(os.path.join(d, "results_%s_table.csv" % eng), "w") as f:
            f.write("Mzams,stellar_state,He_c_mass,Rem_mass,fallback_mass\n")
            for a, b, r in zip(he, st, rem):
                f.write("%r,%d,%r,%r,0.0\n" % (float(3 * a), int(b), float(a),
                                               float(r)))


vk.setup_env(build)
from posydon.binary_evol.SN.step_SN import StepSN
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar
from posydon.grids.SN_MODELS import (SN_MODELS, DEFAULT_SN_MODEL,
                                     get_SN_MODEL_NAME)
from posydon.grids.psygrid import PSyGrid
from posydon.grids.post_processing import (post_process_grid,
                                           add_post_processed_quantities)
from posydon.utils import common_functions as cf
import mesa
import h5grid
import phys as P

C = vk.Check(
    "C23",
    "synthetic binary and single-star grids of all classes, flags and donor "
    "sequences are post-processed by the real code, whole and in parts, and "
    "written back; every column is compared with stars built from the tables "
    "and collapsed one by one; signature = (grid, class, flag, which star, "
    "remnant, refused or not)")

CC = ["SN_type", "f_fb", "mass", "spin", "m_disk_accreted", "m_disk_radiated",
      "CO_interpolation_class", "M4", "mu4", "h1_mass_ej", "he4_mass_ej"]
CE = ["%s_CE_%scent" % (q, v) for q in ("lambda", "m_core", "r_core")
      for v in ("1", "10", "30", "pure_He_star_10")]
ONE = ["Primary has depleted central carbon",
       "Primary got stopped before central carbon depletion",
       "Primary enters pair-instability regime",
       "Primary enters pulsational pair-instability regime"]
TWO = [x.replace("Primary", "Secondary") for x in ONE]
REST = ["gamma_center_limit", "max_age", "envelope_mass_limit",
        "min_timestep_limit", "offcenter neon ignition for primary"]
COLLAPSING = ["H-rich_Core_C_depleted", "H-rich_Core_He_depleted",
              "stripped_He_Core_He_depleted", "stripped_He_Core_C_depleted",
              "stripped_He_non_burning", "H-rich_non_burning",
              "H-rich_Shell_H_burning", "accreted_He_Shell_H_burning",
              "accreted_He_non_burning"]
TF2 = {"no_MT": ["no_RLOF"], "initial_MT": ["initial_RLOF"],
       "not_converged": ["None", "case_A1", "no_RLOF"],
       "stable_MT": ["case_A1", "case_B1", "case_C1", "case_BA1", "case_BB1",
                     "case_nonburning1", "case_A1/B1", "case_A1/B1/C1",
                     "case_B1/BB1", "case_A1/A2", "case_A1/B2", "?case_B1",
                     "contact_during_MS", "case_BA1/BB1", "case_B1/nonburning1",
                     "case_A2", "case_B2"],
       "stable_reverse_MT": ["case_A1/A2", "case_B1/A2"],
       "unstable_MT": ["case_A1", "case_B1", "L2_RLOF", "case_A1/B1",
                       "case_A1/A2", "contact_during_MS", "case_C1"]}


def words(ic, tf):
    """published legend of the class and the donor sequence"""
    if tf.startswith("?case"):
        tf = tf[1:]
    if ic == "initial_MT":
        return "Initial RLOF", "Initial RLOF"
    if ic == "not_converged":
        return ("Not converged",) * 2
    if ic == "no_MT":
        return ("no_RLOF",) * 2
    s = "unstable" if ic == "unstable_MT" else "stable"
    S = s.capitalize()
    if ic == "stable_reverse_MT" or ("1" in tf and "2" in tf
                                     and tf.startswith("case")):
        return ("Reverse %s MT" % s,) * 2
    if tf == "contact_during_MS":
        return (S + " contact",) * 2
    if tf == "L2_RLOF":
        return (S + " L2 RLOF",) * 2
    q = [x.replace("case_", "")[:-1] for x in tf.split("/")]
    q = ["n" if x == "nonburning" else x for x in q]
    return ("%s case %s" % (S, q[0] if len(q) == 1 else q[0] + q[-1]),) * 2


def profile(rng, m, hrich):
    n = int(rng.integers(30, 90))
    q = np.unique(np.round(np.concatenate(
        ([.02], np.sort(rng.uniform(.021, 1, n)), [1.])), 8))
    R = float(10 ** rng.uniform(-.3, 1.))
    r = R * q ** rng.uniform(.7, 1.6)
    vol = 4 * np.pi / 3 * np.diff(np.concatenate(([0.], r ** 3))) \
        * P.RSUN ** 3
    rho = np.diff(np.concatenate(([0.], m * q))) * P.MSUN / vol
    om = P.G * m * P.MSUN / P.C * 10 ** rng.uniform(-2, .6) \
        / (r * P.RSUN) ** 2 * q ** rng.uniform(.8, 4.)
    x = np.where(q > .6, .7 if hrich else 0., 0.)
    y = np.where(q > .3, 1 - x - .02, .1)
    d = {c: rng.random(len(q)) for c in mesa.PROFILE}
    d.update(mass=m * q, radius=r, logRho=np.log10(rho), omega=om,
             x_mass_fraction_H=x, y_mass_fraction_He=y,
             z_mass_fraction_metals=1 - x - y)
    return mesa.table(mesa.PROFILE, {k: v[::-1] for k, v in d.items()})


def touch(rng, h, m, s):
    n = len(h)
    h["he_core_mass"] = np.linspace(.0, m * rng.uniform(.2, .9), n)
    h["co_core_mass"] = h["he_core_mass"] * rng.uniform(.5, .9)
    h["avg_c_in_c_core"] = rng.uniform(.08, .45, n)
    h["log_total_angular_momentum"] = rng.uniform(45, 52, n)
    h["total_moment_of_inertia"] = 10 ** rng.uniform(53, 57, n)
    h["surface_he4"] = .98 - h["surface_h1"]
    for c in ("surface_c12", "surface_n14", "surface_o16", "center_n14",
              "center_o16"):
        h[c] = rng.uniform(0, .01, n)
    if rng.random() < .1:
        h["surface_n14"][-1] = np.nan
    if rng.random() < .1:
        h["center_n14"][-1] = np.nan
    h["log_R"] = rng.uniform(-.3, 2., n)
    if rng.random() < .4:
        h["center_gamma"][-1] = rng.choice([10., 9.99, 12., 30.])


def run(rng, co, ic=None):
    ic = str(rng.choice(list(TF2), p=[.2, .1, .1, .35, .1, .15])) \
        if ic is None else ic
    m1 = float(10 ** rng.uniform(.8, 1.8))
    m2 = float(m1 * rng.uniform(.2, 1.))
    r = h5grid.R(rng, m1, m2, float(10 ** rng.uniform(0, 3)), co=co, cls=ic,
                 n=int(rng.integers(6, 16)))
    for s in (0, 1):
        h = r.h[s]
        if h is None:
            continue
        if rng.random() < .7:       # a star that reaches the end
            st = mesa.stellar(rng, h["model_number"], h["star_age"],
                              (m1, m2)[s], list(h.dtype.names),
                              str(rng.choice(["c", "c", "he"])))
            for c in ("center_h1", "center_he4", "center_c12", "log_LH",
                      "log_LHe", "log_Lnuc"):
                h[c] = st[c]
        touch(rng, h, (m1, m2)[s], s)
        r.prof[s] = None if rng.random() < .12 else profile(
            rng, float(r.bh["star_%d_mass" % (s + 1)][-1]),
            h["surface_h1"][-1] > .01)
    r.final = {k: v for k, v in r.final.items() if k.startswith("term")
               or k == "interpolation_class"}
    u = rng.random()
    pool = ONE if u < .4 else TWO if u < .7 else \
        ["gamma_center_limit"] if u < .85 else REST
    r.final["termination_flag_1"] = str(rng.choice(pool))
    r.final["termination_flag_2"] = str(rng.choice(TF2[ic]))
    r.blank = False
    return r


def build_star(h, prof, Z, extra, co):
    """a star as its tables say"""
    s = SingleStar()
    if h is not None:
        for c in h.dtype.names:
            a = {"spin_parameter": "spin", "star_mass": "mass"}.get(c, c)
            if c in ("model_number", "star_age", "spin_parameter_", "state"):
                continue
            if hasattr(s, a):
                setattr(s, a, float(h[c][-1]))
                setattr(s, a + "_history", [float(v) for v in h[c]])
    for k, v in extra.items():
        setattr(s, k, float(v[-1]))
        setattr(s, k + "_history", [float(x) for x in v])
    s.metallicity = Z
    n = len(h) if h is not None else len(next(iter(extra.values())))
    s.state_history = [cf.check_state_of_star(s, i=i, star_CO=co)
                       for i in range(n)]
    s.state = s.state_history[-1]
    s.profile = None if prof is None else prof.copy()
    s.avg_c_in_c_core_at_He_depletion = None
    s.co_core_mass_at_He_depletion = None
    return s


def stars_of(r):
    out = []
    for s in (0, 1):
        x = {"mass": r.bh["star_%d_mass" % (s + 1)],
             "lg_mdot": r.bh["lg_mstar_dot_%d" % (s + 1)],
             "lg_system_mdot": r.bh["lg_system_mdot_%d" % (s + 1)],
             "lg_wind_mdot": r.bh["lg_wind_mdot_%d" % (s + 1)]}
        out.append(build_star(r.h[s], r.prof[s], .0142, x, r.h[s] is None))
    return out


STEP = {}
# Maltsev+25 draws some of its outcomes at random
FIXED = [k for k, v in SN_MODELS.items()
         if "Maltsev" not in v.get("mechanism", "")]


def collapse(name, s):
    """None: refused"""
    if name not in STEP:
        STEP[name] = StepSN(**dict(DEFAULT_SN_MODEL, **SN_MODELS[name],
                                   allow_spin_None=True))
    s = copy.deepcopy(s)
    try:
        STEP[name].collapse_star(s)
    except Exception:
        return None
    if not isinstance(s.state, str) or not isinstance(s.SN_type, str):
        return None
    for k in ("f_fb", "mass", "m_disk_accreted", "m_disk_radiated"):
        if not isinstance(getattr(s, k), float):
            return None
    for k in ("spin", "M4", "mu4", "h1_mass_ej", "he4_mass_ej"):
        v = getattr(s, k)
        if v is not None and not isinstance(v, float):
            return None
    return s


def depletion(s):
    for st in ("H-rich_Core_He_depleted", "stripped_He_Core_He_depleted"):
        if st in s.state_history:
            i = s.state_history.index(st)
            return s.avg_c_in_c_core_history[i], s.co_core_mass_history[i]
    return None, None


def per_star(s, used, co, ic):
    """expected columns of one star without core collapse"""
    w = {k: None for k in ["avg_c_in_c_core_at_He_depletion",
                           "co_core_mass_at_He_depletion", "surface_other",
                           "center_other"] + CE}
    if not used:
        w["state"] = None if ic in ("initial_MT", "not_converged") else \
            cf.check_state_of_star(s, star_CO=True)
        return w
    w["state"] = cf.check_state_of_star(s, star_CO=False)
    a, b = depletion(s)
    w["avg_c_in_c_core_at_He_depletion"] = a
    w["co_core_mass_at_He_depletion"] = b
    t = copy.deepcopy(s)
    try:
        with vk.quiet():
            cf.CEE_parameters_from_core_abundance_thresholds(t)
    except Exception:
        t = s
    for k in CE:
        w[k] = getattr(t, k)
    for where in ("surface", "center"):
        x = 1 - sum(getattr(s, "%s_%s" % (where, e))
                    for e in ("h1", "he4", "c12", "n14", "o16"))
        w[where + "_other"] = 0. if np.isnan(x) else x
    return w


def expected(r, co, names, single=False):
    ic = "no_MT" if single else r.cls
    tf1, tf2 = r.final["termination_flag_1"], \
        "no_RLOF" if single else r.final["termination_flag_2"]
    st = [r.star] if single else stars_of(r)
    w = {}
    used = ic in ("no_MT", "stable_MT", "unstable_MT", "stable_reverse_MT")
    for j, s in enumerate(st):
        is_co = j == 1 and co
        for k, v in per_star(s, used and not is_co, is_co, ic).items():
            w["S%d_%s" % (j + 1, k)] = v
    who = None
    if single:
        who = 0
    elif ic in ("no_MT", "stable_MT", "stable_reverse_MT"):
        if co or tf1 in ONE:
            who = 0
        elif tf1 in TWO:
            who = 1
        elif tf1 == "gamma_center_limit":
            who = next((j for j in (0, 1) if st[j].center_gamma is not None
                        and st[j].center_gamma >= 10), None)
    kind = "no collapse"
    for name in names:
        for j in range(len(st)):
            for q in CC + ["CO_type"]:
                w["S%d_%s_%s" % (j + 1, name, q)] = None
        if who is None or st[who].state not in COLLAPSING:
            continue
        x = collapse(name, st[who])
        kind = "refused"
        if x is None:
            continue
        kind = x.state
        p = "S%d_%s_" % (who + 1, name)
        for q in CC:
            if q != "CO_interpolation_class":
                w[p + q] = getattr(x, q)
        w[p + "CO_type"] = x.state
        w[p + "CO_interpolation_class"] = x.state + (
            "_reverse_MT" if x.state == "BH" and "case" in tf2
            and "1" in tf2 and "2" in tf2 else "")
    if not single:
        w["mt_history"] = words(ic, tf2)[0]
    return w, who, kind


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(b, str) or isinstance(a, str):
        return str(a) == str(b)
    return bool(a == b or (np.isnan(a) and np.isnan(b))
                or abs(a - b) <= 1e-9 * abs(b) + 1e-12)


def stored(v, got):
    """value in the file for a value in memory"""
    if isinstance(got, (bytes, str, np.str_)):
        return "None" if v is None else v
    return np.nan if v is None else v


LEGEND = {}


def legend(w):
    """the legend text of a combined class"""
    if not LEGEND:
        from posydon.visualization.plot_defaults import \
            DEFAULT_MARKERS_COLORS_LEGENDS as D
        LEGEND.update({k: v[3] for k, v in D["combined_TF12"].items()})
    return LEGEND[w]


class Single:
    pass


def single_run(rng):
    r = Single()
    m = float(10 ** rng.uniform(.8, 1.8))
    n = int(rng.integers(6, 16))
    cols = ["model_number", "star_age", "star_mass"] + mesa.STAR
    age = np.cumsum(rng.uniform(.1, 1, n)) * 1e6
    r.h = mesa.stellar(rng, np.arange(1., n + 1), age, m, cols,
                       str(rng.choice(["c", "c", "he", "ms"])))
    r.h["star_mass"] = m * np.linspace(1, rng.uniform(.5, 1), n)
    touch(rng, r.h, m, 0)
    r.prof = None if rng.random() < .1 else profile(
        rng, float(r.h["star_mass"][-1]), r.h["surface_h1"][-1] > .01)
    r.m = m
    r.final = {"termination_flag_1": str(rng.choice(ONE + REST)),
               "interpolation_class": "no_MT"}
    r.star = build_star(r.h, r.prof, .0142, {}, False)
    return r


def write_single(path, runs):
    ini, fin = [], []
    for r in runs:
        ini.append(dict({"S1_" + c: float(r.h[c][0])
                         for c in ["star_mass"] + mesa.STAR}, Z=.0142))
        fin.append(dict({"S1_" + c: float(r.h[c][-1])
                         for c in ["star_mass"] + mesa.STAR}, **r.final))
    with h5py.File(path, "w") as q:
        q.attrs["config"] = repr(str({"binary": False}))
        q["/grid/initial_values"] = h5grid.recs(ini)
        q["/grid/final_values"] = h5grid.recs(fin)
        q["/relative_file_paths"] = np.array(
            [b"/x/run%d" % i for i in range(len(runs))])
        for i, r in enumerate(runs):
            g = q.create_group("/grid/run%d" % i)
            g["history1"] = r.h
            if r.prof is not None:
                g["final_profile1"] = r.prof
    return path


def process(g, **kw):
    with vk.quiet():
        return post_process_grid(g, **kw)


@C.family("grid", quick=320, thorough=6000)
def grid(rng, c):
    d = tempfile.mkdtemp(dir=vk.scratch())
    g = None
    try:
        single = rng.random() < .25
        co = bool(not single and rng.random() < .4)
        n = int(rng.integers(1, 6))
        runs = [single_run(rng) if single else run(rng, co)
                for _ in range(n)]
        path = os.path.join(d, "g.h5")
        if single:
            write_single(path, runs)
        else:
            h5grid.write(path, runs)
        names = [str(x) for x in rng.choice(FIXED, 3, replace=False)]
        kw = dict(SN_MODELS={k: SN_MODELS[k] for k in names},
                  single_star=single)
        if not single:
            kw["star_2_CO"] = co
        g = PSyGrid()
        g.load(path)
        dirs, cols = process(g, **kw)
        c.expect(list(dirs) == list(g.MESA_dirs), "the columns come with the "
                 "runs they belong to")
        want = []
        for i, r in enumerate(runs):
            w, who, kind = expected(r, co, names, single)
            if not single:
                w["mt_history"] = legend(w["mt_history"])
            want.append(w)
            if i == 0:
                c.expect(set(w) == set(cols), "all columns are there",
                         missing=sorted(set(w) - set(cols))[:5],
                         extra=sorted(set(cols) - set(w))[:5])
            for k in w:
                if k in cols:
                    c.expect(len(cols[k]) == n and same(cols[k][i], w[k]),
                             "each quantity belongs to its run and star",
                             quantity=k, got=cols[k][i:i + 1], want=w[k],
                             run=i, who=who, kind=kind)
            c.seen(single, co, getattr(r, "cls", "-"),
                   r.final["termination_flag_1"].split(" ")[0], who, kind)
            c.count("collapsed" if kind not in ("no collapse", "refused")
                    else kind)
        # in parts
        if n > 1 and rng.random() < .6:
            k = int(rng.integers(1, n))
            parts = [process(g, index=[0, k], **kw),
                     process(g, index=[k, n], **kw)]
            one = process(g, index=k, **kw)
            c.expect(list(parts[0][0]) + list(parts[1][0])
                     == list(g.MESA_dirs) and list(one[0])
                     == [g.MESA_dirs[k]], "parts come with their runs")
            for q in cols:
                c.expect(all(same(a, b) for a, b in zip(
                    list(parts[0][1][q]) + list(parts[1][1][q]), cols[q]))
                    and len(one[1][q]) == 1 and same(one[1][q][0],
                                                     cols[q][k]),
                    "processing in parts gives the same", quantity=q)
            c.count("parts")
        # written back
        before = snapshot(path)
        if n > 1 and rng.random() < .3:
            bad = [dirs[1], dirs[0]] + list(dirs[2:])
            c.raises(ValueError, lambda: add_post_processed_quantities(
                g, bad, copy.deepcopy(cols)), "columns in another order are "
                "refused")
            c.expect(equal(before, snapshot(path)), "a refused addition "
                     "leaves the file alone")
        add_post_processed_quantities(g, dirs, copy.deepcopy(cols))
        if rng.random() < .4:              # again, onto the old columns
            h = PSyGrid()
            h.load(path)
            add_post_processed_quantities(h, dirs, copy.deepcopy(cols))
            c.count("added twice")
        g = PSyGrid()
        g.load(path)
        for i, w in enumerate(want):
            for k, v in w.items():
                m = next((x for x in names if "_%s_" % x in k), None)
                if m is None:
                    got = g.final_values[k][i]
                else:
                    got = g[i].get_SN_data(m)[k.replace(m + "_", "")]
                c.expect(same(got, stored(v, got)), "the grid holds what was "
                         "added", quantity=k, got=str(got), want=v)
        after = snapshot(path)
        c.expect(all(k in after and equal1(before[k], after[k])
                     for k in before if "SN_MODELS" not in k and not any(
                         k.startswith("/grid/final_values:" + x)
                         for x in want[0])), "everything else in the grid "
                 "stays", lost=[k for k in before if k not in after
                                or not equal1(before[k], after[k])][:5])
        c.count("grids")
    finally:
        if g is not None:
            g.close()
        shutil.rmtree(d, ignore_errors=True)


def snapshot(path):
    out = {}

    def visit(name, o):
        if isinstance(o, h5py.Dataset):
            a = o[()]
            if getattr(a, "dtype", None) is not None and a.dtype.names:
                for k in a.dtype.names:
                    out["/%s:%s" % (name, k)] = a[k]
            else:
                out["/" + name] = a
    with h5py.File(path, "r") as f:
        f.visititems(visit)
        out["attrs"] = np.array(sorted(str(x) for x in f.attrs.items()))
    return out


def equal1(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "SOU":
        return all((x.decode() if isinstance(x, bytes) else str(x))
                   == (y.decode() if isinstance(y, bytes) else str(y))
                   for x, y in zip(a.ravel(), b.ravel()))
    return np.array_equal(a, b, equal_nan=True)


def equal(a, b):
    return set(a) == set(b) and all(equal1(a[k], b[k]) for k in a)


@C.family("run to binary", quick=240, thorough=4000)
def from_run(rng, c):
    """a run turned into a binary or star"""
    d = tempfile.mkdtemp(dir=vk.scratch())
    g = None
    try:
        co = bool(rng.random() < .5)
        r = run(rng, co)
        if rng.random() < .5:
            for s in "12":
                for k in ("avg_c_in_c_core", "co_core_mass"):
                    r.final["S%s_%s_at_He_depletion" % (s, k)] = float(
                        rng.random())
        g = PSyGrid()
        g.load(h5grid.write(os.path.join(d, "g.h5"), [r]))
        hist = bool(rng.random() < .6)
        b = BinaryStar.from_run(g[0], history=hist, profiles=True)
        names = {"time": "age", "separation": "binary_separation",
                 "orbital_period": "period_days"}
        for k in ("time", "separation", "orbital_period",
                  "rl_relative_overflow_1", "rl_relative_overflow_2",
                  "lg_mtransfer_rate", "trap_radius", "acc_radius",
                  "t_sync_rad_1", "t_sync_conv_1", "t_sync_rad_2",
                  "t_sync_conv_2"):
            v = r.bh[names.get(k, k)]
            c.close(getattr(b, k), v[-1], "the orbit is the final one",
                    quantity=k)
            c.close(getattr(b, k + "_history"), v if hist else v[-1:],
                    "the history of the orbit is that of the run",
                    quantity=k)
        c.expect(b.eccentricity == 0 and set(b.eccentricity_history) == {0},
                 "runs are circular")
        for s, st, ref in ((0, b.star_1, None), (1, b.star_2, None)):
            ref = stars_of(r)[s]
            h = r.h[s]
            for k in ["mass", "lg_mdot", "lg_system_mdot", "lg_wind_mdot"] + \
                    ([] if h is None else ["spin", "log_R", "center_h1",
                                           "he_core_mass", "log_Teff" if
                                           hasattr(ref, "log_Teff") else
                                           "log_L", "surface_h1",
                                           "center_gamma", "log_LH"]):
                if not hasattr(ref, k):
                    continue
                c.close(getattr(st, k), getattr(ref, k), "stars have their "
                        "final values", quantity=k, star=s + 1)
                v = getattr(ref, k + "_history")
                c.close(getattr(st, k + "_history"), v if hist else v[-1:],
                        "stars have their own history", quantity=k,
                        star=s + 1)
            c.expect(st.state == ref.state and list(st.state_history) == (
                ref.state_history if hist else ref.state_history[-1:]),
                "states are inferred row by row", got=st.state_history,
                want=ref.state_history)
            c.close(st.metallicity, .0142, "metallicity of the run")
            p = r.prof[s]
            c.expect((p is None) == (st.profile is None) and (
                p is None or np.array_equal(st.profile["mass"], p["mass"])),
                "the final profile of the star is attached")
            for k in ("avg_c_in_c_core", "co_core_mass"):
                k += "_at_He_depletion"
                w = r.final.get("S%d_%s" % (s + 1, k))
                c.expect(same(getattr(st, k), w), "values at helium "
                         "depletion are taken over", quantity=k)
        c.seen(co, hist, r.cls)
        c.count("binaries")
        # a single star
        q = single_run(rng)
        g.close()
        g = PSyGrid()
        g.load(write_single(os.path.join(d, "s.h5"), [q]))
        s = SingleStar.from_run(g[0], history=hist, profile=True)
        for k in ("mass", "spin", "log_R", "center_h1", "he_core_mass",
                  "log_L", "surface_h1"):
            v = getattr(q.star, k + "_history")
            c.close(getattr(s, k), v[-1], "the star has its final values",
                    quantity=k)
            c.close(getattr(s, k + "_history"), v if hist else v[-1:],
                    "the star has its own history", quantity=k)
        c.expect(s.state == q.star.state and list(s.state_history) == (
            q.star.state_history if hist else q.star.state_history[-1:]),
            "states are inferred row by row")
        c.expect((q.prof is None) == (s.profile is None) and (
            q.prof is None or np.array_equal(s.profile["mass"],
                                             q.prof["mass"])),
            "the final profile of the star is attached")
        c.close(s.metallicity, .0142, "metallicity of the run")
    finally:
        if g is not None:
            g.close()
        shutil.rmtree(d, ignore_errors=True)


@C.family("model names", quick=60, thorough=600)
def model_names(rng, c):
    """a supernova configuration is recognised as the model it equals"""
    def differs(a, b):
        return any(a[k] != b[k] for k in DEFAULT_SN_MODEL
                   if "use_" not in k and k != "ECSN")
    full = {k: dict(DEFAULT_SN_MODEL, **v) for k, v in SN_MODELS.items()}
    for _ in range(20):
        name = str(rng.choice(list(full)))
        x = dict(full[name])
        what = "same"
        for _ in range(int(rng.integers(0, 2))):
            k = str(rng.choice(list(DEFAULT_SN_MODEL)))
            what = k
            v = x[k]
            x[k] = (not v) if isinstance(v, bool) else v + 1.25 \
                if isinstance(v, float) else "other"
        ok = [k for k in full if not differs(x, full[k])]
        with vk.quiet():
            got = get_SN_MODEL_NAME(x)
        c.expect((got is None) if not ok else got in ok, "the model has the "
                 "same settings", got=got, want=ok, changed=what)
        c.seen(what, bool(ok))
        c.count("configurations")


for k_, m_ in (("grids", 100), ("collapsed", 150), ("no collapse", 50),
               ("parts", 40), ("binaries", 100), ("configurations", 300)):
    C.require(k_, m_)
if __name__ == "__main__":
    sys.exit(C.main())
