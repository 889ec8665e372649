"""C21  Grids hold every usable MESA run once, faithfully."""
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import numpy as np

vk.setup_env()
import mesa
from posydon.grids.psygrid import PSyGrid, join_grids
from posydon.grids.termination_flags import (
    check_state_from_history, get_flag_from_MESA_output,
    get_flags_from_MESA_run, infer_interpolation_class)
from posydon.grids.scrubbing import (keep_after_RLO,
                                     keep_till_central_abundance_He_C)
from posydon.utils.common_functions import infer_star_state

C = vk.Check(
    "C21",
    "directories of synthetic MESA runs (complete, killed, restarted, gzipped, "
    "corrupt, repeated) are turned into grids, joined and edited by the real "
    "code; every stored number is compared with the tables that were written; "
    "signature = (family, options, kinds of runs, number kept)", case_timeout=60)
TABLES = ["binary_history", "history1", "history2", "final_profile1",
          "final_profile2"]
HE = ["surface_h1", "center_h1", "center_he4", "center_c12", "log_LH",
      "log_LHe", "log_Lnuc"]


class Dir:
    def __init__(self):
        self.n = 0
        self.d = os.path.join(vk.scratch(), "grid_%d" % os.getpid())

    def __enter__(self):
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def __call__(self, name):
        return os.path.join(self.d, name)


def select(a, cols):
    return None if a is None else a if cols is None else mesa.table(
        cols, {k: a[k] for k in cols})


def no_overflow(r):
    """a marker, so that later grids can withdraw a run"""
    fin = {"termination_flag_%d" % i: "ignored_no_RLO" for i in range(1, 5)}
    fin["interpolation_class"] = "ignored_no_RLO"
    return dict(ini=dict(star_1_mass=r.m1, star_2_mass=r.m2, period_days=r.P,
                         Z=float(r.key[-1])), fin=fin,
                tab=dict.fromkeys(TABLES), run=r)


def expected(r, cfg):
    """what the grid has to say about one run; None: left out"""
    b = r.binary
    t = {k: None if v is None else v.copy() for k, v in r.tables.items()}
    for k in TABLES:
        if r.broken == k:
            t[k] = None
    full = {k: t[k] for k in ("history1", "history2")}
    if b and t["binary_history"] is None or not b and t["history1"] is None:
        return None
    if r.broken == "age":
        return None
    s = {k: None if v is None else v.copy() for k, v in r.scrubbed().items()}
    he = {}
    for k in ("history1", "history2"):
        for h in (full[k], s[k]):
            if h is not None and cfg.get("He_core_fix", True):
                h["he_core_mass"] = np.maximum(h["he_core_mass"],
                                               h["co_core_mass"])
                h["he_core_radius"] = np.maximum(h["he_core_radius"],
                                                 h["co_core_radius"])
        he[k] = (np.nan, np.nan)
        if full[k] is not None:
            for row in full[k]:
                st = infer_star_state(star_CO=False,
                                      **{q: row[q] for q in HE})
                if "Core_He_depleted" in st:
                    he[k] = (row["avg_c_in_c_core"], row["co_core_mass"])
                    break
    main = s["binary_history"] if b else s["history1"]
    if len(main) == 0:
        return None
    tf1 = ""
    if cfg.get("stop_before_carbon_depletion") and b \
            and main["star_1_mass"][0] >= 100:
        s["binary_history"], s["history1"], s["history2"], tf1 = \
            keep_till_central_abundance_He_C(
                s["binary_history"], s["history1"], s["history2"])
        if len(s["binary_history"]) == 0:
            return None
    if cfg.get("start_at_RLO"):
        kept = keep_after_RLO(s["binary_history"], s["history1"],
                              s["history2"])
        if kept is None:
            return no_overflow(r) if cfg.get("initial_RLO_fix") else None
        s["binary_history"], s["history1"], s["history2"] = kept
    if not b and t["final_profile1"] is None \
            and not cfg.get("accept_missing_profile"):
        return None
    ini, fin = {}, {}
    for pre, k in (("", "binary_history"), ("S1_", "history1"),
                   ("S2_", "history2")):
        if s[k] is not None:
            cols = cfg["cols"][k]
            for q in s[k].dtype.names if cols is None else cols:
                ini[pre + q], fin[pre + q] = s[k][q][0], s[k][q][-1]
    if b and not cfg.get("start_at_RLO"):
        ini.update(star_1_mass=r.m1, star_2_mass=r.m2, period_days=r.P)
        n = 2 * np.pi / (r.P * 86400.)
        a = (1.32712440042e26 * (r.m1 + r.m2) / n ** 2) ** (1 / 3.) / 6.957e10
        ini["binary_separation"] = ("about", a)
    elif not b:
        ini["S1_star_mass"] = r.m1
    if s["history1"] is None and s["history2"] is None:
        ini.update(X=np.nan, Y=np.nan, Z=float(r.key[-1]))
    else:
        ini.update(X=("about", 1 - r.Z - r.Y), Y=r.Y, Z=r.Z)
    for i, k in ((1, "history1"), (2, "history2")):
        fin["S%d_avg_c_in_c_core_at_He_depletion" % i] = he[k][0]
        fin["S%d_co_core_mass_at_He_depletion" % i] = he[k][1]
    out = os.path.join(r.path, "out.txt" if b else
                       "out_star1_formation_step0.txt")
    out = out if os.path.exists(out) else out + ".gz"
    if b:
        fl = get_flags_from_MESA_run(
            out, binary_history=s["binary_history"], history1=s["history1"],
            history2=s["history2"],
            start_at_RLO=cfg.get("start_at_RLO", False), newTF1=tf1)
        for i in range(4):
            fin["termination_flag_%d" % (i + 1)] = fl[i] or ""
        fin["interpolation_class"] = infer_interpolation_class(*fl[:2])
    else:
        fin["termination_flag_1"] = get_flag_from_MESA_output(out)
        fin["termination_flag_3"] = check_state_from_history(
            s["history1"], s["history1"]["star_mass"])
    tab = {}
    for k in TABLES:
        tab[k] = select(s[k] if "profile" not in k else t[k],
                        cfg["cols"][k])
    if not b:
        tab["binary_history"] = tab["history2"] = tab["final_profile2"] = None
    return dict(ini=ini, fin=fin, tab=tab, run=r)


def text(v):
    return v.decode() if isinstance(v, bytes) else str(v)


def same(got, want):
    if isinstance(want, tuple):
        return abs(got / want[1] - 1) < 1e-3
    if isinstance(want, str):
        return text(got) == want[:70]
    return got == want or (np.isnan(got) and np.isnan(want))


def judge_values(c, row, want, where, path):
    for q in row.dtype.names:
        w = want.get(q)
        if w is None:
            v = row[q]
            c.expect(not isinstance(v, (float, np.floating)) or np.isnan(v),
                     where + " value of a missing table is NaN", column=q,
                     value=v)
            continue
        c.expect(same(row[q], w), where + " value is that of the run",
                 column=q, got=row[q], want=w, run=os.path.basename(path))
    miss = [q for q in want if q not in row.dtype.names
            and not q.endswith("_at_He_depletion")]
    c.expect(not miss, where + " values have every column", missing=miss)


def tables_same(a, b):
    if a is None or b is None:
        return (a is None) == (b is None)
    return (len(a) == len(b) and list(a.dtype.names) == list(b.dtype.names)
            and all(np.array_equal(a[q], b[q], equal_nan=True)
                    for q in a.dtype.names))


def judge_grid(c, g, exp, slim=False, order=None, ds=None):
    """exp: {path: expectation}"""
    dirs = [text(d) for d in g.MESA_dirs]
    c.expect(sorted(dirs) == sorted(exp), "grid holds every usable run once",
             got=[os.path.basename(d) for d in dirs],
             want=[os.path.basename(d) for d in exp])
    c.expect(len(g) == (0 if slim else len(dirs)), "length of the grid",
             n=len(g))
    if sorted(dirs) != sorted(exp):
        return
    c.expect(len(g.initial_values) == len(dirs)
             and len(g.final_values) == len(dirs), "one row per run")
    for i, d in enumerate(dirs):
        e = exp[d]
        judge_values(c, g.initial_values[i], e["ini"], "initial", d)
        judge_values(c, g.final_values[i], e["fin"], "final", d)
        if slim:
            continue
        v = g[i]
        for k in TABLES:
            a = v[k]
            w = e["tab"][k]
            if ds and a is not None and w is not None:
                judge_sampled(c, a, w, k)
            else:
                c.expect(tables_same(a, w), "stored table is that of the run",
                         table=k, run=os.path.basename(d),
                         got=None if a is None else (len(a), a.dtype.names),
                         want=None if w is None else (len(w), w.dtype.names))
            c.expect(tables_same(getattr(v, k), a), "attribute is the item")
        c.count("runs stored")


def judge_sampled(c, a, w, k):
    q = list(w.dtype.names)
    ok = list(a.dtype.names) == q
    rows = [tuple(r) for r in w.tolist()]
    got = [tuple(r) for r in a.tolist()]
    it = iter(rows)
    ok = ok and all(any(x == y for y in it) for x in got)
    c.expect(ok and got[0] == rows[0] and got[-1] == rows[-1],
             "down-sampled table is a selection of the rows with its ends",
             table=k, n=len(got), of=len(rows))


def config(rng, binary, extra):
    cfg = dict(binary=binary)
    if rng.random() < .3:
        cfg["He_core_fix"] = bool(rng.random() < .3)
    if rng.random() < .3:
        cfg["compression"] = [None, "", "lzf", "gzip", "gzip4"][
            int(rng.integers(5))]
    if binary and rng.random() < .25:
        cfg["start_at_RLO"] = True
    if rng.random() < .4:
        cfg["stop_before_carbon_depletion"] = True
    if not binary and rng.random() < .4:
        cfg["accept_missing_profile"] = True
    if rng.random() < .3:
        cfg["description"] = "a b ' \" %d" % rng.integers(99)
    star = (["model_number", "star_age", "star_mass"] if not binary else []) \
        + mesa.STAR
    cols = {"binary_history": mesa.BH, "history1": star,
            "history2": mesa.STAR, "final_profile1": mesa.PROFILE,
            "final_profile2": mesa.PROFILE}
    for k, opt in (("binary_history", "binary_history_saved_columns"),
                   ("history1", "star1_history_saved_columns"),
                   ("history2", "star2_history_saved_columns"),
                   ("final_profile1", "star1_profile_saved_columns"),
                   ("final_profile2", "star2_profile_saved_columns")):
        u = rng.random()
        if u < .15:
            cfg[opt], cols[k] = "all", None
        elif u < .3 and extra:
            cfg[opt] = list(extra[:1]) + list(cols[k][:2])
            cols[k] = list(cols[k]) + list(extra[:1])
        elif u < .4 and "profile" in k:
            cols[k] = ["mass", "radius"] + list(extra[1:])
            cfg[opt] = tuple(cols[k])
        elif u < .5:
            cfg[opt] = "minimum"
    return cfg, cols


def make_runs(rng, root, n, binary, extra, cfg, big=False):
    runs = []
    for i in range(n):
        r = mesa.Run(rng, root, i, binary=binary, extra=extra,
                     m1=round(float(rng.uniform(101, 130)), 4)
                     if rng.random() < .3 else None)
        u = rng.random()
        allcols = [o for o in cfg if cfg[o] == "all"]
        if u < .1:
            r.tables["binary_history" if binary else "history1"] = None
            r.what = "missing"
        elif u < .2 and not allcols:
            r.broken = str(rng.choice(["binary_history", "history1"]
                                      if binary else ["history1"]))
            if r.tables[r.broken] is None:
                r.broken = None
            r.what = "broken"
        elif u < .3 and r.tables["history1"] is not None:
            h = r.tables["history1"]
            if binary:           # nothing in common
                h["model_number"] += 1000
                r.what = "disjoint"
            else:
                r.tables["history1"] = h[:0]
                r.what = "empty"
        elif u < .4 and not binary:
            r.tables["final_profile1"] = None
            r.what = "no profile"
        else:
            r.what = "fine"
        r.write(rng)
        runs.append(r)
    return runs


def create(path, out, **kw):
    g = PSyGrid()
    with vk.quiet():
        g.create(path, out, warn="suppress", **kw)
    return g


def public(cfg):
    return {k: v for k, v in cfg.items() if k != "cols"}


C.require("runs stored", 200)
C.require("runs left out", 30)
C.require("replaced runs", 10)
C.require("withdrawn runs", 3)
C.require("forced initial overflow", 20)


def from_directory(rng, c, binary):
    with Dir() as d:
        extra = ["extra_a", "extra_b"][:int(rng.integers(3))]
        cfg, cols = config(rng, binary, extra)
        cfg["cols"] = cols
        roots = [d("a"), d("b")][:1 + int(rng.random() < .4)]
        runs = []
        for q in roots:
            sub = q if rng.random() < .6 else os.path.join(q, "deep", "er")
            os.makedirs(sub)
            runs.append(make_runs(rng, sub, int(rng.integers(2, 6)), binary,
                                  extra, cfg))
        if len(roots) == 2 and rng.random() < .8:     # same point again
            o = runs[0][0]
            r = mesa.Run(rng, os.path.dirname(runs[1][0].path), 99,
                         binary=binary, extra=extra, m1=o.m1, m2=o.m2, P=o.P)
            r.what = "fine"
            runs[1].append(r.write(rng))
        chosen = {}
        for rr in runs:
            for r in rr:
                if r.key in chosen:
                    c.count("replaced runs")
                chosen[r.key] = r
        c.note(cfg=public(cfg), runs=[(os.path.basename(r.path), r.what,
                                       r.broken) for r in chosen.values()])
        exp = {}
        for r in chosen.values():
            e = expected(r, cfg)
            if e is None:
                c.count("runs left out")
            else:
                exp[r.path] = e
        slim = rng.random() < .15
        if rng.random() < .15 and not slim:
            cfg["history_DS_error"] = float(rng.choice([.05, .5]))
            cfg["profile_DS_error"] = .1
        if not any(r.tables[k] is not None and r.broken != k
                   for r in chosen.values()
                   for k in ("binary_history", "history1", "history2")):
            c.stop()
        g = create(roots[0] if len(roots) == 1 else roots, d("g.h5"),
                   slim=slim, **public(cfg))
        ds = cfg.get("history_DS_error")
        judge_grid(c, g, exp, slim, ds=ds)
        for k, v in public(cfg).items():
            c.expect(g.config[k] == v or list(g.config[k]) == list(v),
                     "configuration is kept", key=k, got=g.config[k])
        g.close()
        h = PSyGrid(d("g.h5"))
        judge_grid(c, h, exp, slim, ds=ds)
        if not slim and exp:
            api(c, h, exp, rng)
        h.close()
        c.seen("create", binary, len(roots), slim, bool(ds),
               tuple(sorted(k for k in cfg if cfg[k] is True)),
               tuple(sorted({r.what for r in chosen.values()})))


def api(c, g, exp, rng):
    n = len(g)
    c.expect([v.index for v in g] == list(range(n)), "iteration is in order")
    for i in (n, n + 5, -1):
        c.raises(IndexError, lambda: g[i], "index out of range is refused",
                 index=i)
        c.expect(i not in g, "index out of range is not contained")
    c.expect(n - 1 in g, "last run is contained")
    c.raises(KeyError, lambda: g[0]["nonsense"], "unknown table is refused")
    i = int(rng.integers(n))
    c.expect(g[i]["initial_values"] == g.initial_values[i]
             or str(g[i].initial_values) == str(g.initial_values[i]),
             "view gives the initial values of its run")
    c.expect(str(g[i].final_values) == str(g.final_values[i]),
             "view gives the final values of its run")
    df = g.get_pandas_initial_final()
    c.expect(len(df) == n, "table of ends has one row per run")
    for q in g.initial_values.dtype.names:
        c.expect(np.array_equal(df["initial_" + q], g.initial_values[q],
                                equal_nan=True), "initial column", column=q)
    for q in g.final_values.dtype.names:
        c.expect(all(same(x, y if isinstance(y, float) else str(y)) for x, y in
                     zip(df["final_" + q], g.final_values[q])),
                 "final column", column=q)


@C.family("binary", 110, 1500)
def binary_grid(rng, c):
    from_directory(rng, c, True)


@C.family("single", 60, 800)
def single_grid(rng, c):
    from_directory(rng, c, False)


# ----------------------------------------------------- boundary of initial RLO
def boundary(known, m1, m2):
    if len(known) < 20:
        return None
    return min(known.items(),
               key=lambda q: (q[0][0] - m1) ** 2 + (q[0][1] - m2) ** 2)[1]


def rlo_runs(rng, root, npair, first=0):
    os.makedirs(root)
    pairs = [(round(float(rng.uniform(5, 50)), 4),
              round(float(rng.uniform(1, 5)), 4)) for _ in range(npair)]
    runs, i = [], first
    for m1, m2 in pairs:
        for P in np.sort(10 ** rng.uniform(0, 2, int(rng.integers(1, 3)))):
            r = mesa.Run(rng, root, i, m1=m1, m2=m2, P=float("%.4e" % P),
                         n=2, flag=mesa.INITIAL_RLO if rng.random() < .8
                         else None, mt="no", gz=False)
            r.initial = r.flag == mesa.INITIAL_RLO
            u = rng.random()
            if not r.initial and u < .5:
                r.tables["binary_history"] = None
            runs.append(r.write(rng))
            i += 1
    return runs


def detected(runs, exp):
    known = {}
    for r in runs:
        if r.initial and exp.get(r.path) is not None:
            k = (r.m1, r.m2)
            if k not in known or known[k][0] < r.P:
                f = exp[r.path]["fin"]
                known[k] = (r.P, f["termination_flag_3"],
                            f["termination_flag_4"])
    return known


def force(c, r, e, near):
    if e is None:
        ini = dict(star_1_mass=r.m1, star_2_mass=r.m2, period_days=r.P,
                   Z=float(r.key[-1]))
        e = dict(ini=ini, fin={}, tab=dict.fromkeys(TABLES), run=r)
        c.count("forced initial overflow without history")
    e["fin"] = dict(e["fin"], termination_flag_1="forced_initial_RLO",
                    termination_flag_2="forced_initial_RLO",
                    interpolation_class="initial_MT",
                    termination_flag_3=near[1], termination_flag_4=near[2])
    c.count("forced initial overflow")
    return e


def fixed(c, runs, cfg):
    exp = {r.path: expected(r, cfg) for r in runs}
    known = detected(runs, exp)
    out = {}
    for r in runs:
        near = boundary(known, r.m1, r.m2)
        e = exp[r.path]
        if not r.initial and near is not None and r.P < near[0]:
            e = force(c, r, e, near)
        if e is not None:
            out[r.path] = e
    return out, known


PLAIN = {"binary_history": mesa.BH, "history1": mesa.STAR,
         "history2": mesa.STAR, "final_profile1": mesa.PROFILE,
         "final_profile2": mesa.PROFILE}


@C.family("initial_overflow", 24, 300)
def initial_overflow(rng, c):
    with Dir() as d:
        cfg = dict(initial_RLO_fix=True, cols=PLAIN)
        runs = rlo_runs(rng, d("a"), int(rng.integers(16, 40)))
        exp, known = fixed(c, runs, cfg)
        c.note(known=len(known), runs=len(runs), kept=len(exp))
        g = create(d("a"), d("g.h5"), **public(cfg))
        judge_grid(c, g, exp)
        g.close()
        c.seen("initial overflow", len(known) >= 20, len(known))


@C.family("join", 70, 900)
def join(rng, c):
    with Dir() as d:
        fix = rng.random() < .25
        cfg = dict(initial_RLO_fix=True) if fix else \
            dict(start_at_RLO=True) if rng.random() < .3 else \
            dict(start_at_RLO=True, initial_RLO_fix=True) \
            if rng.random() < .5 else {}
        cfg["cols"] = PLAIN
        n = int(rng.integers(2, 4))
        want, all_known, src = {}, {}, {}
        paths = []
        previous = []
        for j in range(n):
            root = d("in%d" % j)
            if fix:
                runs = rlo_runs(rng, root, int(rng.integers(8, 22)), 100 * j)
            else:
                os.makedirs(root)
                runs = [mesa.Run(rng, root, 100 * j + i, gz=False)
                        for i in range(int(rng.integers(1, 5)))]
            again = [previous[int(q)] for q in rng.choice(
                len(previous), min(2, len(previous)), replace=False)] \
                if previous else []
            for i, o in enumerate(again):
                r = mesa.Run(rng, root, 100 * j + 50 + i, m1=o.m1, m2=o.m2,
                             P=o.P, gz=False, flag=o.flag if fix else None)
                r.initial = r.flag == mesa.INITIAL_RLO
                runs.append(r)
            for r in runs:
                if not os.path.exists(r.path):
                    r.write(rng)
            if fix:
                exp, known = fixed(c, runs, cfg)
            else:
                exp = {r.path: e for r in runs
                       for e in [expected(r, cfg)] if e is not None}
                known = {}
            if not exp:
                c.stop()
            create(root, d("g%d.h5" % j), **public(cfg)).close()
            paths.append(d("g%d.h5" % j))
            for k, v in known.items():
                if k not in all_known or all_known[k][0] < v[0]:
                    all_known[k] = v
            for p, e in exp.items():
                r = e["run"]
                if r.key in want:
                    c.count("replaced runs")
                if e["fin"]["termination_flag_1"] == "ignored_no_RLO":
                    c.count("withdrawn runs", r.key in want)
                    want.pop(r.key, None)
                else:
                    want[r.key] = e
            keys = {r.key for r in previous}
            previous += [r for r in runs if r.path in exp
                         and r.key not in keys]
        if len({str(PSyGrid(p).initial_values.dtype) for p in paths}) > 1:
            c.raises(TypeError, lambda: join_grids(
                paths, d("j.h5"), verbose=False), "grids of different columns "
                "are not joined")
            c.stop()
        if not want:
            c.stop()
        exp = {}
        for e in want.values():
            r = e["run"]
            f1 = e["fin"]["termination_flag_1"]
            if fix and not r.initial and f1 != "forced_initial_RLO":
                near = boundary(all_known, r.m1, r.m2)
                if near is not None and r.P < near[0]:
                    e = force(c, r, e, near)
            exp[r.path] = e
        with vk.quiet():
            join_grids(paths, d("j.h5"), compression=str(
                rng.choice(["", "lzf", "gzip", "gzip9"])),
                description="joined %d" % n, verbose=False)
        g = PSyGrid(d("j.h5"))
        judge_grid(c, g, exp)
        c.expect(g.config["description"] == "joined %d" % n,
                 "description of the joined grid")
        for p in paths:                     # the sources are as they were
            c.expect(os.path.exists(p) and len(PSyGrid(p)) > 0,
                     "joined grids are left alone")
        g.close()
        # different settings do not mix
        other = d("o.h5")
        create(d("in0"), other, **dict(public(cfg), He_core_fix=False)).close()
        c.raises(ValueError, lambda: join_grids([paths[0], other], d("x.h5"),
                                                verbose=False),
                 "grids of different settings are not joined")
        c.seen("join", n, tuple(sorted(public(cfg))), len(exp))


# ------------------------------------------------------------ editing a grid
@C.family("columns", 40, 500)
def columns(rng, c):
    with Dir() as d:
        root = d("a")
        os.makedirs(root)
        runs = [mesa.Run(rng, root, i, gz=False).write(rng)
                for i in range(int(rng.integers(2, 5)))]
        cfg = dict(cols=PLAIN)
        exp = {r.path: expected(r, cfg) for r in runs}
        lazy = bool(rng.random() < .6)
        g = create(root, d("g.h5"))
        if not lazy or rng.random() < .5:
            g.close()
            g = PSyGrid(d("g.h5"), lazy=lazy)
        n = len(g)
        ref = PSyGrid(d("g.h5"), lazy=not lazy)
        with vk.quiet():
            c.expect(g == ref, "a grid equals itself however it is loaded")
        ref.close()
        dirs = [text(q) for q in g.MESA_dirs]
        for k in range(int(rng.integers(1, 4))):
            kind = int(rng.integers(4))
            if kind == 0:
                name, v = "num%d" % k, rng.normal(size=n)
            elif kind == 1:
                name, v = "S1_state%d" % k, np.array(
                    ["st_%d" % q for q in rng.integers(99, size=n)])
            elif kind == 2:
                name, v = "count%d" % k, rng.integers(99, size=n)
            else:
                name, v = "star_1_mass", rng.normal(size=n)
            g.add_column(name, v if rng.random() < .5 else list(v))
            for i, p in enumerate(dirs):
                w = v[i]
                exp[p]["fin"][name] = str(w) if isinstance(w, str) else \
                    float(w)
            judge_grid(c, g, exp)
            if rng.random() < .3:
                g.close()
                g = PSyGrid(d("g.h5"), lazy=bool(rng.random() < .5))
                judge_grid(c, g, exp)
            c.seen("columns", lazy, kind, k)
        bad = np.zeros(n + 1)
        c.raises(ValueError, lambda: g.add_column("bad", bad),
                 "a column of another length is refused")
        c.raises(Exception, lambda: g.add_column("star_2_mass", bad[:n],
                                                 overwrite=False),
                 "a column is not overwritten when not asked for")
        g.close()
        judge_grid(c, PSyGrid(d("g.h5")), exp)


@C.family("rerun", 40, 400)
def rerun(rng, c):
    import pandas as pd
    with Dir() as d:
        root = d("a")
        os.makedirs(root)
        runs = [mesa.Run(rng, root, i, gz=False).write(rng)
                for i in range(int(rng.integers(2, 7)))]
        g = create(root, d("g.h5"))
        n = len(g)
        dirs = {text(p): i for i, p in enumerate(g.MESA_dirs)}
        by = {dirs[r.path]: r for r in runs}
        flags = [text(v) for v in g.final_values["termination_flag_1"]]
        tf2 = [text(v) for v in g.final_values["termination_flag_2"]]
        pick = [int(q) for q in rng.integers(n, size=int(rng.integers(1, 4)))]
        kw, want = {}, []
        if rng.random() < .6:
            kw["runs_to_rerun"] = list(pick)
            want += pick
        if rng.random() < .6 or not kw:
            f = str(rng.choice(flags))
            kw["termination_flags"] = f if rng.random() < .5 else [f, "xx"]
            if rng.random() < .4:
                f = str(rng.choice(tf2))
                kw["termination_flags"] = f
                kw["flags_to_check"] = "termination_flag_2"
                want += [i for i in range(n) if tf2[i] == f]
            else:
                want += [i for i in range(n) if flags[i] == f]
        if rng.random() < .3:
            kw["new_mesa_flag"] = {"opacity": .5}
        want = list(dict.fromkeys(want))
        c.note(kw=kw, want=want)
        with vk.quiet():
            g.rerun(path_to_file=d("new"), **{k: (list(v) if isinstance(
                v, list) else v) for k, v in kw.items()})
        df = pd.read_csv(d("new/grid.csv"))
        c.expect(len(df) == len(want), "every chosen run is repeated once",
                 n=len(df))
        if len(df) == len(want):
            for i, row in zip(want, df.to_dict("records")):
                r = by[i]
                for q, v in (("m1", r.m1), ("m2", r.m2), ("Zbase", r.Z),
                             ("initial_z", r.Z),
                             ("initial_period_in_days", r.P)):
                    c.close(row[q], v, "initial value of the repeated run",
                            rtol=1e-8, atol=1e-9, column=q)
                if "new_mesa_flag" in kw:
                    c.expect(row["opacity"] == .5, "new setting")
        c.raises(ValueError, lambda: g.rerun(path_to_file=d("new")),
                 "nothing to repeat is refused")
        g.close()
        c.seen("rerun", tuple(sorted(kw)), len(want))


if __name__ == "__main__":
    sys.exit(C.main())
