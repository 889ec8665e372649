"""C38: MESA runs every point of a grid, with exactly the settings asked for,
and its output ends where it belongs."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
SCRATCH = vk.setup_env()
import glob
import gzip
import json
import re
import shutil
import signal
import subprocess
import time
import numpy as np
import fakemesa
import slurm

ck = vk.Check("C38", "grids (binary, single star, with stars formed first, "
              "with a scenario from a repository of inlists) are set up from "
              "random layers of inlists and run through the script written "
              "by the set-up, with a stand-in for MESA which reads inlists as "
              "MESA does and writes down what it runs with; compared with "
              "the layers below the row of the grid; non-trivial by (kind, "
              "layers, columns, outcome)")
DEF = os.path.join(vk.REPO, "grid_params/defaults/r11701")
KINDS = {"binary_controls": ("binary_controls", "binary/binary_controls"),
         "binary_job": ("binary_job", "binary/binary_job"),
         "star1_controls": ("controls", "star/controls"),
         "star1_job": ("star_job", "star/star_job"),
         "star2_controls": ("controls", "star/controls"),
         "star2_job": ("star_job", "star/star_job")}
FILES = {"binary": "inlist_project", "star1": "inlist1", "star2": "inlist2"}
SEEN = {"binary_controls": "binary_controls", "binary_job": "binary_job",
        "star1_controls": "controls1", "star1_job": "star_job1",
        "star2_controls": "controls2", "star2_job": "star_job2"}


def E(c, cond, msg, data=None):
    return c.expect(cond, msg, data=data)


def value(t):
    t = t.strip()
    if t[0] in "'\"":
        return t[1:-1]
    if t.lower() in (".true.", ".false."):
        return t.lower() == ".true."
    try:
        return int(t)
    except ValueError:
        return float(t.lower().replace("d", "e"))


def defaults(kind):
    """MESA's defaults of a namelist, without what is empty or refers to
    other inlists"""
    out = {}
    for line in open(os.path.join(DEF, KINDS[kind][1] + ".defaults")):
        m = re.match(r"\s*([A-Za-z_]\w*(?:\([^)]*\))?)\s*=\s*"
                     r"('[^']*'|\"[^\"]*\"|[^\s!]+)\s*(!.*)?$", line)
        if m:
            k, v = m.group(1).lower(), m.group(2)
            if v in ("''", "'.'", '""') or "inlist" in k:
                continue
            out[k.replace("(1:num_x_ctrls)", "(1)")] = value(v)
    return out


_D = {k: defaults(k) for k in KINDS}
_NAMES = {}
for _k in KINDS:
    _NAMES[_k] = []
    for _l in open(os.path.join(DEF, KINDS[_k][1] + ".defaults")):
        _m = re.match(r"\s*([A-Za-z_]\w*)\s*=", _l)
        if _m and _m.group(1).lower() in _D[_k]:
            _NAMES[_k].append(_m.group(1))
# what the set-up or the grid decides on its own, not for random layers
OWN = {"zams_filename", "do_history_file", "history_interval",
       "write_profile_when_terminate", "filename_for_profile_when_terminate",
       "save_model_when_terminate", "save_model_filename", "load_saved_model",
       "saved_model_name", "create_pre_main_sequence_model", "initial_mass",
       "initial_z", "zbase", "new_z", "m1", "m2", "initial_period_in_days"}


def fortran(rng, v):
    """a value written in one of the ways of Fortran"""
    if isinstance(v, bool):
        t = ".true." if v else ".false."
        return t.upper() if rng.random() < .1 else t
    if isinstance(v, str):
        return "'%s'" % v
    if isinstance(v, int):
        return "%d" % v
    return ("%.17g" % v if rng.random() < .3 else
            ("%.16e" % v).replace("e", "d" if rng.random() < .7 else "E"))


def rnd(rng, like=None):
    k = type(like) if like is not None else [float, bool, str,
                                             int][rng.integers(4)]
    if k is bool:
        return bool(rng.random() < .5)
    if k is int:
        return int(rng.integers(-50, 5000))
    if k is str:
        return "".join(rng.choice(list("abcxyz_/."), rng.integers(3, 12)))
    return float("%.12g" % (10**rng.uniform(-12, 12) * rng.choice([-1, 1])))


def layer(rng, kind, n, used=()):
    out = {}
    names = _NAMES[kind]
    for _ in range(n):
        if used and rng.random() < .5:
            k = str(rng.choice(list(used)))
        elif rng.random() < .15 and kind.endswith("controls"):
            k = str(rng.choice(["x_ctrl(%d)", "x_integer_ctrl(%d)",
                                "x_logical_ctrl(%d)"])) % rng.integers(1, 9)
            if kind == "binary_controls":
                continue
        elif rng.random() < .1:
            k = "posydon_new_%d" % rng.integers(5)
        else:
            k = str(rng.choice(names))
        if k.lower() in OWN or "inlist" in k.lower():
            continue
        d = _D[kind].get(k.lower())
        if d is None:
            d = {"x_ctrl": 1., "x_integer_ctrl": 1,
                 "x_logical_ctrl": True}.get(k.split("(")[0], 1.)
        out[k] = rnd(rng, d)
    return out


def write(rng, path, parts):
    """an inlist with the given namelists, as people write them"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    t = []
    for name, vals in parts.items():
        t.append("&%s%s" % (name, "  ! begin" if rng.random() < .3 else ""))
        for k, v in vals.items():
            if rng.random() < .15:
                t.append("")
            if rng.random() < .2:
                t.append("   ! %s = 17 was used before & not any more" % k)
            t.append("%s%s%s= %s%s" % (
                " " * rng.integers(0, 7), k, " " * rng.integers(0, 3),
                fortran(rng, v), " ! note" if rng.random() < .2 else ""))
        if rng.random() < .2:
            t.append("   read_extra_%s_inlist1 = .false." % name)
        t.append("/ ! end of %s namelist" % name)
        t.append("")
    with open(path, "w") as f:
        f.write("\n".join(t) + "\n")


def low(d):
    return {k.lower(): v for k, v in d.items()}


class World:
    """a folder with MESA, inlists, a configuration and what came out"""

    def __init__(self, rng, c, d):
        self.rng, self.c, self.d = rng, c, d
        self.menv = fakemesa.install(d)
        self.run = os.path.join(d, "run")
        self.root = os.path.join(d, "user")
        os.makedirs(self.run)
        self.home = os.path.join(d, "home")
        os.makedirs(self.home)
        self.ini = {"slurm": {}, "mesa_inlists": {}, "mesa_extras": {},
                    "run_parameters": {}}
        self.slurm = slurm.Slurm(os.path.join(d, "slurm"))

    def env(self, **more):
        e = {"PATH": ":".join([os.path.join(self.slurm.d, "bin"),
                               os.path.join(vk.REPO, "bin"),
                               os.path.dirname(sys.executable),
                               "/usr/bin", "/bin"]),
             "HOME": self.home, "FAKE_SLURM": self.slurm.d,
             "PYTHONPATH": os.path.join(self.d, "py") + ":" + vk.REPO,
             "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
             "PATH_TO_POSYDON": vk.REPO + "/", "TZ": "UTC",
             "PATH_TO_POSYDON_DATA": os.environ["PATH_TO_POSYDON_DATA"],
             "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
             "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_SYSTEM": "/dev/null",
             "PYTHONWARNINGS": "ignore", **self.menv}
        e.update(more)
        return e

    def sh(self, cmd, cwd=None, timeout=300, **env):
        return subprocess.run(cmd, cwd=cwd or self.run, env=self.env(**env),
                              text=True, capture_output=True, timeout=timeout,
                              stdin=subprocess.DEVNULL)

    def write_ini(self, path):
        with open(path, "w") as f:
            for s, kv in self.ini.items():
                f.write("[%s]\n" % s)
                kv = list(kv.items())
                self.rng.shuffle(kv)
                for k, v in kv:
                    if self.rng.random() < .2:
                        f.write("; %s of the grid\n" % k)
                    f.write("%s = %s\n" % (k, v))
                f.write("\n")

    def base(self, rng, n_cpu=1):
        self.ini["slurm"] = {
            "number_of_nodes": 1, "number_of_mpi_tasks": 1,
            "number_of_cpus_per_task": n_cpu, "job_array": True,
            "user": "somebody", "partition": "part%d" % rng.integers(9),
            "account": "acc%d" % rng.integers(9),
            "walltime": "'%d-00:00:00'" % rng.integers(1, 7),
            "email": "a%d@b.org" % rng.integers(9)}
        mi = self.ini["mesa_inlists"]
        mi["posydon_github_root"] = vk.REPO
        m = self.menv["MESA_DIR"]
        self.ini["mesa_extras"] = {
            "makefile_binary": "${MESA_DIR}/binary/work/make/makefile",
            "makefile_star": "${MESA_DIR}/star/work/make/makefile",
            "mesa_binary_extras": "${MESA_DIR}/binary/work/src/"
                                  "run_binary_extras.f",
            "mesa_star_binary_extras": "${MESA_DIR}/binary/work/src/"
                                       "run_star_extras.f",
            "mesa_star1_extras": "${MESA_DIR}/star/work/src/"
                                 "run_star_extras.f",
            "mesa_star2_extras": "${MESA_DIR}/star/work/src/"
                                 "run_star_extras.f",
            "binary_run": "${MESA_DIR}/binary/work/src/binary_run.f",
            "star_run": "${MESA_DIR}/star/work/src/run.f"}
        self.src = {"binary": {
            n: "mesa binary %s\n" % n for n in
            ("binary_run.f", "run_binary_extras.f", "run_star_extras.f")}}
        for s in ("star1", "star2"):
            self.src[s] = {n: "mesa star %s\n" % n
                           for n in ("run.f", "run_star_extras.f")}
        self.cols = {}
        for k, n in (("star_history_columns", "history_columns.list"),
                     ("binary_history_columns",
                      "binary_history_columns.list"),
                     ("profile_columns", "profile_columns.list")):
            p = os.path.join(self.d, "lists", "my_" + n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            self.cols[n] = "column_%d\n" % rng.integers(1000)
            with open(p, "w") as f:
                f.write(self.cols[n])
            mi[k] = p

    def flags(self, rng):
        mi = self.ini["mesa_inlists"]
        self.fl = {"history_interval": int(rng.integers(1, 20))}
        for k in ("binary_history", "history_star1", "final_profile_star1",
                  "final_model_star1", "history_star2",
                  "final_profile_star2", "final_model_star2"):
            self.fl[k] = bool(rng.random() < .5)
        mi.update(self.fl)

    def extras(self, rng):
        """the user's own sources take the place of MESA's"""
        if rng.random() < .4:
            for k, n in (("user_binary_extras", "run_binary_extras.f"),
                         ("user_star_binary_extras", "run_star_extras.f")):
                p = os.path.join(self.root, "src", k, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                t = "user %s %d\n" % (k, rng.integers(1000))
                with open(p, "w") as f:
                    f.write(t)
                self.ini["mesa_extras"][k] = p
                self.src["binary"][n] = t
            return "user"
        return "mesa"

    def stack(self, rng, lay, root, exp, on, dim=6, whos=None, mi=True):
        """one layer of inlists, written below root"""
        for who, fn in FILES.items():
            if whos is not None and who not in whos:
                continue
            if rng.random() < .25 and whos is None:
                if rng.random() < .5 and mi:
                    for k in KINDS:
                        if k.startswith(who):
                            self.ini["mesa_inlists"][k + "_" + lay] = "None"
                continue
            on.append((lay, who))
            p = os.path.join(root, fn)
            parts = {}
            for k in KINDS:
                if k.startswith(who):
                    v = layer(rng, k, int(rng.integers(0, dim)),
                              self.used[k])
                    self.used[k] += list(v)
                    parts[KINDS[k][0]] = v
                    exp[k].update(low(v))
                    if mi:
                        self.ini["mesa_inlists"][k + "_" + lay] = p
            if rng.random() < .5:
                parts = dict(reversed(list(parts.items())))
            write(rng, p, parts)

    def layers(self, rng, inis=("posydon_defaults", "user"), dim=6):
        """layers of inlists in the configuration -> expected settings"""
        exp = {k: dict(_D[k]) for k in KINDS}
        self.used = {k: [] for k in KINDS}
        on = []
        for k in KINDS:
            self.ini["mesa_inlists"][k + "_mesa_defaults"] = (
                "${posydon_github_root}/grid_params/defaults/r11701/"
                "%s.defaults" % KINDS[k][1])
        for lay in inis:
            self.stack(rng, lay, os.path.join(self.root, lay), exp, on, dim)
        return exp, on

    def outputs(self, exp):
        f = self.fl
        for i in "12":
            job, con = exp["star%s_job" % i], exp["star%s_controls" % i]
            job["write_profile_when_terminate"] = f["final_profile_star" + i]
            if f["final_profile_star" + i]:
                job["filename_for_profile_when_terminate"] = \
                    "final_profile_star%s.data" % i
            job["save_model_when_terminate"] = f["final_model_star" + i]
            if f["final_model_star" + i]:
                job["save_model_filename"] = "final_star%s.mod" % i
            con["do_history_file"] = f["history_star" + i]
            con["history_interval"] = f["history_interval"]
        exp["binary_controls"]["history_interval"] = (
            f["history_interval"] if f["binary_history"] else -1)
        b = os.path.join(self.run, "binary")
        exp["binary_job"]["inlist_names(1)"] = os.path.join(b, "inlist1")
        exp["binary_job"]["inlist_names(2)"] = os.path.join(b, "inlist2")

    def grid(self, rng, cols, n):
        rows = []
        for _ in range(n):
            rows.append({k: f() for k, f in cols.items()})
        ext = []
        p = os.path.join(self.d, "points.csv")
        order = list(cols)
        rng.shuffle(order)
        with open(p, "w") as f:
            f.write(",".join(order) + "\n")
            for r in rows:
                f.write(",".join(str(r[k]) for k in order) + "\n")
        self.ini["run_parameters"]["grid"] = p
        return rows

    def setup(self, kind="shell"):
        inip = os.path.join(self.run, "my.ini")
        self.write_ini(inip)
        r = self.sh(["posydon-setup-grid", "--grid-type", "fixed",
                     "--inifile", inip, "--run-directory", self.run,
                     "--submission-type", kind])
        if not E(self.c, r.returncode == 0, "a grid could not be set up",
                 (r.stdout[-300:], r.stderr[-1500:])):
            self.c.stop()

    def log(self):
        p = self.menv["FAKE_MESA_LOG"]
        if not os.path.exists(p):
            return []
        return [json.loads(x) for x in open(p)]


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a - b) <= 2e-10 * max(abs(a), abs(b))


def compare(c, what, got, exp):
    """got: settings MESA ran with; exp: those asked for"""
    miss = [k for k in exp if k not in got]
    E(c, not miss, "settings are missing (%s)" % what,
             {k: exp[k] for k in miss[:5]})
    more = [k for k in got if k not in exp]
    E(c, not more, "settings nobody asked for (%s)" % what,
             {k: got[k] for k in more[:5]})
    bad = [(k, got[k], exp[k]) for k in exp
           if k in got and not same(got[k], exp[k])]
    E(c, not bad, "MESA runs with other settings than asked for (%s)"
             % what, bad[:5])
    c.count("settings compared", len(exp))


def dirname_parts(cols, row):
    out = []
    for k in cols:
        v = row[k]
        f = "%.4e" if k in ("initial_z", "initial_period_in_days") else "%.4f"
        out.append("%s_%s" % (k.replace("(", "").replace(")", ""), f % v))
    return out


def content(p):
    if os.path.exists(p + ".gz"):
        return gzip.open(p + ".gz", "rt").read()
    if os.path.exists(p):
        return open(p).read()
    return None


def products(c, w, rec, i, row, cols, keep_prof, keep_phot, star=False,
             files=()):
    """the run of a row ends in its own folder, complete and cleaned up"""
    ds = [x for x in glob.glob(os.path.join(w.run, "*_grid_index_%d" % i))
          if os.path.isdir(x)]
    if not E(c, len(ds) == 1, "not one folder for a point of the grid",
                    (i, ds)):
        return
    d = ds[0]
    name = os.path.basename(d)
    for part in dirname_parts(cols, row):
        E(c, re.search(r"(^|_)%s(_|$)" % re.escape(part), name)
                 is not None,
                 "the name of a folder does not give the point", (name, part))
    tag = rec["tag"]
    logs = ["LOGS"] if star else ["LOGS1", "LOGS2"]
    for L in logs:
        E(c, content(os.path.join(d, L, "history.data"))
                 == "history %s\n" % tag, "output of MESA is lost", (i, L))
        p = glob.glob(os.path.join(d, L, "profile*"))
        E(c, bool(p) == keep_prof, "profiles were kept or removed "
                 "against the request", (i, L, p, keep_prof))
    if not star:
        E(c, content(os.path.join(d, "binary_history.data"))
                 == "binary history %s\n" % tag, "output of MESA is lost", i)
    p = glob.glob(os.path.join(d, "photos*"))
    E(c, bool(p) == keep_phot, "photos were kept or removed against the "
             "request", (i, p, keep_phot))
    E(c, not os.path.exists(os.path.join(d, ".mesa_temp_cache")),
             "the cache of MESA is left", i)
    E(c, content(os.path.join(d, "finished")) == tag + "\n",
             "MESA was not waited for", i)
    for f in files:
        E(c, os.path.exists(os.path.join(d, f))
                 or os.path.exists(os.path.join(d, f + ".gz")),
                 "a file of MESA is lost", (i, f))
    return d


def screen(c, d, rec, i, name="out.txt"):
    t = content(os.path.join(d, name))
    E(c, t is not None and t.split("\n")[0] == "MESA " + rec["tag"]
             and "done" in t, "what MESA printed is not kept", (i, t))


COLS = {
    "binary_controls": ["initial_eccentricity", "mass_transfer_alpha",
                        "fm", "do_jdot_mb"],
    "binary_job": ["new_m1", "evolve_both_stars", "tsync_for_relax_primary_"
                   "to_th_eq"],
    "star_controls": ["mixing_length_alpha", "Dutch_scaling_factor",
                      "use_Ledoux_criterion", "max_age"],
    "star_job": ["new_surface_rotation_v", "new_omega_div_omega_crit"]}


def pick_cols(c, rng, exp, w):
    """columns of a grid and how to draw their values"""
    def num():
        k = rng.integers(5)
        if k == 0:
            return float(rng.integers(1, 300))
        if k == 1:
            return float("%.10f" % 10**rng.uniform(-1, 2.5))
        if k == 2:
            return float("%.17g" % 10**rng.uniform(-9, 9))
        if k == 3:
            return -float("%.12g" % 10**rng.uniform(-3, 3))
        return float("%.4f" % rng.uniform(0, 100))

    def mass():
        return (float(rng.integers(1, 120)) if rng.random() < .3 else
                float("%.10f" % 10**rng.uniform(-.3, 2.4)))

    def per():
        return (float(rng.integers(1, 5000)) if rng.random() < .3 else
                float("%.10f" % 10**rng.uniform(-1, 4)))

    zs = [float("%.12g" % (0.0142 * f)) for f in
          (2, 1, .45, .2, .1, .01, .001, .0001)]
    cols = {"m1": mass, "m2": mass, "initial_period_in_days": per}
    if rng.random() < .75:
        cols["initial_z"] = lambda: float(rng.choice(zs))
        cols["Zbase"] = lambda: float(rng.choice(zs))
    for sec in COLS:
        for k in COLS[sec]:
            if rng.random() < .12:
                d = None
                for q in KINDS:
                    if q.replace("1", "").replace("2", "") == sec:
                        d = _D[q].get(k.lower(), 0.)
                if isinstance(d, bool):
                    cols[k] = lambda: bool(rng.random() < .5)
                elif isinstance(d, int):
                    cols[k] = lambda: float(rng.integers(0, 50))
                else:
                    cols[k] = num
    for q in ("star1_controls", "star2_controls"):
        for k in w.used[q]:
            if k.startswith("x_ctrl(") and k != "x_ctrl(1)" and rng.random() < .4:
                cols[k] = num
    more = list(cols)[5 if "initial_z" in cols else 3:]
    for k in more[3:]:      # the name of a folder is not for ever
        cols.pop(k)
    return cols


def put_row(exp, row):
    """settings of a row on top; sections which know its columns"""
    e = {k: dict(v) for k, v in exp.items()}
    for k, v in row.items():
        for q in KINDS:
            if k.lower() in exp[q]:
                e[q][k.lower()] = v
    return e


def check_binary(c, w, exp, rows, cols, recs, models=None):
    """the invocations of MESA's binary module against the grid"""
    left = list(recs)
    for i, row in enumerate(rows):
        mine = [r for r in left
                if re.search(r"_grid_index_%d(/|$)" % i, r["cwd"])]
        if not E(c, len(mine) == 1, "a point of the grid was not run "
                        "exactly once", (i, len(mine), len(recs))):
            continue
        r = mine[0]
        left.remove(r)
        if not E(c, "error" not in r, "MESA cannot run a point",
                        (i, r.get("error"))):
            continue
        e = put_row(exp, row)
        for q in KINDS:
            compare(c, q, r[SEEN[q]], e[q])
        E(c, r["src"] == w.src["binary"], "MESA is not built from the "
                 "sources asked for", (r["src"], w.src["binary"]))
        E(c, r["columns"] == w.cols, "not the columns asked for",
                 (r["columns"], w.cols))
        for s in (1, 2):
            m = r["model%d" % s]
            want = None if models is None else models(s, row)
            E(c, m == want or (m and want and near(m, want)),
                     "the binary does not start from the stars formed for "
                     "it", (i, s, m, want))
        yield i, row, r
    E(c, not left, "MESA ran for points not in the grid",
             [r["cwd"] for r in left])


def near(a, b):
    if a is None or b is None:
        return a is b
    for k in ("mass", "z"):
        if (a[k] is None) != (b[k] is None) \
                or a[k] is not None and not same(a[k], b[k]):
            return False
    return near(a["from"], b["from"])


def zams(c, rng, w, exp):
    k = rng.integers(4)
    mi = w.ini["mesa_inlists"]
    z1 = z2 = None
    if k == 1:
        mi["zams_filename"] = z1 = z2 = "/some/zams_%d.data" % rng.integers(9)
    elif k == 2:
        mi["zams_filename_1"] = z1 = "/some/zams1_%d.data" % rng.integers(9)
        mi["zams_filename_2"] = z2 = "/some/zams2_%d.data" % rng.integers(9)
    elif k == 3:
        mi["zams_filename_2"] = z2 = "/some/zams2_%d.data" % rng.integers(9)
    if z1:
        exp["star1_controls"]["zams_filename"] = z1
    if z2:
        exp["star2_controls"]["zams_filename"] = z2
    return z1, z2


def runpars(rng, w):
    out = []
    for k in ("keep_profiles", "keep_photos"):
        v = bool(rng.random() < .4)
        if v or rng.random() < .5:
            w.ini["run_parameters"][k] = v
        out.append(v)
    return out


def world(rng, c):
    d = os.path.join(SCRATCH, "w%s_%s" % (c.family, c.index))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return World(rng, c, d)


def go_shell(c, w):
    w.setup("shell")
    r = w.sh(["./grid_command.sh"], timeout=400)
    E(c, "Traceback" not in r.stderr, "running the grid failed",
             r.stderr[-1500:])
    E(c, r.stdout.rstrip().endswith("Done."), "the grid did not end",
             (r.stdout[-300:], r.stderr[-800:]))


def left_over(c, w, what):
    """no process of the run is left"""
    r = subprocess.run(["ps", "-o", "stat=,args=", "-s", str(w.sid)],
                       text=True, capture_output=True).stdout
    r = [x for x in r.splitlines() if not x.startswith("Z")]
    if r:
        subprocess.run(["pkill", "-9", "-s", str(w.sid)])
    E(c, not r, "processes are left behind (%s)" % what, r)


def go_slurm(c, rng, w, n, scratch):
    """submit, run the tasks of the array in any order and the clean-up"""
    w.setup("slurm")
    r = w.sh(["./run_grid.sh"])
    sub = w.slurm.submitted()
    if not E(c, r.returncode == 0 and len(sub) == 2,
             "the jobs were not submitted", (r.stderr[-500:], sub)):
        c.stop()
    (j1, d1, a1), (j2, d2, a2) = sub
    S = w.ini["slurm"]
    for j, a in ((1, a1), (2, a2)):
        f = [x for x in a if not x.startswith("-")]
        txt = open(os.path.join(w.run, f[0])).read()
        for k in ("account", "partition"):
            E(c, re.search(r"^#SBATCH --%s=%s$" % (k, S[k]), txt, re.M)
              is not None, "a job does not use the %s asked for" % k, txt[:600])
        E(c, re.search(r"^#SBATCH --time=%s$" % S["walltime"].strip("'"),
                       txt, re.M) is not None,
          "a job does not have the time asked for", txt[:600])
        E(c, re.search(r"^#SBATCH --mail-user=%s$" % S["email"],
                       txt, re.M) is not None,
          "not the mail address asked for", txt[:600])
        if j == 1:
            m = re.search(r"^#SBATCH (?:--array|-a)[= ](\S+)$", txt, re.M)
            if not E(c, m is not None, "no array of jobs", txt[:600]):
                c.stop()
            ids, lim = w.slurm.array(m.group(1))
            E(c, sorted(ids) == list(range(n)),
              "the array is not the points of the grid", (m.group(1), n))
            m = re.search(r"^#SBATCH (?:--cpus-per-task|-c)[= ](\d+)$", txt,
                          re.M)
            E(c, m is not None and int(m.group(1))
              == S["number_of_cpus_per_task"],
              "not the number of CPUs asked for", txt[:600])
    dep = [x.split("=", 1)[1] for x in a2 if x.startswith("--dependency=")]
    E(c, dep and dep[0] == "afterany:%d" % j1,
      "the clean-up does not wait for all jobs, failed or not", a2)
    script = [x for x in a1 if not x.startswith("-")][0]
    order = list(ids)
    rng.shuffle(order)
    par = int(rng.integers(1, 4))
    end = str(int(time.time()) + int(rng.integers(4000, 10**6)))
    while order:
        ps = []
        for _ in range(par):
            if order:
                t = order.pop()
                ps.append(subprocess.Popen(
                    ["/bin/bash", os.path.join(w.run, script)], cwd=w.run,
                    env=w.env(SLURM_ARRAY_TASK_ID=str(t),
                              SLURM_ARRAY_JOB_ID=str(j1),
                              SLURM_JOB_END_TIME=end), text=True,
                    stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                    stdin=subprocess.DEVNULL, start_new_session=True))
        for p in ps:
            o, e = p.communicate(timeout=300)
            E(c, "Traceback" not in e, "running a point failed", e[-1500:])
            w.sid = p.pid
            left_over(c, w, "job of a point")
    if scratch:
        E(c, os.listdir(scratch) == [], "folders are left in the temporary "
          "folder", os.listdir(scratch))
    script = [x for x in a2 if not x.startswith("-")][0]
    r = w.sh(["/bin/bash", os.path.join(w.run, script)])
    E(c, "Traceback" not in r.stderr and r.stdout.rstrip().endswith("Done."),
      "the clean-up failed", r.stderr[-1500:])
    return par


def finals(w):
    fs = []
    for s in "12":
        if w.fl["final_model_star" + s]:
            fs.append("final_star%s.mod" % s)
        if w.fl["final_profile_star" + s]:
            fs.append("final_profile_star%s.data" % s)
    return fs


def judge(c, w, exp, rows, cols, recs, kp, kf, models=None, more=()):
    n = 0
    for i, row, r in check_binary(c, w, exp, rows, cols, recs, models):
        known = [k for k in cols if any(k.lower() in exp[q] for q in KINDS)]
        d = products(c, w, r, i, row, known, kp, kf,
                     files=finals(w) + list(more))
        if d:
            screen(c, d, r, i)
        E(c, r["threads"] == str(w.ini["slurm"]["number_of_cpus_per_task"]),
          "MESA does not use the CPUs asked for", r["threads"])
        n += 1
    c.count("points run", n)


@ck.family("binary", 10, 100)
def binary(rng, c):
    w = world(rng, c)
    try:
        w.base(rng, int(rng.integers(1, 5)))
        exp, on = w.layers(rng)
        ex = w.extras(rng)
        w.flags(rng)
        z = zams(c, rng, w, exp)
        if rng.random() < .5:
            w.ini["mesa_inlists"]["single_star_grid"] = False
        w.outputs(exp)
        cols = pick_cols(c, rng, exp, w)
        rows = w.grid(rng, cols, int(rng.integers(1, 4)))
        kp, kf = runpars(rng, w)
        c.note(columns=list(cols), rows=rows, layers=on)
        go_shell(c, w)
        judge(c, w, exp, rows, cols, w.log(), kp, kf)
        c.seen("binary", len(on), ex, len(cols) > 5, z[0] is None, kp, kf)
    finally:
        shutil.rmtree(w.d, ignore_errors=True)


@ck.family("slurm", 5, 50)
def slurm_(rng, c):
    w = world(rng, c)
    try:
        w.base(rng, int(rng.integers(1, 5)))
        exp, on = w.layers(rng)
        ex = w.extras(rng)
        w.flags(rng)
        zams(c, rng, w, exp)
        w.outputs(exp)
        cols = pick_cols(c, rng, exp, w)
        rows = w.grid(rng, cols, int(rng.integers(1, 5)))
        kp, kf = runpars(rng, w)
        tmp = None
        if rng.random() < .7:
            tmp = os.path.join(w.d, "tmp")
            os.makedirs(tmp)
            w.ini["slurm"]["work_dir"] = tmp
        elif rng.random() < .5:
            w.ini["slurm"]["work_dir"] = "''"
        c.note(columns=list(cols), rows=rows, layers=on)
        par = go_slurm(c, rng, w, len(rows), tmp)
        judge(c, w, exp, rows, cols, w.log(), kp, kf)
        if tmp:
            E(c, all(r["cwd"].startswith(tmp + "/") for r in w.log()),
              "MESA does not run in the temporary folder",
              [r["cwd"] for r in w.log()])
            c.count("runs elsewhere", len(rows))
        c.seen("slurm", len(rows), par, tmp is None)
    finally:
        shutil.rmtree(w.d, ignore_errors=True)


def form(rng, w, n, s, steps, exp0=None):
    """layers of the inlists which form a star -> settings of each step"""
    mi = w.ini["mesa_inlists"]
    out = []
    for _ in range(steps):
        out.append({q: dict(_D["star%d_%s" % (s, q)]) for q in
                    ("controls", "job")})
    for q in ("controls", "job"):
        mi["star%d_formation_%s_mesa_defaults" % (s, q)] = (
            "${posydon_github_root}/grid_params/defaults/r11701/%s.defaults"
            % KINDS["star%d_%s" % (s, q)][1])
    for lay in ("posydon_defaults", "user"):
        many = lay == "user" and steps > 1 or rng.random() < .4
        if not many and lay == "user" and rng.random() < .3:
            continue
        ps = []
        for i in range(steps if many else 1):
            p = os.path.join(w.root, "%s_form%d" % (lay, s),
                             "inlist_step%d" % i)
            parts = {}
            for q, sec in (("controls", "controls"), ("job", "star_job")):
                v = layer(rng, "star%d_%s" % (s, q), int(rng.integers(0, 6)),
                          w.used["star%d_%s" % (s, q)])
                parts[sec] = v
                for j in ([i] if many else range(steps)):
                    out[j][q].update(low(v))
            write(rng, p, parts)
            ps.append(p)
        for q in ("controls", "job"):
            t = ps[0] if len(ps) == 1 else (
                json.dumps(ps) if rng.random() < .5 else ", ".join(ps))
            mi["star%d_formation_%s_%s" % (s, q, lay)] = t
    return out


def steps_of(c, w, rows, s, out, recs, name):
    """the runs which form star s -> model of a row"""
    key = "m%d" % s
    n = len(out)

    def expected(i, row):
        con, job = dict(out[i]["controls"]), dict(out[i]["job"])
        con["initial_mass"] = row[key]
        if i == 1:
            con["initial_z"] = con["zbase"] = row["initial_z"]
            job["new_z"] = row["initial_z"]
        if i:
            job.update(create_pre_main_sequence_model=False,
                       load_saved_model=True,
                       saved_model_name="initial_star%d_step%d.mod"
                       % (s, i - 1))
        job.update(save_model_when_terminate=True,
                   save_model_filename="initial_star%d_step%d.mod" % (s, i))
        return con, job

    def model(row):
        m = None
        for i in range(n):
            con, job = expected(i, row)
            m = {"mass": con["initial_mass"], "z": job.get("new_z"),
                 "from": m}
        return m

    for k, row in enumerate(rows):
        mine = [r for r in recs if re.search(r"_grid_index_%d(/|$)" % k,
                                             r["cwd"])]
        if not E(c, len(mine) == n, "the steps which form a star were not "
                 "run once each", (s, k, len(mine), n)):
            continue
        for i, r in enumerate(mine):
            if not E(c, "error" not in r, "MESA cannot form a star",
                     (s, k, i, r.get("error"))):
                break
            con, job = expected(i, row)
            got = dict(r["controls1"])
            if i > 1:
                for z in ("initial_z", "zbase"):
                    got.pop(z, None)
                    con.pop(z, None)
            compare(c, "controls, step %d of star %d" % (i, s), got, con)
            got = dict(r["star_job1"])
            compare(c, "job, step %d of star %d" % (i, s), got, job)
            E(c, r["src"] == w.src["star%d" % s], "MESA is not built from the "
              "sources asked for", (s, r["src"]))
            c.count("formation steps")
            if i > 1:
                c.count("third or later steps")
    return model


@ck.family("formation", 6, 60)
def formation(rng, c):
    """stars are formed first, in steps, and then put in a binary"""
    w = world(rng, c)
    try:
        w.base(rng, 2)
        exp, on = w.layers(rng)
        ex = w.extras(rng)
        w.flags(rng)
        which = [(1,), (2,), (1, 2)][rng.integers(3)]
        mi = w.ini["mesa_inlists"]
        for s in (1, 2):
            if s not in which and rng.random() < .6:
                mi["zams_filename_%d" % s] = z = "/zams/%d.data" % s
                exp["star%d_controls" % s]["zams_filename"] = z
        out = {}
        for s in which:
            out[s] = form(rng, w, None, s, 3 if c.index == 0
                          else int(rng.integers(1, 4)))
            exp["star%d_job" % s].update(
                create_pre_main_sequence_model=False, load_saved_model=True,
                saved_model_name="initial_star%d_step%d.mod"
                % (s, len(out[s]) - 1))
        # one which has a ready model is not formed
        off = [s for s in (1, 2) if "zams_filename_%d" % s in mi]
        if off and rng.random() < .5:
            form(rng, w, None, off[0], 1)
            c.count("formation superseded")
        w.outputs(exp)
        cols = pick_cols(c, rng, exp, w)
        zs = [.0284, .0142, .00142, 1.42e-4]
        cols["initial_z"] = cols["Zbase"] = lambda: float(rng.choice(zs))
        for k in ("new_surface_rotation_v", "new_omega_div_omega_crit"):
            cols.pop(k, None)
        rows = w.grid(rng, cols, int(rng.integers(1, 4)))
        kp, kf = runpars(rng, w)
        c.note(columns=list(cols), rows=rows, layers=on,
               steps={s: len(out[s]) for s in out})
        if rng.random() < .4:
            tmp = os.path.join(w.d, "tmp")
            os.makedirs(tmp)
            w.ini["slurm"]["work_dir"] = tmp
            go_slurm(c, rng, w, len(rows), tmp)
        else:
            go_shell(c, w)
        recs = w.log()
        mods = {}
        more = []
        for s in which:
            rs = [r for r in recs if r["exe"] == os.path.join(
                w.run, "star%d" % s, "star")]
            mods[s] = steps_of(c, w, rows, s, out[s], rs, None)
            more += ["out_star%d_formation_step%d.txt" % (s, i)
                     for i in range(len(out[s]))]
        bs = [r for r in recs if r["kind"] == "binary"]
        E(c, len(recs) == len(bs) + len(rows) * sum(
            len(out[s]) for s in which), "MESA ran more often than needed",
          len(recs))
        judge(c, w, exp, rows, cols, bs, kp, kf,
              lambda s, row: mods[s](row) if s in mods else None, more)
        c.seen("formation", which, tuple(len(out[s]) for s in which))
    finally:
        shutil.rmtree(w.d, ignore_errors=True)


@ck.family("single", 4, 40)
def single(rng, c):
    """grids of single stars"""
    w = world(rng, c)
    try:
        w.base(rng, 1)
        exp, on = w.layers(rng)
        w.flags(rng)
        mi = w.ini["mesa_inlists"]
        mi["single_star_grid"] = True
        con, job = exp["star1_controls"], exp["star1_job"]
        if rng.random() < .5:
            mi["zams_filename"] = z = "/zams/single.data"
            con["zams_filename"] = z
        zs = [.0284, .0142, .00142, 1.42e-4]
        cols = {"initial_mass": lambda: float("%.10f" % 10**rng.uniform(
                -.3, 2.4)), "initial_z": lambda: float(rng.choice(zs))}
        rows = w.grid(rng, cols, int(rng.integers(1, 4)))
        kp, kf = runpars(rng, w)
        tmp = None
        if rng.random() < .5:
            tmp = os.path.join(w.d, "tmp")
            os.makedirs(tmp)
            w.ini["slurm"]["work_dir"] = tmp
            go_slurm(c, rng, w, len(rows), tmp)
        else:
            go_shell(c, w)
        recs = w.log()
        E(c, len(recs) == len(rows), "not one run for each star",
          (len(recs), len(rows)))
        for i, row in enumerate(rows):
            mine = [r for r in recs if re.search(r"_grid_index_%d(/|$)" % i,
                                                 r["cwd"])]
            if not E(c, len(mine) == 1, "a star was not run exactly once",
                     (i, len(mine))):
                continue
            r = mine[0]
            if not E(c, "error" not in r and r["kind"] == "star",
                     "MESA cannot run a star", (i, r.get("error"))):
                continue
            ec, ej = dict(con), dict(job)
            ec["initial_mass"] = row["initial_mass"]
            ec["initial_z"] = ec["zbase"] = row["initial_z"]
            gc, gj = dict(r["controls1"]), dict(r["star_job1"])
            for k in ("save_model_when_terminate", "save_model_filename"):
                ej.pop(k, None)
                gj.pop(k, None)
            compare(c, "controls of a single star", gc, ec)
            compare(c, "job of a single star", gj, ej)
            d = products(c, w, r, i, row, cols, kp, kf, star=True)
            if d:
                screen(c, d, r, i, "out_star1_formation_step0.txt")
            c.count("single stars run")
        c.seen("single", len(rows), tmp is None, kp, kf)
    finally:
        shutil.rmtree(w.d, ignore_errors=True)


def git(w, *a):
    r = subprocess.run(["git", "-c", "user.name=a", "-c", "user.email=a@b.c",
                        "-c", "init.defaultBranch=main", *a],
                       cwd=os.path.join(w.home, ".posydon_mesa_inlists"),
                       env=w.env(), capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    return r.stdout.strip()


@ck.family("scenario", 6, 60)
def scenario(rng, c):
    """inlists of a scenario from a commit of a repository, those of the user
    on top"""
    w = world(rng, c)
    try:
        w.base(rng, 1)
        typ = str(rng.choice(["HMS-HMS", "CO-H_star", "CO-He_star",
                              "HeMS-HMS"]))
        R = os.path.join(w.home, ".posydon_mesa_inlists")
        os.makedirs(R)
        git(w, "init", "-q")
        top = os.path.join(R, "r11701")
        com = os.path.join(top, "default_common_inlists")
        n_com = int(rng.integers(2, 4))
        want = int(rng.integers(n_com))
        for v in range(n_com):
            exp = {k: dict(_D[k]) for k in KINDS}
            w.used = {k: [] for k in KINDS}
            on = []
            shutil.rmtree(top, ignore_errors=True)
            w.stack(rng, "common", os.path.join(com, "binary"), exp, on,
                    whos=list(FILES), mi=False)
            src = {}
            os.makedirs(os.path.join(com, "binary", "src"))
            for n in ("run_binary_extras.f", "run_star_extras.f"):
                src[n] = "common %s %d\n" % (n, v)
                with open(os.path.join(com, "binary", "src", n), "w") as f:
                    f.write(src[n])
            starsrc = src["run_star_extras.f"]
            lists = {}
            for n in ("history_columns.list", "binary_history_columns.list",
                      "profile_columns.list"):
                lists[n] = "common %s %d\n" % (n, v)
                with open(os.path.join(com, n), "w") as f:
                    f.write(lists[n])
            zam = {}
            os.makedirs(os.path.join(top, "ZAMS_models"))
            for s in "12":
                if rng.random() < .6:
                    fn = "zams_%s_%d.data" % (s, v)
                    p = os.path.join(com, "binary", "inlist" + s)
                    t = open(p).read()
                    t = t.replace("/ ! end of controls",
                                  "   zams_filename = '/x/%s'\n"
                                  "/ ! end of controls" % fn)
                    open(p, "w").write(t)
                    exp["star%s_controls" % s]["zams_filename"] = "/x/" + fn
                    q = os.path.join(top, "ZAMS_models", fn)
                    if rng.random() < .8:
                        open(q, "w").write("zams\n")
                        zam[s] = q
            steps = []
            if typ != "HMS-HMS":
                sd = os.path.join(top, typ)
                whos = [x for x in FILES if rng.random() < .6
                        and (typ != "HeMS-HMS" or x != "binary")]
                w.stack(rng, "scenario", os.path.join(sd, "binary"), exp, on,
                        whos=whos, mi=False)
                os.makedirs(os.path.join(sd, "src"), exist_ok=True)
                if typ != "HeMS-HMS":
                    us = rng.random() < .5
                    if us:
                        for n in src:
                            src[n] = "scenario %s %d\n" % (n, v)
                            with open(os.path.join(sd, "src", n), "w") as f:
                                f.write(src[n])
                    for n in lists:
                        if rng.random() < .3:
                            lists[n] = "scenario %s %d\n" % (n, v)
                            with open(os.path.join(sd, n), "w") as f:
                                f.write(lists[n])
                if rng.random() < .5:
                    for i in range(int(rng.integers(1, 3))):
                        parts = {"controls": layer(rng, "star1_controls", 4),
                                 "star_job": layer(rng, "star1_job", 3)}
                        write(rng, os.path.join(
                            sd, "star1_formation",
                            "inlist_step%d_of_it" % (i + 1)), parts)
                        steps.append(parts)
                    zam.pop("1", None)
            with open(os.path.join(top, "version"), "w") as f:
                f.write("%d\n" % v)
            git(w, "add", "-A")
            git(w, "commit", "-qm", "version %d" % v)
            if v == want:
                keep = (exp, on, src, starsrc, lists, dict(zam), steps,
                        git(w, "rev-parse", "HEAD"),
                        {k: list(x) for k, x in w.used.items()})
        (exp, on, src, starsrc, lists, zam, steps, sha, w.used) = keep
        mi = w.ini["mesa_inlists"]
        mi["scenario"] = "['posydon', 'main-%s', '%s']" % (sha, typ)
        mi["single_star_grid"] = False
        for k in KINDS:
            mi[k + "_mesa_defaults"] = (
                "${posydon_github_root}/grid_params/defaults/r11701/"
                "%s.defaults" % KINDS[k][1])
        common = {q: {k: v for k, v in exp["star1_" + q].items()}
                  for q in ("controls", "job")}
        w.stack(rng, "user", os.path.join(w.root, "user"), exp, on)
        for s, q in zam.items():
            exp["star%s_controls" % s]["zams_filename"] = q
        w.src["binary"].update(src)
        w.src["star1"]["run_star_extras.f"] = starsrc
        w.cols = lists
        w.flags(rng)
        if steps:
            exp["star1_job"].update(
                create_pre_main_sequence_model=False, load_saved_model=True,
                saved_model_name="initial_star1_step%d.mod"
                % (len(steps) - 1))
        w.outputs(exp)
        cols = pick_cols(c, rng, exp, w)
        cols.setdefault("initial_z", lambda: .0142)
        cols.setdefault("Zbase", lambda: .0142)
        rows = w.grid(rng, cols, int(rng.integers(1, 3)))
        kp, kf = runpars(rng, w)
        c.note(type=typ, layers=on, columns=list(cols), rows=rows,
               steps=len(steps))
        go_shell(c, w)
        recs = w.log()
        st = [r for r in recs if r["kind"] == "star"]
        E(c, len(st) == len(steps) * len(rows), "the stars of the scenario "
          "are not formed", (len(st), len(steps), len(rows)))
        for r in st:
            m = re.search(r"_grid_index_(\d+)", r["cwd"])
            i = [x for x in st if x["cwd"] == r["cwd"]].index(r)
            if "error" in r:
                E(c, False, "MESA cannot form a star", r["error"])
                continue
            for q, sec in (("controls1", "controls"),
                           ("star_job1", "star_job")):
                bad = [(k, v, r[q].get(k.lower())) for k, v in
                       steps[i][sec].items()
                       if not (k.lower() in r[q]
                               and same(r[q][k.lower()], v))]
                E(c, not bad, "a step of a scenario does not use its inlist",
                  bad[:4])
            E(c, r["src"] == w.src["star1"], "MESA is not built from the "
              "sources of the scenario", r["src"])
        bs = [r for r in recs if r["kind"] == "binary"]
        for r in bs:
            if steps and "error" not in r:
                E(c, r["model1"] is not None, "the star formed is not used")
                r["model1"] = None
        judge(c, w, exp, rows, cols, bs, kp, kf)
        ov = {k for k in w.used if w.ini["mesa_inlists"].get(k + "_user")
              not in (None, "None")}
        c.count("scenarios with inlists of the user", bool(ov))
        c.seen("scenario", typ, want < n_com - 1, len(steps), bool(ov))
    finally:
        shutil.rmtree(w.d, ignore_errors=True)


@ck.family("ending", 2, 12)
def ending(rng, c):
    """the job ends before MESA does, or just does not"""
    w = world(rng, c)
    p = None
    try:
        killed = (c.index + int(rng.integers(2)) * 2) % 2 == 0
        w.base(rng, 1)
        exp, on = w.layers(rng)
        w.flags(rng)
        w.outputs(exp)
        cols = pick_cols(c, rng, exp, w)
        rows = w.grid(rng, cols, 1)
        kp, kf = runpars(rng, w)
        tmp = os.path.join(w.d, "tmp")
        os.makedirs(tmp)
        w.ini["slurm"]["work_dir"] = tmp
        w.setup("slurm")
        t0 = time.time()
        p = subprocess.Popen(
            ["/bin/bash", os.path.join(w.run, "job_array_grid_submit.slurm")],
            cwd=w.run, env=w.env(
                SLURM_ARRAY_TASK_ID="0", SLURM_ARRAY_JOB_ID="5",
                SLURM_JOB_END_TIME=str(int(t0) + 300 + 25),
                FAKE_MESA_SLEEP="240" if killed else "45"), text=True,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            stdin=subprocess.DEVNULL, start_new_session=True)
        w.sid = p.pid

        def there():
            ds = glob.glob(os.path.join(w.run, "*_grid_index_0"))
            return ds and all(os.path.exists(os.path.join(ds[0], f)) for f in
                              ("LOGS1/history.data", "LOGS2/history.data",
                               "binary_history.data", "out.txt"))

        if killed:
            while time.time() < t0 + 200 and not there():
                time.sleep(.5)
            E(c, there(), "nothing is saved before the job ends")
            time.sleep(1)
        else:
            try:
                p.wait(timeout=250)
            except subprocess.TimeoutExpired:
                E(c, False, "the job of a point does not end")
        r = w.log()
        if killed:
            subprocess.run(["pkill", "-9", "-s", str(w.sid)])
        else:
            left_over(c, w, "job of a point")
        if E(c, len(r) == 1, "a point was not run exactly once", len(r)):
            ds = glob.glob(os.path.join(w.run, "*_grid_index_0"))
            if killed and ds:
                for f, t in (("LOGS1/history.data", "history %s\n"),
                             ("LOGS2/history.data", "history %s\n"),
                             ("binary_history.data", "binary history %s\n")):
                    E(c, content(os.path.join(ds[0], f)) == t % r[0]["tag"],
                      "output is lost when the job ends", f)
                c.count("killed while running")
            elif not killed:
                known = [k for k in cols if any(k.lower() in exp[q]
                                                for q in KINDS)]
                products(c, w, r[0], 0, rows[0], known, kp, kf,
                         files=finals(w))
                E(c, os.listdir(tmp) == [], "folders are left in the "
                  "temporary folder", os.listdir(tmp))
                c.count("finished after a copy was saved")
        c.seen("ending", killed)
    finally:
        if p is not None:
            subprocess.run(["pkill", "-9", "-s", str(p.pid)])
            p.wait()
        shutil.rmtree(w.d, ignore_errors=True)


for _n, _m in (("settings compared", 100000), ("points run", 20),
               ("formation steps", 8), ("third or later steps", 1),
               ("single stars run", 4), ("runs elsewhere", 4),
               ("scenarios with inlists of the user", 3),
               ("killed while running", 1),
               ("finished after a copy was saved", 1)):
    ck.require(_n, _m)

if __name__ == "__main__":
    sys.exit(ck.main())
