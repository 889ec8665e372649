"""C37: the post-processing pipeline does every task it was asked for, once,
after the tasks it builds on, and each task makes what is documented."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
import sntables
SCRATCH = vk.setup_env(sntables.build)
# the package's own folder as the scripts see it: the scripts of the tree under
# test, and ini files for reruns (the real ones are a submodule)
HOME = os.path.join(SCRATCH, "home")
INIS = os.path.join(HOME, "grid_params/POSYDON-MESA-INLISTS/r11701/"
                    "running_scripts")
os.makedirs(INIS)
os.symlink(os.path.join(vk.REPO, "bin"), os.path.join(HOME, "bin"))
os.environ["PATH_TO_POSYDON"] = HOME
import contextlib
import importlib.machinery
import importlib.util
import io
import itertools
import json
import re
import runpy
import shutil
import subprocess
import time
import h5py
import numpy as np
import pandas as pd
import h5grid
import ifgrid
import mesa
import slurm
from posydon.grids.psygrid import PSyGrid

ck = vk.Check("C37", "random pipelines (steps on and off, additions, several "
              "grids, files that exist, are missing or come from earlier "
              "steps) are set up; their run file submits to a stand-in for "
              "SLURM; tables, arrays, dependencies, logs and permissions are "
              "compared with what the configuration asks for; tasks run on "
              "random MESA folders and grids and their products are compared; "
              "non-trivial by (steps, additions, dropped rows, outcome)")


def script(name):
    p = os.path.join(vk.REPO, "bin", name)
    ld = importlib.machinery.SourceFileLoader(name.replace("-", "_"), p)
    m = importlib.util.module_from_spec(
        importlib.util.spec_from_loader(ld.name, ld))
    ld.exec_module(m)
    return m


SETUP = script("posydon-setup-pipeline")
RUN = script("posydon-run-pipeline")
SCRIPT = os.path.join(vk.REPO, "bin", "posydon-run-pipeline")
TYPES = ["HMS-HMS", "CO-HMS_RLO", "CO-HeMS", "single_HMS", "single_HeMS"]
ZS = ["2e+00_Zsun", "1e+00_Zsun", "4.5e-01_Zsun", "2e-01_Zsun", "1e-01_Zsun",
      "1e-02_Zsun", "1e-03_Zsun", "1e-04_Zsun"]
STEPS = ["step_1", "step_2", "step_3", "step_4", "step_5", "step_F", "rerun"]
ACTION = dict(zip(STEPS, ["CREATE_GRID_SLICES", "COMBINE_GRID_SLICES",
                          "CALCULATE_EXTRA_VALUES", "TRAIN_INTERPOLATORS",
                          "TRAIN_PROFILE_INTERPOLATORS", "EXPORT_DATASET",
                          "RERUN"]))
COMBINE_PLOTS = ["combined_TF12", "termination_flag_1", "termination_flag_2",
                 "termination_flag_3", "termination_flag_4",
                 "rl_relative_overflow_1", "rl_relative_overflow_2",
                 "lg_mtransfer_rate"]


@contextlib.contextmanager
def folder():
    import tempfile
    old = os.getcwd()
    d = tempfile.mkdtemp(dir=SCRATCH)
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def some(rng, items, lo, hi):
    n = min(len(items), int(rng.integers(lo, hi + 1)))
    return [items[i] for i in sorted(rng.permutation(len(items))[:n])]


# ------------------------------------------------------------------ set-ups
def configure(rng, root, path):
    """(sections of the ini file, dictionary of truth)"""
    cfg = {}
    types = some(rng, TYPES, 1, 2)
    zs = [some(rng, ZS, 1, 2) for t in types]
    slices = [some(rng, ["grid_low_res_0", "grid_low_res_1", "grid_random_1",
                         "grid_rerun"], 1, 3) for t in types]
    comp = [some(rng, ["LITE", "ORIGINAL", "LITE_RLO", "ORIGINAL_RLO"]
                 if rng.random() < .7 else ["ORIGINAL", "LITE"], 1, 3)
            for t in types]
    for c in comp:
        if rng.random() < .3:
            c.reverse()
    comb = [some(rng, ["comb_a", "comb_b"], 1, 2) for t in types]
    cfg["step_1"] = dict(GRID_TYPES=types, METALLICITIES=zs,
                         GRID_SLICES=slices, COMPRESSIONS=comp,
                         STOP_BEFORE_CARBON_DEPLETION=int(rng.integers(2)))
    cfg["step_2"] = dict(
        GRID_TYPES=types, METALLICITIES=zs, COMPRESSIONS=comp,
        GRIDS_COMBINED=comb,
        GRID_SLICES=[[some(rng, s + ["elsewhere"] * int(rng.random() < .4), 1,
                           4)[::1 if rng.random() < .7 else -1] for q in cb]
                     for s, cb in zip(slices, comb)])
    cfg["step_3"] = dict(
        GRID_TYPES=types, METALLICITIES=zs, COMPRESSIONS=comp,
        GRID_SLICES=[cb if rng.random() < .7 else s
                     for s, cb in zip(slices, comb)],
        ORIGINAL_COMPRESSIONS=[["ORIGINAL"] if rng.random() < .7 else
                               ["LITE"] if rng.random() < .5 else []
                               for t in types])
    proc = [[s + "_processed" for s in g]
            for g in cfg["step_3"]["GRID_SLICES"]]
    meth = some(rng, ["linear", "1NN"], 1, 2)
    cfg["step_4"] = dict(
        GRID_TYPES=types, METALLICITIES=zs, COMPRESSIONS=comp,
        GRID_SLICES=[p[:1] if rng.random() < .8 else p for p in proc],
        INTERPOLATION_METHODS=meth)
    cfg["step_4"]["CONTROL_GRIDS"] = [
        [str(rng.choice(["", "comb_b", p[-1]])) for q in s]
        for s, p in zip(cfg["step_4"]["GRID_SLICES"], proc)]
    cfg["step_5"] = dict(cfg["step_4"], PROFILE_NAMES=["radius", "logRho"])
    cfg["step_F"] = dict(GRID_TYPES=types, METALLICITIES=zs,
                         COMPRESSIONS=comp,
                         GRID_SLICES=cfg["step_4"]["GRID_SLICES"])
    cfg["rerun"] = dict(GRID_TYPES=types, METALLICITIES=zs,
                        COMPRESSIONS=[c[:1] for c in comp],
                        GRID_SLICES=comb,
                        RERUN_TYPE=str(rng.choice(["PISN", "opacity_max"])),
                        CLUSTER=str(rng.choice(["quest", "yggdrasil"])))
    if rng.random() < .3:
        del cfg["rerun"]["CLUSTER"]
    drop = rng.random()
    for s in STEPS:
        if rng.random() < drop:
            cfg[s]["DROP_MISSING_FILES"] = True
        elif rng.random() < .5:
            cfg[s]["DROP_MISSING_FILES"] = False
    for s in STEPS[:5]:
        if rng.random() < .35:
            cfg[s]["CREATE_PLOTS"] = {
                "step_2": ["PLOT_AFTER_COMBINE"],
                "step_1": ["PLOT_AFTER_CREATE"]}.get(s, []) + some(
                    rng, ["star_1_mass", "LOG10_age"], 0, 2)
        if rng.random() < .35:
            cfg[s]["DO_CHECKS"] = {
                "step_2": ["CHECK_AFTER_COMBINE"],
                "step_1": ["CHECK_AFTER_CREATE"],
                "step_3": ["CHECK_AFTER_EXTRA"]}.get(s, []) + some(
                    rng, ["my_check"], 0, 1)
    setup = dict(PATH_TO_GRIDS=root, PATH=path)
    for s in STEPS:
        on = rng.random() < .6 and s != "step_5"   # 5 needs missing packages
        if on or rng.random() < .7:
            setup[ACTION[s]] = bool(on)
    if not any(setup.get(ACTION[s]) for s in STEPS):
        setup[ACTION["step_1"]] = True
    if rng.random() < .7:
        setup["VERSION"] = str(rng.choice(["", "v2"]))
    if rng.random() < .7:
        setup["VERBOSE"] = bool(rng.random() < .3)
    for k in ("MAKE_PLOTS", "MAKE_CHECKS"):
        if rng.random() < .7:
            setup[k] = bool(rng.random() < .75)
    if rng.random() < .5:
        setup["PLOT_EXTENSION"] = str(rng.choice(["png", "multipage-pdf"]))
    account = {}
    if rng.random() < .5:
        account.update(ACCOUNT="acc", PARTITION="part", WALLTIME="01:02:03",
                       MAILTYPE="ALL", EMAIL="me@x.y")
    if rng.random() < .5:
        account["GROUP"] = "thegroup"
    return cfg, setup, account


def write_ini(path, cfg, setup, account):
    with open(path, "w") as f:
        for name, d in [("account", account), ("pipeline setup", setup)] \
                + list(cfg.items()):
            f.write("[%s]\n" % name)
            for k, v in d.items():
                f.write("    %s = %r\n" % (k, v))
            f.write("\n")


def on(setup, s):
    return bool(setup.get(ACTION[s]))


def forget(rng, cfg, setup):
    """leave out lists that are the same as those of the step before"""
    last = None
    for s in STEPS:
        act = on(setup, s) or any(cfg[s].get(k) for k in (
            "CREATE_PLOTS", "DO_CHECKS"))
        if last and act and rng.random() < .4:
            for k in ("GRID_TYPES", "METALLICITIES", "COMPRESSIONS",
                      "GRID_SLICES"):
                if full[last][k] == full[s][k] and rng.random() < .5:
                    del cfg[s][k]
        if on(setup, s):
            last = s


def expand(items, sets):
    out = []
    for x in items:
        if x not in sets:
            out.append(x)
    for x in items:
        out += sets.get(x, [])
    return out


class Plan:
    """what the configuration asks for"""

    def __init__(self, cfg, setup, root, path):
        self.jobs = {}          # name -> list of tasks (dicts of cells)
        self.make = {}          # job -> files it makes
        self.need = {}          # job -> files its tasks read
        self.dropped = 0
        self.plotdirs = set()
        made = set()
        self.empty = None
        ver = setup.get("VERSION", "")

        def base(t, z, *more):
            return os.path.join(root, t, ver, z, *more)
        for s in STEPS:
            k = cfg[s]
            drop = k.get("DROP_MISSING_FILES", False)

            def there(p):
                return not drop or os.path.exists(p) or p in made
            combos = [(l, t, z, i, g, c)
                      for l, t in enumerate(k["GRID_TYPES"])
                      for z in k["METALLICITIES"][l]
                      for i, g in enumerate(k["GRID_SLICES"][l])
                      for c in k["COMPRESSIONS"][l]]
            if on(setup, s):
                rows = []
                for l, t, z, i, g, c in combos:
                    rlo = "_RLO" if "RLO" in c else ""
                    obj = base(t, z, "interpolation_objects")
                    if s == "step_1":
                        rows.append(({"path_to_grid": base(t, z, g),
                                      "compression": c, "grid_type": t,
                                      "stop_before_carbon_depletion": k[
                                          "STOP_BEFORE_CARBON_DEPLETION"]},
                                     [base(t, z, g)], base(t, z, c,
                                                           g + ".h5")))
                    elif s == "step_2":
                        src = [base(t, z, c, x + ".h5") for x in g]
                        keep = [x for x in src if there(x)]
                        self.dropped += len(src) - len(keep)
                        to = base(t, z, c, k["GRIDS_COMBINED"][l][i] + ".h5")
                        if keep:
                            rows.append(({"to": to, "from": keep}, keep, to))
                    elif s == "step_3":
                        o = (k["ORIGINAL_COMPRESSIONS"][l] or ["ORIGINAL"])[0]
                        f = base(t, z, c, g + ".h5")
                        q = base(t, z, o + rlo, g + ".h5")
                        to = base(t, z, c, g + "_processed.h5")
                        rows.append(({"path_to_grid": f, "grid_type": t,
                                      "path_to_grid_ORIGINAL": q,
                                      "path_to_processed_grid": to},
                                     [f, q], to))
                    elif s == "step_4":
                        f = base(t, z, c, g + ".h5")
                        for m in k["INTERPOLATION_METHODS"]:
                            to = os.path.join(obj, "IF_" + m + rlo + ".pkl")
                            rows.append(({
                                "path_to_grid": f, "grid_type": t,
                                "interpolation_method": m + rlo,
                                "path_to_interpolator": to}, [f], to))
                    elif s == "step_F":
                        e = t if "RLO" in t else t + rlo
                        e = os.path.join(path, "POSYDON_data", e)
                        for f, to in [
                            (base(t, z, c, g + ".h5"),
                             os.path.join(e, z + ".h5")),
                            (os.path.join(obj, "IF_linear" + rlo + ".pkl"),
                             os.path.join(e, "interpolators", "linear3c_kNN",
                                          z + ".pkl")),
                            (os.path.join(obj, "IF_1NN" + rlo + ".pkl"),
                             os.path.join(e, "interpolators", "1NN_1NN",
                                          z + ".pkl"))]:
                            rows.append(({"path_to_grid": f,
                                          "export_path": to}, [f], to))
                    elif s == "rerun":
                        f = base(t, z, c, g + ".h5")
                        to = base(t, z, "rerun_" + k["RERUN_TYPE"] + "_" + g)
                        rows.append(({
                            "path_to_grid": f, "rerun_path": to,
                            "grid_type": t, "rerun_metallicity": z,
                            "rerun_type": k["RERUN_TYPE"],
                            "cluster": k.get("CLUSTER", "quest")}, [f], to))
                if s != "step_2":
                    n = len(rows)
                    rows = [r for r in rows if all(map(there, r[1]))]
                    self.dropped += n - len(rows)
                self.add(s, rows)
                made |= self.make[s]
            for key, ext, flag, sets in (
                    ("CREATE_PLOTS", "_plots", "MAKE_PLOTS",
                     {"PLOT_AFTER_COMBINE": COMBINE_PLOTS,
                      "PLOT_AFTER_CREATE": []}),
                    ("DO_CHECKS", "_checks", "MAKE_CHECKS",
                     {"CHECK_AFTER_COMBINE": ["failure_rate"],
                      "CHECK_AFTER_CREATE": [],
                      "CHECK_AFTER_EXTRA": ["CO_type", "SN_type"]})):
                todo = expand(k.get(key, []), sets)
                if not setup.get(flag, True) or not todo:
                    continue
                rows = []
                for l, t, z, i, g, c in combos:
                    rlo = "_RLO" if "RLO" in c else ""
                    g = {"step_2": lambda: k["GRIDS_COMBINED"][l][i],
                         "step_3": lambda: g + "_processed",
                         "step_4": lambda: k["CONTROL_GRIDS"][l][i],
                         "step_5": lambda: k["CONTROL_GRIDS"][l][i]}.get(
                             s, lambda: g)()
                    first = k["COMPRESSIONS"][l][0]
                    if not g or (key == "CREATE_PLOTS" and c.replace(
                            "_RLO", "") != first.replace("_RLO", "")):
                        continue
                    f = base(t, z, c, g + ".h5")
                    for m in k.get("INTERPOLATION_METHODS", [""]):
                        if key == "CREATE_PLOTS":
                            e = {"path_to_grid": f, "grid_type": t,
                                 "quantities_to_plot": todo,
                                 "path_to_plot": base(
                                     t, z, "plots", ("RLO_" if rlo else "")
                                     + g),
                                 "plot_extension": setup.get("PLOT_EXTENSION",
                                                             "pdf")}
                        else:
                            e = {"path_to_grid": f, "checks_to_do": todo}
                        need = [f]
                        if m:
                            q = base(t, z, "interpolation_objects",
                                     {"step_4": "IF_",
                                      "step_5": "profile_"}[s]
                                     + m + rlo + ".pkl")
                            e["path_to_interpolator"] = q
                            need.append(q)
                        rows.append((e, need, None))
                n = len(rows)
                rows = [r for r in rows if all(map(there, r[1]))]
                self.dropped += n - len(rows)
                self.add(s + ext, rows)
                if key == "CREATE_PLOTS":
                    self.plotdirs |= {r[0]["path_to_plot"] for r in rows}

    def add(self, name, rows):
        if not rows and self.empty is None:
            self.empty = name
        self.jobs[name] = [r[0] for r in rows]
        self.need[name] = {p for r in rows for p in r[1]}
        self.make[name] = {r[2] for r in rows if r[2]}


def table(name, path):
    df = pd.read_csv(os.path.join(path, name + ".csv"))
    if name == "step_2":
        # pandas numbers columns of the same name
        return [{"to": c, "from": df[c].dropna().to_list()} for c in df]
    out = []
    for r in df.to_dict("records"):
        for k in ("quantities_to_plot", "checks_to_do"):
            if k in r:
                r[k] = json.loads(r[k].replace("'", '"'))
        out.append(r)
    return out


def canon(rows):
    def n(v):
        if isinstance(v, (list, tuple)):
            return [n(x) for x in v]
        if isinstance(v, str):
            return os.path.normpath(v) if "/" in v else v
        return float(v)
    return sorted(json.dumps({k: sorted(n(v)) if k in (
        "quantities_to_plot", "checks_to_do") else n(v)
        for k, v in r.items()}, sort_keys=True) for r in rows)


RECORD = '''#!/bin/sh
{ printf '%%s' "$0"; for a in "$@"; do printf '\\t%%s' "$a"; done; echo; } \
    >> "$FAKE_SLURM/called"
'''.replace("%%", "%")
RM = '''#!/bin/sh
# removes log files below the scratch folder only
for a in "$@"; do
    r=$(/usr/bin/realpath -m "$a")
    case "$r" in "$FAKE_ROOT"/*/logs/*.out) /bin/rm "$r";;
        *) echo "$r" >> "$FAKE_SLURM/forbidden"; exit 1;; esac
done
'''


def deps(args):
    for a in args:
        if a.startswith("--dependency="):
            out = []
            for x in a.split("=", 1)[1].split(","):
                kind, *ids = x.split(":")
                out += [(kind, int(i)) for i in ids]
            return out
    return []


@ck.family("setup", 170, 2600)
def setups(rng, c):
    global full
    with folder() as d:
        root = os.path.join(d, "grids")
        os.makedirs(root)
        work = os.path.join(d, "work")
        os.makedirs(work)
        os.chdir(work)
        path = "." if rng.random() < .6 else work if rng.random() < .5 \
            else os.path.join(work, "sub")
        os.makedirs(path, exist_ok=True)
        cfg, setup, account = configure(rng, root, path)
        full = json.loads(json.dumps(cfg))
        # some files are there already
        ver = setup.get("VERSION", "")
        share = rng.random()
        for t in TYPES:
            for z in ZS:
                b = os.path.join(root, t, ver, z)
                for s in ("grid_low_res_0", "grid_low_res_1", "grid_random_1",
                          "grid_rerun"):
                    if rng.random() < share:
                        os.makedirs(os.path.join(b, s))
                for q in ("LITE", "ORIGINAL", "LITE_RLO", "ORIGINAL_RLO",
                          "interpolation_objects"):
                    if rng.random() < .6:
                        continue
                    os.makedirs(os.path.join(b, q))
                    names = ["IF_linear.pkl", "IF_1NN_RLO.pkl", "IF_1NN.pkl",
                             "profile_1NN.pkl", "profile_linear.pkl"] \
                        if "inter" in q else [
                            "comb_a.h5", "comb_b.h5", "comb_a_processed.h5",
                            "grid_low_res_0.h5", "elsewhere.h5",
                            "comb_b_processed.h5", "grid_rerun.h5"]
                    for n in names:
                        if rng.random() < .6:
                            open(os.path.join(b, q, n), "w").close()
        plan = Plan(cfg, setup, root, path)
        forget(rng, cfg, setup)
        write_ini("p.ini", cfg, setup, account)
        before = vk_tree(root)
        c.note(setup=setup, account=account, config=cfg)
        ini = "p.ini" if rng.random() < .5 else os.path.join(work, "p.ini")

        def go():
            with vk.quiet(), contextlib.redirect_stdout(io.StringIO()):
                p = SETUP.PostProcessingPipeline(ini)
                p.create_csv_and_slurm_job_files()
                p.create_log_dirs()
        if plan.empty:
            # a step or addition is left without anything to do
            c.raises(Exception, go, "a step with nothing to do is reported",
                     step=plan.empty)
            c.seen("setup", "nothing to do", plan.empty)
            return
        go()
        c.count("pipelines set up")
        c.expect(vk_tree(root) == before, "set-up leaves the grids alone")
        judge(rng, c, plan, cfg, setup, account, d, work, path, root)


def vk_tree(d):
    return sorted(os.path.join(p, f) for p, q, fs in os.walk(d)
                  for f in fs + q)


def judge(rng, c, plan, cfg, setup, account, d, work, path, root):
    names = {f[:-4] for f in os.listdir(path) if f.endswith(".csv")} \
        - {"pipeline_files"}
    c.expect(names == set(plan.jobs), "there is one table for every step and "
             "addition asked for", got=sorted(names), want=sorted(plan.jobs))
    if names != set(plan.jobs):
        return
    for name, rows in plan.jobs.items():
        got = table(name, path)
        cols = [q for r in (got, rows) for q in r]
        if name == "step_2" and len({r["to"] for r in rows}) < len(rows):
            continue
        c.expect(canon(got) == canon(rows), "the table has exactly the tasks "
                 "asked for", step=name, got=[x for x in canon(got)
                                              if x not in canon(rows)][:3],
                 want=[x for x in canon(rows) if x not in canon(got)][:3],
                 n=(len(got), len(rows)))
        c.count("tasks in tables", len(got))
    # submission
    s = slurm.Slurm(os.path.join(d, "slurm"), first=int(rng.integers(1, 999)))
    for n, t in (("chgrp", RECORD), ("chmod", RECORD), ("rm", RM)):
        p = os.path.join(s.d, "bin", n)
        with open(p, "w") as f:
            f.write(t)
        os.chmod(p, 0o755)
    r = s.sh(["./run_pipeline.sh"], work)
    c.expect(r.returncode == 0, "run file can be executed", err=r.stderr)
    sub = s.submitted()
    ids, by = {}, {}
    for j, cwd, args in sub:
        f = [a for a in args if not a.startswith("-")]
        name = f[0].replace(".slurm", "") if f else ""
        c.expect(name not in by, "no job is submitted twice", job=name)
        by[name], ids[j] = (j, deps(args)), name
        for k, i in by[name][1]:
            c.expect(i in ids and i != j, "jobs depend on jobs submitted "
                     "before", job=name)
    main = {n for n in by if not n.endswith("_cleanup")}
    c.expect(main == set(plan.jobs), "every step and addition is submitted",
             got=sorted(by), want=sorted(plan.jobs))
    if main != set(plan.jobs):
        return

    def before(n, kinds=("afterok",)):
        out, todo = set(), [n]
        while todo:
            for k, i in by[todo.pop()][1]:
                if k in kinds and ids.get(i) not in out:
                    out.add(ids[i])
                    todo.append(ids[i])
        return out
    steps = [x for x in STEPS if x in by]
    for a, b in zip(steps, steps[1:]):
        c.expect(a in before(b), "a step waits for the success of the step "
                 "before", step=b, waits=sorted(before(b)))
    for n in main:
        for m in main:
            if m != n and plan.need[n] & plan.make[m] and not (
                    n.startswith("step_") and m.startswith("step_")
                    and STEPS.index(m[:6]) > STEPS.index(n[:6])):
                c.expect(m in before(n), "a job waits for the success of the "
                         "jobs which make its input", job=n, needs=m)
                c.count("inputs made by earlier jobs")
    tags = {}
    for n in main:
        f = n + ".slurm"
        dr = slurm.Slurm.directives(f)
        tasks, lim = slurm.Slurm.array(dr["--array"])
        c.expect(sorted(tasks) == list(range(len(plan.jobs[n]))), "the array "
                 "has one task per entry of the table", job=n, got=tasks,
                 n=len(plan.jobs[n]))
        i = int(rng.choice(tasks))
        argv, env = s.call(f, work, {"SLURM_ARRAY_TASK_ID": str(i)})
        c.expect(argv is not None, "batch script runs", err=env)
        if argv is None:
            continue
        c.expect(os.path.realpath(argv[1]) == os.path.realpath(os.path.join(
            vk.REPO, "bin", "posydon-run-pipeline")), "tasks run the pipeline",
            argv=argv)
        c.expect([os.path.realpath(x) for x in argv[2:4]] == [
            os.path.realpath(root), os.path.realpath(os.path.join(
                path, n + ".csv"))] and argv[4] == str(i),
            "tasks get their table and entry", argv=argv, i=i)
        c.expect(len(argv) == 6 and argv[5] in "01", "tasks get a flag for "
                 "messages", argv=argv)
        if "checks" not in n:
            c.expect(argv[5] == "01"[bool(setup.get("VERBOSE"))],
                     "messages as asked for", job=n)
        for k, v in (("--account", "ACCOUNT"), ("--partition", "PARTITION"),
                     ("--time", "WALLTIME"), ("--mail-user", "EMAIL"),
                     ("--mail-type", "MAILTYPE")):
            c.expect(dr.get(k) == account.get(v), "settings of the account",
                     key=k, got=dr.get(k))
        for i in tasks:
            out = os.path.realpath(dr["--output"].replace("%4a", "%04d" % i))
            c.expect(out not in tags, "every task has a log of its own",
                     log=out, job=n)
            c.expect(os.path.isdir(os.path.dirname(out)), "the folder of the "
                     "log is there", log=dr["--output"], job=n)
            tags[out] = n, i
    # logs are put together by the clean-up jobs and nothing gets lost
    for p, (n, i) in tags.items():
        if os.path.isdir(os.path.dirname(p)):
            with open(p, "w") as f:
                f.write("log of %s %d\n" % (n, i))
    cleanups = [n for n in by if n.endswith("_cleanup")]
    e = s.env()
    e["FAKE_ROOT"] = d
    for n in sorted(cleanups, key=lambda n: by[n][0]):
        job = n[:-8]
        kinds = {k for k, i in by[n][1]}
        direct = {ids[i] for k, i in by[n][1]}
        if job == "pipeline":
            c.expect(direct >= set(by) - {n}, "the last clean-up waits for "
                     "all jobs", waits=sorted(direct), jobs=sorted(by))
            c.expect(kinds <= {"afterany"}, "the last clean-up comes whatever "
                     "happens", kinds=sorted(kinds))
        else:
            c.expect(job in direct, "logs are collected after the job",
                     job=job, waits=sorted(direct))
        dr = slurm.Slurm.directives(n + ".slurm")
        c.expect(os.path.isdir(os.path.dirname(dr["--output"])),
                 "the folder of the log is there", log=dr["--output"])
        r = subprocess.run(["/bin/bash", n + ".slurm"], cwd=work, env=e,
                           capture_output=True, text=True)
        c.expect(not os.path.exists(os.path.join(s.d, "forbidden")),
                 "clean-up removes log files only")
    left = {}
    for p, q, fs in os.walk(os.path.join(path, "logs")):
        for f in fs:
            t = open(os.path.join(p, f)).read()
            for line in t.splitlines():
                left.setdefault(line, []).append(os.path.join(p, f))
    where = {}
    for n, i in tags.values():
        f = left.get("log of %s %d" % (n, i), [])
        c.expect(len(f) == 1, "every log is kept", job=n, task=i, files=f)
        if f:
            where.setdefault(n, []).append((i, f[0]))
    for n in plan.jobs:
        if n + "_cleanup" in by and len(where.get(n, [])) == len(
                plan.jobs[n]):
            fs = {f for i, f in where[n]}
            c.expect(len(fs) == 1, "logs are collected in one file", job=n,
                     files=sorted(fs)[:3])
            if len(fs) == 1:
                t = re.findall("log of %s (\\d+)\n" % n,
                               open(fs.pop()).read())
                c.expect(t == [str(i) for i in range(len(t))],
                         "logs are in the order of the tasks", job=n, got=t)
            c.count("logs collected")
    # permissions
    c.expect(("pipeline_cleanup" in by) == ("GROUP" in account), "files are "
             "handed over if a group is given")
    if "GROUP" in account:
        got = {"chgrp": set(), "chmod": set()}
        if os.path.exists(os.path.join(s.d, "called")):
            for line in open(os.path.join(s.d, "called")):
                a = line.rstrip("\n").split("\t")
                k = os.path.basename(a[0])
                a = [x for x in a[1:] if not x.startswith("-")]
                if a and a[0] == {"chgrp": "thegroup",
                                  "chmod": "g+rwX"}[k]:
                    got[k] |= {os.path.realpath(x) for x in a[1:]}
        want = {os.path.realpath(x) for n in plan.make
                for x in plan.make[n]} | {os.path.realpath(path)} \
            | {os.path.realpath(x) for x in plan.plotdirs}
        for k in got:
            def covered(x):
                return any(x == g or x.startswith(g + "/") for g in got[k])
            miss = [x for x in want if not covered(x)]
            c.expect(not miss, "the group gets all files made", by=k,
                     missing=miss[:3])
        c.count("pipelines for a group")
    c.seen("setup", tuple(steps), tuple(sorted(
        n for n in main if n not in STEPS)), bool(plan.dropped),
        "GROUP" in account)


ck.require("pipelines set up", 60)
ck.require("inputs made by earlier jobs", 30)
ck.require("logs collected", 40)


@ck.family("refused", 30, 300)
def refused(rng, c):
    """configurations that cannot be followed are refused"""
    with folder() as d:
        root = os.path.join(d, "grids")
        os.makedirs(root)
        cfg, setup, account = configure(rng, root, ".")
        for s in STEPS:
            cfg[s]["DROP_MISSING_FILES"] = False
            for k in ("CREATE_PLOTS", "DO_CHECKS"):
                cfg[s].pop(k, None)
        steps = [s for s in STEPS if on(setup, s)]
        s = steps[0] if rng.random() < .5 else str(rng.choice(steps))
        kind = str(rng.choice(["short", "no list", "no section", "no grids",
                               "combined", "no ini"]))
        err = ValueError
        if kind == "short":
            k = str(rng.choice(["METALLICITIES", "GRID_SLICES",
                                "COMPRESSIONS"]))
            cfg[s][k] = cfg[s][k][:-1]
        elif kind == "no list":
            s = steps[0]
            del cfg[s][str(rng.choice(["GRID_TYPES", "METALLICITIES",
                                       "GRID_SLICES", "COMPRESSIONS"]))]
            err = KeyError
        elif kind == "no section":
            account, err = None, KeyError
        elif kind == "no grids":
            setup["PATH_TO_GRIDS"] = os.path.join(d, "nowhere")
            err = NotADirectoryError
        elif kind == "combined":
            setup[ACTION["step_2"]] = True
            s = "step_2"
            cfg[s]["GRIDS_COMBINED"] = [x + ["more"] for x in
                                        cfg[s]["GRIDS_COMBINED"]]
        c.note(kind=kind, step=s, setup=setup)
        if account is None:
            write_ini("p.ini", cfg, setup, {})
            t = open("p.ini").read()
            with open("p.ini", "w") as f:
                f.write(t.replace("[account]\n", ""))
        else:
            write_ini("p.ini", cfg, setup, account)

        def go():
            with vk.quiet(), contextlib.redirect_stdout(io.StringIO()):
                p = SETUP.PostProcessingPipeline(
                    "other.ini" if kind == "no ini" else "p.ini")
                p.create_csv_and_slurm_job_files()
        if kind == "no ini":
            err = FileNotFoundError
        c.raises(err, go, "a set-up that cannot be followed is refused",
                 kind=kind)
        c.seen("refused", kind, s)


# -------------------------------------------------------------------- tasks
def quietly(f, *a, **k):
    o = io.StringIO()
    with vk.quiet(), contextlib.redirect_stdout(o):
        f(*a, **k)
    return o.getvalue()


def task(rng, f, i, csv):
    """one task: by its function, or by the command as SLURM starts it"""
    if rng.random() < .5:
        return quietly(f, i, csv)
    old = sys.argv, time.sleep
    sys.argv = [SCRIPT, os.getcwd(), csv, str(i), "0"]
    time.sleep = lambda t: None
    try:
        return quietly(runpy.run_path, SCRIPT, run_name="__main__")
    finally:
        sys.argv, time.sleep = old


def same_grid(c, a, b, what, **k):
    """two grid files hold the same"""
    def items(h):
        out = {}
        h.visititems(lambda n, o: out.__setitem__(n, o[()]) if isinstance(
            o, h5py.Dataset) else None)
        return out
    with h5py.File(a, "r") as x, h5py.File(b, "r") as y:
        p, q = items(x), items(y)
    c.expect(set(p) == set(q), what, more=sorted(set(p) ^ set(q))[:5], **k)
    for n in set(p) & set(q):
        u, v = np.asarray(p[n]), np.asarray(q[n])
        ok = u.dtype.names == v.dtype.names and u.shape == v.shape
        if ok and u.dtype.names:
            for f in u.dtype.names:
                ok = ok and (np.array_equal(u[f], v[f], equal_nan=True)
                             if u[f].dtype.kind == "f" else
                             np.array_equal(u[f], v[f]))
        elif ok:
            ok = np.array_equal(u, v)
        c.expect(ok, what, table=n, **k)


DS = {"ORIGINAL": {}, "LITE": dict(history_DS_error=.1, profile_DS_error=.1,
                                   profile_DS_interval=-.005)}


@ck.family("slices", 60, 700)
def slices(rng, c):
    """step 1 makes the grid with the documented settings"""
    from posydon.grids import psygrid as pg
    with folder() as d:
        n = int(rng.integers(1, 4))
        rows = []
        for i in range(n):
            t = str(rng.choice(["HMS-HMS", "CO-HMS_RLO", "CO-HeMS"]))
            comp = str(rng.choice(["ORIGINAL", "LITE", "ORIGINAL_RLO",
                                   "LITE_RLO"]))
            p = os.path.join(d, t, "z%d" % i, "slice%d" % i)
            os.makedirs(p)
            for j in range(int(rng.integers(2, 5))):
                mesa.Run(rng, p, j, gz=False, kinds=["c", "c"] if
                         rng.random() < .5 else None,
                         n=int(rng.integers(5, 60))).write(rng)
            stop = int(rng.integers(2))
            rows.append((p, comp, t, stop))
        with open("step_1.csv", "w") as f:
            f.write("path_to_grid,compression,grid_type,"
                    "stop_before_carbon_depletion\n")
            for r in rows:
                f.write("%s,%s,%s,%d\n" % r)
        i = int(rng.integers(n))
        p, comp, t, stop = rows[i]
        c.note(compression=comp, grid_type=t, stop=stop)
        out = os.path.join(os.path.dirname(p), comp, os.path.basename(p)
                           + ".h5")
        if rng.random() < .3:
            os.makedirs(os.path.dirname(out))
            with h5py.File(out, "w") as f:
                f["old"] = 1
        if rng.random() < .3:
            quietly(RUN.create_grid_slice, i, "step_1.csv", verbose=True)
        else:
            task(rng, RUN.create_grid_slice, i, "step_1.csv")
        c.expect(os.path.isfile(out), "grid is below its compression")
        for j, r in enumerate(rows):
            if j != i:
                c.expect(os.listdir(os.path.dirname(r[0])) == [
                    os.path.basename(r[0])], "other slices are left alone")
        pure = comp.split("_")[0]
        if pure == "LITE":
            ex = dict(history_DS_exclude=pg.EXTRA_COLS_DS_EXCLUDE,
                      profile_DS_exclude=pg.EXTRA_COLS_DS_EXCLUDE)
        else:
            ex = dict(history_DS_exclude=pg.DEFAULT_HISTORY_DS_EXCLUDE,
                      profile_DS_exclude=pg.DEFAULT_PROFILE_DS_EXCLUDE)
        with vk.quiet():
            g = PSyGrid(verbose=False)
            g.create(p, os.path.join(d, "ref.h5"),
                     start_at_RLO=comp.endswith("_RLO"),
                     stop_before_carbon_depletion=bool(stop) and "HMS" in t,
                     initial_RLO_fix=True, **DS[pure], **ex)
            g.close()
        same_grid(c, out, os.path.join(d, "ref.h5"), "grid made with the "
                  "settings of its compression", compression=comp, type=t)
        c.count("slices made")
        c.seen("slice", comp, t, stop)
        # what is not there is refused
        c.raises(KeyError, lambda: quietly(RUN.create_grid_slice, n,
                                           "step_1.csv"),
                 "an entry that is not there is refused")
        c.raises(FileNotFoundError, lambda: quietly(
            RUN.create_grid_slice, 0, "step_9.csv"), "missing table")
        with open("x.csv", "w") as f:
            f.write("path_to_grid,compression,grid_type\n%s,HEAVY,HMS-HMS\n"
                    "%s/no,LITE,HMS-HMS\n" % (p, d))
        c.raises(ValueError, lambda: quietly(RUN.create_grid_slice, 0,
                                             "x.csv"),
                 "an unknown compression is refused")
        c.raises(NotADirectoryError, lambda: quietly(
            RUN.create_grid_slice, 1, "x.csv"), "a missing folder is refused")


@ck.family("combine", 40, 500)
def combine(rng, c):
    """step 2 layers the grids of one column; step F copies"""
    from posydon.grids.psygrid import join_grids
    with folder() as d:
        cols = {}
        k = 0
        shared = [(round(float(10 ** rng.uniform(.5, 2)), 3),
                   round(float(rng.uniform(1, 3)), 3),
                   float("%.3e" % 10 ** rng.uniform(0, 3)))
                  for i in range(4)]
        for j in range(int(rng.integers(1, 4))):
            src = []
            for i in range(int(rng.integers(1, 4))):
                p = os.path.join(d, "m%d" % k)
                os.makedirs(p)
                pts = [shared[q] for q in rng.permutation(4)[
                    :int(rng.integers(1, 4))]]
                for q, (a, b, P) in enumerate(pts):
                    mesa.Run(rng, p, q, m1=a, m2=b, P=P, gz=False).write(rng)
                k += 1
                with vk.quiet():
                    g = PSyGrid()
                    g.create(p, p + ".h5")
                    kind = (g.initial_values.dtype.names,
                            g.final_values.dtype.names)
                    g.close()
                if i and kind != first:
                    continue      # e.g. none of its runs has a companion
                first = kind
                src.append(p + ".h5")
            cols[os.path.join(d, "out%d.h5" % j)] = src
        n = max(map(len, cols.values()))
        pd.DataFrame({a: b + [np.nan] * (n - len(b))
                      for a, b in cols.items()}).to_csv("step_2.csv",
                                                        index=False)
        i = int(rng.integers(len(cols)))
        out = list(cols)[i]
        task(rng, RUN.combine_grid_slices, i, "step_2.csv")
        with vk.quiet():
            join_grids(list(cols[out]), os.path.join(d, "ref.h5"),
                       verbose=False)
        same_grid(c, out, os.path.join(d, "ref.h5"), "the combined grid has "
                  "the grids of its column, later ones on top")
        # later grids win: judged on the files themselves
        def runs(f):
            with h5py.File(f, "r") as h:
                v = h["/grid/initial_values"][()]
                q = [x.decode() for x in h["/relative_file_paths"][()]]
                return {tuple(np.round([x["star_1_mass"], x["star_2_mass"],
                                        x["period_days"]], 8)): y
                        for x, y in zip(v, q)}
        want = {}
        for f in cols[out]:
            want.update(runs(f))
        got = runs(out)
        c.expect(sorted(got.values()) == sorted(want.values()), "the runs of "
                 "the last grid having them", got=sorted(got.values()),
                 want=sorted(want.values()))
        c.expect(not any(os.path.exists(o) for o in cols if o != out),
                 "other columns are left alone")
        c.raises(KeyError, lambda: quietly(RUN.combine_grid_slices,
                                           len(cols), "step_2.csv"),
                 "a column that is not there is refused")
        c.count("grids combined")
        # export
        m = int(rng.integers(1, 4))
        data = [rng.bytes(int(rng.integers(1, 5000))) for j in range(m)]
        for j in range(m):
            with open("f%d" % j, "wb") as f:
                f.write(data[j])
        os.makedirs("to")
        pd.DataFrame({"path_to_grid": ["f%d" % j for j in range(m)],
                      "export_path": ["to/e%d" % j for j in range(m)]}
                     ).to_csv("step_F.csv", index=False)
        j = int(rng.integers(m))
        if rng.random() < .4:
            with open("to/e%d" % j, "wb") as f:
                f.write(b"old" * 3000)
        task(rng, RUN.export_dataset, j, "step_F.csv")
        c.expect(os.listdir("to") == ["e%d" % j] and open(
            "to/e%d" % j, "rb").read() == data[j] and open(
                "f%d" % j, "rb").read() == data[j], "the file is exported "
            "unchanged")
        os.remove("f%d" % j)
        c.raises(FileNotFoundError, lambda: quietly(
            RUN.export_dataset, j, "step_F.csv"), "a missing file")
        c.seen("combine", len(cols), len(cols[out]), m)


ck.require("slices made", 20)
ck.require("grids combined", 15)


# -------------------------------------------------- extra values, training
def original(rng, path, n, co):
    runs = [h5grid.R(rng, float(10 ** rng.uniform(.8, 1.9)),
                     float(rng.uniform(1, 3)), float(10 ** rng.uniform(0, 3)),
                     co=co) for i in range(n)]
    for r in runs:
        r.final["termination_flag_2"] = "no_RLOF"
    h5grid.write(path, runs)
    return runs


@ck.family("extra", 16, 160)
def extra(rng, c):
    """step 3: a copy with the quantities calculated from the original"""
    from posydon.grids.post_processing import (
        post_process_grid, add_post_processed_quantities)
    with folder() as d:
        t = str(rng.choice(["HMS-HMS", "CO-HMS_RLO", "CO-HeMS"]))
        co = t.startswith("CO")
        n = int(rng.integers(1, 4))
        original(rng, "o.h5", n, co)
        original(rng, "l.h5", n, co)       # same runs as seen by their names
        data = {f: open(f, "rb").read() for f in ("o.h5", "l.h5")}
        if rng.random() < .4:
            with open("p.h5", "w") as f:
                f.write("old")
        pd.DataFrame({"path_to_grid": ["x.h5", "l.h5"],
                      "grid_type": ["HMS-HMS", t],
                      "path_to_grid_ORIGINAL": ["y.h5", "o.h5"],
                      "path_to_processed_grid": ["z.h5", "p.h5"]}).to_csv(
                          "step_3.csv", index=False)
        task(rng, RUN.calculate_extra_values, 1, "step_3.csv")
        for f in data:
            c.expect(open(f, "rb").read() == data[f], "the grids it is made "
                     "from are left alone", file=f)
        shutil.copyfile("l.h5", "ref.h5")
        with vk.quiet():
            o = PSyGrid("o.h5")
            q = post_process_grid(o, index=None, star_2_CO=co)
            g = PSyGrid("ref.h5")
            add_post_processed_quantities(g, *q)
            g.close()
            o.close()
        same_grid(c, "p.h5", "ref.h5", "the processed grid is the grid with "
                  "the quantities of the original added", type=t)
        with h5py.File("p.h5", "r") as a, h5py.File("l.h5", "r") as b:
            c.expect(set(b["/grid"]) <= set(a["/grid"])
                     and len(a["/grid/final_values"].dtype.names) > len(
                         b["/grid/final_values"].dtype.names)
                     or "SN_MODELS" in a["/grid"], "quantities are added")
        c.count("grids processed")
        c.seen("extra", t, n)
        for f in ("l.h5", "o.h5"):
            os.rename(f, "away")
            c.raises(FileNotFoundError, lambda: quietly(
                RUN.calculate_extra_values, 1, "step_3.csv"),
                "a missing grid is refused", file=f)
            os.rename("away", f)


def put(path, g, models, rng):
    """a grid for training as a file"""
    n = len(g.initial_values)

    def flat(a, more=()):
        kinds = [(k, "S70" if a.dtype[k].kind == "U" else "f8")
                 for k in a.dtype.names] + list(more)
        out = np.zeros(n, dtype=kinds)
        for k in a.dtype.names:
            out[k] = np.char.encode(a[k]) if a.dtype[k].kind == "U" else a[k]
        return out
    fv = flat(g.final_values, [("S2_state", "S70")])
    fv["S2_state"] = b"H-rich_Core_H_burning"
    with h5py.File(path, "w") as q:
        q.attrs["config"] = repr(str({"binary": True}))
        q["/grid/initial_values"] = g.initial_values
        q["/grid/final_values"] = fv
        q["/relative_file_paths"] = np.array([b"/x/%d" % i
                                              for i in range(n)])
        for m, a in models.items():
            b = flat(a, [("S2_CO_type", "S20"), ("S2_SN_type", "S20"),
                         ("S2_mass", "f8")])
            b["S2_CO_type"] = b["S2_SN_type"] = b"None"
            b["S2_mass"] = np.nan
            q["/grid/SN_MODELS/" + m] = b
        for i in range(n):
            q.create_group("/grid/run%d" % i)


@ck.family("train", 8, 80)
def training(rng, c):
    """step 4: the interpolator knows the runs of its grid"""
    from types import SimpleNamespace as N
    from posydon.grids.SN_MODELS import SN_MODELS
    from posydon.interpolation.IF_interpolation import IFInterpolator
    with folder() as d:
        rlo = bool(c.index % 2)
        co = bool(c.index // 2 % 2)
        method = ["linear", "1NN"][c.index // 4 % 2]
        g = ifgrid.make(rng, int(rng.integers(70, 100)), q=not co,
                        models=True)
        if rlo:
            w = g.final_values["interpolation_class"] == "no_MT"
            g.final_values["interpolation_class"][w] = "stable_MT"
        if not co:
            w = (g.final_values["interpolation_class"] == "unstable_MT") & (
                g.initial_values["star_1_mass"] > 30)
            g.final_values["interpolation_class"][w] = "stable_reverse_MT"
        models = {m: g.SN_MODELS[ifgrid.MODELS[i % 2]]
                  for i, m in enumerate(SN_MODELS)}
        put("g.h5", g, models, rng)
        before = open("g.h5", "rb").read()
        name = method + ("_RLO" if rlo else "")
        t = str(rng.choice(["CO-HMS_RLO", "CO-HeMS"])) if co else "HMS-HMS"
        pd.DataFrame({"path_to_grid": ["x.h5", "g.h5"],
                      "grid_type": ["CO-HeMS", t],
                      "interpolation_method": ["linear", name],
                      "path_to_interpolator": ["a/b.pkl",
                                               "new/IF_%s.pkl" % name]}
                     ).to_csv("step_4.csv", index=False)
        c.note(method=name, grid_type=t)
        task(rng, RUN.train_interpolators, 1, "step_4.csv")
        c.expect(open("g.h5", "rb").read() == before, "grid is left alone")
        c.expect(not os.path.exists("a") and os.path.isfile(
            "new/IF_%s.pkl" % name), "the interpolator is stored where asked",
            got=os.listdir("."))
        f = IFInterpolator()
        with vk.quiet():
            f.load("new/IF_%s.pkl" % name)
        fv, iv = g.final_values, g.initial_values
        for i in rng.permutation(len(iv))[:20]:
            ic = str(fv["interpolation_class"][i])
            if ic == "not_converged" or ic.startswith("ignored"):
                continue
            with vk.quiet():
                num, cat = f.evaluate(N(
                    star_1=N(mass=iv["star_1_mass"][i]),
                    star_2=N(mass=iv["star_2_mass"][i]),
                    orbital_period=iv["period_days"][i]))
            for k in ("interpolation_class", "S1_state", "mt_history"):
                c.expect(str(cat[k]) == str(fv[k][i]), "class of the run",
                         which=k, got=cat[k], want=fv[k][i])
            miss = (set(ifgrid.NUM) | {"all_nan"}) - set(num)
            c.expect(not miss, "all numerical quantities", missing=miss)
            if ic != "initial_MT":
                for k in ifgrid.NUM:
                    w = fv[k][i]
                    if k in ifgrid.LAW or np.isnan(w) or k in miss:
                        continue
                    c.close(num[k], w, "final value of the run", rtol=1e-6,
                            atol=1e-8, which=k, cls=ic)
                    c.count("values of runs")
            m = str(rng.choice(list(models)))
            a = models[m][i]
            k = str(a["S1_CO_interpolation_class"])
            for q in ("CO_type", "SN_type"):
                c.expect(str(cat["S1_%s_%s" % (m, q)]) == str(a["S1_" + q]),
                         "supernova of the run", which=q, model=m,
                         got=cat["S1_%s_%s" % (m, q)], want=a["S1_" + q])
            if k != "None" and ic != "initial_MT":
                for q in ("mass", "f_fb"):
                    c.close(num["S1_%s_%s" % (m, q)], a["S1_" + q],
                            "remnant of the run", rtol=1e-6, atol=1e-8,
                            which=q, model=m, cls=k)
                    c.count("remnants of runs")
        c.seen("train", name, co)


ck.require("grids processed", 6)
ck.require("values of runs", 300)
ck.require("remnants of runs", 30)


# ------------------------------------------------------------------- reruns
POOL = ["min_timestep_limit", "reach cluster timelimit", "max_age",
        "Primary has depleted central carbon", "gamma_center_limit",
        "Primary enters pair-instability regime"]


@ck.family("rerun", 160, 2200)
def reruns(rng, c):
    from posydon.visualization.combine_TF import TF1_POOL_ERROR
    with folder() as d:
        kind = str(rng.choice(["PISN", "conv_bdy_weight", "reverse_MT",
                               "TPAGBwind", "LBV_wind", "initial_He",
                               "opacity_max", "opacity_max_hms-hms",
                               "no_age_limit", "thermohaline_mixing",
                               "more_mesh", "HeMB_MLTp_mesh",
                               "dedt_energy_eqn", "LBV_wind+dedt_hepulse",
                               "LBV_wind+thermohaline_mixing"]))
        n = int(rng.integers(1, 7))
        runs = [h5grid.R(rng, float(10 ** rng.uniform(.5, 2)),
                         float(rng.uniform(1, 3)),
                         float(10 ** rng.uniform(0, 3)),
                         co=bool(rng.random() < .3)) for i in range(n)]
        want = []
        single = str(rng.choice(["", "single_HMS", "single_HeMS"]))
        dirs = []
        for i, r in enumerate(runs):
            hit = False
            p = os.path.join(d, single or "grid", "run_initial_z_%d" % i)
            os.makedirs(p)
            dirs.append(p)
            r.final["termination_flag_1"] = str(rng.choice(
                POOL + list(TF1_POOL_ERROR)))
            tf = r.final["termination_flag_1"]
            log = {"": "out.txt", "single_HMS":
                   "out_star1_formation_step0.txt", "single_HeMS":
                   "out_star1_formation_step2.txt"}[single]
            texts = {"PISN": ["have reached gamma1 integral limit"],
                     "conv_bdy_weight": [
                         "STOP prepare_for_new_try: bad num omega",
                         "Segmentation fault"]}
            lines = ["model %d" % q for q in range(int(rng.integers(3)))]
            u = rng.random()
            for q in range(int(rng.integers(0, 3))):
                lines.insert(int(rng.integers(len(lines) + 1)), " " + str(
                    rng.choice(texts["PISN"] + texts["conv_bdy_weight"]))
                    + "! ")
            if u < .85:
                with open(os.path.join(p, log), "w") as f:
                    f.write("\n".join(lines) + "\n")
            elif u < .93:
                with open(os.path.join(p, "other.txt"), "w") as f:
                    f.write("\n".join(lines) + "\n")
            if kind in texts:
                hit = u < .85 and any(t in x for x in lines
                                      for t in texts[kind])
            m = len(r.bh)
            for h in r.h:
                if h is None:
                    continue
                h["surf_avg_omega_div_omega_crit"] = rng.choice(
                    [.1, .89, .91, .99], m)
                h["log_Teff"] = np.log10(rng.choice([1.1e4, 1.3e4], m))
                h["center_he4"] = rng.choice([1e-7, 1e-5, .3], m)
                h["co_core_mass"] = rng.uniform(1, 2, m)
                h["he_core_mass"] = h["co_core_mass"] + rng.choice(
                    [.05, .2], m, p=[.3, .7])
                h["log_L"] = np.log10(rng.choice([5e5, 7e5], m))
                h["log_R"] = np.log10(rng.choice([50., 200.], m))
                h["surface_h1"] = rng.choice([.05, .3], m)
            r.bh["rl_relative_overflow_1"] = rng.choice([-.2, -.01, .1], m)
            r.bh["rl_relative_overflow_2"] = rng.choice([-.2, -.01, .1], m)

            def any_row(f):
                return any(f(h, j) for h in r.h if h is not None
                           for j in range(m))

            def tpagb(h, j):
                return 10 ** h["log_Teff"][j] < 1.2e4 and \
                    h["center_he4"][j] < 1e-6 and \
                    h["he_core_mass"][j] - h["co_core_mass"][j] < .1

            def lbv(h, j):
                return 10 ** h["log_L"][j] > 6e5 and 1e-5 * 10 ** h[
                    "log_R"][j] * 10 ** (h["log_L"][j] / 2) > 1 and \
                    h["surface_h1"][j] >= .1
            if kind == "reverse_MT":
                hit = any(r.bh["rl_relative_overflow_1"][j] < -.05
                          and r.bh["rl_relative_overflow_2"][j] > -.05
                          and r.h[0]["surf_avg_omega_div_omega_crit"][j] > .9
                          for j in range(m))
            elif kind == "TPAGBwind":
                hit = any_row(tpagb)
            elif kind == "LBV_wind":
                hit = any_row(lbv) and not any_row(tpagb)
            elif kind == "initial_He":
                r.h[0]["center_he4"][0] = y = float(rng.choice(
                    [.25, .955, .965, .99, np.nan]))
                hit = np.isnan(y) or y < .96
            elif kind.startswith("opacity"):
                hit = tf in ("reach cluster timelimit", "min_timestep_limit")
            elif kind == "no_age_limit":
                hit = tf == "max_age"
            elif kind not in texts:
                hit = tf in TF1_POOL_ERROR
            if hit:
                want.append(i)
        h5grid.write("g.h5", runs)
        with h5py.File("g.h5", "a") as f:
            del f["/relative_file_paths"]
            f["/relative_file_paths"] = np.array([p.encode() for p in dirs])
        flag = {"opacity_max": {"opacity_max": .5},
                "opacity_max_hms-hms": {"opacity_max": .5},
                "thermohaline_mixing": {"thermohaline_coeff": 17.5},
                "LBV_wind+thermohaline_mixing": {"thermohaline_coeff": 17.5},
                "more_mesh": {"mesh_Pgas_div_P_exponent": 2,
                              "max_allowed_nz": 50000},
                "conv_bdy_weight": {"convective_bdy_weight": 0}}.get(kind, {})
        gt = str(rng.choice(TYPES))
        z = str(rng.choice(ZS))
        cl = str(rng.choice(["quest", "yggdrasil"]))
        base = {"CO-HMS_RLO": "CO-HMS_RLO"}.get(gt, gt) + "_%s.ini" % cl
        zams = {"2e+00_Zsun": "zams_z2.84m2_y0.2915.data",
                "1e+00_Zsun": "zams_z1.42m2_y0.2703.data",
                "4.5e-01_Zsun": "zams_z6.39m3_y0.2586.data",
                "2e-01_Zsun": "zams_z2.84m3_y0.2533.data",
                "1e-01_Zsun": "zams_z1.42m3_y0.2511.data",
                "1e-02_Zsun": "zams_z1.42m4_y0.2492.data",
                "1e-03_Zsun": "zams_z1.42m5_y0.2490.data",
                "1e-04_Zsun": "zams_z1.42m6_y0.2490.data"}[z]
        other = "other.h5"
        pd.DataFrame({"path_to_grid": [other, "g.h5"],
                      "rerun_path": ["r0", "r1"], "grid_type": [TYPES[0], gt],
                      "rerun_metallicity": [ZS[0], z],
                      "rerun_type": ["PISN", kind],
                      "cluster": ["quest", cl]}).to_csv("rerun.csv",
                                                        index=False)
        c.note(kind=kind, want=want, grid_type=gt, metallicity=z, cluster=cl)
        task(rng, RUN.rerun, 1, "rerun.csv")
        c.expect(not os.path.exists("r0"), "other reruns are left alone")
        try:
            df = pd.read_csv("r1/grid.csv")
        except pd.errors.EmptyDataError:
            df = pd.DataFrame()
        got = [(x["m1"], x["m2"], x["initial_period_in_days"])
               for x in df.to_dict("records")]
        exp = [(runs[i].m1, runs[i].m2, runs[i].P) for i in want]
        c.expect(len(got) == len(exp) and all(
            np.allclose(a, b, rtol=1e-7) for a, b in zip(
                sorted(got), sorted(exp))), "the runs with the problem are "
            "repeated, each once", got=got, want=exp)
        for k, v in flag.items():
            c.expect(k in df and np.all(df[k] == v), "changed setting",
                     key=k)
        if not len(want) == 0:
            c.count("reruns with runs")
        ini = os.path.join("r1", base)
        c.expect(os.path.isfile(ini), "rerun has the ini file of its grid and "
                 "cluster", got=os.listdir("r1"), want=base)
        if os.path.isfile(ini):
            t = open(ini).read()
            c.expect("this is " + base in t, "ini file of the grid type")
            c.expect(zams in t and all(
                q == zams for q in re.findall(r"zams_z\S*data", t)),
                "starts from the metallicity of the grid", text=t)
            c.expect("grid = 'grid.csv'" in t and "grid_test" not in t,
                     "reads the new table")
            c.expect("main-18710e943edd926a5653c4cdb7d6e18e5bdb35a2" not in t
                     and "main-a060b7bf1a4d94d693f77be9a1b0b3a522c1eadf"
                     not in t and "untouched = 1" in t, "uses the changed "
                     "inlists")
        c.seen("rerun", kind, min(len(want), 2), gt, single)
        c.raises(ValueError, lambda: RUN.zams_file_name("3e+00_Zsun"),
                 "an unknown metallicity is refused")
        with vk.quiet():
            g = PSyGrid("g.h5")
        c.raises(ValueError, lambda: RUN.logic_rerun(g, "nonsense"),
                 "an unknown rerun is refused")
        g.close()
        # checks
        check(rng, c, runs, n)


def check(rng, c, runs, n):
    pd.DataFrame({"path_to_grid": ["no.h5", "g2.h5"],
                  "checks_to_do": [["CO_type"], ["failure_rate"]]}).to_csv(
                      "step_2_checks.csv", index=False)
    bad = 0
    for r in runs:
        r.final["interpolation_class"] = str(rng.choice(
            ["not_converged", "no_MT", "stable_MT"]))
        bad += r.final["interpolation_class"] == "not_converged"
    h5grid.write("g2.h5", runs)
    o = task(rng, RUN.do_check, 1, "step_2_checks.csv")
    m = re.search(r"([\d.]+) ?%", o)
    c.expect(m is not None and abs(float(m.group(1)) - 100. * bad / n)
             <= .0051, "the failure rate is that of the grid", text=o,
             want=100. * bad / n)


ck.require("reruns with runs", 40)


def inis():
    for t in TYPES:
        for cl in ("quest", "yggdrasil"):
            n = "%s_%s.ini" % (t, cl)
            with open(os.path.join(INIS, n), "w") as f:
                f.write("# this is %s\n[run_parameters]\n"
                        "    grid = 'grid_test.csv'\n"
                        "    scenario = ['posydon', 'main-18710e943edd926a5653"
                        "c4cdb7d6e18e5bdb35a2', 'x']\n"
                        "    other = ['posydon', 'main-a060b7bf1a4d94d693f77b"
                        "e9a1b0b3a522c1eadf', 'y']\n"
                        "    zams_filename = 'zams_z1.42m3_y0.2511.data'\n"
                        "    untouched = 1\n" % n)


inis()
if __name__ == "__main__":
    sys.exit(ck.main())
