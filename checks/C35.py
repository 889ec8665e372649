"""C35  A population run on a cluster ends complete, whatever job fails."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
vk.setup_env()
import argparse
import builtins
import re
import runpy
import shutil
import tempfile
import numpy as np
import pandas as pd
import posydon.CLI.popsyn.check as PC
import posydon.CLI.popsyn.setup as PS
from posydon.popsyn.binarypopulation import BinaryPopulation  # noqa (loaded
#   before the jobs are forked)
from posydon.config import PATH_TO_POSYDON_DATA
from slurm import Slurm

C = vk.Check(
    "C35",
    "whole campaigns: the real command line sets up runs of 1 to 3 "
    "metallicities, its scripts are submitted to a stand-in for SLURM, the "
    "jobs run the generated programs with scripted steps in forked processes "
    "and get killed before, in and after evolving, writing and merging; the "
    "check command, its rescue and the resulting files are compared with the "
    "truth after every round; signature = (faults, options, round)")
REPO = vk.REPO
MET = {2.: "2e+00", 1.: "1e+00", .45: "4.5e-01", .2: "2e-01", .1: "1e-01",
       .01: "1e-02", .001: "1e-03", .0001: "1e-04"}

TOY = '''
import os
N = [0]
class Toy:
    DEFAULT_KWARGS = {"metallicity": 1.}
    def __init__(self, **kw):
        self.kw = kw
    def __call__(self, b):
        N[0] += 1
        if str(N[0]) == os.environ.get("TOY_KILL"):
            os._exit(9)
        if str(N[0]) == os.environ.get("TOY_TIME"):
            print("slurmstepd: error: *** JOB CANCELLED DUE TO TIME LIMIT ***",
                  flush=True)
            os._exit(15)
        k = len(b.event_history) - 1
        b.star_1.mass *= .9
        b.time += 1. + k
        if k >= int(b.star_1.mass_history[0] * 1e6) % 4:
            b.event = "END"
        else:
            b.event = None
            b.star_1.state = ["H-rich_Core_H_burning",
                              "H-rich_Core_He_burning"][k % 2]
'''


def write_ini(path, toy, opts, sn):
    text = open(os.path.join(REPO, "posydon", "popsyn",
                             "population_params_default.ini")).read()
    head, *secs = re.split(r"(?m)^(?=\[)", text)
    out = [head]
    for s in secs:
        name = s[1:s.index("]")]
        if name.startswith("step_") and name != "step_end":
            s = re.sub(r"(?m)^(\s*absolute_import\s*=).*$",
                       lambda m: "%s [%r, 'Toy']" % (m.group(1), toy), s)
        for sec, kv in (("BinaryPopulation_options", opts), ("step_SN", sn)):
            if name == sec:
                for k, v in kv.items():
                    s, n = re.subn(r"(?m)^(\s*%s\s*=).*$" % k,
                                   lambda m: "%s %r" % (m.group(1), v), s)
                    assert n == 1, k
        if name == "extra_hooks":
            s = "[extra_hooks]\n  import_1 = ['posydon.binary_evol." \
                "simulationproperties', 'StepNamesHooks']\n" \
                "  absolute_import_1 = None\n  kwargs_1 = {}\n\n"
        if name == "BinaryStar_output":
            s = s.replace(", 'step_times': 'float64'", "")
        out.append(s)
    with open(path, "w") as f:
        f.write("".join(out))


def cli(argv, answers=(), slurm=None):
    """the command posydon-popsyn; (value returned by its function, text)"""
    got = {}
    prompts = []
    answers = list(answers)

    def wrap(f):
        def g(args):
            got["args"] = args
            got["rc"] = f(args)
            return got["rc"]
        return g

    def ask(prompt=""):
        prompts.append(prompt)
        if "yes/no" in prompt:
            return answers.pop(0) if answers else "no"
        return "0"
    old = PS.setup_popsyn_function, PC.check_popsyn_function, sys.argv, \
        builtins.input, dict(os.environ)
    PS.setup_popsyn_function, PC.check_popsyn_function = map(wrap, old[:2])
    sys.argv = ["posydon-popsyn"] + [str(a) for a in argv]
    builtins.input = ask
    if slurm is not None:
        os.environ.update(slurm.env())
    try:
        with vk.quiet():
            runpy.run_path(os.path.join(REPO, "bin", "posydon-popsyn"),
                           run_name="__main__")
    finally:
        PS.setup_popsyn_function, PC.check_popsyn_function, sys.argv, \
            builtins.input = old[:4]
        os.environ.clear()
        os.environ.update(old[4])
    got["prompts"] = prompts
    return got


def killer(rng, kind, n):
    """what happens to one job: nothing, or a kill at a random point"""
    if kind is None:
        return None
    k = int(rng.integers(1, n + 1))

    def pre():
        if kind == "step":
            os.environ["TOY_KILL"] = str(k)
            return
        if kind == "time":
            os.environ["TOY_TIME"] = str(k)
            return
        count = [0]

        def dying(f, after):
            def g(*a, **kw):
                count[0] += 1
                if count[0] == k and not after:
                    os._exit(9)
                r = f(*a, **kw)
                if count[0] == k:
                    os._exit(9)
                return r
            return g
        if kind == "write":
            pd.HDFStore.append = dying(pd.HDFStore.append, k % 2)
            pd.HDFStore.put = dying(pd.HDFStore.put, k % 2)
        elif kind == "remove":
            os.remove = dying(os.remove, k % 2)
    return pre


class Campaign:
    def __init__(self, rng, c, d):
        self.rng, self.c, self.d = rng, c, d
        self.run = os.path.join(d, "run")
        os.makedirs(self.run)
        self.slurm = Slurm(os.path.join(d, "slurm"),
                           int(rng.integers(10, 10 ** 7)))
        self.toy = os.path.join(d, "toysteps.py")
        with open(self.toy, "w") as f:
            f.write(TOY)
        self.mets = [float(m) for m in rng.choice(
            list(MET), int(rng.integers(1, 4)), replace=False)]
        self.n = int(rng.integers(1, 15))
        self.J = int(rng.integers(1, min(self.n, 5) + 1))
        self.opts = dict(
            metallicities=self.mets, number_of_binaries=self.n,
            dump_rate=int(rng.choice([1, 2, 3, 1000],
                                     p=[.15, .25, .25, .35])),
            entropy=None if rng.random() < .5 else int(rng.integers(10**6)),
            temp_directory=str(rng.choice(["batches", "tmp_x"])),
            breakdown_to_df=bool(rng.random() < .7))
        self.ini = os.path.join(self.run, "pop.ini")
        self.sn = {"use_interp_values": bool(rng.random() < .7)}
        write_ini(self.ini, self.toy, self.opts, self.sn)

    def options(self, rng, p):
        o = {}
        for k, v in (("walltime", "%02d:%02d:00" % (rng.integers(0, 90),
                                                   rng.integers(60))),
                     ("mem_per_cpu", "%dG" % rng.integers(1, 64)),
                     ("partition", str(rng.choice(["debug-cpu", "private",
                                                   "shared=a"]))),
                     ("account", "acc%d" % rng.integers(9)),
                     ("email", "me+pop=%d@x.org" % rng.integers(9)),
                     ("merge_walltime", "0%d:30:00" % rng.integers(1, 9)),
                     ("max_concurrent_jobs", int(rng.integers(1, 9))),
                     ("exclude", "node[%d-7],n=9" % rng.integers(5))):
            if rng.random() < p:
                o[k] = v
        return o

    @staticmethod
    def argv(o):
        return [x for k, v in o.items() for x in ("--" + k, v)]

    def script(self, name, want, ids, what):
        p = os.path.join(self.run, name)
        self.c.expect(os.path.isfile(p), "the " + what + " script is written",
                      file=name)
        g = self.slurm.directives(p)
        w = {"--time": want.get("walltime"),
             "--mem-per-cpu": want.get("mem_per_cpu"),
             "--partition": want.get("partition"),
             "--account": want.get("account"),
             "--mail-user": want.get("email")}
        if ids is not None:
            w["--exclude"] = want.get("exclude")
        for k, v in w.items():
            self.c.expect(g.get(k) == v, "options are passed on to the jobs",
                          script=what, option=k, got=g.get(k), want=v)
        if ids is not None:
            got, lim = self.slurm.array(g["--array"])
            self.c.expect(got == list(ids), "the array has the right tasks",
                          script=what, got=got, want=list(ids))
            self.c.expect(lim == want.get("max_concurrent_jobs"),
                          "limit of jobs at a time", got=lim)
        return g

    def setup(self):
        rng, c = self.rng, self.c
        o = self.options(rng, .4)
        self.o = dict({"walltime": "23:00:00", "merge_walltime": "12:00:00",
                       "mem_per_cpu": "9G"}, **o)
        os.chdir(self.run)
        ini = self.ini if rng.random() < .5 else "pop.ini"
        cli(["setup", ini, "-j", self.J] + self.argv(o), slurm=self.slurm)
        for m in self.mets:
            s = MET[m]
            g = self.script(s + "_Zsun_slurm_array.slurm", self.o,
                            range(self.J), "array")
            c.expect(os.path.isdir(os.path.join(
                self.run, os.path.dirname(g["--output"]))), "folder of the "
                "log files exists", output=g["--output"])
            w = dict(self.o, walltime=self.o["merge_walltime"])
            if w.get("partition") == "debug-cpu":
                w["walltime"] = "00:14:00"
            self.script(s + "_Zsun_merge_popsyn.slurm", w, None, "merge")
        r = self.slurm.sh(["bash", "slurm_submit.sh"], self.run)
        subs = self.slurm.submitted()
        want = []
        c.expect(len(subs) == 2 * len(self.mets), "an array and a merge job "
                 "per metallicity", got=subs, err=r.stderr[-300:])
        for m, (a, b) in zip(self.mets, zip(subs[::2], subs[1::2])):
            s = MET[m]
            c.expect(a[2][-1] == s + "_Zsun_slurm_array.slurm" and b[2][-1]
                     == s + "_Zsun_merge_popsyn.slurm", "submitted in turn",
                     got=(a, b))
            c.expect("--dependency=afterok:%d" % a[0] in b[2], "merging waits "
                     "for its own array", got=b)
        return subs

    def execute(self, subs, fault):
        """what SLURM does with the jobs submitted"""
        rng, c, S = self.rng, self.c, self.slurm
        ok = {}
        self.broken = []
        for job, cwd, args in subs:
            script = os.path.join(cwd, args[-1])
            dep = [a.split(":")[1] for a in args if
                   a.startswith("--dependency=afterok:")]
            if dep and not ok.get(int(dep[0])):
                ok[job] = False
                continue
            g = S.directives(script)
            arr = "--array" in g
            ids, lim = S.array(g["--array"]) if arr else ([None], None)
            ok[job] = True
            running = []
            for t in rng.permutation(ids) if arr else ids:
                env = {"SLURM_JOB_ID": str(job + 7 * (t or 0))}
                log = os.path.join(self.d, "merge.log")
                if arr:
                    env.update(SLURM_ARRAY_JOB_ID=str(job),
                               SLURM_ARRAY_TASK_ID=str(t),
                               SLURM_ARRAY_TASK_COUNT=str(len(ids)),
                               SLURM_ARRAY_TASK_MIN=str(min(ids)),
                               SLURM_ARRAY_TASK_MAX=str(max(ids)))
                    log = os.path.join(cwd, g["--output"].replace(
                        "%A", str(job)).replace("%a", str(t)))
                argv, e = S.call(script, cwd, env)
                c.expect(argv is not None and argv[0] == "python", "the "
                         "script starts its program", error=e)
                c.expect(e.get("PATH_TO_POSYDON_DATA") == os.path.dirname(
                    PATH_TO_POSYDON_DATA), "the data are found")
                kind = None
                if rng.random() < fault:
                    kind = str(rng.choice(
                        ["never", "step", "time", "write", "remove"] if arr
                        else ["never", "write", "remove"]))
                c.count("faults" if kind else "jobs")
                c.seen("job", arr, kind)
                if kind == "never":
                    ok[job] = False
                    continue
                if kind in ("write", "remove"):
                    self.partial = True
                pre = killer(rng, kind, 30 if kind in ("step", "time")
                             else 12)
                running.append((S.start(argv, e, cwd, log, pre), kind, log))
                while len(running) >= min(lim or 3, 3):
                    self.reap(running, ok, job)
            while running:
                self.reap(running, ok, job)
            self.c.note(jobs=ok)

    def reap(self, running, ok, job):
        pid, kind, log = running.pop(0)
        if not self.slurm.wait(pid):
            ok[job] = False
            if log.endswith("merge.log") and self.partial:
                self.broken.append(job)     # batches only partly written
            else:
                self.c.expect(kind is not None, "no job fails by itself",
                              log=open(log).read()[-600:])

    # ------------------------------------------------------------ the truth
    def truth(self):
        t = {}
        for m in self.mets:
            s = MET[m]
            pop = os.path.join(self.run, s + "_Zsun_population.h5")
            bd = os.path.join(self.run, "%s_Zsun_%s" % (
                s, self.opts["temp_directory"]))
            found = None
            if os.path.exists(pop):
                try:
                    with pd.HDFStore(pop, "r") as f:
                        found = f.get_storer("oneline").nrows
                        f["mass_per_metallicity"]
                except Exception:
                    found = -1
            have = {i for i in range(self.J) if os.path.exists(os.path.join(
                bd, "evolution.combined.%d.h5" % i))}
            t[m] = dict(pop=os.path.exists(pop), found=found,
                        folder=os.path.isdir(bd),
                        missing=set(range(self.J)) - have)
        return t

    def audit(self, m):
        c = self.c
        p = os.path.join(self.run, MET[m] + "_Zsun_population.h5")
        o, h = pd.read_hdf(p, "oneline"), pd.read_hdf(p, "history")
        c.expect(sorted(o.index) == list(range(self.n)), "every system once "
                 "in the summary", got=sorted(o.index)[:40], n=self.n)
        c.expect(list(o["metallicity"].unique()) == [m], "its metallicity",
                 got=list(o["metallicity"].unique()), want=m)
        c.expect(list(dict.fromkeys(h.index)) == list(o.index), "history and "
                 "summary in the same order")
        masses = {}
        for i, g in h.groupby(level=0):
            x = g["S1_mass"].to_numpy()
            k = int(x[0] * 1e6) % 4 + 1
            c.expect(len(x) in (k + 1, k + 2) and g["event"].iloc[-1] == "END"
                     and list(g["event"].iloc[:-1]).count("END")
                     == len(x) - k - 1, "complete history of every system",
                     got=list(g["event"]), steps=k, system=i)
            c.close(x[:k + 1], x[0] * .9 ** np.arange(k + 1), "evolution as "
                    "computed", rtol=1e-9)
            c.close(g["time"].to_numpy()[:k + 1], np.cumsum(
                np.r_[g["time"].iloc[0], np.arange(k) + 1.]), "times",
                rtol=1e-12, atol=1e-6)
            masses[float(x[0])] = i
            c.expect(o.loc[i, "S1_mass_i"] == x[0], "initial mass")
        c.expect(len(masses) == self.n, "no two systems are the same")
        t = pd.read_hdf(p, "mass_per_metallicity")
        c.expect(int(t["number_of_systems"].iloc[0]) == self.n
                 and t.index[0] == m, "number of systems stored")
        first = h[~h.index.duplicated()]
        w = np.nansum(first["S1_mass"]) + np.nansum(first["S2_mass"])
        c.close(float(t["simulated_mass"].iloc[0]), w, "mass simulated",
                rtol=1e-9)
        return o.sort_index(), h.sort_index(kind="stable")

    def check(self, answers, o=None):
        argv = ["check" if self.rng.random() < .8 else "rescue",
                self.run if self.rng.random() < .5 else "."]
        return cli(argv + self.argv(o or {}), answers, self.slurm)


@C.family("campaign", quick=48, thorough=1200)
def campaign(rng, c):
    d = tempfile.mkdtemp(dir=vk.scratch())
    cwd = os.getcwd()
    try:
        k = Campaign(rng, c, d)
        c.note(mets=k.mets, n=k.n, J=k.J, opts=k.opts)
        k.partial = False
        subs = k.setup()
        k.execute(subs, float(rng.choice([0., .15, .5, 1.],
                                         p=[.15, .35, .4, .1])))
        for rnd in range(12):
            t = k.truth()
            fault = .3 if rnd < 3 else 0.
            done = all(x["found"] == k.n for x in t.values())
            every = all(x["pop"] for x in t.values())
            gone = [m for m in k.mets if not t[m]["pop"]]
            comp = all(t[m]["folder"] and not t[m]["missing"] for m in gone)
            lost = [m for m in gone if not t[m]["folder"]]
            yes = bool(rng.random() < .8)
            now = bool(rng.random() < .8)
            o = k.options(rng, .3)
            if rnd and rng.random() < .3:       # users change the batch size
                k.opts["dump_rate"] = int(rng.integers(1, 5))
                write_ini(k.ini, k.toy, k.opts, k.sn)
            for f in os.listdir(k.run):
                if f.endswith("_rescue.slurm") or f == "resubmit_slurm.sh":
                    os.remove(os.path.join(k.run, f))
            # rescue
            g = k.check(["yes" if yes else str(rng.choice(["no", "n", "?"])),
                         "Y" if now else "no"], o)
            subs = k.slurm.submitted()
            rc = g["rc"]
            c.note(round=rnd, truth=t, rc=rc, subs=subs)
            c.seen("round", done, every, comp, bool(lost), yes, now,
                   len(k.mets), k.partial)
            c.count("rounds")
            if done:
                c.expect(rc == 0 and not subs, "a complete run passes, and "
                         "nothing is submitted", rc=rc, submitted=subs)
                break
            if every:
                c.expect(rc != 0 and not subs, "a run with missing systems "
                         "never passes", rc=rc, found=t)
                k.partial = True
            elif comp:
                w = [MET[m] + "_Zsun_merge_popsyn.slurm" for m in gone]
                c.expect(sorted(os.path.basename(s[2][-1]) for s in subs)
                         == sorted(w if yes else []) and rc != 0,
                         "merging is repeated for all unmerged batches",
                         got=subs, want=w, agreed=yes)
            elif lost:
                c.expect(rc not in (0, None) and not subs, "nothing to "
                         "rescue without batches", rc=rc)
            else:
                part = [m for m in gone if t[m]["missing"]]
                files = [MET[m] + "_Zsun_rescue.slurm" for m in part]
                if yes:
                    for m in part:
                        k.script(MET[m] + "_Zsun_rescue.slurm",
                                 dict(k.o, **o), sorted(t[m]["missing"]),
                                 "rescue")
                extra = [f for f in os.listdir(k.run) if f.endswith(
                    "_rescue.slurm") and f not in (files if yes else [])]
                c.expect(not extra, "nothing else is rescued", got=extra)
                if yes and not now:
                    r = k.slurm.sh(["sh", "resubmit_slurm.sh"], k.run)
                    c.expect(not subs, "submitted only if agreed", got=subs)
                    subs = k.slurm.submitted()
                w = [x for m in part for x in (
                    MET[m] + "_Zsun_rescue.slurm",
                    MET[m] + "_Zsun_merge_popsyn.slurm")] if yes else []
                # unmerged but complete ones may be merged at once or later
                full = [MET[m] + "_Zsun_merge_popsyn.slurm" for m in gone
                        if not t[m]["missing"]]
                got = [os.path.basename(s[2][-1]) for s in subs]
                c.expect([x for x in got if x not in full] == w, "missing "
                         "batches are computed again, then merged", got=got,
                         want=w)
                ids = {os.path.basename(s[2][-1]): s for s in subs}
                for m in part if yes else []:
                    a, b = (ids[MET[m] + x] for x in (
                        "_Zsun_rescue.slurm", "_Zsun_merge_popsyn.slurm"))
                    c.expect("--dependency=afterok:%d" % a[0] in b[2],
                             "merging waits for the rescue", got=b)
                    c.count("rescued", len(t[m]["missing"]))
            k.execute(subs, fault)
            # what a user repairs by hand
            for job, _, args in subs:
                if job in k.broken:
                    s = os.path.basename(args[-1]).split("_")[0]
                    bd = os.path.join(k.run, "%s_Zsun_%s" % (
                        s, k.opts["temp_directory"]))
                    shutil.rmtree(bd, ignore_errors=True)
                    os.makedirs(bd)
                    p = os.path.join(k.run, s + "_Zsun_population.h5")
                    if os.path.exists(p):
                        os.remove(p)
            if lost:
                for m in lost:
                    os.makedirs(os.path.join(k.run, "%s_Zsun_%s" % (
                        MET[m], k.opts["temp_directory"])), exist_ok=True)
            if every:
                for m in k.mets:
                    if t[m]["found"] != k.n:
                        c.expect(k.partial, "only jobs killed while writing "
                                 "leave incomplete populations", met=m)
                        os.remove(os.path.join(
                            k.run, MET[m] + "_Zsun_population.h5"))
                        bd = os.path.join(k.run, "%s_Zsun_%s" % (
                            MET[m], k.opts["temp_directory"]))
                        shutil.rmtree(bd, ignore_errors=True)
                        os.makedirs(bd)
        else:
            c.expect(False, "a run is complete after repeated rescues",
                     truth=k.truth())
        out = {m: k.audit(m) for m in k.mets}
        if k.opts["entropy"] is not None and rng.random() < .3:
            # rescued or not, the same population
            m = k.mets[0]
            run2 = os.path.join(d, "again")
            os.makedirs(run2)
            env = k.slurm.env()
            for i in range(k.J):
                env.update(SLURM_ARRAY_JOB_ID="5", SLURM_ARRAY_TASK_ID=str(i),
                           SLURM_ARRAY_TASK_COUNT=str(k.J),
                           SLURM_ARRAY_TASK_MIN="0")
                for f in ("run_metallicity.py", "merge_metallicity.py",
                          "pop.ini"):
                    shutil.copy(os.path.join(k.run, f), run2)
                c.expect(k.slurm.wait(k.slurm.start(
                    ["python", "run_metallicity.py", str(m)], env, run2)),
                    "run")
            env = k.slurm.env()
            c.expect(k.slurm.wait(k.slurm.start(
                ["python", "merge_metallicity.py", str(m)], env, run2)),
                "merge")
            p = os.path.join(run2, MET[m] + "_Zsun_population.h5")
            for a, b, q in zip(out[m], ("oneline", "history"), (0, 1)):
                x = pd.read_hdf(p, b).sort_index(kind="stable")
                col = [z for z in ("S1_mass", "S2_mass", "time", "S1_mass_i",
                                   "orbital_period", "S2_mass_i") if z in x]
                c.expect(np.array_equal(a[col].to_numpy(), x[col].to_numpy(),
                                        equal_nan=True), "rescued runs give "
                         "the population of an undisturbed run", table=b)
            c.count("reruns")
        c.count("campaigns")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


@C.family("refusals", quick=40, thorough=400)
def refusals(rng, c):
    d = tempfile.mkdtemp(dir=vk.scratch())
    cwd = os.getcwd()
    try:
        os.chdir(d)
        toy = os.path.join(d, "toysteps.py")
        with open(toy, "w") as f:
            f.write(TOY)
        n, J = int(rng.integers(1, 30)), int(rng.integers(1, 30))
        interp = bool(rng.random() < .6)
        bad = bool(rng.random() < .5)
        sn = {"use_interp_values": interp}
        if bad:
            sn.update([{"max_NS_mass": 1.9}, {"mechanism": "direct"},
                       {"PISN": "Marchant+19"},
                       {"max_neutrino_mass_loss": .4}][int(rng.integers(4))])
        mets = [float(rng.choice(list(MET)))]
        write_ini("p.ini", toy, dict(metallicities=mets,
                                     number_of_binaries=n), sn)
        argv = ["setup", "p.ini", "-j", J]
        c.note(n=n, J=J, sn=sn)
        if (bad and interp) or n < J:
            c.raises(ValueError, lambda: cli(argv), "runs that cannot work "
                     "are refused")
            c.expect(not [f for f in os.listdir(d) if f.endswith(".slurm")],
                     "no job scripts for a refused run")
        else:
            cli(argv)
            c.expect(os.path.exists("slurm_submit.sh"), "a valid run is set "
                     "up")
        c.raises(FileNotFoundError, lambda: cli(["setup", "none.ini"]),
                 "missing configuration refused")
        c.raises(FileNotFoundError, lambda: cli(["check", d + "/none"]),
                 "missing run refused")
        os.makedirs("empty")
        c.raises(ValueError, lambda: cli(["check", d + "/empty"]),
                 "empty run refused")
        c.seen("refuse", bad, interp, n < J, n == J)
        c.count("refusals")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


for k_, m_ in (("campaigns", 30), ("jobs", 200), ("faults", 60),
               ("rounds", 60), ("rescued", 20), ("refusals", 20)):
    C.require(k_, m_)
if __name__ == "__main__":
    sys.exit(C.main())
