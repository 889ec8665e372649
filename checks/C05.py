"""C05: population runs lose, duplicate or alter no binary."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import shutil
import numpy as np
import pandas as pd
from posydon.popsyn.binarypopulation import BinaryPopulation
from posydon.binary_evol.simulationproperties import (SimulationProperties,
                                                      StepNamesHooks)
from posydon.binary_evol.flow_chart import flow_chart
from posydon.popsyn.synthetic_population import PopulationRunner
from posydon.utils.posydonerror import FlowError, MatchingError
from posydon.utils.posydonwarning import Pwarn

ck = vk.Check("C05", "population runs of 1 to 30 systems (singles and "
              "binaries) with scripted steps, batch sizes, data-frame "
              "breakdown, RAM optimisation, job arrays of 1 to 5 ranks, "
              "steps raising errors and warnings at random points and write "
              "faults; the final files are audited row by row against the "
              "events logged inside the steps; non-trivial by (mode, ranks, "
              "dumps, faults)")


class Steps:
    """All steps of the chart; each binary follows a plan by its masses."""

    def __init__(self, salt=0, fail=.2, warn=.2):
        self.rows = {}
        self.state = {}
        self.salt, self.fail, self.warn = salt, fail, warn

    def plan(self, b):
        r = np.random.default_rng([self.salt, int(b.star_1.mass_history[0]
                                                  * 1e6)])
        n = int(r.integers(1, 6))
        f = r.uniform() < self.fail
        w = r.uniform() < self.warn
        return n, (int(r.integers(0, n)) if f else -1), \
            (int(r.integers(0, n)) if w else -1), r

    def __call__(self, b):
        i = b.index
        if len(b.event_history) == 1:
            self.rows[i] = [self.row(b)]
            self.state[i] = ["", False, ""]
        k = len(self.rows[i]) - 1
        n, f, w, r = self.plan(b)
        if k == w:
            self.state[i][1] = True
            Pwarn("something odd with %d" % i, "EvolutionWarning")
        if k == f:
            e = [FlowError, MatchingError, ValueError, RuntimeError,
                 KeyError, ZeroDivisionError][int(r.integers(6))]
            self.state[i][0] = e.__name__
            # half-finished changes before the fault
            b.star_1.mass = 123.
            raise e("planned fault")
        v = np.random.default_rng([self.salt, int(
            b.star_1.mass_history[0] * 1e6), k]).uniform(size=4)
        b.star_1.mass = float(b.star_1.mass * (1 - .1 * v[0]))
        if b.star_2.mass:
            b.star_2.mass = float(b.star_2.mass * (1 - .1 * v[1]))
        b.time = float(b.time + v[2])
        # quantities only some systems know
        if b.star_1.mass_history[0] > 9:
            for q in ("mass_conv_reg_fortides", "lambda_CE_1cent", "spin",
                      "total_mass_h1"):
                setattr(b.star_1, q, float(v[3]))
            b.lg_mtransfer_rate = -float(v[3])
        if k == n - 1:
            b.event = "END"
        elif b.state != "initially_single_star":
            b.event = None
            b.star_1.state = ["H-rich_Core_H_burning",
                              "H-rich_Core_He_burning"][k % 2]
        self.rows[i].append(self.row(b))

    def row(self, b):
        return (b.time, b.star_1.mass, b.star_2.mass, b.state, b.event,
                b.star_1.state, b.star_1.mass_conv_reg_fortides,
                b.lg_mtransfer_rate)


def make(steps, tmp, **kw):
    p = SimulationProperties(extra_hooks=[(StepNamesHooks, {})])
    p.flow = dict(flow_chart())
    for n in set(p.flow.values()):
        setattr(p, n, steps)
    p.steps_loaded = True
    d = dict(population_properties=p, temp_directory=tmp,
             star_formation="burst", extra_columns={"step_names": "string"},
             primary_mass_min=5., primary_mass_max=150.,
             tqdm=False, use_MPI=False)
    d.update(kw)
    return BinaryPopulation(**d)


def same(a, b):
    if a is None or b is None or a is pd.NA or b is pd.NA:
        return (a is None or a is pd.NA or a != a) and \
            (b is None or b is pd.NA or b != b)
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    return a == b or (a != a and b != b)


def audit(c, path, steps, want, met, masses=None, tag=""):
    """The file holds exactly what happened."""
    h = pd.read_hdf(path, key="history")
    o = pd.read_hdf(path, key="oneline")
    m = pd.read_hdf(path, key="mass_per_metallicity")
    ini = pd.read_hdf(path, key="ini_parameters")
    c.expect(sorted(o.index) == sorted(want),
             "every system exactly once" + tag,
             missing=sorted(set(want) - set(o.index))[:9],
             twice=sorted(o.index[o.index.duplicated()])[:9],
             extra=sorted(set(o.index) - set(want))[:9])
    c.expect(sorted(set(h.index)) == sorted(want),
             "history of every system" + tag)
    # rows of one system are contiguous
    v = np.asarray(h.index)
    runs = 1 + int(np.sum(v[1:] != v[:-1])) if len(v) else 0
    c.expect(runs == len(set(want)), "histories are not interleaved" + tag)
    ms = mb = 0.0
    bad = []
    for i in want:
        if i not in o.index or i not in h.index:
            continue
        hi, oi = h.loc[[i]], o.loc[i]
        rows = [tuple(x) for x in zip(hi["time"], hi["S1_mass"],
                                      hi["S2_mass"], hi["state"],
                                      hi["event"], hi["S1_state"],
                                      hi["S1_mass_conv_reg_fortides"],
                                      hi["lg_mtransfer_rate"])]
        exp = list(steps.rows[i])
        err, warn, _ = steps.state[i]
        if err:
            exp = exp + [(exp[-1][0], 123., exp[-1][2], "ERR",
                          "FAILED") + exp[-1][5:]]
        if len(rows) != len(exp) or not all(
                same(x, y) for a, b in zip(rows, exp)
                for x, y in zip(a, b)):
            bad.append((i, rows[-1:], exp[-1:], len(rows), len(exp)))
        c.expect(int(oi["FAILED"]) == int(bool(err)),
                 "failed systems are flagged" + tag, err=err,
                 flag=int(oi["FAILED"]))
        c.expect(int(oi["WARNING"]) == int(bool(warn)),
                 "systems with warnings are flagged" + tag, warn=warn,
                 flag=int(oi["WARNING"]))
        for col, k in (("S1_mass", 1), ("time", 0),
                       ("S1_mass_conv_reg_fortides", 6)):
            if not (same(oi[col + "_i"], exp[0][k])
                    and same(oi[col + "_f"], exp[-1][k])):
                bad.append((i, col, oi[col + "_i"], oi[col + "_f"]))
        c.count("faults: " + err if err else "finished systems")
        if exp[0][3] == "initially_single_star":
            ms += exp[0][1]
            c.count("singles")
        else:
            mb += exp[0][1] + exp[0][2]
    c.expect(not bad, "histories are the steps that ran" + tag, bad=bad[:3])
    c.expect(len(m) == 1 and float(m.index[0]) == met,
             "one metallicity entry" + tag, index=list(m.index))
    c.expect(int(m["number_of_systems"].iloc[0]) == len(want),
             "number of systems" + tag, n=int(m["number_of_systems"].iloc[0]))
    c.close([m["simulated_mass_single"].iloc[0],
             m["simulated_mass_binaries"].iloc[0],
             m["simulated_mass"].iloc[0]], [ms, mb, ms + mb],
            "simulated mass" + tag, 1e-12)
    c.expect(set(o["metallicity"]) <= {met}, "metallicity column" + tag)
    c.expect(len(ini) == 1 and ini["metallicity"].iloc[0] == met,
             "one row of ini parameters" + tag, n=len(ini))
    return h, o


def run(c, rng, steps, d, kw, ranks, n, job):
    """Run a population (all ranks) and merge; returns path."""
    out = os.path.join(d, "pop.h5")
    if ranks == 0:
        pop = make(steps, os.path.join(d, "batches"), **kw)
        with vk.quiet():
            pop.evolve()
            if kw.get("optimize_ram"):
                c.expect(os.listdir(os.path.join(d, "batches"))
                         == ["evolution.combined.h5"],
                         "batch files are combined and removed",
                         left=os.listdir(os.path.join(d, "batches")))
            pop.save(out)
    else:
        order = list(rng.permutation(ranks))
        for r in order:
            pop = make(steps, os.path.join(d, "batches"), JOB_ID=job,
                       RANK=int(r), size=ranks, **kw)
            with vk.quiet():
                pop.evolve()
        left = sorted(os.listdir(os.path.join(d, "batches")))
        c.expect(left == ["evolution.combined.%d.h5" % r
                          for r in range(ranks)],
                 "one file per rank", left=left)
        with vk.quiet():
            if rng.uniform() < .5:
                pop.save(out)
            else:
                pr = PopulationRunner.__new__(PopulationRunner)
                pr.verbose = False
                cwd = os.getcwd()
                os.chdir(d)
                try:
                    pr.merge_parallel_runs(pop)
                finally:
                    os.chdir(cwd)
                import glob
                f = glob.glob(os.path.join(d, "*_Zsun_population.h5"))
                c.expect(len(f) == 1, "merged population file", f=f)
                os.rename(f[0], out)
                c.expect(not os.path.exists(os.path.join(d, "batches")),
                         "batch directory is removed after merging")
                os.makedirs(os.path.join(d, "batches"))
        c.expect(os.listdir(os.path.join(d, "batches")) == [],
                 "rank files are removed after merging",
                 left=os.listdir(os.path.join(d, "batches")))
    return out, pop


@ck.family("run", quick=32, thorough=700)
def runs(rng, c):
    d = os.path.join(vk.scratch(), "c05_%d" % c.index)
    os.makedirs(d)
    try:
        n = int(rng.integers(1, 30))
        ranks = int(rng.choice([0, 0, 1, 2, 3, 5]))
        n = max(n, ranks)
        met = float(rng.choice([1e-4, .1, 1., 2.]))
        mets = [met] if rng.uniform() < .5 else [.45, met, .01]
        kw = dict(number_of_binaries=n, metallicities=mets, metallicity=met,
                  binary_fraction_const=float(rng.choice([1., .5, 0.7])),
                  optimize_ram=bool(ranks or rng.uniform() < .7),
                  breakdown_to_df=bool(rng.uniform() < .5),
                  history_verbose=bool(rng.uniform() < .3))
        if kw["optimize_ram"] and rng.uniform() < .8:
            kw["dump_rate"] = int(rng.integers(1, max(2, n)))
        if rng.uniform() < .6 or ranks == 0:
            kw["entropy"] = int(rng.integers(0, 1 << 60))
        want = list(range(n))
        if not ranks and rng.uniform() < .25:
            want = sorted(int(x) for x in rng.choice(500, n, replace=False))
            kw["indices"] = want
        job = int(rng.integers(1, 10**6))
        steps = Steps(int(rng.integers(1 << 30)))
        c.note(n=n, ranks=ranks, kw={k: v for k, v in kw.items()
                                     if k != "indices"})
        if not kw["optimize_ram"] and kw["breakdown_to_df"]:
            pop = make(steps, os.path.join(d, "batches"), **kw)
            with vk.quiet():
                pop.evolve()
            out = os.path.join(d, "batches", "evolution.combined.h5")
        else:
            out, pop = run(c, rng, steps, d, kw, ranks, n, job)
        h, o = audit(c, out, steps, want, met)
        if ranks:
            c.expect(o["S1_mass_i"].nunique() == n,
                     "ranks draw different systems")
        # the mode of running does not change what is drawn
        if ranks == 0:
            d2 = os.path.join(d, "again")
            os.makedirs(d2)
            kw2 = dict(kw, optimize_ram=True, breakdown_to_df=bool(
                rng.uniform() < .5), dump_rate=int(rng.integers(1, n + 3)))
            s2 = Steps(steps.salt)
            out2, _ = run(c, rng, s2, d2, kw2, 0, n, job)
            h2, o2 = audit(c, out2, s2, want, met, tag=" (again)")
            a = h.drop(columns=["step_times"], errors="ignore")
            b = h2.drop(columns=["step_times"], errors="ignore")
            c.expect(a.equals(b) and o.equals(o2), "same entropy, same "
                     "population, whatever the batching",
                     cols=[k for k in a if not a[k].equals(b[k])][:5]
                     if len(a) == len(b) else (len(a), len(b)))
            c.count("reruns")
        c.seen(ranks, kw["optimize_ram"], kw["breakdown_to_df"],
               min(4, n // kw.get("dump_rate", n)), n > 9,
               any(s[0] for s in steps.state.values()))
    finally:
        shutil.rmtree(d, ignore_errors=True)


@ck.family("partition", quick=10, thorough=300)
def partition(rng, c):
    """Job arrays: ranks split the work without gaps, draws reproducible and
    independent."""
    d = os.path.join(vk.scratch(), "c05p_%d" % c.index)
    os.makedirs(d)
    try:
        size = int(rng.integers(1, 7))
        n = int(rng.integers(size, 40))
        job = int(rng.integers(1, 10**6))
        mets = [1., .1, .01]
        ent = int(rng.integers(1 << 40)) if rng.uniform() < .5 else None
        seen = {}
        allidx = []
        for r in range(size):
            draws = []
            for rep in range(2):
                st = Steps(7, 0., 0.)
                dd = os.path.join(d, "b%d_%d" % (r, rep))
                met = 1. if ent is not None or rng.uniform() < .7 else 1.
                kw = dict(number_of_binaries=n, metallicities=mets,
                          metallicity=met, optimize_ram=True)
                if ent is not None:
                    kw["entropy"] = ent
                pop = make(st, dd, JOB_ID=job, RANK=r, size=size, **kw)
                with vk.quiet():
                    pop.evolve()
                draws.append({i: st.rows[i][0][1:3] for i in st.rows})
            c.expect(draws[0] == draws[1], "a rank's systems are "
                     "reproducible")
            allidx += sorted(draws[0])
            for i, v in draws[0].items():
                c.expect(v not in seen, "no two ranks draw the same system",
                         index=i, other=seen.get(v))
                seen[v] = i
            c.expect(abs(len(draws[0]) - n / size) < 1, "even shares",
                     share=len(draws[0]), n=n, size=size)
        c.expect(sorted(allidx) == list(range(n)),
                 "the ranks cover all indices once", got=sorted(allidx)[:50])
        if ent is None:
            # other metallicities of the same job array draw other systems
            st = Steps(7, 0., 0.)
            pop = make(st, os.path.join(d, "z"), JOB_ID=job, RANK=0,
                       size=size, number_of_binaries=n, metallicities=mets,
                       metallicity=.1, optimize_ram=True)
            with vk.quiet():
                pop.evolve()
            c.expect(not set(x[0][1:3] for x in st.rows.values())
                     & set(seen), "metallicities draw different systems")
        c.seen("partition", size, n % size, ent is None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@ck.family("writefault", quick=12, thorough=200)
def writefault(rng, c):
    """A fault while combining batch files loses nothing silently."""
    d = os.path.join(vk.scratch(), "c05w_%d" % c.index)
    os.makedirs(d)
    orig = pd.HDFStore.append
    try:
        n = int(rng.integers(4, 14))
        st = Steps(3, 0., 0.)
        kw = dict(number_of_binaries=n, metallicities=[1.], metallicity=1.,
                  optimize_ram=True, dump_rate=int(rng.integers(1, 4)),
                  entropy=int(rng.integers(1 << 40)))
        pop = make(st, os.path.join(d, "batches"), **kw)
        hit = [0]
        target = int(rng.integers(1, 4))
        key = ["history", "oneline"][int(rng.integers(2))]

        def faulty(self, k, *a, **kk):
            if "combined" in str(self._path) and k == key:
                hit[0] += 1
                if hit[0] == target:
                    raise OSError("injected write fault")
            return orig(self, k, *a, **kk)
        pd.HDFStore.append = faulty
        err = None
        try:
            with vk.quiet():
                pop.evolve()
        except Exception as e:
            err = e
        pd.HDFStore.append = orig
        if hit[0] < target:
            c.stop()
        held = {"history": set(), "oneline": set()}
        for f in os.listdir(os.path.join(d, "batches")):
            with pd.HDFStore(os.path.join(d, "batches", f), "r") as s:
                for k in held:
                    if "/" + k in s.keys():
                        held[k] |= set(s[k].index)
        for k in held:
            c.expect(held[k] == set(range(n)), "after a write fault every "
                     "system is still in a file (%s)" % k,
                     lost=sorted(set(range(n)) - held[k]), err=repr(err),
                     target=target, key_=key)
        c.seen("writefault", key, target)
        c.count("write faults")
    finally:
        pd.HDFStore.append = orig
        shutil.rmtree(d, ignore_errors=True)


@ck.family("reevolve", quick=8, thorough=200)
def reevolve(rng, c):
    """Systems taken from a population file are evolved again alike."""
    d = os.path.join(vk.scratch(), "c05r_%d" % c.index)
    os.makedirs(d)
    try:
        n = int(rng.integers(2, 14))
        kw = dict(number_of_binaries=n, metallicities=[1.], metallicity=1.,
                  optimize_ram=True, dump_rate=3,
                  binary_fraction_const=.7,
                  entropy=int(rng.integers(1 << 40)))
        st = Steps(5, .3, .2)
        out, pop = run(c, rng, st, d, kw, 0, n, 0)
        h, o = audit(c, out, st, list(range(n)), 1.)
        pick = sorted(int(x) for x in rng.choice(n, int(rng.integers(
            1, n + 1)), replace=False))
        s2 = Steps(5, .3, .2)
        d2 = os.path.join(d, "again")
        os.makedirs(d2)
        pop2 = make(s2, os.path.join(d2, "b"), **dict(kw, file_name=out))
        with vk.quiet():
            pop2.evolve(from_hdf=True, indices=pick, optimize_ram=True)
            pop2.save(os.path.join(d2, "x.h5"))
        audit(c, os.path.join(d2, "x.h5"), s2, pick, 1., tag=" (from file)")
        bad = [i for i in pick if s2.rows.get(i) != st.rows[i]
               and not all(same(x, y) for a, b in zip(s2.rows.get(i, []),
                                                      st.rows[i])
                           for x, y in zip(a, b))]
        c.expect(not bad, "evolved again as the first time", bad=[
            (i, s2.rows.get(i), st.rows[i]) for i in bad[:2]])
        c.seen("reevolve", len(pick) == n)
    finally:
        shutil.rmtree(d, ignore_errors=True)


ck.require("finished systems", 200)
ck.require("reruns", 4)
ck.require("write faults", 4)

if __name__ == "__main__":
    sys.exit(ck.main())
