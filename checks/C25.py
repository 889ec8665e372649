"""C25: configuration files and steps loaded from them."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import importlib
import numpy as np
from posydon.popsyn.io import (simprop_kwargs_from_ini,
                               binarypop_kwargs_from_ini, parse_inifile)
from posydon.binary_evol.simulationproperties import (SimulationProperties,
                                                      EvolveHooks, NullStep,
                                                      TimingHooks,
                                                      StepNamesHooks)
from posydon.utils.posydonerror import GridError
from posydon.utils import configfile
from posydon.utils.configfile import ConfigFile

ck = vk.Check("C25", "random ini files (all value types, section orders, "
              "absolute imports, hooks with and without options, job-array "
              "environments), random step configurations loaded repeatedly "
              "at several metallicities, random MESA-grid ini files and "
              "ConfigFile contents; compared with the values written; "
              "non-trivial by (kind, options, repetition)")

STEPS = ["step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO",
         "step_CO_HeMS_RLO", "step_detached", "step_disrupted",
         "step_merged", "step_initially_single", "step_dco", "step_SN",
         "step_CE", "step_end"]
MOD = '''
from posydon.binary_evol.simulationproperties import EvolveHooks
class %(n)s:
    TAG = %(t)d
    DEFAULT_KWARGS = {%(d)s}
    def __init__(self, **kw):
        self.kw = kw
    def __call__(self, b):
        b.event = "END"
class H%(n)s(EvolveHooks):
    TAG = %(t)d
    def __init__(self, **kw):
        self.kw = kw
'''


def value(rng, depth=0):
    r = int(rng.integers(0, 9 if depth < 2 else 7))
    if r == 0:
        return int(rng.integers(-1000, 10**9))
    if r == 1:
        return float(rng.normal() * 10**rng.uniform(-20, 20))
    if r == 2:
        return bool(rng.integers(2))
    if r == 3:
        return None
    if r == 4:
        return ["linear3c_kNN", "a=b; c", "x # y", "", "None", "1e5",
                "it's", "%s", "CO-HeMS"][int(rng.integers(9))]
    if r == 5:
        return float(rng.choice([1e-99, 1e99, 0.0, -0.0]))
    if r == 6:
        return int(rng.integers(0, 2))
    if r == 7:
        return [value(rng, depth + 1) for _ in range(int(rng.integers(0, 4)))]
    return {"k%d" % j: value(rng, depth + 1)
            for j in range(int(rng.integers(0, 3)))}


def fmt(v):
    return repr(v).replace("%", "%%")


@ck.family("simprop", quick=500, thorough=6000)
def simprop(rng, c):
    d = os.path.join(vk.scratch(), "c25_%d_%d" % (os.getpid(), c.index))
    os.makedirs(d)
    tag = c.index
    sys.path.insert(0, d)
    try:
        names = {}
        for k in range(2):
            nm = "M%d_%d" % (tag, k)
            with open(os.path.join(d, "mod_%s.py" % nm), "w") as f:
                f.write(MOD % dict(n=nm, t=k, d=""))
            names[k] = nm
        secs, want = [], {}
        for st in STEPS + ["flow", "step_mine"]:
            if rng.uniform() < .3:
                continue
            kw = {"opt_%s%d" % ("Aa"[int(rng.integers(2))], j): value(rng)
                  for j in range(int(rng.integers(0, 5)))}
            ab = rng.uniform() < .4
            k = int(rng.integers(2))
            lines = ["[%s]" % st,
                     "  import = ['mod_%s', '%s']" % (names[k], names[k])]
            if ab:
                lines.append("  absolute_import = ['%s', '%s']" % (
                    os.path.join(d, "mod_%s.py" % names[1 - k]),
                    names[1 - k]))
                k = 1 - k
            elif rng.uniform() < .5:
                lines.append("  absolute_import = None")
            for a, v in kw.items():
                lines.append("  %s = %s" % (a, fmt(v)))
                if rng.uniform() < .2:
                    lines.append("    # comment")
            secs.append("\n".join(lines))
            want[st] = (k, kw)
        hooks = []
        if rng.uniform() < .7:
            lines = ["[extra_hooks]"]
            num = sorted(int(x) for x in rng.choice(6, int(rng.integers(
                1, 4)), replace=False) + 1)
            blocks = []
            for h in num:
                k = int(rng.integers(2))
                bl = ["  import_%d = ['mod_%s', 'H%s']" % (h, names[k],
                                                         names[k])]
                r = rng.uniform()
                if r < .3:
                    bl.append("  absolute_import_%d = None" % h)
                elif r < .6:
                    bl.append("  absolute_import_%d = ['%s', 'H%s']" % (
                        h, os.path.join(d, "mod_%s.py" % names[1 - k]),
                        names[1 - k]))
                    k = 1 - k
                kw = {}
                if rng.uniform() < .6:
                    kw = {"a": value(rng)}
                    bl.append("  kwargs_%d = %s" % (h, fmt(kw)))
                blocks.append(bl)
                hooks.append((k, kw))
            order = rng.permutation(len(blocks))
            for j in order:
                lines += blocks[j]
            secs.append("\n".join(lines))
        paths = {}
        if rng.uniform() < .5:
            for g in SimulationProperties.default_grid_paths:
                r = rng.uniform()
                if r < .5:
                    paths[g] = os.path.join(d, g)
                elif r < .7:
                    paths[g] = None
            secs.append("\n".join(["[grid_paths]"] + [
                "  %s = %r" % kv for kv in paths.items()]))
        secs.append("[BinaryPopulation_options]\n  x = 1")
        order = rng.permutation(len(secs))
        ini = os.path.join(d, "p.ini")
        with open(ini, "w") as f:
            f.write("\n\n".join(secs[j] for j in order) + "\n")
        c.note(ini=open(ini).read()[:1500])
        got = simprop_kwargs_from_ini(ini)
        bad = []
        for st, (k, kw) in want.items():
            if st not in got or got[st][0].TAG != k or got[st][1] != kw:
                bad.append((st, repr(got.get(st))[:200], k, kw))
        c.expect(not bad, "steps and options as written", bad=bad[:3])
        gh = got.get("extra_hooks", [])
        c.expect([(x.TAG, kw) for x, kw in gh] == hooks, "hooks as written",
                 got=[(x.TAG, kw) for x, kw in gh], want=hooks)
        c.expect({k: got[k] for k in paths if k in got} == paths,
                 "grid paths as written")
        extra = set(got) - set(want) - set(paths) - {"extra_hooks"}
        c.expect(not extra, "no other entries", extra=extra)
        if want:
            st = sorted(want)[int(rng.integers(len(want)))]
            one = simprop_kwargs_from_ini(ini, only=st)
            c.expect(list(one) == [st] and one[st][1] == want[st][1],
                     "one section only", got=list(one))
        # the simulation properties built from it
        over = {}
        for k, v in (("max_simulation_time", 123.0),
                     ("end_events", ["CC1"]), ("end_states", ["merged"])):
            if rng.uniform() < .3:
                over[k] = v
        with vk.quiet():
            p = SimulationProperties.from_ini(ini, **over)
        c.expect([type(h).TAG for h in p.all_hooks_classes[1:]]
                 == [k for k, _ in hooks]
                 and [h.kw for h in p.all_hooks_classes[1:]]
                 == [kw for _, kw in hooks], "hooks are created in order")
        for g, dflt in SimulationProperties.default_grid_paths.items():
            w = paths.get(g) or dflt
            c.expect(getattr(p, g) == os.path.abspath(w), "grid path",
                     name=g, got=getattr(p, g), want=w)
        # limits: as asked for, or the documented ones
        got = dict(max_simulation_time=p.max_simulation_time,
                   end_events=p.end_events, end_states=p.end_states,
                   max_n_steps_per_binary=p.max_n_steps_per_binary)
        wl = dict(dict(max_simulation_time=13.8e9, end_events=[],
                       end_states=[], max_n_steps_per_binary=100), **over)
        c.expect(got == wl, "limits of the simulation", got=got, want=wl)
        c.count("ini files")
        c.seen(len(hooks), bool(paths), len(want) > 7)
    finally:
        sys.path.remove(d)
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def mkstep(defaults):
    class S:
        DEFAULT_KWARGS = dict(defaults)

        def __init__(self, **kw):
            self.kw = dict(kw)

        def __call__(self, b):
            pass
    return S


@ck.family("load", quick=500, thorough=6000)
def load(rng, c):
    """Loading steps: each with its own options, repeatedly."""
    cfg, kinds = {}, {}
    for st in STEPS:
        df = {}
        if rng.uniform() < .6:
            df["metallicity"] = 1.0
        if rng.uniform() < .4:
            df["RNG"] = None
        df["opt"] = 0
        kw = {}
        if rng.uniform() < .6:
            kw["opt"] = int(rng.integers(100))
        if rng.uniform() < .25:
            kw["metallicity"] = float(rng.choice([.1, .01, 2.]))
        kinds[st] = (df, dict(kw))
        cfg[st] = (mkstep(df), kw)
    if rng.uniform() < .3:
        cfg["step_mine"] = (mkstep({"opt": 1}), {"opt": 5})
        kinds["step_mine"] = ({"opt": 1}, {"opt": 5})
    flow = {("a", "b", "c", "d"): "step_end"}
    p = SimulationProperties(flow=(lambda **k: dict(flow, **{
        "kw": k}), {"CHANGE": 3}), **cfg)
    c.expect(not p.steps_loaded, "steps are not loaded before loading")
    grids = {"step_HMS_HMS": "HMS_HMS_path", "step_CO_HMS_RLO":
             "CO_HMS_RLO_path", "step_CO_HeMS": "CO_HeMS_path",
             "step_CO_HeMS_RLO": "CO_HeMS_RLO_path"}
    zs = [float(z) for z in rng.choice([1., .1, .45, 1e-3], int(
        rng.integers(1, 4)))]
    if rng.uniform() < .2:
        zs[0] = None
    c.note(zs=zs, kinds={k: v[1] for k, v in kinds.items()})
    for rep, z in enumerate(zs):
        R = np.random.default_rng(rep)
        with vk.quiet():
            p.load_steps(metallicity=z, RNG=R)
        for st, (df, kw) in kinds.items():
            got = getattr(p, st).kw
            want = dict(kw)
            if "metallicity" in df:
                want["metallicity"] = kw.get("metallicity",
                                             1.0 if z is None else z)
            if st in grids:
                want["grid_path"] = getattr(p, grids[st])
            g = {k: v for k, v in got.items() if k != "RNG"}
            c.expect(g == want, "a step gets its own options (load %d)"
                     % (rep + 1), step=st, got=g, want=want, z=z)
            c.expect((got.get("RNG") is R) == ("RNG" in df),
                     "the random generator is handed on", step=st)
        c.expect(p.steps_loaded and p.flow[("a", "b", "c", "d")]
                 == "step_end" and p.flow["kw"] == {"CHANGE": 3},
                 "all steps and the flow chart are loaded")
    # the configuration itself is left as given
    left = {k: v[1] for k, v in p.kwargs.items() if k in kinds}
    c.expect(left == {k: v[1] for k, v in kinds.items()},
             "the configuration is not altered by loading",
             diff=[(k, left[k], kinds[k][1]) for k in left
                   if left[k] != kinds[k][1]][:3])
    # replacing one step
    st = STEPS[int(rng.integers(len(STEPS)))]
    with vk.quiet():
        p.load_a_step(st, (mkstep({"opt": 0}), {"opt": 77}))
    c.expect(getattr(p, st).kw.get("opt") == 77, "one step replaced")
    c.count("loads", len(zs))
    c.seen("load", len(zs), zs[0] is None)


@ck.family("matcher", quick=80, thorough=800)
def matcher(rng, c):
    """Steps with track matching get a matcher with their settings at their
    metallicity, also when loaded again."""
    import posydon.binary_evol.simulationproperties as sp

    made = []

    class FakeGrid:
        def __init__(self, path):
            self.path = path

        def close(self):
            pass

    class FakeMatcher:
        DEFAULT_KWARGS = dict(sp.TrackMatcher.DEFAULT_KWARGS)
        TRAINING_TRIGGERS = list(sp.TrackMatcher.TRAINING_TRIGGERS)
        separate_kwargs = classmethod(
            sp.TrackMatcher.separate_kwargs.__func__)

        def __init__(self, **kw):
            self.kwargs = dict(kw)
            self.__dict__.update(kw)
            made.append(self)
    og, om = sp.GRIDInterpolator, sp.TrackMatcher
    sp.GRIDInterpolator, sp.TrackMatcher = FakeGrid, FakeMatcher
    try:
        opts = {"matching_method": "root", "matching_tolerance": .02,
                "matching_tolerance_hard": .3}
        mine = {k: v for k, v in opts.items() if rng.uniform() < .6}
        S1 = mkstep({"metallicity": 1., "track_matcher": None, "opt": 1})
        S2 = mkstep({"metallicity": 1., "track_matcher": None})
        p = SimulationProperties(step_detached=(S1, dict(mine, opt=4)),
                                 step_disrupted=(S2, {}))
        for st in STEPS:
            if st not in ("step_detached", "step_disrupted"):
                p.kwargs[st] = (mkstep({}), {})
        p.kwargs["flow"] = (dict, {})
        zs = [1., .1, .1, 1.][:int(rng.integers(1, 5))]
        for rep, z in enumerate(zs):
            with vk.quiet():
                p.load_steps(metallicity=z)
            for st, o in (("step_detached", mine), ("step_disrupted", {})):
                s = getattr(p, st)
                m = s.kw["track_matcher"]
                zstr = "1e+00" if z == 1 else "1e-01"
                c.expect(m.grid_Hrich.path.endswith("%s_Zsun.h5" % zstr)
                         and m.grid_strippedHe.path.endswith(
                             "%s_Zsun.h5" % zstr)
                         and "single_HMS" in m.grid_Hrich.path
                         and "single_HeMS" in m.grid_strippedHe.path,
                         "tracks of the right metallicity", z=z,
                         path=m.grid_Hrich.path)
                bad = {k: (getattr(m, k), v) for k, v in dict(
                    FakeMatcher.DEFAULT_KWARGS, **o).items()
                    if k not in ("grid_Hrich", "grid_strippedHe",
                                 "metallicity")
                    and getattr(m, k) != v}
                c.expect(not bad, "matching options of the step (load %d)"
                         % (rep + 1), bad=bad, step=st)
                c.expect(not set(s.kw) & set(opts), "matching options are "
                         "taken by the matcher", kw=list(s.kw))
            c.expect(p.step_detached.kw["opt"] == 4, "other options kept")
            c.expect(p.step_detached.kw["track_matcher"]
                     is not p.step_disrupted.kw["track_matcher"],
                     "each step has its own matcher")
        # one step with a metallicity of its own: the tracks of the other
        # one are looked after separately
        own = float(rng.choice([1., .1, 2.]))
        p.kwargs["step_disrupted"] = (S2, {"metallicity": own})
        for z in rng.choice([1., .1, .45], 3):
            with vk.quiet():
                p.load_steps(metallicity=float(z))
            for st, w in (("step_detached", z), ("step_disrupted", own)):
                m = getattr(p, st).kw["track_matcher"]
                zstr = {1.: "1e+00", .1: "1e-01", 2.: "2e+00",
                        .45: "4.5e-01"}[float(w)]
                c.expect(all(g.path.endswith("/%s_Zsun.h5" % zstr) for g in (
                    m.grid_Hrich, m.grid_strippedHe)),
                    "tracks of the metallicity of the step", step=st,
                    want=zstr, path=m.grid_Hrich.path)
        # the step is loaded once more with other matching options
        m = getattr(p, "step_detached").kw["track_matcher"]
        other = p.step_disrupted.kw["track_matcher"]
        before = {k: getattr(m, k) for k in FakeMatcher.DEFAULT_KWARGS}
        ob = dict(other.__dict__)
        new = {k: v for k, v in (
            ("matching_method", "minimize"), ("matching_tolerance", .07),
            ("matching_tolerance_hard", .9), ("record_matching", True),
            ("list_for_matching_HMS", [["mass"], ["a"], [1]]),
            ("list_for_matching_postMS", [["log_R"], ["b"], [2]]))
            if rng.uniform() < .4}
        n = len(made)
        with vk.quiet():
            p.load_a_step("step_detached", (S1, dict(new, opt=9)),
                          metallicity=float(z))
        s = p.step_detached
        m = s.kw["track_matcher"]
        want = dict(before, **new)
        bad = {k: (getattr(m, k), v) for k, v in want.items()
               if getattr(m, k) != v}
        c.note(own=own, new=new)
        c.expect(not bad and s.kw["opt"] == 9, "a step loaded again has the "
                 "new matching options, the others as before", bad=bad)
        trained = any(k.startswith("list_for") for k in new)
        if trained:
            c.expect(len(made) == n + 1 and m is made[-1], "other matching "
                     "quantities: the matcher is trained again",
                     made=len(made) - n)
        else:
            c.expect(len(made) == n, "the trained matcher is used again",
                     made=len(made) - n)
        c.expect(p.step_disrupted.kw["track_matcher"] is other
                 and other.__dict__ == ob, "the matcher of the other step is "
                 "left alone")
        c.count("matchers", len(made))
        c.seen("matcher", len(zs), len(mine), trained)
    finally:
        sp.GRIDInterpolator, sp.TrackMatcher = og, om


@ck.family("badpath", quick=6, thorough=6)
def badpath(rng, c):
    p = SimulationProperties()
    c.raises(GridError, lambda: p.set_path("nonsense_path", None),
             "unknown grid path")
    p.set_path("HMS_HMS_path", "x/y")
    c.expect(p.HMS_HMS_path == os.path.abspath("x/y"), "relative path")
    p.set_path("HMS_HMS_path", None)
    c.expect(p.HMS_HMS_path == os.path.abspath(
        SimulationProperties.default_grid_paths["HMS_HMS_path"]), "default")
    c.raises(ValueError, lambda: SimulationProperties(extra_hooks=["x"]),
             "wrong hooks are refused")
    c.raises(FileNotFoundError, lambda: parse_inifile("/nonexistent.ini"),
             "missing ini")
    c.raises(FileNotFoundError, lambda: parse_inifile(["/nonexistent.ini"]),
             "missing ini in a list")
    c.raises(ValueError, lambda: parse_inifile(3), "no path")
    c.seen("bad")


@ck.family("binarypop", quick=300, thorough=4000)
def binarypop(rng, c):
    d = os.path.join(vk.scratch(), "c25b_%d_%d" % (os.getpid(), c.index))
    os.makedirs(d)
    env = {}
    try:
        o = {"opt_%d" % j: value(rng) for j in range(int(rng.integers(0, 8)))}
        o["use_MPI"] = False
        o["metallicities"] = [1., .1]
        bo = {"only_select_columns": ["state", "event"],
              "extra_columns": {"step_names": "string"},
              "b_%d" % rng.integers(9): value(rng)}
        i1, i2 = bool(rng.integers(2)), bool(rng.integers(2))
        s1 = {"only_select_columns": ["mass"], "x": value(rng)}
        s2 = {"scalar_names": ["f_fb"], "y": value(rng)}
        secs = [("BinaryPopulation_options", o), ("BinaryStar_output", bo),
                ("SingleStar_1_output", dict(s1, include_S1=i1)),
                ("SingleStar_2_output", dict(s2, include_S2=i2)),
                ("step_end", {"import": ["a", "b"]})]
        drop = None
        if rng.uniform() < .1:
            drop = secs.pop(int(rng.integers(4)))[0]
        f1 = os.path.join(d, "a.ini")
        with open(f1, "w") as f:
            for j in rng.permutation(len(secs)):
                f.write("[%s]\n" % secs[j][0] + "".join(
                    "  %s = %s\n" % (k, fmt(v))
                    for k, v in secs[j][1].items()) + "\n")
        job = rng.uniform() < .4
        if job:
            mn = int(rng.integers(0, 5))
            cnt = int(rng.integers(1, 9))
            rk = int(rng.integers(0, cnt))
            env = {"SLURM_ARRAY_JOB_ID": str(int(rng.integers(1, 10**8))),
                   "SLURM_ARRAY_TASK_MIN": str(mn),
                   "SLURM_ARRAY_TASK_ID": str(mn + rk),
                   "SLURM_ARRAY_TASK_COUNT": str(cnt)}
            os.environ.update(env)
        c.note(job=env, drop=drop)
        if drop:
            c.raises(AssertionError, lambda: binarypop_kwargs_from_ini(f1),
                     "a missing section is reported")
            return
        # a second file overrides the first
        path = f1
        if rng.uniform() < .4:
            f2 = os.path.join(d, "b.ini")
            over = {"opt_0": 999, "only_here": "yes"}
            with open(f2, "w") as f:
                f.write("[BinaryPopulation_options]\n" + "".join(
                    "%s = %r\n" % kv for kv in over.items()))
            path = [f1, f2]
            o = dict(o, **over)
        got = binarypop_kwargs_from_ini(path)
        want = dict(o)
        want.update(bo)
        want.update(include_S1=i1, include_S2=i2, comm=None)
        if i1:
            want["S1_kwargs"] = s1
        if i2:
            want["S2_kwargs"] = s2
        if job:
            want.update(JOB_ID=int(env["SLURM_ARRAY_JOB_ID"]), RANK=rk,
                        size=cnt)
        else:
            want.update(RANK=None, size=None)
        c.expect(got == want, "population options as written",
                 diff=[(k, got.get(k, "-"), want.get(k, "-"))
                       for k in set(got) | set(want)
                       if k not in got or k not in want
                       or got[k] != want[k]][:5])
        c.seen("pop", job, i1, i2, isinstance(path, list))
        if job:
            g = open(f1).read().replace("use_MPI = False", "use_MPI = True")
            open(f1, "w").write(g)
            c.raises(ValueError, lambda: binarypop_kwargs_from_ini(f1),
                     "MPI within a job array is refused")
    finally:
        for k in env:
            os.environ.pop(k, None)
        import shutil
        shutil.rmtree(d, ignore_errors=True)


@ck.family("configfile", quick=300, thorough=4000)
def config(rng, c):
    d = os.path.join(vk.scratch(), "c25c_%d_%d" % (os.getpid(), c.index))
    os.makedirs(d)
    try:
        f = os.path.join(d, "c.json")
        e = {"k%d" % j: value(rng) for j in range(int(rng.integers(1, 8)))}
        arr = rng.normal(size=int(rng.integers(0, 5)))
        x = ConfigFile(f)
        c.expect(len(x) == 0 and list(x.keys()) == [], "new file is empty")
        for k, v in e.items():
            x[k] = v
        x["arr"] = arr
        x.save()
        y = ConfigFile(f)
        want = dict(e, arr=arr.tolist())
        c.expect(y.entries == want, "saved and loaded", got=y.entries,
                 want=want)
        c.expect(all(y[k] == want[k] and getattr(y, k) == want[k]
                     and k in y for k in want) and len(y) == len(want)
                 and sorted(y) == sorted(want)
                 and dict(y.items()) == want, "access to the entries")
        z = y.deepcopy()
        z["k0"] = "changed"
        z["arr"].append(3)
        c.expect(y.entries == want and z.path == f, "copies are independent")
        c.raises(PermissionError, lambda: y.save(overwrite=False),
                 "an existing file is protected")
        c.raises(PermissionError, lambda: y.load(), "entries are protected")
        c.expect(y.entries == want, "a refused load changes nothing")
        g = os.path.join(d, "d.json")
        w = ConfigFile()
        w.update({"k0": "new", "other": 1})
        w.save(g)
        y.load(g, can_update=True)
        c.expect(y.entries == dict(want, k0="new", other=1),
                 "an allowed update")
        del y["other"]
        c.expect("other" not in y, "deleted entry")
        c.raises(ValueError, lambda: ConfigFile().save(), "no path")
        c.raises(ValueError, lambda: ConfigFile().load(), "no path")
        c.seen("config", len(e))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def expr(rng, depth=0):
    r = int(rng.integers(0, 4 if depth < 3 else 2))
    if r < 2:
        n = [int(rng.integers(0, 1000)), float(np.round(rng.uniform(.01, 99),
                                                        4))][r]
        return repr(n), n
    a, x = expr(rng, depth + 1)
    b, y = expr(rng, depth + 1)
    op = "+-*/%"[int(rng.integers(5))]
    if op in "/%" and y == 0:
        op = "+"
    v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
         "/": lambda: x / y, "%": lambda: x % y}[op]()
    return "(%s) %s (%s)" % (a, op, b), v


@ck.family("mesaini", quick=300, thorough=4000)
def mesaini(rng, c):
    d = os.path.join(vk.scratch(), "c25m_%d_%d" % (os.getpid(), c.index))
    os.makedirs(d)
    try:
        secs, want = {}, {}
        for s in ("run_parameters", "slurm", "mesa_inlists", "mesa_extras"):
            secs[s], want[s] = [], {"mesa_dir": os.environ["MESA_DIR"]}
            for j in range(int(rng.integers(0, 6))):
                k = "opt_%d" % j
                r = int(rng.integers(0, 8))
                if r == 0:
                    t, v = expr(rng)
                elif r == 1:
                    t, v = ("True", True) if rng.uniform() < .5 else \
                        ("False", False)
                elif r == 2:
                    t, v = "a/b, c/d , e", ["a/b", "c/d", "e"]
                elif r == 3:
                    t, v = "'one two'", "one two"
                elif r == 4:
                    t, v = "/some/path/file.txt", "/some/path/file.txt"
                elif r == 5:
                    t, v = "[1, 2.5, 3*2]", [1, 2.5, 6]
                elif r == 6:
                    t, v = "${MESA_DIR}star", os.environ["MESA_DIR"] + "star"
                else:
                    t, v = "None", None
                secs[s].append("%s = %s" % (k, t.replace("$$", "$$")))
                want[s][k] = v
        f = os.path.join(d, "g.ini")
        with open(f, "w") as fh:
            for j in rng.permutation(4):
                s = list(secs)[j]
                fh.write("[%s]\n%s\n\n" % (s, "\n".join(secs[s])))
        got = configfile.parse_inifile(f)
        for s, g in zip(("run_parameters", "slurm", "mesa_inlists",
                         "mesa_extras"), got):
            bad = [(k, g.get(k, "-"), want[s].get(k, "-"))
                   for k in set(g) | set(want[s])
                   if k not in g or k not in want[s] or g[k] != want[s][k]]
            c.expect(not bad, "grid options as written", bad=bad[:3],
                     section=s)
        c.seen("mesaini", tuple(len(x) for x in secs.values()))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


ck.require("ini files", 60)
ck.require("loads", 60)
ck.require("matchers", 8)

if __name__ == "__main__":
    sys.exit(ck.main())
