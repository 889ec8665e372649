"""C28: warnings are counted, filtered, caught and shown as documented."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import contextlib
import io
import shutil
import warnings
import numpy as np
from posydon.utils import posydonwarning as pw
from posydon.binary_evol.flow_chart import flow_chart
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.popsyn.binarypopulation import BinaryPopulation

ck = vk.Check("C28", "random histories of warnings from many places, filter "
              "changes, catching contexts (recording or not, filtering first "
              "or not, own or common registry, left normally or by an error) "
              "and cache requests, and populations whose steps warn, run "
              "against the real module; a model of the documented behaviour "
              "predicts what is shown, counted and recorded; non-trivial by "
              "(operations, modes)")

SRC = "\n".join("def s%d(P, m, c, **k):\n    P(m, c, **k)\n" % i
                for i in range(4))
CATS = sorted(x.__name__ for x in pw.POSYDONWarning.__subclasses__())
ACTIONS = ["always", "default", "once", "module", "ignore"]


def sites(c):
    """Functions warning from different lines of two files."""
    out = []
    for f in "ab":
        name = "/nowhere/%s_%d.py" % (f, c.index)
        ns = {"__name__": "mod_%s_%d" % (f, c.index)}
        exec(compile(SRC, name, "exec"), ns)
        out += [(ns["s%d" % i], (name, 3 * i + 2)) for i in range(4)]
    return out


class Model:
    def __init__(self):
        self.filters = []            # newest first
        self.stats = {}
        self.shown = []
        self.ctx = None

    def action(self, cat):
        for a, k in self.filters:
            if issubclass(cat, k):
                return a
        return "default"

    def passes(self, cat, place, reg):
        a = self.action(cat)
        if a == "ignore":
            return False
        key = (cat,) + place
        reg[key] = reg.get(key, 0) + 1
        return a == "always" or reg[key] == 1

    def issue(self, text, cat, place):
        x = self.ctx
        reg = self.stats if x is None or not x["own"] else x["reg"]
        if x is not None:
            x["called"] = True
        if x is None or not x["catch"]:
            if self.passes(cat, place, reg):
                self.shown.append((text, cat))
            return
        if x["first"]:
            if self.passes(cat, place, reg) and x["record"]:
                x["cache"].append((text, cat))
        elif x["record"]:
            x["cache"].append((text, cat))


@ck.family("history", quick=500, thorough=8000)
def history(rng, c):
    S = sites(c)
    M = Model()
    shown = []
    stats = pw.get_stats()
    keep = dict(stats)
    stats.clear()
    few = [getattr(pw, str(x)) for x in rng.choice(CATS, 3, replace=False)]
    num = 0
    loose = False                    # stats not predictable any more
    ops = []

    def show(message, category, filename, lineno, file=None, line=None):
        shown.append((message.message if hasattr(message, "message")
                      else str(message), category, filename, lineno))
    import linecache
    with warnings.catch_warnings():
        warnings.resetwarnings()
        warnings.simplefilter("default")
        warnings.showwarning = show

        def warn():
            nonlocal num
            f, place = S[int(rng.integers(len(S)))]
            cat = few[int(rng.integers(3))]
            how = int(rng.integers(4))
            text = "w%d.%d" % (c.index, num)
            num += 1
            given = cat
            if how == 0:
                given = cat.__name__
            elif how == 1 and rng.uniform() < .3:
                given, cat = "NoSuchWarning", pw.POSYDONWarning
            direct = M.ctx is None or not M.ctx["catch"]
            n = len(M.shown)
            f(pw.Pwarn, text, given)
            M.issue(text, cat, place)
            ops.append(("warn", text, cat.__name__, place[0][-6:], place[1]))
            if direct and len(M.shown) > n and len(shown) == len(M.shown):
                c.expect(shown[-1][2:] == place, "a warning names the place "
                         "it comes from", got=shown[-1][2:], want=place)

        def setf():
            a = ACTIONS[int(rng.integers(5))]
            k = pw.POSYDONWarning if rng.uniform() < .4 else few[
                int(rng.integers(3))]
            r = rng.uniform()
            if a == "ignore" and r < .5:
                pw.NoPOSYDONWarnings(k)
            elif a == "always" and r < .5:
                pw.AllPOSYDONWarnings(k if r < .25 else k.__name__
                                      if k is not pw.POSYDONWarning else k)
            else:
                pw.SetPOSYDONWarnings(action=a, category=k)
            M.filters.insert(0, (a, k))
            ops.append(("filter", a, k.__name__))

        def compare(what):
            got = [(t, k) for t, k, _, _ in shown]
            c.expect(got == M.shown, "warnings shown " + what,
                     got=[x[0] for x in got][-6:],
                     want=[x[0] for x in M.shown][-6:], ops=ops[-12:])
            if not loose:
                c.expect(pw.get_stats() == M.stats, "counted warnings " + what,
                         got=str(pw.get_stats())[-300:],
                         want=str(M.stats)[-300:], ops=ops[-12:])

        for _ in range(int(rng.integers(1, 5))):
            for _ in range(int(rng.integers(0, 8))):
                (warn if rng.uniform() < .8 else setf)()
            compare("outside a context")
            x = dict(catch=rng.uniform() < .85, record=rng.uniform() < .8,
                     first=rng.uniform() < .7, own=rng.uniform() < .5)
            if rng.uniform() < .3:
                continue
            boom = rng.uniform() < .3
            ops.append(("enter", dict(x)))
            kw = dict(catch_warnings=bool(x["catch"]),
                      record=bool(x["record"]),
                      filter_first=bool(x["first"]),
                      own_registry=bool(x["own"]))
            try:
                with pw.Catch_POSYDON_Warnings(**kw) as cpw:
                    M.ctx = dict(x, reg={}, cache=[], called=False)
                    c.expect(not cpw.got_called() and not cpw.has_records(),
                             "a context starts empty", ops=ops[-12:])
                    for _ in range(int(rng.integers(0, 9))):
                        r = rng.uniform()
                        if r < .7:
                            warn()
                        elif r < .8:
                            setf()
                        elif r < .9:
                            e = bool(rng.uniform() < .5)
                            g = [(w["message"], w["category"])
                                 for w in cpw.get_cache(e)]
                            c.expect(g == M.ctx["cache"], "recorded warnings",
                                     got=[y[0] for y in g], want=[
                                         y[0] for y in M.ctx["cache"]],
                                     ops=ops[-12:])
                            ops.append(("cache", e))
                            if e:
                                M.ctx["cache"] = []
                        else:
                            cpw.reset_cache()
                            M.ctx["cache"] = []
                            ops.append(("reset",))
                    c.expect(cpw.got_called() == M.ctx["called"], "whether "
                             "there was any warning", got=cpw.got_called(),
                             ops=ops[-12:])
                    c.expect(cpw.has_records() == bool(M.ctx["cache"]),
                             "whether there are records", ops=ops[-12:])
                    if x["own"] and not loose:
                        c.expect(pw.get_stats() == M.stats, "a context with "
                                 "its own registry leaves the statistics "
                                 "alone", ops=ops[-12:])
                    compare("inside a context")
                    if boom:
                        raise LookupError("boom")
                c.expect(not boom, "errors leave the context")
            except LookupError:
                c.expect(boom, "no other errors")
            # what was recorded is issued at the end
            old, M.ctx = M.ctx, None
            rec = old["cache"]
            ops.append(("exit", len(rec)))
            acts = {M.action(k) for _, k in rec}
            if old["first"]:
                # filtered before: shown unless ignored by now
                M.shown += [y for y in rec if M.action(y[1]) != "ignore"]
            elif rec:
                if acts <= {"always", "ignore"}:
                    M.shown += [y for y in rec if M.action(y[1]) == "always"]
                else:
                    new = [(t, k) for t, k, _, _ in shown][len(M.shown):]
                    it = iter([y for y in rec if M.action(y[1])
                               != "ignore"])
                    first = {k: t for t, k in reversed(rec)
                             if M.action(k) != "ignore"}
                    c.expect(all(y in it for y in new), "recorded warnings "
                             "are issued in order, at most once",
                             got=[y[0] for y in new], want=[
                                 y[0] for y in rec], ops=ops[-12:])
                    M.shown += new
                loose = True
            compare("after a context")
            c.count("contexts")
        if rng.uniform() < .3:
            # other categories are not ours
            n = sum(M.stats.values())
            k = [UserWarning, RuntimeWarning, None][int(rng.integers(3))]
            t = "py%d" % c.index
            S[0][0](pw.Pwarn, t, k)
            M.shown.append((t, k or UserWarning))
            compare("(Python's)")
        if rng.uniform() < .2:
            warnings.filterwarnings("error", category=pw.POSYDONWarning)
            c.raises(few[0], lambda: S[1][0](pw.Pwarn, "e", few[0]),
                     "warnings turned into errors")
    stats.clear()
    stats.update(keep)
    c.raises(TypeError, lambda: pw.Pwarn(3), "messages are text")
    c.raises(TypeError, lambda: pw.Pwarn("x", "StepWarning",
                                         stacklevel="1"), "stack level")
    c.count("warnings", num)
    c.seen("history", min(num, 20), len({o[0] for o in ops}), loose)


@ck.family("population", quick=20, thorough=150)
def population(rng, c):
    """Each system of a population reports its own warnings."""
    S = sites(c)
    N = int(rng.integers(1, 8))
    verbose = bool(c.index % 2)
    d = os.path.join(vk.scratch(), "c28_%d_%d" % (os.getpid(), c.index))
    want, flag = [], {}

    def step(b):
        k = int(rng.integers(0, 6)) if rng.uniform() < .7 else 0
        flag[b.index] = k > 0
        here = set()
        for j in range(k):
            f, place = S[int(rng.integers(len(S)))]
            cat = CATS[int(rng.integers(3))]
            t = "sys%d.%d.%d" % (c.index, b.index, j)
            f(pw.Pwarn, t, cat)
            if (place, cat) not in here:
                here.add((place, cat))
                want.append(t)
        b.event = "END"
    p = SimulationProperties()
    p.flow = dict(flow_chart())
    for s in set(p.flow.values()):
        setattr(p, s, step)
    p.steps_loaded = True
    shown = []

    def show(message, category, filename, lineno, file=None, line=None):
        if issubclass(category, pw.POSYDONWarning):
            shown.append(message.message)
    try:
        with warnings.catch_warnings():
            warnings.resetwarnings()
            warnings.simplefilter("default")
            warnings.showwarning = show
            with contextlib.redirect_stdout(io.StringIO()):
                pop = BinaryPopulation(
                    population_properties=p, temp_directory=d,
                    number_of_binaries=N, star_formation="burst",
                    metallicity=1., metallicities=[1.], tqdm=False,
                    use_MPI=False, entropy=3, warnings_verbose=verbose)
                shown.clear()
                pop.evolve(optimize_ram=False, breakdown_to_df=False,
                           tqdm=False)
        got = [x for x in shown if x.startswith("sys")]
        c.expect(got == (want if verbose else []), "warnings of the systems "
                 "(one for each place and category of a system)%s"
                 % ("" if verbose else " are not shown unless asked for"),
                 got=got[:8], want=want[:8])
        for b in pop.manager.binaries:
            o = b.to_oneline_df()
            c.expect(bool(o["WARNING"].iloc[0]) == flag[b.index]
                     if "WARNING" in o else bool(getattr(
                         b, "warnings", False)) == flag[b.index],
                     "systems with warnings are marked", i=b.index)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.count("populations")
    c.seen("population", N, verbose, len(want) > 0)


ck.require("contexts", 400)
ck.require("warnings", 3000)
ck.require("populations", 15)

if __name__ == "__main__":
    sys.exit(ck.main())
