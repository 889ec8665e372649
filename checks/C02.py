"""C02: restoring a binary to an earlier state."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import numpy as np
import auto
from posydon.binary_evol.simulationproperties import (EvolveHooks,
                                                      StepNamesHooks,
                                                      TimingHooks)

ck = vk.Check("C02", "random scripted evolutions (with redirects, supernova "
              "events, extra hook columns of the binary and of the stars, "
              "failures) are restored to every kind of recorded row, "
              "compared property by property, evolved again and compared "
              "with the first history; non-trivial by (row class, hooks, "
              "redirects, repetition)")


class Cols(EvolveHooks):
    """Hook with extra columns of the binary and of both stars."""

    def __init__(self):
        self.extra_binary_col_names = ["my_col"]
        self.extra_star_col_names = ["my_star_col"]

    def pre_evolve(self, b):
        if not hasattr(b, "my_col"):
            b.my_col = [-1]
            b.star_1.my_star_col = [-1]
            b.star_2.my_star_col = [-2]

    def post_step(self, b, name):
        b.my_col.append(int(b.time))
        b.star_1.my_star_col.append(int(b.time) * 10)
        b.star_2.my_star_col.append(int(b.time) * 20)


def diff(a, b, rows=None):
    for k in a:
        x, y = a[k][0], b[k][0]
        if rows is not None:
            x = x[:rows]
        if len(x) != len(y):
            return (k, "length", len(x), len(y))
        for j, (u, v) in enumerate(zip(x, y)):
            if not auto.same(u, v):
                return (k, j, u, v)
    return None


@ck.family("restore", quick=320, thorough=7000)
def restore(rng, c):
    n = int(rng.integers(1, 25))
    sc = auto.Script(rng, n, redirects=bool(rng.uniform() < .7))
    hooks = []
    if rng.uniform() < .6:
        hooks += [(StepNamesHooks, {})]
    if rng.uniform() < .6:
        hooks += [(Cols, {})]
    if rng.uniform() < .3:
        hooks += [(TimingHooks, {})]
    p = sc.props(hooks)
    b = sc.binary(p, index=5)
    b.history_verbose = bool(rng.uniform() < .3)
    # the steps stand for supernovae: they note that one has happened
    plain = {nm: getattr(p, nm) for nm in auto.STEPS}

    def wrap(f):
        def g(bb):
            cc = bb.event in ("CC1", "CC2")
            f(bb)
            if cc:
                bb.first_SN_already_occurred = True
        return g
    for nm, f in plain.items():
        setattr(p, nm, wrap(f))
    with vk.quiet():
        b.evolve()
    full = auto.snapshot(b)
    names = list(getattr(b, "step_names", []))
    cols = [list(x) for x in (getattr(b, "my_col", []),
                              getattr(b.star_1, "my_star_col", []),
                              getattr(b.star_2, "my_star_col", []))]
    rows = len(b.time_history)
    for rep in range(int(rng.integers(1, 4))):
        i = int(rng.choice([0, rows - 1, int(rng.integers(0, rows))]))
        reset = i == 0 and rng.uniform() < .5
        c.note(n=n, rows=rows, i=i, hooks=[h[0].__name__ for h in hooks],
               rep=rep, reset=reset)
        with vk.quiet():
            if reset:
                b.reset()
            elif i == 0 and rng.uniform() < .5:
                b.restore()
            else:
                b.restore(i)
        s = auto.snapshot(b)
        d = diff(full, s, i + 1)
        c.expect(d is None, "the history up to the restored state is kept, "
                 "the rest discarded", diff=d)
        bad = [k for k in full if not auto.same(s[k][1], full[k][0][i])]
        c.expect(not bad, "every property has its value of the restored "
                 "state", bad=bad[:6])
        if names:
            c.expect(b.step_names == names[:i + 1], "step names of the "
                     "kept history", got=b.step_names)
        if hasattr(b, "my_col"):
            c.expect([b.my_col, b.star_1.my_star_col, b.star_2.my_star_col]
                     == [x[:i + 1] for x in cols],
                     "extra columns of the kept history")
        if hasattr(b, "step_times"):
            c.expect(len(b.step_times) == i + 1, "times of the kept history")
        sn = any(e in ("CC1", "CC2") for e in full["b.event"][0][:i])
        hidden = i > 0 and not b.history_verbose and any(
            r["tot"][3] and "redirect" in r["tot"][3] for r in sc.rows)
        if i == 0 or not hidden:
            c.expect(bool(b.first_SN_already_occurred) == sn,
                     "a supernova has occurred only if it is in the kept "
                     "history", flag=b.first_SN_already_occurred, sn=sn)
        # evolving on from there gives the same history again
        sc.calls.clear()
        with vk.quiet():
            b.evolve()
        d = diff(full, auto.snapshot(b))
        c.expect(d is None, "evolving the restored binary repeats the "
                 "history", diff=d)
        if names:
            c.expect(b.step_names == names, "repeated step names",
                     got=b.step_names[-3:], want=names[-3:])
        if hasattr(b, "my_col"):
            c.expect([b.my_col, b.star_1.my_star_col, b.star_2.my_star_col]
                     == cols, "repeated extra columns")
        c.count("restored")
        c.seen("first" if i == 0 else "last" if i == rows - 1 else "middle",
               tuple(h[0].__name__ for h in hooks), rep, reset)


@ck.family("new_properties", quick=60, thorough=600)
def new_properties(rng, c):
    """Reset with other simulation properties: evolved with those."""
    sc = auto.Script(rng, int(rng.integers(1, 8)))
    b = sc.binary(sc.props(), index=3)
    with vk.quiet():
        b.evolve()
    sc2 = auto.Script(rng, int(rng.integers(1, 8)))
    sc2.rows[0] = sc.rows[0]
    if sc.rows[0]["tot"] not in sc2.flow:
        sc2.flow[sc.rows[0]["tot"]] = auto.STEPS[0]
    p2 = sc2.props()
    with vk.quiet():
        b.reset(p2)
        c.expect(b.properties is p2, "the given properties are used")
        b.evolve()
    vis = [0] + [k for k in range(1, len(sc2.rows)) if not (
        sc2.rows[k]["tot"][3] and "redirect" in sc2.rows[k]["tot"][3])]
    d = auto.row_diff(b, sc2, vis)
    c.expect(d is None, "the binary follows the new properties", diff=d)
    c.expect([x[1] for x in sc2.calls] == [p2.flow[r["tot"]]
                                           for r in sc2.rows[:-1]],
             "steps of the new flow")
    c.count("reset with properties")
    c.seen("new", len(sc.rows), len(sc2.rows))


@ck.family("failed", quick=80, thorough=900)
def failed(rng, c):
    """A binary which failed is restored and evolved again."""
    n = int(rng.integers(2, 15))
    sc = auto.Script(rng, n)
    k = int(rng.integers(0, n))

    def boom(b):
        b.star_1.mass = -1.0
        b.state = "half-way"
        raise ValueError("x")
    sc.fault = (k, boom)
    b = sc.binary(sc.props([(StepNamesHooks, {})]), index=1)
    try:
        with vk.quiet():
            b.evolve()
    except ValueError:
        pass
    sc.fault = None
    with vk.quiet():
        b.restore()
        d = auto.row_diff(b, sc, [0])
        c.expect(d is None, "failed binary restored to its initial state",
                 diff=d)
        c.expect(b.get_total_state() == sc.rows[0]["tot"]
                 and b.star_1.mass == sc.rows[0]["s1"]["mass"],
                 "nothing of the failed step is left")
        b.evolve()
    vis = [0] + [j for j in range(1, n + 1) if not (
        sc.rows[j]["tot"][3] and "redirect" in sc.rows[j]["tot"][3])]
    d = auto.row_diff(b, sc, vis)
    c.expect(d is None, "the second evolution is complete", diff=d)
    c.count("failed then restored")
    c.seen("failed", k == 0, n)


ck.require("restored", 200)
ck.require("reset with properties", 30)
ck.require("failed then restored", 30)

if __name__ == "__main__":
    sys.exit(ck.main())
