"""C01: the evolution loop."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import numpy as np
import signal
import time as _time
import auto
import posydon.binary_evol.binarystar as bs
from posydon.binary_evol.simulationproperties import (EvolveHooks,
                                                      StepNamesHooks,
                                                      TimingHooks)
from posydon.utils.posydonerror import FlowError
from posydon.binary_evol.flow_chart import UNDEFINED_STATES

ck = vk.Check("C01", "random scripted evolutions (0 to 130 steps over all "
              "star states, binary states and events, random flow charts, "
              "redirects, end events/states, undefined states, missing "
              "steps, raising and hanging steps) through the real loop with "
              "recording hooks; the trace of hooks, steps and recorded rows "
              "is checked event by event; non-trivial by (ending, redirects, "
              "hooks, length class)")


class Rec(EvolveHooks):
    def __init__(self, log, tag):
        self.log, self.tag = log, tag

    def pre_evolve(self, b):
        self.log.append((self.tag, "pre_evolve"))

    def pre_step(self, b, name):
        self.log.append((self.tag, "pre_step", name, int(b.time),
                         len(b.time_history)))

    def post_step(self, b, name):
        self.log.append((self.tag, "post_step", name, int(b.time),
                         len(b.time_history), len(b.star_1.mass_history),
                         len(b.star_2.mass_history)))

    def post_evolve(self, b):
        self.log.append((self.tag, "post_evolve", len(b.time_history)))


ENDS = ["END", "FAILED", "end_event", "end_state", "missing flow",
        "missing step", "undefined", "raise", "too many", "exactly max",
        "born too late", "none"]


@ck.family("loop", quick=420, thorough=9000)
def loop(rng, c):
    kind = ENDS[c.index % len(ENDS)]
    n = int(rng.choice([1, 2, int(rng.integers(1, 12)),
                        int(rng.integers(12, 60))]))
    limit = 100
    redirects = rng.uniform() < .8
    if kind in ("too many", "exactly max"):
        limit = int(rng.integers(1, 30))
        n = limit + 1 if kind == "too many" else limit
        if rng.uniform() < .15:
            limit, n = 100, (101 if kind == "too many" else 100)
    last = {"FAILED": "FAILED", "end_event": "stop_here"}.get(kind, "END")
    sc = auto.Script(rng, n, last, redirects)
    log = []
    verbose = bool(rng.uniform() < .3)
    nh = int(rng.integers(0, 3))
    hooks = []
    for j in range(nh):
        cls = type("H%d" % j, (Rec,), {})
        hooks.append((cls, {"log": log, "tag": "H%d" % j}))
    extra = rng.uniform() < .5
    if extra:
        hooks += [("extra_pre_evolve", lambda b: log.append(("X", "pre_evolve"))),
                  ("extra_pre_step", lambda b, s: log.append(
                      ("X", "pre_step", s, int(b.time),
                       len(b.time_history)))),
                  ("extra_post_step", lambda b, s: log.append(
                      ("X", "post_step", s, int(b.time), len(b.time_history),
                       len(b.star_1.mass_history),
                       len(b.star_2.mass_history)))),
                  ("extra_post_evolve", lambda b: log.append(
                      ("X", "post_evolve", len(b.time_history))))]
    hooks += [(StepNamesHooks, {}), (TimingHooks, {})]
    missing = ()
    stop_at = n                   # number of steps executed
    err = None
    p = sc.props(hooks)
    p.max_n_steps_per_binary = limit if rng.uniform() < .95 or \
        kind == "too many" else None
    if kind == "end_event":
        p.end_events = ["stop_here", "nonsense"]
    elif kind == "end_state":
        k = int(rng.integers(0, n + 1))
        st = sc.rows[k]["tot"][2]
        stop_at = [r["tot"][2] for r in sc.rows].index(st)
        p.end_states = [st]
    elif kind == "missing flow":
        k = int(rng.integers(0, n))
        del p.flow[sc.rows[k]["tot"]]
        stop_at = [r["tot"] for r in sc.rows].index(sc.rows[k]["tot"])
        err = ValueError
    elif kind == "missing step":
        k = int(rng.integers(0, n))
        p.flow[sc.rows[k]["tot"]] = "step_nowhere"
        stop_at = [r["tot"] for r in sc.rows].index(sc.rows[k]["tot"])
        err = ValueError
    elif kind == "undefined":
        k = int(rng.integers(0, n))
        u = UNDEFINED_STATES[int(rng.integers(len(UNDEFINED_STATES)))]
        if k == 0:
            k = 1
        if k < n:
            sc.rows[k]["tot"] = u
            if u not in p.flow:
                p.flow[u] = "step_end"
            stop_at, err = k, FlowError
    elif kind == "raise":
        k = int(rng.integers(0, n))

        class Boom(Exception):
            pass

        def boom(b):
            raise Boom("x")
        sc.fault = (k, boom)
        stop_at, err = k, Boom
    elif kind == "too many":
        err = RuntimeError
    elif kind == "none":
        stop_at = 0
        sc.rows[0]["tot"] = sc.rows[0]["tot"][:3] + (
            ["END", "FAILED"][int(rng.integers(2))],)
    b = sc.binary(p, index=int(rng.integers(0, 999)))
    b.history_verbose = verbose
    if kind == "born too late":
        b.time = 1.38e10 * (1 + 1e-12)
        stop_at, err = 0, ValueError
    if rng.uniform() < .1 and kind == "END":
        p.max_simulation_time = 0.0      # born exactly at the limit
    c.note(kind=kind, n=n, limit=limit, verbose=verbose, hooks=nh,
           extra=extra)
    old = signal.getitimer(signal.ITIMER_REAL)
    raised = None
    try:
        with vk.quiet():
            b.evolve()
    except Exception as e:
        raised = e
    left = signal.alarm(0)
    c.expect(left == 0, "no alarm is left pending", left=left)
    if err is None:
        c.expect(raised is None, "evolution ends without an error",
                 raised=repr(raised))
    else:
        c.expect(isinstance(raised, err), "evolution ends with an error "
                 "(%s)" % kind, raised=repr(raised))
    # which steps ran, on which total state
    ran = stop_at + (1 if kind == "raise" else 0)
    want = [(k, p.flow[sc.rows[k]["tot"]], sc.rows[k]["tot"])
            for k in range(ran)]
    got = [(k, nm, tt) for k, nm, tt in sc.calls]
    c.expect(got == want, "exactly the steps of the flow chart, in order",
             got=got[-3:], want=want[-3:], n=(len(got), len(want)))
    # recorded rows
    vis = lambda k: verbose or not (sc.rows[k]["tot"][3]
                                    and "redirect" in sc.rows[k]["tot"][3])
    recorded = [0] + [k for k in range(1, stop_at + 1) if vis(k)]
    if kind != "born too late":
        d = auto.row_diff(b, sc, recorded)
        c.expect(d is None, "one recorded row per step, all histories in "
                 "lockstep", diff=d)
        cur = sc.rows[stop_at]
        c.expect(b.get_total_state() == cur["tot"],
                 "the current state is that of the last step",
                 got=b.get_total_state(), want=cur["tot"])
    # hooks
    tags = ["H%d" % j for j in range(nh)] + (["X"] if extra else [])
    exp = [(t, "pre_evolve") for t in tags]
    rows = 1
    for k in range(ran):
        nm = p.flow[sc.rows[k]["tot"]]
        exp += [(t, "pre_step", nm, k, rows) for t in tags]
        if k < stop_at:
            if vis(k + 1):
                rows += 1
                exp += [(t, "post_step", nm, k + 1, rows, rows, rows)
                        for t in tags]
    if err is None:
        exp += [(t, "post_evolve", rows) for t in tags]
    if kind == "too many":
        pass
    c.expect(log == exp, "hooks are called in order around every step",
             got=[x for x, y in zip(log, exp) if x != y][:3],
             want=[y for x, y in zip(log, exp) if x != y][:3],
             n=(len(log), len(exp)))
    if kind != "born too late":
        names = ["initial_cond"] + [p.flow[sc.rows[k - 1]["tot"]]
                                    for k in recorded[1:]]
        c.expect(list(b.step_names) == names, "recorded step names",
                 got=b.step_names[-4:], want=names[-4:])
        c.expect(len(b.step_times) == len(names)
                 and all(t >= 0 for t in b.step_times),
                 "one recorded time per row", n=len(b.step_times))
    c.count("ended: " + kind)
    c.count("steps", len(got))
    c.seen(kind, verbose, nh, extra, redirects, min(n, 6))


@ck.family("hang", quick=2, thorough=6)
def hang(rng, c):
    """A step which takes too long is interrupted."""
    if not hasattr(bs, "MAXIMUM_STEP_TIME"):
        c.stop()
    old = bs.MAXIMUM_STEP_TIME
    bs.MAXIMUM_STEP_TIME = 1
    try:
        sc = auto.Script(rng, 4)
        k = c.index % 2 + 1

        def slow(b):
            t = _time.time()
            while _time.time() - t < 20:
                _time.sleep(.05)
        sc.fault = (k, slow)
        b = sc.binary(sc.props())
        t = _time.time()
        r = None
        try:
            b.evolve()
        except RuntimeError as e:
            r = e
        c.expect(r is not None, "a step over the time limit is ended")
        c.expect(_time.time() - t < 15, "and ended in time")
        c.expect(signal.alarm(0) == 0, "no alarm is left pending")
        c.expect(len(sc.calls) == k + 1, "evolution stopped there")
    finally:
        bs.MAXIMUM_STEP_TIME = old
        signal.alarm(0)
    c.seen("hang", k)


@ck.family("rows", quick=60, thorough=600)
def rows(rng, c):
    """Steps which record several states themselves."""
    n = int(rng.integers(1, 12))
    sc = auto.Script(rng, n, "END", False)
    extra = [int(rng.choice([0, 0, 1, 2, 7])) for _ in range(n)]
    extra[0] = 0            # the orbit is completed at the start

    def record(b):
        for _ in range(extra[int(b.time)]):
            b.append_state()
    p = sc.props([(StepNamesHooks, {}), (TimingHooks, {})])
    for nm in auto.STEPS:
        def f(b, real=getattr(p, nm)):
            record(b)
            real(b)
        setattr(p, nm, f)
    b = sc.binary(p, index=1)
    with vk.quiet():
        b.evolve()
    want, names = [0], ["initial_cond"]
    for k in range(n):
        want += [k] * extra[k] + [k + 1]
        names += [p.flow[sc.rows[k]["tot"]]] + [None] * extra[k]
    d = auto.row_diff(b, sc, want)
    c.expect(d is None, "all rows are kept in order", diff=d)
    c.expect(list(b.step_names) == names, "one step name per row",
             got=b.step_names, want=names)
    c.expect(len(b.step_times) == len(names) and all(
        (t is None) == (m is None) for t, m in zip(b.step_times, names)),
        "one time per row", got=b.step_times)
    c.expect(b.step_times[0] == 0., "no time for the initial conditions")
    df = b.to_df(extra_columns={"step_names": "string",
                                "step_times": "float64"})
    c.expect(len(df) == len(names), "rows of the table")
    c.seen("rows", min(sum(extra), 5), n > 5)


@ck.family("exists", quick=8, thorough=8)
def exists(rng, c):
    """Which companions exist; exchanging the stars."""
    st = ["massless_remnant", "BH", "H-rich_Core_H_burning"]
    a, bb = st[c.index % 3], st[(c.index // 3) % 3]
    s = [auto.SingleStar(state=x, mass=10. if x != "massless_remnant" else 0.,
                         metallicity=1.0) for x in (a, bb)]
    b = auto.BinaryStar(*s, state="detached", event=None, time=0.,
                        separation=10., orbital_period=10.)
    b.check_who_exists()
    e = [x != "massless_remnant" for x in (a, bb)]
    c.expect([b.companion_1_exists, b.companion_2_exists] == e,
             "existing companions")
    c.expect(b.non_existent_companion == {(1, 1): 0, (1, 0): 2, (0, 1): 1,
                                          (0, 0): -1}[tuple(map(int, e))],
             "the missing companion")
    x, y = b.star_1, b.star_2
    b.switch_star()
    c.expect(b.star_1 is y and b.star_2 is x, "stars exchanged")
    c.seen(a, bb)


ck.require("steps", 2000)
for k in ENDS:
    ck.require("ended: " + k, 10)

if __name__ == "__main__":
    sys.exit(ck.main())
