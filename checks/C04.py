"""C04: the flow chart routes every total state to its documented step."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import copy
import itertools
import numpy as np
import posydon.binary_evol.flow_chart as fc
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.binary_evol.step_end import step_end

ck = vk.Check("C04", "all 20 x 20 x 8 x 22 total states (plus unknown "
              "states, states and events) through the default, changed and "
              "initial-eccentricity flow charts and through the evolution "
              "loop, against an independent rule table; non-trivial by "
              "(chart, rule, first star kind, second star kind)")

CO = {"WD", "NS", "BH"}
NONE = "massless_remnant"
H = {"H-rich_" + x for x in ("Core_H_burning", "Core_He_burning",
                             "Shell_H_burning", "Core_He_depleted",
                             "Shell_He_burning", "Core_C_burning",
                             "Core_C_depleted", "non_burning")} | {
    "accreted_He_Core_H_burning", "accreted_He_Shell_H_burning",
    "accreted_He_non_burning"}
HE = {"stripped_He_" + x for x in ("Core_He_burning", "Core_He_depleted",
                                   "Core_C_depleted", "non_burning")} | {
    "accreted_He_Core_He_burning", "H-rich_non_burning",
    "accreted_He_non_burning"}
NORMAL = H | HE
STARS = sorted(NORMAL | CO | {NONE})
CDEP = {"H-rich_Core_C_depleted", "stripped_He_Core_C_depleted"}
CC = {"H-rich_Core_C_depleted", "H-rich_Core_He_depleted",
      "stripped_He_Core_He_depleted", "stripped_He_Core_C_depleted",
      "stripped_He_non_burning", "H-rich_non_burning",
      "H-rich_Shell_H_burning", "accreted_He_Shell_H_burning",
      "accreted_He_non_burning"}
STATES = ["initially_single_star", "detached", "RLO1", "RLO2", "contact",
          "disrupted", "merged", "initial_RLOF"]
EVENTS = [None, "CC1", "CC2", "ZAMS", "oRLO1", "oRLO2", "oCE1", "oCE2",
          "oDoubleCE1", "oDoubleCE2", "CO_contact", "redirect_from_ZAMS",
          "redirect_from_CO_HMS_RLO", "redirect_from_CO_HeMS",
          "redirect_from_CO_HeMS_RLO", "MaxTime_exceeded", "maxtime",
          "oMerging1", "oMerging2", "Match1", "Match2", "Match12"]


def rule(s1, s2, state, event):
    """Next step (or None) and the name of the rule."""
    pair = {s1, s2}
    if pair <= CO | {NONE} and NONE in pair:
        return "step_end", "nothing left to evolve"
    if event in ("maxtime", "MaxTime_exceeded", "CO_contact"):
        return "step_end", "time or contact"
    if state == "initial_RLOF":
        return "step_end", "initial RLOF"
    if state == "merged" and event in ("oMerging1", "oMerging2"):
        return "step_merged", "merging"
    if state == "disrupted" and pair <= CO:
        return "step_end", "two disrupted compact objects"
    if state == "disrupted" and event not in ("CC1", "CC2"):
        return "step_disrupted", "disrupted"
    if state == "initially_single_star" and event == "ZAMS":
        return "step_initially_single", "single"
    if event == "CC1":
        return ("step_SN", "collapse") if s1 in CC else (None, "no collapse")
    if event == "CC2":
        return ("step_SN", "collapse") if s2 in CC else (None, "no collapse")
    if event in ("oCE1", "oDoubleCE1", "oCE2", "oDoubleCE2"):
        i = event[-1]
        donor = s1 if i == "1" else s2
        if state == "RLO" + i and donor in NORMAL:
            return "step_CE", "common envelope"
        if state == "contact" and s2 in NORMAL:
            return "step_CE", "common envelope from contact"
        return None, "no common envelope"
    if event in ("oRLO1", "oRLO2") and state == "RLO" + event[-1]:
        don, acc = (s1, s2) if event[-1] == "1" else (s2, s1)
        if don in HE and acc in HE:
            return "step_merged", "two helium stars"
        if acc in CO:
            if don in HE - CDEP:
                return "step_CO_HeMS_RLO", "He star onto CO"
            if don in H - CDEP:
                return "step_CO_HMS_RLO", "H star onto CO"
        return None, "no RLO step"
    if state == "detached":
        if event is None:
            if pair <= CO:
                return "step_dco", "double CO"
            if pair <= NORMAL:
                return "step_detached", "two stars"
            if NONE in pair:
                return None, "single in a binary"
            st = (pair - CO).pop()
            if st in HE - CDEP:
                return "step_CO_HeMS", "He star and CO"
            if st in H:
                return "step_detached", "H star and CO"
            return None, "C-depleted He star and CO"
        if event == "ZAMS" or event == "redirect_from_ZAMS":
            if pair == {"H-rich_Core_H_burning"}:
                return {"ZAMS": "step_HMS_HMS"}.get(event, "step_detached"), \
                    "ZAMS"
        if event.startswith("redirect_from_CO") and pair & CO:
            rest = pair - CO
            if rest and rest <= (H if "HMS" in event else HE):
                return "step_detached", "redirect"
    return None, "undefined"


def ecc_rule(s1, s2, state, event):
    if state == "detached" and event == "ZAMS":
        r = rule(s1, s2, state, event)
        return ("step_detached", "ZAMS") if r[0] else r
    if event in ("oRLO1", "oRLO2") and state == "RLO" + event[-1]:
        if {s1, s2} <= NORMAL - CDEP:
            return "step_HMS_HMS_RLO", "RLO of two stars"
    return rule(s1, s2, state, event)


ALL = list(itertools.product(STARS, STARS, STATES, EVENTS))
ALLSET = set(ALL)


def compare(c, chart, f, tag):
    n = 0
    for t in ALL:
        want, why = f(*t)
        if t in fc.UNDEFINED_STATES:
            c.expect(t[0] in CO and t[1] == "H-rich_Core_H_burning"
                     and t[2] in ("disrupted", "detached")
                     and t[3] == "CC2", "states declared as undefined",
                     state=t)
            want = chart.get(t)
        got = chart.get(t)
        if got != want:
            c.expect(False, "next step (%s%s)" % (why, tag), state=t,
                     got=got, want=want)
            n += 1
            if n > 5:
                break
        else:
            c.evals += 1
            c.count("routed: " + str(got))
    extra = [k for k in chart if k not in ALLSET]
    c.expect(not extra, "no other total state is routed" + tag,
             extra=extra[:3])


@ck.family("default", quick=2, thorough=2)
def default(rng, c):
    if c.index == 0:
        compare(c, fc.flow_chart(), rule, "")
    else:
        compare(c, fc.initial_eccentricity_flow_chart(), ecc_rule,
                ", initial eccentricity")
    for f in (rule, ecc_rule):
        for t in ALL:
            kind = [("CO" if s in CO else "none" if s == NONE else
                     "H" if s in H else "He") for s in t[:2]]
            c.seen(f.__name__, f(*t)[1], *kind)


@ck.family("changed", quick=60, thorough=1500)
def changed(rng, c):
    before = dict(fc.flow_chart())
    ch = {}
    n = int(rng.integers(0, 40))
    keys = list(before)
    for _ in range(n):
        k = keys[int(rng.integers(len(keys)))] if rng.uniform() < .7 else \
            ALL[int(rng.integers(len(ALL)))]
        ch[k] = "step_mine_%d" % rng.integers(5)
    if rng.uniform() < .5:
        ch[("WD", "HeMS", "RLO1", "pRLO1")] = "step_mine"
    if rng.uniform() < .3:
        ch[("H-rich_Core_H_burning", "H-rich_Core_H_burning", "detached",
            "ZAMS")] = "step_mine"
    kept = dict(ch)
    ecc = rng.uniform() < .4
    own = rng.uniform() < .4
    f = fc.initial_eccentricity_flow_chart if ecc else fc.flow_chart
    base = dict(before)
    kw = {}
    if own:
        base = {k: v for k, v in before.items() if rng.uniform() < .5}
        base[("A", "B", "C", "D")] = "step_own"
        kw["FLOW_CHART"] = dict(base)
        if rng.uniform() < .5:
            ch[("A", "B", "C", "D")] = kept[("A", "B", "C", "D")] = "step_x"
    got = f(CHANGE_FLOW_CHART=ch, **kw)
    want = {k: ch.get(k, v) for k, v in base.items()}
    if ecc:
        for k in want:
            if k[2] == "detached" and k[3] == "ZAMS":
                want[k] = "step_detached"
        for a in NORMAL - CDEP:
            for b in NORMAL - CDEP:
                want[(a, b, "RLO1", "oRLO1")] = "step_HMS_HMS_RLO"
                want[(a, b, "RLO2", "oRLO2")] = "step_HMS_HMS_RLO"
    c.note(n=n, ecc=ecc, own=own)
    bad = [(k, got.get(k), want.get(k)) for k in set(got) | set(want)
           if got.get(k) != want.get(k)]
    c.expect(not bad, "changed entries only", bad=bad[:4])
    c.expect(ch == kept, "the given changes are left alone")
    c.expect(fc.flow_chart() == before, "the default chart is not altered")
    got[keys[0]] = "spoiled"
    c.expect(fc.flow_chart() == before,
             "changing a returned chart does not alter the default")
    c.seen(ecc, own, min(n, 3))


@ck.family("loop", quick=24, thorough=200)
def loop(rng, c):
    """The evolution loop takes the step of the chart, or fails."""
    p = SimulationProperties()
    p.flow = fc.flow_chart()
    p.max_simulation_time = 1.38e10
    ran = []
    names = sorted(set(p.flow.values()))

    def mk(n):
        def f(b):
            ran.append(n)
            b.event = "END"
        return f
    for n in names:
        setattr(p, n, mk(n))
    for _ in range(60):
        t = ALL[int(rng.integers(len(ALL)))]
        if rng.uniform() < .7:
            ks = list(p.flow)
            t = ks[int(rng.integers(len(ks)))]
        s = [SingleStar(state="H-rich_Core_H_burning", mass=5.,
                        metallicity=1.0) for x in t[:2]]
        b = BinaryStar(*s, properties=p, time=0., separation=10.,
                       orbital_period=10.)
        b.star_1.state, b.star_2.state, b.state, b.event = t
        b.step_names = []
        del ran[:]
        err = None
        try:
            with vk.quiet():
                b.evolve()
        except Exception as e:
            err = e
        want = rule(*t)[0]
        if t in fc.UNDEFINED_STATES:
            c.expect(err is not None and not ran, "undefined states fail",
                     state=t)
        elif want is None:
            c.expect(isinstance(err, ValueError) and not ran,
                     "no step for an unknown total state", state=t, ran=ran,
                     err=repr(err))
        else:
            c.expect(ran == [want] and err is None, "the routed step ran",
                     state=t, ran=ran, want=want, err=repr(err))
        c.seen("loop", want, t[2])


@ck.family("end", quick=40, thorough=400)
def end(rng, c):
    """The end step ends the evolution and changes nothing else."""
    t = ALL[int(rng.integers(len(ALL)))]
    s = [SingleStar(state="H-rich_Core_H_burning", mass=float(
        rng.uniform(1, 50)), metallicity=1.0) for x in t[:2]]
    b = BinaryStar(*s, time=3., separation=10., orbital_period=10.)
    b.star_1.state, b.star_2.state, b.state, b.event = t
    keep = (b.star_1.mass, b.star_2.mass, b.separation, b.time, b.state)
    st = (b.star_1.state, b.star_2.state)
    with vk.quiet():
        step_end()(b)
    c.expect(b.event == "END", "the evolution ends")
    c.expect(keep == (b.star_1.mass, b.star_2.mass, b.separation, b.time,
                      b.state), "nothing else changes")
    if t[2] != "disrupted":
        c.expect(st == (b.star_1.state, b.star_2.state),
                 "star states are kept", state=t)
    c.seen(t[2])


@ck.family("lists", quick=1, thorough=1)
def lists(rng, c):
    """Kinds of stars used by the steps."""
    def chk(name, want):
        c.expect(set(getattr(fc, name)) == set(want), name,
                 got=sorted(set(getattr(fc, name)) ^ set(want)))
    chk("STAR_STATES_ALL", STARS)
    chk("STAR_STATES_CO", CO)
    chk("STAR_STATES_NORMALSTAR", NORMAL)
    chk("STAR_STATES_H_RICH", H)
    chk("STAR_STATES_HE_RICH", HE)
    chk("STAR_STATES_CC", CC)
    chk("STAR_STATES_C_DEPLETED", CDEP)
    chk("BINARY_STATES_ALL", STATES)
    chk("BINARY_EVENTS_ALL", EVENTS)
    ms = {s for s in NORMAL if s.endswith("Core_H_burning")}
    he = {"stripped_He_Core_He_burning", "accreted_He_Core_He_burning"}
    phe = {s for s in NORMAL if s.startswith("stripped_He")} - he
    chk("STAR_STATES_FOR_HMS_MATCHING", ms)
    chk("STAR_STATES_FOR_Hestar_MATCHING", he)
    chk("STAR_STATES_FOR_postHeMS_MATCHING", phe)
    chk("STAR_STATES_FOR_postMS_MATCHING",
        (NORMAL - ms - phe - he) | {"accreted_He_Core_He_burning"})
    c.seen("lists")


ck.require("routed: step_SN", 1000)
ck.require("routed: step_end", 1000)

if __name__ == "__main__":
    sys.exit(ck.main())
