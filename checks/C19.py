"""C19  Evolutionary states, mass-transfer cases and termination flags."""
import os
import sys
import gzip
import itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import numpy as np

vk.setup_env()
from posydon.utils import common_functions as cf
from posydon.grids import termination_flags as tf
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.simulationproperties import SimulationProperties

C = vk.Check(
    "C19",
    "abundances, burning luminosities, masses, overflows and rates around "
    "every threshold (exhaustive product plus random), random mass-transfer "
    "sequences, histories and log files drive the real classification; each "
    "result is compared with an independent decision table; signature = "
    "(function, class)")
PROPS = SimulationProperties()
NAN = float("nan")


# ---------------------------------------------------------- reference model
def ref_state(xs, xc, yc, cc, lh, lhe, ln):
    if xs is None or np.isnan(xs):
        return "undetermined_evolutionary_state"
    if xs > .01:
        env = "H-rich"
    elif round(xs, 10) < round(xc, 10):
        env = "accreted_He"
    else:
        env = "stripped_He"
    bh = lh > -10 and 10 ** (lh - ln) > .03
    bhe = lhe > -10 and 10 ** (lhe - ln) > .03
    if xc > .01:
        core = "Core_H_burning" if bh else "non_burning"
    elif yc > .01:
        core = "Core_He_burning" if bhe else (
            "Shell_H_burning" if bh else "non_burning")
    else:
        core = "Core_He_depleted" if cc > .01 else "Core_C_depleted"
    return env + "_" + core


def ref_co(m, comp):
    if m is None or np.isnan(m) or m <= 0:
        return "massless_remnant"
    if m <= 1.46 and (comp or m < 1.1):
        return "WD"
    return "NS" if m <= 2.5 else "BH"


def ref_case(ov, rate, state, dom):
    """None: no transfer; '?': unknown"""
    if ov is None or rate is None:
        return None
    if not ov > 0 and not (rate > -10 and dom):
        return None
    if "non_burning" in state:
        return "nonburning"
    for env, tab in (("H-rich", {"Core_H_burning": "A", "Core_He_burning": "B",
                                 "Shell_H_burning": "B",
                                 "Core_He_depleted": "C",
                                 "Core_C_depleted": "C"}),
                     ("stripped_He", {"Core_He_burning": "BA",
                                      "Core_He_depleted": "BB",
                                      "Core_C_depleted": "BB"})):
        if state.startswith(env):
            return tab.get(state[len(env) + 1:], "?")
    return "?"


NUM = {None: 0, "A": 1, "B": 2, "C": 3, "BA": 4, "BB": 5, "BC": 6,
       "nonburning": 8, "?": 9}
STATES = ["%s_%s" % (a, b) for a in ("H-rich", "stripped_He", "accreted_He")
          for b in ("Core_H_burning", "Core_He_burning", "Shell_H_burning",
                    "Core_He_depleted", "Core_C_depleted", "non_burning")] + [
    "WD", "NS", "BH", "massless_remnant"]

XS = [NAN, 0., .005, .01, .0100001, .5]
XC = [0., .005, .01, .0100001, .6]
YC = [0., .01, .0100001, .9]
CC = [0., .01, .0100001, .4]
LH = [-99., -10., -9.99, 2.]
LN = [-9.99, 1., 2., 3.51, 3.54, 9.]
GRID = list(itertools.product(XS, XC, YC, CC))


@C.family("states", 60, 60)
def states(rng, c):
    """exhaustive product of values around the thresholds"""
    for xs, xc, yc, cc in GRID[c.index::60]:
        for lh, lhe, ln in itertools.product(LH, LH, LN):
            got = cf.infer_star_state(star_mass=3., surface_h1=xs,
                                      center_h1=xc, center_he4=yc,
                                      center_c12=cc, log_LH=lh, log_LHe=lhe,
                                      log_Lnuc=ln, star_CO=False)
            want = ref_state(xs, xc, yc, cc, lh, lhe, ln)
            if not c.expect(got == want, "evolutionary state from abundances "
                            "and burning", got=got, want=want,
                            args=(xs, xc, yc, cc, lh, lhe, ln)):
                return
            c.count("states classified")
            c.count("state " + want)
    c.seen("states", c.index)


for _s in ("H-rich_Core_H_burning", "stripped_He_Core_He_burning",
           "accreted_He_Core_H_burning", "H-rich_Shell_H_burning",
           "stripped_He_Core_C_depleted", "H-rich_Core_He_depleted",
           "H-rich_non_burning"):
    C.require("state " + _s, 5)


@C.family("states_random", 1600, 24000)
def states_random(rng, c):
    def ab():
        return float(rng.choice([0., rng.uniform(0, .02), rng.uniform(0, 1),
                                 10 ** rng.uniform(-13, -1)]))
    xs, xc, yc, cc = ab(), ab(), ab(), ab()
    if rng.random() < .2:                 # differ only in the last digits
        xc = xs = 10 ** rng.uniform(-4, -2.1)
        xc = xc * (1 + float(rng.choice([-1e-9, 0, 1e-12, 1e-5])))
    ln = float(rng.uniform(-3, 6))
    lh = float(rng.choice([ln - rng.uniform(0, 3), rng.uniform(-12, -9),
                           -99.]))
    lhe = float(rng.choice([ln - rng.uniform(0, 3), rng.uniform(-12, -9),
                            -99.]))
    want = ref_state(xs, xc, yc, cc, lh, lhe, ln)
    s = SingleStar(state="H-rich_Core_H_burning", mass=5., surface_h1=.7,
                   center_h1=.7)
    n = int(rng.integers(1, 5))
    names = ("surface_h1", "center_h1", "center_he4", "center_c12", "log_LH",
             "log_LHe", "log_Lnuc")
    vals = (xs, xc, yc, cc, lh, lhe, ln)
    rows = []
    for k in range(n):
        rows.append((ab(), ab(), ab(), ab(), float(rng.uniform(-12, 5)),
                     float(rng.uniform(-12, 5)), float(rng.uniform(-2, 6))))
    for i, nm in enumerate(names):
        setattr(s, nm, vals[i])
        setattr(s, nm + "_history", [r[i] for r in rows])
    s.mass_history = [5.] * n
    s.state_history = ["x"] * n
    c.expect(cf.check_state_of_star(s, star_CO=False) == want,
             "state of a star", got=cf.check_state_of_star(s), want=want)
    k = int(rng.integers(1, n + 1))
    got = cf.check_state_of_star_history_array(s, N=k, star_CO=False)
    c.expect(got == [ref_state(*r) for r in rows[-k:]],
             "states of the last steps of a history", got=got)
    h = np.array(rows, dtype=[(q, "f8") for q in names])
    m = int(rng.integers(n))
    c.expect(tf.check_state_from_history(h, np.full(n, 5.), m)
             == ref_state(*rows[m]), "state from a history row")
    c.expect(tf.check_state_from_history(h, np.full(n, 5.))
             == ref_state(*rows[-1]), "state from the last history row")
    want = [i for i, r in enumerate(rows) if "Core_He_depleted"
            in ref_state(*r)]
    c.expect(cf.get_i_He_depl(h) == (want[0] if want else -1),
             "first row with depleted helium", got=cf.get_i_He_depl(h))
    c.seen("state", ref_state(*vals))


@C.family("compact", 800, 8000)
def compact(rng, c):
    m = float(rng.choice([rng.uniform(0, 3), 1.46, 1.4600001, 1.1, 1.0999999,
                          2.5, 2.5000001, 0., -1., rng.uniform(3, 100), NAN]))
    comp = {}
    for k in ("surface_h1", "center_h1", "center_he4", "center_c12"):
        v = [None, NAN, 0., .3][int(rng.choice([0, 1, 2, 3],
                                               p=[.3, .2, .35, .15]))]
        if v is not None:
            comp[k] = v
    has = any(v > 0 for v in comp.values())
    got = cf.infer_star_state(star_mass=m, star_CO=True, **comp)
    c.expect(got == ref_co(m, has), "kind of a compact object", got=got,
             m=m, comp=comp)
    ms = np.array([m, 5.])
    c.expect(tf.check_state_from_history(None, ms, 0) == ref_co(m, False),
             "a star without history is a compact object")
    c.seen("co", got, has)


@C.family("cases", 6, 6)
def cases(rng, c):
    ovs = [None, -.5, 0., 1e-12, .3]
    rates = [None, -99., -10., -9.9999, -3.]
    for st in STATES[c.index::6]:
        for ov, rate, dom in itertools.product(ovs, rates, (True, False)):
            got = cf.infer_mass_transfer_case(ov, rate, st,
                                              dominating_star=dom)
            want = NUM[ref_case(ov, rate, st, dom)]
            c.expect(got == want, "mass-transfer case of a donor", got=got,
                     want=want, state=st, ov=ov, rate=rate, dom=dom)
            if dom:
                c.expect(cf.infer_mass_transfer_case(ov, rate, st) == want,
                         "one donor dominates by default")
        c.seen("case", st)


DOUBLE_OK = ("H-rich_Core_H_burning", "stripped_He_Core_He_burning", "WD",
             "NS", "BH")


def ref_binary(ov1, ov2, rate, s1, s2, g1, g2, ic):
    if ic == "not_converged":
        return [None, None, "None"]
    if ic == "initial_MT":
        return ["initial_RLOF", None, "None"]
    dom1 = (ov2 is None) or (ov1 is not None and ov1 >= ov2)
    c1 = ref_case(ov1, rate, s1, dom1)
    c2 = ref_case(ov2, rate, s2, not dom1)
    r1, r2 = [x not in (None, "?") for x in (c1, c2)]
    un = ic == "unstable_MT"
    if r1 and r2:
        st, mt = "contact", "None"
        if un:
            k = "1" if ov1 >= ov2 else "2"
            comp = s2 if k == "1" else s1
            return [st, ("oCE" if comp in DOUBLE_OK else "oDoubleCE") + k, mt]
    elif r1:
        st, mt = "RLO1", "case_%s1" % c1
        if un:
            return [st, "oCE1", mt]
    elif r2:
        st, mt = "RLO2", "case_%s2" % c2
        if un:
            return [st, "oCE2", mt]
    elif c1 is None and c2 is None:
        st, mt = "detached", "None"
    else:
        st, mt = "undefined", "None"
    ev = None
    for k, s, g in (("2", s2, g2), ("1", s1, g1)):
        if "Core_C_depleted" in s or "Core_He_depleted" in s or (
                g is not None and g >= 10):
            ev = "CC" + k
    return [st, ev, mt]


@C.family("binary", 6000, 60000)
def binary(rng, c):
    def pick():
        return STATES[int(rng.integers(len(STATES)))]

    def row():
        o = [None if rng.random() < .08 else float(rng.choice(
            [-.4, -.01, 0., .001, rng.uniform(-1, 1)])) for _ in range(2)]
        if rng.random() < .1:
            o[1] = o[0]
        r = None if rng.random() < .05 else float(rng.choice(
            [-99., -10., -9.99, -4.]))
        g = [None if rng.random() < .2 else float(rng.choice(
            [0., 9.99, 10., 30.])) for _ in range(2)]
        if rng.random() < .6:
            g = [0., None]
        return (o[0], o[1], r, pick(), pick(), g[0], g[1])
    ic = [None, "unstable_MT", "stable_MT", "no_MT", "not_converged",
          "initial_MT"][int(rng.choice(6, p=[.3, .35, .1, .1, .07, .08]))]
    n = int(rng.integers(1, 4))
    rows = [row() for _ in range(n)]
    cur = row()
    if ic == "unstable_MT" and rng.random() < .4:        # contact
        cur = (float(rng.uniform(0, .1)), float(rng.uniform(0, .1)), -3.,
               STATES[int(rng.choice([0, 1, 2, 3, 7]))],
               STATES[int(rng.choice([0, 1, 2, 3, 7]))], 0., 0.)
    b = BinaryStar(SingleStar(state="H-rich_Core_H_burning", mass=5.),
                   SingleStar(state="H-rich_Core_H_burning", mass=4.),
                   properties=PROPS)

    def put(r, sfx=""):
        f = (lambda i: [q[i] for q in r]) if sfx else (lambda i: r[i])
        setattr(b, "rl_relative_overflow_1" + sfx, f(0))
        setattr(b, "rl_relative_overflow_2" + sfx, f(1))
        setattr(b, "lg_mtransfer_rate" + sfx, f(2))
        setattr(b.star_1, "state" + sfx, f(3))
        setattr(b.star_2, "state" + sfx, f(4))
        setattr(b.star_1, "center_gamma" + sfx, f(5))
        setattr(b.star_2, "center_gamma" + sfx, f(6))
    put(cur)
    put(rows, "_history")
    got = cf.get_binary_state_and_event_and_mt_case(b, interpolation_class=ic)
    want = ref_binary(*cur, ic)
    c.expect(list(got) == want, "state, event and mass-transfer case of a "
             "binary", got=got, want=want, row=cur, ic=ic)
    k = int(rng.integers(1, n + 1))
    st, ev, mt = cf.get_binary_state_and_event_and_mt_case_array(b, N=k)
    w = [ref_binary(*r, None) for r in rows[-k:]]
    c.expect([list(x) for x in zip(st, ev, mt)] == w,
             "states and events of the recorded steps", got=(st, ev, mt),
             want=w)
    st, ev, mt = cf.get_binary_state_and_event_and_mt_case_array(b)
    c.expect([st, ev, mt] == ref_binary(*cur, None), "current step")
    c.count("event %s" % want[1])
    c.seen("binary", want[0], want[1], ic)


for _e in ("oCE1", "oCE2", "oDoubleCE1", "oDoubleCE2", "CC1", "CC2", "None"):
    C.require("event " + _e, 5)


# --------------------------------------------------------------- cumulative
NAMES = {1: "A", 2: "B", 3: "C", 4: "BA", 5: "BB", 6: "BC", 8: "nonburning"}


def lab(k):
    return NAMES[k % 10] + ("1" if k < 10 else "2")


def ref_cum(seq):
    out = "?" if 9 in seq else ""
    seq = [k for k in seq if k != 9]
    if not seq:
        return "?"
    real = [k for k in seq if k != 0]
    if not real:
        return out + "no_RLO"
    dd = [k for i, k in enumerate(real) if i == 0 or real[i - 1] != k]
    return out + "case_" + "/".join(lab(k) for k in dd)


@C.family("cumulative", 2400, 32000)
def cumulative(rng, c):
    n = int(rng.integers(0, 10))
    pool = [0, 1, 2, 3, 4, 5, 8, 11, 12, 13, 14, 15, 18] + (
        [9] if rng.random() < .3 else [])
    p = list(rng.choice(pool, int(rng.integers(1, 5))))
    seq = [int(x) for x in rng.choice(p, n)]
    keep = list(seq)
    got = cf.cumulative_mass_transfer_flag(seq)
    c.expect(got == ref_cum(seq), "history of mass-transfer cases", got=got,
             want=ref_cum(seq), seq=seq)
    if 9 not in seq:
        lo = {0: 0, 1: 10}
        sh = []
        for k in seq:
            s = k // 10
            lo[s] = max(lo[s], k)
            sh.append(lo[s])
        got = cf.cumulative_mass_transfer_flag(seq, shift_cases=True)
        c.expect(got == ref_cum(sh), "a donor does not return to an earlier "
                 "case", got=got, want=ref_cum(sh), seq=seq)
    c.expect(seq == keep, "the sequence is unchanged")
    c.seen("cum", len(set(seq)), 9 in seq, n)


# ------------------------------------------------------ flags of MESA runs
UNST = "Reached maximum mass transfer rate: 1d-1"
TF1 = {"stable": ["Primary has depleted central carbon",
                  "Secondary has depleted central carbon",
                  "Primary got stopped before central carbon depletion",
                  "Secondary got stopped before central carbon depletion",
                  "Primary enters pair-instability regime",
                  "Secondary enters pair-instability regime",
                  "Primary enters pulsational pair-instability regime",
                  "Secondary enters pulsational pair-instability regime",
                  "envelope_mass_limit", "gamma_center_limit", "max_age"],
       "unstable": [
           "overflow from L2 (D_L2) distance for q(=Macc/Mdon)>1, donor is "
           "star 1",
           "overflow from L2 (R_L2) surface for q(=Macc/Mdon)<1, donor is "
           "star 2", UNST,
           "Reached maximum mass transfer rate: Exceeded photon trapping "
           "radius",
           "Both stars fill their Roche Lobe and at least one of them is off "
           "MS", "Terminate due to L2 overflow during case A",
           "Both stars fill their Roche Lobe and t_kh > t_acc",
           "overflow from L2, t_kh > t_acc and w > w_crit_lim, donor is "
           "star 1"],
       "initial": ["forced_initial_RLO",
                   "Terminate because of overflowing initial model"],
       "error": ["logQ_min_limit", "min_timestep_limit",
                 "reach cluster timelimit"],
       "unknown": ["Reached TPAGB", "something else",
                   "offcenter neon ignition for primary"]}


@C.family("classes", 1)
def classes(rng, c):
    tf2s = {"no_RLOF": "no", "initial_RLOF": "init", "case_A1": "one",
            "case_A1/B1": "one", "?case_B1": "one", "case_A1/A2": "rev",
            "case_B2": "one", "case_B1/A2/B1": "rev", "None": "one",
            "contact_during_MS": "one", "case_BB1/B2": "rev", "?": "one"}
    for k, fl in TF1.items():
        for a in fl:
            for b, w in tf2s.items():
                if k == "initial" or w == "init":
                    want = "initial_MT"
                elif k == "error":
                    want = "not_converged"
                elif w == "no":
                    want = "no_MT"
                elif k == "stable":
                    want = "stable_reverse_MT" if w == "rev" else "stable_MT"
                else:
                    want = {"unstable": "unstable_MT",
                            "unknown": "unknown"}[k]
                got = tf.infer_interpolation_class(a, b)
                c.expect(got == want, "interpolation class of a run", got=got,
                         want=want, tf1=a, tf2=b)
                c.seen("class", want)


HN = ("surface_h1", "center_h1", "center_he4", "center_c12", "log_LH",
      "log_LHe", "log_Lnuc")
# rows giving a known case
ROW = {1: (.7, .5, .3, 0., 3., -20., 3.), 2: (.7, 0., .9, 0., 3., -20., 3.),
       3: (.7, 0., 0., .5, 3., 2., 3.), 4: (0., 0., .5, .3, -20., 3., 3.),
       5: (0., 0., 0., .5, -20., 3., 3.), 8: (.7, .5, .3, 0., -20., -20., 1.)}


@C.family("mtflag", 1600, 24000)
def mtflag(rng, c):
    n = int(rng.integers(2, 14))
    ks = [np.sort(rng.choice([1, 2, 3], n)) if rng.random() < .6 else
          rng.choice([1, 2, 3, 4, 5, 8], n) for _ in range(2)]
    h = [np.array([ROW[int(k)] for k in kk], dtype=[(q, "f8") for q in HN])
         for kk in ks]
    bh = np.zeros(n, dtype=[(q, "f8") for q in (
        "age", "star_1_mass", "star_2_mass", "rl_relative_overflow_1",
        "rl_relative_overflow_2", "lg_mtransfer_rate")])
    bh["star_1_mass"], bh["star_2_mass"] = [
        [float(rng.choice([.8, 1.3, 2., 10.])) for _ in range(n)]
        for _ in range(2)]
    lo = -.3
    o1, o2 = rng.uniform(-1, lo, n), rng.uniform(-1, lo, n)
    rate = np.full(n, -99.)
    for o, x in ((o1, 0), (o2, 1)):
        if rng.random() < .5:
            i = int(rng.integers(0 if rng.random() < .2 else 1, n))
            j = int(rng.integers(i, n))
            o[i:j + 1] = float(rng.choice([.1, 1e-9]))
    if rng.random() < .4:
        i = int(rng.integers(1, n))
        rate[i:] = float(rng.choice([-9.9, -5., -10.]))
    if rng.random() < .5:                        # avoid contact
        o2[(o1 > 0) & (o2 > 0)] = -.5
    if rng.random() < .1:
        o1[-1] = o2[-1] = -.1
        rate[-1] = -6.                # equal overflow: star 1 is the donor
    bh["rl_relative_overflow_1"], bh["rl_relative_overflow_2"] = o1, o2
    bh["lg_mtransfer_rate"] = rate
    flag = [None, TF1["stable"][0], UNST, TF1["error"][1],
            TF1["initial"][1]][int(rng.choice(5, p=[.3, .3, .2, .1, .1]))]
    at = bool(rng.random() < .4)
    co2 = bool(rng.random() < .2) and not np.any(
        (o2 > o1) & ((o2 > 0) | (rate > -10)))
    co1 = bool(rng.random() < .2) and not co2 and not np.any(
        (o1 >= o2) & ((o1 > 0) | (rate > -10)))
    if co1:
        c.count("compact primary")
    # reference
    if flag == TF1["error"][1]:
        want = "None"
    elif flag == TF1["initial"][1]:
        want = "initial_RLOF"
    elif np.any((o1 > 0) & (o2 > 0)):
        want = "contact_during_MS"
    else:
        seq = []
        first = False
        lo_ = {0: 0, 1: 0}
        for i in range(n):
            if not (max(o1[i], o2[i]) > 0 or rate[i] > -10):
                continue
            first = first or i == 0
            s = 0 if o1[i] >= o2[i] else 1
            k = int(ks[s][i])
            lo_[s] = max(lo_[s], k)
            seq.append(lo_[s] + 10 * s)
        if not seq:
            want = "no_RLOF"
        elif first and not at:
            want = "initial_RLOF"
        else:
            want = ref_cum(seq)
    H1, H2 = None if co1 else h[0], None if co2 else h[1]
    got = tf.get_mass_transfer_flag(bh, H1, H2,
                                    start_at_RLO=at, mesa_flag=flag)
    c.expect(got == want, "mass-transfer history of a run", got=got,
             want=want, ks=ks, o1=o1, o2=o2, rate=rate, at=at, flag=flag)
    kind = "case" if want.startswith("case") else want
    c.count("mtflag " + kind)
    full = tf.get_flags_from_MESA_run(None, bh, H1, H2,
                                      start_at_RLO=at,
                                      newTF1=flag or "some end")
    w = (flag or "some end", want) + tuple(
        ref_co(bh["star_%d_mass" % (i + 1)][-1], False) if (co1, co2)[i] else
        ref_state(*ROW[int(ks[i][-1])]) for i in range(2))
    c.expect(tuple(full) == w, "the four flags of a run", got=full, want=w)
    c.seen("mtflag", want)


for _k in ("case", "contact_during_MS", "no_RLOF", "initial_RLOF", "None"):
    C.require("mtflag " + _k, 5)


C.require("compact primary", 5)


@C.family("logs", 800, 8000)
def logs(rng, c):
    codes = ["max_age", "Primary has depleted central carbon", UNST,
             "gamma_center_limit"]
    lines, want = [], None
    n = int(rng.integers(0, 12))
    mint = False
    for _ in range(n):
        k = int(rng.choice(6, p=[.45, .15, .15, .1, .05, .1]))
        if k == 0:
            lines.append("   step %d  with termination code: inside" % _)
        elif k in (1, 2):
            code = codes[int(rng.integers(len(codes)))]
            lines.append(("termination code: " if k == 1 else "Terminate: ")
                         + code + " " * int(rng.integers(3)))
            want = code
        elif k == 3:
            lines.append("termination code: min_timestep_limit")
            mint = True
        elif k == 4:
            lines.append("stopping: min_timestep_limit Reached TPAGB")
            want = "Reached TPAGB"
        else:
            lines.append("Reached TPAGB soon")
    if want is None:
        want = "min_timestep_limit" if mint else "reach cluster timelimit"
    p = os.path.join(vk.scratch(), "log%d" % os.getpid())
    data = "\n".join(lines) + "\n"
    if rng.random() < .5:
        p += ".gz"
        with gzip.open(p, "wt") as f:
            f.write(data)
    else:
        with open(p, "w") as f:
            f.write(data)
    got = tf.get_flag_from_MESA_output(p)
    c.expect(got == want, "reason why a run ended", got=got, want=want,
             lines=lines)
    os.remove(p)
    c.expect(tf.get_flag_from_MESA_output(p) == "reach cluster timelimit"
             and tf.get_flag_from_MESA_output(None)
             == "reach cluster timelimit", "no log: the run did not finish")
    c.seen("log", want)


class FakeGrid:
    pass


@C.family("boundary", 150, 1500)
def boundary(rng, c):
    """runs overflowing initially give the longest such period per masses"""
    n = int(rng.integers(1, 70))
    masses = [(float(rng.uniform(5, 50)), float(rng.uniform(1, 5)))
              for _ in range(int(rng.integers(1, 40)))]
    pick = rng.integers(0, len(masses), n)
    bad = rng.random(n) < .7
    iv = np.zeros(n, dtype=[("star_1_mass", "f8"), ("star_2_mass", "f8"),
                            ("period_days", "f8")])
    fv = np.zeros(n, dtype=[("termination_flag_1", "O"),
                            ("termination_flag_3", "O"),
                            ("termination_flag_4", "O")])
    best = {}
    for i in range(n):
        m = masses[pick[i]]
        per = float(rng.uniform(.1, 10))
        iv[i] = (m[0], m[1], per)
        fv[i] = (TF1["initial"][1] if bad[i] else TF1["stable"][0],
                 "a%d" % i, "b%d" % i)
        if bad[i] and per > best.get(m, (0,))[0]:
            best[m] = (per, "a%d" % i, "b%d" % i)
    g = FakeGrid()
    g.initial_values, g.final_values = iv, fv
    det = tf.get_detected_initial_RLO(g)
    got = {(d["star_1_mass"], d["star_2_mass"]): (
        d["period_days"], d["termination_flag_3"], d["termination_flag_4"])
        for d in det}
    c.expect(len(det) == len(got) and got == best,
             "longest initially overflowing period per pair of masses",
             got=got, want=best)
    m = (float(rng.uniform(5, 50)), float(rng.uniform(1, 5)))
    near = tf.get_nearest_known_initial_RLO(m[0], m[1], det)
    if len(det) < 20:
        c.expect(near["period_days"] == 0., "too few systems, no boundary",
                 near=near)
    else:
        k = min(best, key=lambda q: np.hypot(q[0] - m[0], q[1] - m[1]))
        c.expect((near["star_1_mass"], near["star_2_mass"]) == k
                 and near["period_days"] == best[k][0],
                 "the nearest known system decides", near=near, want=k)
        c.count("boundary applied")
    c.seen("boundary", min(len(det), 25))


C.require("boundary applied", 5)

if __name__ == "__main__":
    sys.exit(C.main())
