"""C18  Mergers conserve mass and mix the two stars as documented."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import numpy as np

vk.setup_env()
import toygrid
from posydon.utils import common_functions as cf
from posydon.utils.posydonerror import ModelError, FlowError
from posydon.binary_evol.singlestar import SingleStar, STARPROPERTIES
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.binary_evol.track_match import TrackMatcher
from posydon.binary_evol.DT.step_merged import MergedStep
from posydon.binary_evol.DT.step_initially_single import InitiallySingleStep
from posydon.binary_evol.DT.step_disrupted import DisruptedStep

C = vk.Check(
    "C18",
    "pairs of all star states with random structures go through the real "
    "merger step, whose matching to single-star tracks is a stand-in that "
    "stops it after the merger; masses, cores and abundances against an "
    "independent budget; and isolated stars through the complete step; "
    "signature = (states, cores, slot)")

MS = ["H-rich_Core_H_burning"]
POST = ["H-rich_Core_He_burning", "H-rich_Shell_H_burning",
        "H-rich_Core_He_depleted", "H-rich_Shell_He_burning",
        "H-rich_Core_C_burning", "H-rich_Core_C_depleted",
        "H-rich_non_burning", "accreted_He_Core_H_burning",
        "accreted_He_Shell_H_burning", "accreted_He_non_burning"]
HE = ["stripped_He_Core_He_burning", "accreted_He_Core_He_burning",
      "stripped_He_Core_He_depleted", "stripped_He_Core_C_depleted",
      "stripped_He_non_burning"]
CENTER = ["center_h1", "center_he4", "center_c12", "center_n14", "center_o16"]
SURFACE = ["surface_h1", "surface_he4", "surface_c12", "surface_n14",
           "surface_o16"]
MASSES = ["mass", "he_core_mass", "c_core_mass", "o_core_mass",
          "co_core_mass"]


class Flow(dict):
    def get(self, k, d=None):
        return "step_merged"


class Reached(Exception):
    pass


class Matcher:
    matching_method = "stand-in"

    def do_matching(self, binary, *a, **k):
        raise Reached()


def props():
    p = SimulationProperties()
    p.flow = Flow()
    p.max_simulation_time = 1.38e10
    p.all_step_names = ["step_merged"]
    return p


PROPS = props()


def kind(s):
    return "MS" if s in MS else "POST" if s in POST else "HE" if s in HE \
        else s


def make(rng, state):
    k = kind(state)
    if k in ("WD", "NS", "BH"):
        m = {"WD": rng.uniform(.5, 1.35), "NS": rng.uniform(1.2, 2.4),
             "BH": rng.uniform(3, 40)}[k]
    else:
        m = 10 ** rng.uniform(0, 1.8)
    s = SingleStar(state=state, mass=float(m))
    s.state = state
    for q in STARPROPERTIES:
        if q not in ("state", "mass", "metallicity", "profile"):
            setattr(s, q, float(rng.uniform(.05, 1)))
    s.metallicity = 1.
    he = m if k in ("HE", "WD") else m * rng.uniform(.2, .6) \
        if k == "POST" else 0.
    co = 0. if rng.random() < .45 or k == "MS" else he * rng.uniform(.2, .9)
    if k == "WD":
        co = m
    s.he_core_mass, s.co_core_mass = float(he), float(co)
    s.c_core_mass, s.o_core_mass = float(.6 * co), float(.4 * co)
    for group in (CENTER, SURFACE):
        v = rng.dirichlet(np.ones(5))
        for n, x in zip(group, v):
            setattr(s, n, float(x))
    if k == "HE":
        s.surface_h1, s.center_h1 = 0., 0.
    if k == "POST" and rng.random() < .8:
        s.center_h1 = 0.
    if rng.random() < .05:
        setattr(s, str(rng.choice(CENTER + SURFACE)),
                np.nan)
    return s


def val(v):
    return np.nan if v is None else v


def mix(a, b, wa, wb):
    a, b = val(a), val(b)
    d = wa + wb
    if not all(np.isfinite(v) for v in (a, b, wa, wb)) or d == 0:
        return np.nan
    return (a * wa + b * wb) / d


def isnan(v):
    return v is not None and not isinstance(v, str) and np.isnan(v)


def same(a, b):
    return a is b or a == b or (isnan(a) and isnan(b))


C.require("merged", 1500)
C.require("refused", 20)


@C.family("merge", 9000, 120000)
def merge(rng, c):
    pool = MS * 4 + POST + HE
    sa = str(rng.choice(pool))
    r = rng.random()
    sb = str(rng.choice(["WD", "NS", "BH"])) if r < .2 else \
        "massless_remnant" if r < .23 else str(rng.choice(pool))
    if rng.random() < .03:
        sa, sb = "WD", sb
    rlo = bool(kind(sa) == "HE" and kind(sb) == "HE" and rng.random() < .4)
    a = make(rng, sa)
    b = make(rng, sb) if sb != "massless_remnant" else \
        SingleStar(state=sb, mass=0.)
    slot = int(rng.integers(1, 3))
    ev = ("oRLO" if rlo else "oMerging") + str(slot)
    bn = BinaryStar(*((a, b) if slot == 1 else (b, a)),
                    state="contact" if rlo else "merged", event=ev, time=1e6,
                    separation=10., orbital_period=3., eccentricity=0.,
                    properties=PROPS)
    bn.event, bn.state = ev, "contact" if rlo else "merged"
    a, b = (bn.star_1, bn.star_2) if slot == 1 else (bn.star_2, bn.star_1)
    a.state, b.state = sa, sb
    A = {k: getattr(a, k) for k in STARPROPERTIES}
    B = {k: getattr(b, k) for k in STARPROPERTIES}
    rot = float(rng.choice([.4, rng.random()]))
    loss = float(rng.choice([.1, 0., rng.random() * .3]))
    kw = {}
    if rot != .4:
        kw["merger_critical_rot"] = rot
    if loss != .1:
        kw["rel_mass_lost_HMS_HMS"] = loss
    st = MergedStep(track_matcher=Matcher(), metallicity=1., **kw)
    ka, kb = kind(sa), kind(sb)
    c.note(states=(sa, sb), slot=slot, co=(A["co_core_mass"],
                                           B["co_core_mass"]),
           masses=(A["mass"], B["mass"]))
    ok = (ka, kb) in [("MS", "MS"), ("MS", "POST"), ("POST", "MS"),
                      ("POST", "POST"), ("POST", "HE"), ("HE", "POST"),
                      ("HE", "HE")] or (ka in ("MS", "POST", "HE")
                                        and kb in ("WD", "NS", "BH"))
    if not ok:
        try:
            st(bn)
        except ModelError:
            c.count("refused")
            c.expect(True, "an unknown pair is refused")
        except Reached:
            c.expect(False, "an unknown pair of states is refused",
                     pair=(sa, sb))
        c.seen("refused", ka, kb)
        return
    try:
        st(bn)
        c.expect(False, "the merged star is matched to a track")
    except Reached:
        pass
    res, gone = (bn.star_1, bn.star_2) if slot == 1 else \
        (bn.star_2, bn.star_1)
    c.expect(bn.state == "merged", "state of the binary", state=bn.state)
    c.count("merged")
    c.seen(sa, sb, A["co_core_mass"] > 0, B["co_core_mass"] > 0
           if kb not in ("NS", "BH") else None, slot)
    if kb in ("NS", "BH"):
        # the star is swallowed, the compact object stays what it is
        c.expect(res.state == "massless_remnant" and res.mass == 0.,
                 "a star that merges with a neutron star or black hole is "
                 "gone", got=(res.state, res.mass))
        c.expect(all(same(getattr(gone, k), B[k]) for k in STARPROPERTIES),
                 "the compact object is unchanged",
                 diff=[k for k in STARPROPERTIES
                       if not same(getattr(gone, k), B[k])])
        return
    c.expect(gone.state == "massless_remnant" and gone.mass == 0.,
             "one of the stars is gone", got=(gone.state, gone.mass))
    c.expect(all(isnan(getattr(gone, k)) for k in STARPROPERTIES
                 if k not in ("state", "mass")),
             "nothing is left of the star that is gone")
    # ------------------------------------------------------------- mass budget
    ms = ka == "MS" and kb == "MS"
    fac = 1 - loss if ms else 1.
    c.close(res.mass, (A["mass"] + B["mass"]) * fac, "the merged star has the "
            "mass of both, less what a main-sequence merger throws out",
            rtol=1e-12)
    # the further evolved star is the base
    E, O = (B, A) if (ka == "MS" and kb == "POST") or (
        ka == "HE" and kb == "POST") else (A, B)
    for k in MASSES[1:]:
        if "MS" in (ka, kb) and kb != "WD":
            want = E[k]                       # only the envelope grows
        elif kb == "WD":
            want = A[k] + B["mass"]           # a white dwarf is a bare core
        else:
            want = A[k] + B[k]
        c.close(getattr(res, k), want, "mass budget of " + k, rtol=1e-12)
    # ------------------------------------------------------------- composition
    coA, coB = A["co_core_mass"], B["co_core_mass"]
    extra = ["avg_c_in_c_core"]
    gamma = None
    if ms:
        cen = {k: mix(A[k], B[k], A["mass"], B["mass"]) for k in CENTER}
        gamma = np.nan
        cen["avg_c_in_c_core"] = np.nan
    elif kb == "MS" or (ka == "MS" and kb == "POST"):
        cen = {k: E[k] for k in CENTER + extra}
        gamma = E["center_gamma"]
    elif kb == "WD":
        if coA == 0:
            cen = {k: B[k] for k in CENTER + extra}
            gamma = B["center_gamma"]
        else:
            cen = {k: mix(A[k], B[k], coA, coB) for k in CENTER + extra}
            gamma = np.nan
    elif coA == 0 and coB == 0:
        cen = {k: mix(A[k], B[k], A["he_core_mass"], B["he_core_mass"])
               for k in CENTER + extra}
        gamma = np.nan
    elif coA > 0 and coB > 0:
        if sb == HE[0] and ka == "POST" or sa == HE[0] and kb == "POST":
            cen = None       # a helium-burning star with a CO core: undefined
        else:
            cen = {k: mix(A[k], B[k], coA, coB) for k in CENTER + extra}
            gamma = np.nan
    else:
        D = A if coA > 0 else B
        cen = {k: D[k] for k in CENTER + extra}
        gamma = D["center_gamma"]
        if (sb == HE[0] and ka == "POST" and coB > 0) or (
                sa == HE[0] and kb == "POST" and coA > 0):
            cen = None
    if cen is not None:
        for k, w in cen.items():
            c.close(val(getattr(res, k)), val(w), "centre of the merged star: "
                    + k, rtol=1e-12, atol=1e-15)
        c.close(val(res.center_gamma), val(gamma), "Coulomb coupling",
                rtol=1e-12)
    for k in SURFACE:
        if ms:
            w = mix(A[k], B[k], A["mass"], B["mass"])
        elif kb == "MS":
            w = mix(A[k], B[k], A["mass"] - A["he_core_mass"], B["mass"])
        elif ka == "MS" and kb == "POST":
            w = mix(A[k], B[k], A["mass"], B["mass"] - B["he_core_mass"])
        elif ka == "POST" and kb == "POST":
            w = mix(A[k], B[k], A["mass"] - A["he_core_mass"],
                    B["mass"] - B["he_core_mass"])
        elif ka == "HE" and kb == "HE":
            w = mix(A[k], B[k], A["he_core_mass"] - coA,
                    B["he_core_mass"] - coB)
        else:
            w = E[k]
        c.close(val(getattr(res, k)), val(w), "surface of the merged star: "
                + k, rtol=1e-9, atol=1e-12)
    # ------------------------------------------------- structure that is lost
    kept = []
    if not ms and (kb == "MS" or (ka == "MS" and kb == "POST")):
        kept = ["log_LHe", "log_LZ"]
    for k in STARPROPERTIES:
        if k == "surf_avg_omega_div_omega_crit":
            c.expect(res.surf_avg_omega_div_omega_crit == rot,
                     "rotation of the merged star")
        elif k in kept:
            c.expect(same(getattr(res, k), E[k]), "burning of the core goes "
                     "on: " + k, got=getattr(res, k), want=E[k])
        elif k.startswith(("log_", "lg_", "surf_", "conv_", "lambda")) \
                or k in ("c12_c12", "total_moment_of_inertia", "spin",
                         "profile"):
            c.expect(isnan(getattr(res, k)), "not known after a merger: " + k,
                     got=getattr(res, k))
    if not ms:
        L = res.log_LHe
        c.expect(res.state == cf.infer_star_state(
            star_mass=res.mass, surface_h1=res.surface_h1,
            center_h1=res.center_h1, center_he4=res.center_he4,
            center_c12=res.center_c12, log_LH=np.nan, log_LHe=L,
            log_Lnuc=np.nan), "state follows from the mixed composition",
            got=res.state)
    else:
        c.expect(res.state == MS[0], "still on the main sequence")


@C.family("refuse", 200, 1000)
def refuse(rng, c):
    """what is not merging"""
    sa, sb = [str(rng.choice(MS + POST[:6] + HE)) for _ in "12"]
    a, b = make(rng, sa), make(rng, sb)
    state, ev = [("merged", None), ("merged", "oRLO1"), ("merged", "CC1"),
                 ("detached", "oRLO1"), ("RLO1", "oCE1"),
                 ("contact", "oMerging1")][int(rng.integers(6))]
    if state != "merged" and kind(sa) == kind(sb) == "HE" \
            and ev in ("oRLO1", "oRLO2"):
        c.stop()
    bn = BinaryStar(a, b, state=state, event=ev, time=1e6, separation=10.,
                    orbital_period=3., eccentricity=0., properties=PROPS)
    bn.event, bn.state = ev, state
    st = MergedStep(track_matcher=Matcher(), metallicity=1.)
    c.raises(ValueError, lambda: st(bn), "a binary that does not merge is "
             "refused", state=state, event=ev)
    c.seen("refuse", state, ev)


# ------------------------------------------------------------- isolated stars
_TM = {}


def matcher():
    if not _TM:
        _TM["tm"] = TrackMatcher(
            grid_Hrich=toygrid.ToyGrid(True, n=200),
            grid_strippedHe=toygrid.ToyGrid(False, .5, 80., n=200),
            metallicity=1.0, matching_method="minimize")
    return _TM["tm"]


def isostar(rng, grid, m0, x):
    """a star at fraction x of its life on an analytic track"""
    v = {k: float(q[0]) for k, q in
         grid.values(m0, np.array([x * grid.lifetime(m0)])).items()}
    s = SingleStar(state=MS[0], metallicity=1., mass=v["mass"])
    for k, q in v.items():
        if k in STARPROPERTIES:
            setattr(s, k, q)
    s.surf_avg_omega_div_omega_crit = .2
    s.surf_avg_omega = None
    s.state = cf.check_state_of_star(s, star_CO=False)
    return s


@C.family("isolated", 60, 900)
def isolated(rng, c):
    """stars without a companion live to the end of their track"""
    tm = matcher()
    grid = tm.grid_Hrich
    m0 = float(10 ** rng.uniform(.7, 1.6))
    x = float(rng.uniform(.02, .7))
    how = ["disrupted", "initially_single_star", "merged"][
        int(rng.integers(3))]
    slot = int(rng.integers(1, 3))
    if how == "initially_single_star":
        slot, x = 1, 0.
    s = isostar(rng, grid, m0, x)
    if how == "disrupted" and rng.random() < .6:
        k = str(rng.choice(["NS", "BH"]))
        o = SingleStar(state=k, mass=1.4 if k == "NS" else 8., metallicity=1.)
        o.state = k
    else:
        o = SingleStar(state="massless_remnant", mass=0., metallicity=1.)
        o.state = "massless_remnant"
    if how == "merged":                # main-sequence star and a black hole
        o = SingleStar(state="BH", mass=9., metallicity=1.)
        o.state = "BH"
    t0 = x * grid.lifetime(m0)
    tmax = 1.38e10 if rng.random() < .7 else \
        t0 + float(rng.uniform(.05, .9)) * (grid.lifetime(m0) - t0)
    p = props()
    p.max_simulation_time = tmax
    p.all_step_names = p.all_step_names + ["step_HMS_HMS_RLO"]
    ev = "oMerging%d" % slot if how == "merged" else None
    b = BinaryStar(*((s, o) if slot == 1 else (o, s)), state=how, event=ev,
                   time=t0, separation=np.nan, orbital_period=np.nan,
                   eccentricity=np.nan, properties=p, V_sys=[1., 2., 3.])
    b.state, b.event = how, ev
    s, o = (b.star_1, b.star_2) if slot == 1 else (b.star_2, b.star_1)
    om, os_ = o.mass, o.state
    cls = {"disrupted": DisruptedStep, "merged": MergedStep,
           "initially_single_star": InitiallySingleStep}[how]
    st = cls(track_matcher=tm, metallicity=1.)
    c.note(m0=m0, x=x, how=how, slot=slot, tmax=tmax, t0=t0)
    with vk.quiet(), np.errstate(all="ignore"):
        st(b)
    s, o = (b.star_1, b.star_2) if slot == 1 else (b.star_2, b.star_1)
    c.expect(all(np.isnan(v) for v in (b.separation, b.orbital_period,
                                       b.eccentricity)),
             "an isolated star has no orbit", got=(
                 b.separation, b.orbital_period, b.eccentricity))
    c.expect(b.state == how, "the isolated state is kept", state=b.state)
    c.seen("isolated", how, slot, o.state, b.event)
    if how == "merged":
        c.expect(s.state == "massless_remnant" and s.mass == 0
                 and o.state == "BH" and o.mass == om,
                 "the black hole is what remains of the merger",
                 got=(s.state, s.mass, o.state, o.mass))
        return
    c.expect(o.mass == om and o.state == os_, "the other object is unchanged",
             got=(o.mass, o.state))
    end = min(tmax, t0 + (1 - x) * grid.lifetime(m0))
    if tmax < 1e10:
        c.expect(b.event == "maxtime", "event at the time limit",
                 event=b.event)
        c.close(b.time, tmax, "stops at the time limit", rtol=1e-9)
    else:
        c.expect(b.event == "CC%d" % slot, "the star lives to its collapse",
                 event=b.event, slot=slot)
        c.close(b.time - t0, end - t0, "the star lives as long as its track",
                rtol=.5)
    want = grid.values(m0, np.array([min(b.time, grid.lifetime(m0))]))
    c.close(s.mass, float(want["mass"][0]), "the isolated star follows its "
            "single-star track", rtol=.1)
    c.expect(list(b.V_sys) == [1., 2., 3.], "systemic velocity kept")


if __name__ == "__main__":
    sys.exit(C.main())
