"""C31: matching a star to a single-star track."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import numpy as np
import phys
import toygrid
from posydon.binary_evol.track_match import TrackMatcher
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.utils.common_functions import infer_star_state
from posydon.utils.posydonerror import (MatchingError, NumericalError,
                                        POSYDONError)

ck = vk.Check("C31", "stars from both analytic grids at all evolutionary "
              "phases, exactly on or displaced from a track, with stellar, "
              "compact and absent companions in either position, matched by "
              "both methods; the accepted track is judged against an "
              "independent evaluation of the matching distance and of every "
              "track value; non-trivial by (phases, roles, outcome, method)")

G = {}


def grids():
    if not G:
        G[True] = toygrid.ToyGrid(True, .5, 100., n=120)
        G[False] = toygrid.ToyGrid(False, .5, 80., n=120)
        for h in (True, False):
            for k in ("mass", "center_h1", "center_he4", "log_R",
                      "he_core_mass"):
                allv = np.concatenate([G[h].get(k, m)
                                       for m in G[h].grid_mass])
                G[(h, k)] = (allv.min(), allv.max())
    return G


_TM = {}


def matcher(**kw):
    grids()
    key = tuple(sorted(kw.items()))
    if key not in _TM:
        _TM[key] = TrackMatcher(grid_Hrich=G[True], grid_strippedHe=G[False],
                                metallicity=1.0, **kw)
    return _TM[key]


LISTS = {"HMS": [["mass", "center_h1", "log_R", "he_core_mass"],
                 ["mass", "center_h1", "he_core_mass"], None],
         "postMS": [["mass", "center_he4", "log_R", "he_core_mass"],
                    ["mass", "center_h1", "he_core_mass"],
                    ["mass", "center_he4", "log_R", "he_core_mass"]],
         "HeStar": [["he_core_mass", "center_he4", "log_R"]] * 3,
         "postHeMS": [["he_core_mass", "log_R"]] * 3}


def phase(state):
    if "Core_H_burning" in state:
        return "HMS"
    if "stripped_He" not in state:
        return "postMS"
    return "HeStar" if "Core_He_burning" in state else "postHeMS"


def dist(attrs, h, vals, star):
    """Sum of squared scaled differences; vals: dict of arrays."""
    r = 0.
    for k in attrs:
        lo, hi = G[(h, k)]
        if k == "mass":
            f = lambda x: (np.log10(x) - np.log10(lo)) \
                / (np.log10(hi) - np.log10(lo))
        else:
            f = lambda x: (x - lo) / (hi - lo) if hi != lo else x * 0.
        d = f(np.asarray(vals[k], float)) - f(star[k])
        if k == "center_he4":
            d = d / f(star[k])
        r = r + d**2
    return r


def props(tmax=1.38e10):
    p = SimulationProperties()
    p.flow = {}
    p.max_simulation_time = tmax
    return p


def on_track(rng, h, m0, x):
    g = G[h]
    t = g.lifetime(m0) * x
    v = {k: float(np.interp(t, g.ages(m0), g.get(k, m0)))
         for k in g.values(m0, np.array([0.])) if k != "age"}
    return t, v


ATTR = ["mass", "log_R", "center_h1", "center_he4", "center_c12",
        "surface_h1", "surface_he4", "he_core_mass", "co_core_mass", "log_LH",
        "log_LHe", "log_Lnuc"]


def star_of(v, **kw):
    st = infer_star_state(star_mass=v["mass"], surface_h1=v["surface_h1"],
                          center_h1=v["center_h1"],
                          center_he4=v["center_he4"],
                          center_c12=v["center_c12"], log_LH=v["log_LH"],
                          log_LHe=v["log_LHe"], log_Lnuc=v["log_Lnuc"])
    return SingleStar(state=st, metallicity=1.0,
                      **{k: v[k] for k in ATTR}, **kw)


def rotation(rng, m, logR):
    """Rotation data and the rate [rad/yr] they stand for."""
    crit = np.sqrt(phys.G * m * phys.MSUN / (10**logR * phys.RSUN)**3)
    I = .07 * m * phys.MSUN * (10**logR * phys.RSUN)**2
    w = crit * float(rng.uniform(.01, .9))
    J = float(np.log10(w * I * rng.uniform(.5, 2)))
    r = rng.integers(0, 4)
    if r == 0:
        return dict(surf_avg_omega=w, surf_avg_omega_div_omega_crit=w / crit,
                    log_total_angular_momentum=J, total_moment_of_inertia=I), \
            10**J / I * phys.SECYR, "J", 10**J / I, w / crit
    if r == 1:
        return dict(surf_avg_omega=w, surf_avg_omega_div_omega_crit=w / crit,
                    total_moment_of_inertia=I), w * phys.SECYR, "omega", w, \
            w / crit
    if r == 2:
        return dict(surf_avg_omega_div_omega_crit=w / crit), \
            w * phys.SECYR, "ratio", None, None
    return {}, 0.0, "none", None, None


def check_track(c, s, h, m0, t0, tag):
    """Every property of the star equals its track at (m0, t0)."""
    g = G[h]
    bad = []
    for k, vv in g.values(m0, np.array([0.])).items():
        if k in ("age", "log_total_angular_momentum"):
            continue
        want = float(np.interp(t0, g.ages(m0), g.get(k, m0)))
        got = getattr(s, k, None)
        if got is None or not abs(got - want) <= 1e-6 * abs(want) + 1e-12:
            bad.append((k, got, want))
    c.expect(not bad, "all properties are those of the matched track" + tag,
             bad=bad[:5])
    # the interpolator follows the track
    tt = np.array([.1, .35, .62, .97]) * g.lifetime(m0)
    tt = tt[tt >= t0 * .5]
    bad = []
    for t in tt:
        r = s.interp1d(t)
        for k in ("mass", "center_h1", "center_he4", "log_L", "he_core_mass",
                  "mdot", "log_R"):
            want = float(np.interp(t, g.ages(m0), g.get(k, m0)))
            if not abs(r[k] - want) <= 2e-2 * abs(want) + 2e-2:
                bad.append((t, k, r[k], want))
        if not abs(r["R"] - 10**r["log_R"]) <= .03 * r["R"]:
            bad.append((t, "R", r["R"]))
        want = float(np.interp(t, g.ages(m0), g.get("inertia", m0))) \
            / (phys.MSUN * phys.RSUN**2)
        if not abs(r["inertia"] - want) <= 2e-2 * want:
            bad.append((t, "inertia", r["inertia"], want))
        e = g.lifetime(m0) * 1e-4
        dI = (s.interp1d(t + e)["inertia"] - s.interp1d(t - e)["inertia"]) \
            / (2 * e)
        if not abs(r["Idot"] - dI) <= .05 * abs(dI) + want * 1e-3 \
                / g.lifetime(m0):
            bad.append((t, "Idot", r["Idot"], dI))
    c.expect(not bad, "the track is followed after the match" + tag,
             bad=bad[:5])
    c.close(s.interp1d.t_max, g.lifetime(m0), "end of the track" + tag, 1e-9)


@ck.family("zams", quick=140, thorough=2000)
def zams(rng, c):
    tm = matcher()
    m = []
    for _ in "12":
        r = rng.uniform()
        m.append(float(.5 if r < .07 else 100. if r < .14 else
                       rng.uniform(.2, .4999) if r < .2 else
                       rng.uniform(100.0001, 300) if r < .26 else
                       10**rng.uniform(-.3, 2)))
    ev = ["ZAMS", "redirect_from_ZAMS"][c.index % 2]
    rot, w = [], []
    for x in m:
        lr = float(G[True].values(min(max(x, .5), 100.),
                                  np.array([0.]))["log_R"][0])
        r = rotation(rng, x, lr)
        rot.append(r)
    ss = [SingleStar(state="H-rich_Core_H_burning", mass=x, metallicity=1.0,
                     log_R=float(G[True].values(min(max(x, .5), 100.), np.array(
                         [0.]))["log_R"][0]), **r[0])
          for x, r in zip(m, rot)]
    b = BinaryStar(*ss, state="detached", event=ev, time=0.0,
                   separation=500., orbital_period=100., eccentricity=.1,
                   properties=props())
    lo, hi = G[True].grid_mass.min(), G[True].grid_mass.max()
    ok = all(lo <= x <= hi for x in m)
    c.note(m=m, ev=ev)
    if not ok:
        with vk.quiet():
            c.raises(MatchingError, lambda: tm.do_matching(b),
                     "masses outside the grid are refused")
        c.expect(b.state == "ERR" and b.event == "FAILED",
                 "refused binary is marked as failed", s=b.state)
        c.seen("outside")
        c.stop()
    with vk.quiet():
        p, s, only = tm.do_matching(b)
    c.expect(p is b.star_1 and s is b.star_2 and not only,
             "roles of two H-rich stars")
    for k, (q, x, r) in enumerate(zip((b.star_1, b.star_2), m, rot)):
        c.close([q.interp1d.m0, q.interp1d.t0], [x, 0.0],
                "a star born now starts its own track", 1e-12)
        check_track(c, q, True, x, 0.0, " (birth)")
        c.close(q.omega0, r[1], "rotation rate handed on (%s)" % r[2], 1e-4)
        if r[3] is not None:
            c.close(q.surf_avg_omega, r[3], "surface rotation", 1e-4)
            c.close(q.surf_avg_omega_div_omega_crit,
                    r[4] * r[3] / r[0]["surf_avg_omega"],
                    "critical rotation is unchanged", 1e-4)
            c.close(10**q.log_total_angular_momentum,
                    r[3] * r[0]["total_moment_of_inertia"],
                    "angular momentum of the rotation", 1e-3)
        elif r[2] == "none":
            c.expect(q.surf_avg_omega == 0.0
                     and q.surf_avg_omega_div_omega_crit == 0.0,
                     "no rotation known: none", ratio=q.surf_avg_omega_div_omega_crit)
    if c.index % 5 == 0:
        # a track with a repeated and a disordered row is cleaned
        class Rep(toygrid.ToyGrid):
            def ages(self, m0):
                a = super().ages(m0)
                a[200] = a[199]
                a[400], a[401] = a[401], a[400]
                return a
        t2 = TrackMatcher(grid_Hrich=Rep(True), grid_strippedHe=G[False],
                          metallicity=1.0)
        d = BinaryStar(*ss, state="detached", event=ev, time=0.0,
                       separation=500., orbital_period=100., eccentricity=.1,
                       properties=props())
        with vk.quiet():
            t2.do_matching(d)
        tt = np.linspace(.01, .99, 40)
        for q, x in zip((d.star_1, d.star_2), m):
            g = G[True]
            r = [q.interp1d(t * g.lifetime(x)) for t in tt]
            w = g.values(x, tt * g.lifetime(x))
            for k in ("mass", "log_L", "center_h1"):
                c.close([float(y[k]) for y in r], w[k], "tracks with repeated "
                        "rows are followed", rtol=1e-2, atol=1e-2, which=k)
        c.count("repeated rows")
    c.count("births")
    c.seen("birth", rot[0][2], rot[1][2], ev)


@ck.family("match", quick=150, thorough=2600)
def match(rng, c):
    """A star on or off a track, with a companion of any kind."""
    rec = bool(c.index % 2)
    tol = [(1e-2, 1e-1), (1e-4, 1e-2), (1e-2, 1e-1)][c.index % 3]
    tm = matcher(matching_tolerance=tol[0], matching_tolerance_hard=tol[1],
                 record_matching=rec)
    comp = ["CO", "star", "none"][int(rng.integers(0, 3))]
    pos = int(rng.integers(0, 2))        # position of the first star
    stars, info = [None, None], [None, None]
    order = [pos, 1 - pos]
    for n, k in enumerate(order):
        if n == 1 and comp == "CO":
            kind = ["BH", "NS", "WD"][int(rng.integers(0, 3))]
            stars[k] = SingleStar(state=kind, mass={"BH": 8., "NS": 1.4,
                                                    "WD": .7}[kind],
                                  metallicity=1.0, spin=.4)
            continue
        if n == 1 and comp == "none":
            stars[k] = SingleStar(state="massless_remnant", mass=0.0,
                                  metallicity=1.0)
            continue
        h = bool(rng.uniform() < .6)
        m0 = float(10**rng.uniform(.3 if not h else 0, 1.7))
        x = float(rng.choice([rng.uniform(.02, .78), rng.uniform(.81, .98)]))
        t, v = on_track(rng, h, m0, x)
        off = 0.
        r = rng.uniform()
        if r > .6:
            off = float(10**rng.uniform(-3, .6)) * rng.choice([-1, 1])
            v["log_R"] += off
        if r > .85:
            v["mass"] *= float(rng.uniform(.6, 1.5))
            v["he_core_mass"] = min(v["he_core_mass"], v["mass"])
        rot = rotation(rng, v["mass"], v["log_R"])
        stars[k] = star_of(v, **rot[0])
        info[k] = dict(h=h, m0=m0, t=t, v=v, off=off, exact=r <= .6, rot=rot,
                       state=stars[k].state)
    b = BinaryStar(*stars, state="detached", event=None, time=1e6,
                   separation=1e4, orbital_period=1e4, eccentricity=0.,
                   properties=props())
    if comp == "none":
        b.state = ["disrupted", "merged"][int(rng.integers(0, 2))]
    ph = [i and phase(i["state"]) for i in info]
    c.note(info=[i and {k: i[k] for k in ("h", "m0", "t", "off", "state")}
                 for i in info], comp=comp, pos=pos, tol=tol,
           masses=[s.mass for s in stars])
    co_before = {k: dict(mass=s.mass, state=s.state, spin=s.spin)
                 for k, s in enumerate((b.star_1, b.star_2))
                 if info[k] is None}
    n0 = len(b.event_history)
    b.step_names = []
    # brute-force bound: is there any acceptable point on the tracks?
    dense, fail = [None, None], None
    try:
        with vk.quiet():
            p, s, only = tm.do_matching(b)
    except NumericalError:
        c.count("refused for numerical reasons")
        c.stop()
    except MatchingError:
        fail = True
    if fail:
        c.expect(b.state == "ERR" and b.event == "FAILED",
                 "unmatched binary is marked as failed", s=b.state)
        exact = all(i is None or i["exact"] for i in info)
        c.count("refused" + (" although on track" if exact else ""))
        c.seen("refused", tuple(ph))
        c.stop()
    q = (b.star_1, b.star_2)
    # roles
    hs = [i["state"].startswith(("H-rich", "accreted_He")) if i else None
          for i in info]
    if comp == "star":
        want_p = 0 if hs[0] == hs[1] else (0 if not hs[0] else 1)
    else:
        want_p = 1 - pos
    c.expect(p is q[want_p] and s is q[1 - want_p], "which star is primary",
             states=[x.state for x in stars], want=want_p)
    c.expect(not only, "one evolving star")
    for k in (0, 1):
        if info[k] is None:
            c.expect(q[k].mass == co_before[k]["mass"]
                     and (q[k].spin == co_before[k]["spin"]
                          or co_before[k]["state"] == "massless_remnant"),
                     "the non-evolving object is not changed",
                     mass=q[k].mass)
            r = q[k].interp1d(1e6)
            c.expect(r["mass"] == co_before[k]["mass"] and r["mdot"] == 0
                     and r["R"] == 0 and r["Idot"] == 0,
                     "the non-evolving object stays as it is")
            continue
        i = info[k]
        m0, t0 = q[k].interp1d.m0, q[k].interp1d.t0
        h = q[k].htrack
        lists = LISTS[ph[k]]
        g = G[bool(h)]
        vals = {a: np.interp(t0, g.ages(m0), g.get(a, m0))
                for a in ("mass", "center_h1", "center_he4", "log_R",
                          "he_core_mass")}
        cand = []
        if bool(h) == hs[k]:
            cand += [dist(a, bool(h), vals, i["v"]) for a in lists[:2]]
        elif lists[2] is not None:
            cand.append(dist(lists[2], bool(h), vals, i["v"]))
        cand = [float(x) for x in cand if np.isfinite(x)]
        c.expect(cand and min(cand) <= tol[1] * 1.001,
                 "the accepted track point is within the hard tolerance",
                 d=cand, phase=ph[k], h=h)
        if i["exact"] and bool(h) == hs[k]:
            c.count("on track")
            if min(cand or [9]) <= tol[0]:
                c.count("on track within tolerance")
        check_track(c, q[k], bool(h), m0, t0, "")
        c.close(q[k].omega0, i["rot"][1], "rotation rate handed on ("
                + i["rot"][2] + ")", 1e-4)
    if rec:
        ev = "Match12" if comp == "star" else "Match%d" % (pos + 1)
        c.expect(b.event == ev and len(b.event_history) == n0 + 1
                 and b.event_history[-1] == ev, "the match is recorded",
                 ev=b.event, want=ev)
    else:
        c.expect(len(b.event_history) == n0 and b.event is None,
                 "nothing recorded", ev=b.event)
    # the end of the tracks belongs to the matched track
    one = s
    with vk.quiet():
        tm.get_star_final_values(one)
        tm.get_star_profile(one)
    c.close(one.m_core_CE_1cent, 1000. + one.interp1d.m0,
            "final values of the matched track", 1e-12)
    c.close(one.profile["mass"][0], one.interp1d.m0,
            "profile of the matched track", 1e-9)
    c.expect(np.all(one.profile["omega"] == one.surf_avg_omega)
             or one.surf_avg_omega is None, "rotation of the profile")
    c.count("matched")
    c.seen("matched", comp, pos, tuple(ph))


@ck.family("hopeless", quick=60, thorough=900)
def hopeless(rng, c):
    """No point of any track is acceptable: the match must be refused."""
    tol = [1e-1, 1e-2, 1e-3][c.index % 3]
    tm = matcher(matching_tolerance=tol / 10, matching_tolerance_hard=tol)
    h = bool(rng.uniform() < .6)
    m0 = float(10**rng.uniform(.5, 1.6))
    x = float(rng.choice([rng.uniform(.05, .75), rng.uniform(.82, .9)]))
    t, v = on_track(rng, h, m0, x)
    how = int(rng.integers(0, 3))
    if how == 0:
        v["log_R"] += float(rng.uniform(3, 9)) * rng.choice([-1, 1])
        v["he_core_mass"] *= float(rng.uniform(2.5, 6))
    elif how == 1:
        v["mass"] *= float(rng.uniform(3, 9))
        v["he_core_mass"] += 60
    else:
        v["mass"] *= .1
        v["he_core_mass"] = 40.
    st = star_of(v)
    ph = phase(st.state)
    lists = LISTS[ph]
    hh = st.state.startswith(("H-rich", "accreted_He"))
    best = np.inf
    for a, gh in ((lists[0], hh), (lists[1], hh), (lists[2], not hh)):
        if a is None:
            continue
        g = G[gh]
        for m in np.geomspace(g.grid_mass.min(), g.grid_mass.max(), 260):
            tt = np.linspace(0, g.lifetime(m), 260)
            vals = {k: np.interp(tt, g.ages(m), g.get(k, m)) for k in a}
            best = min(best, float(np.nanmin(dist(a, gh, vals, v))))
    if best < 2 * tol + .02:
        c.stop()
    co = SingleStar(state="BH", mass=9., metallicity=1.0)
    b = BinaryStar(st, co, state="detached", event=None, time=1e6,
                   separation=1e4, orbital_period=1e4, eccentricity=0.,
                   properties=props())
    c.note(v=v, best=best, tol=tol, phase=ph)
    with vk.quiet():
        c.raises((MatchingError, NumericalError), lambda: tm.do_matching(b),
                 "a star unlike every track is refused")
    c.count("hopeless")
    c.seen("hopeless", ph, how)


@ck.family("root", quick=50, thorough=700)
def root(rng, c):
    tm = matcher(matching_method="root")
    # (helium stars have equal mass and core mass: no root to find)
    h = True
    m0 = float(10**rng.uniform(.3, 1.6))
    # (beyond the main sequence the solver itself may stop off the root)
    x = float(rng.uniform(.05, .75))
    t, v = on_track(rng, h, m0, x)
    st = star_of(v)
    ph = phase(st.state)
    co = SingleStar(state="NS", mass=1.4, metallicity=1.0)
    b = BinaryStar(co, st, state="detached", event=None, time=1e6,
                   separation=1e4, orbital_period=1e4, eccentricity=0.,
                   properties=props())
    c.note(h=h, m0=m0, x=x, ph=ph)
    try:
        with vk.quiet():
            tm.do_matching(b)
    except MatchingError:
        c.count("root refused")
        c.expect(b.state == "ERR" and b.event == "FAILED",
                 "refused binary is marked as failed")
        c.stop()
    s = b.star_2
    c.expect(s.interp1d.t0 >= 0, "no negative age")
    k = "center_h1" if ph == "HMS" else "he_core_mass"
    c.close(s.mass, v["mass"], "mass solved by the root", 1e-4)
    c.close(getattr(s, k), v[k], k + " solved by the root", 1e-4, 1e-6)
    check_track(c, s, h, s.interp1d.m0, s.interp1d.t0, " (root)")
    c.count("root matched")
    c.seen("root", ph, h)


@ck.family("special", quick=12, thorough=12)
def special(rng, c):
    """Pairs with nothing to match."""
    tm = matcher()
    i = c.index
    co = lambda: SingleStar(state=["BH", "NS", "WD"][i % 3],
                            mass=[9., 1.4, .7][i % 3], metallicity=1.0)
    none = lambda: SingleStar(state="massless_remnant", mass=0.,
                              metallicity=1.0)
    pair = [(co(), none()), (none(), co()), (none(), none()),
            (co(), co())][i // 3]
    b = BinaryStar(*pair, state="disrupted", event=None, time=1e6,
                   separation=np.nan, orbital_period=np.nan,
                   eccentricity=np.nan, properties=props())
    with vk.quiet():
        if i // 3 == 2:
            c.raises(POSYDONError, lambda: tm.do_matching(b),
                     "no object to evolve is refused")
        elif i // 3 < 2:
            p, s, only = tm.determine_star_states(b)
            c.expect(only and s is (b.star_1 if i // 3 == 0 else b.star_2),
                     "a lone compact object does not evolve")
        else:
            p, s, only = tm.determine_star_states(b)
            c.expect(p is b.star_1 and s is b.star_2 and p.co and s.co,
                     "two compact objects keep their order")
    c.seen(i)


ck.require("births", 20)
ck.require("matched", 40)
ck.require("on track within tolerance", 30)
ck.require("hopeless", 10)
ck.require("root matched", 10)

if __name__ == "__main__":
    sys.exit(ck.main())
