"""C17: detached orbital evolution."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import numpy as np
import types
import phys
import dt
import wind
import toygrid
from posydon.binary_evol.DT.step_detached import (detached_evolution,
                                                  detached_step)
from posydon.binary_evol.track_match import TrackMatcher
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.simulationproperties import SimulationProperties

ck = vk.Check("C17", "derivatives of the orbit and the spins at random and "
              "hostile stellar structures (zero spin, zero/NaN envelope, "
              "massless winds, all braking laws, single processes and sums, "
              "stars exchanged) against independent formulas; complete "
              "detached steps on analytic tracks against an independent "
              "integration, monitored at Roche-lobe contact, end of life and "
              "maximum time; non-trivial by (process, law, regime, outcome)")

MODES = ["RVJ83", "M15", "G18", "CARB"]
FLAGS = ["tides", "gr", "mb", "winds", "spin"]
KW = {"tides": "do_tides", "gr": "do_gravitational_radiation",
      "mb": "do_magnetic_braking", "winds": "do_wind_loss",
      "spin": "do_stellar_evolution_and_spin_from_winds"}


class Track:
    def __init__(self, d):
        self.d = d
        self.keys = list(d)
        self.offset = 0

    def __call__(self, t):
        return dict(self.d)


def structure(rng, low=False):
    m = float(10**rng.uniform(-.3, 1.8)) if not low else \
        float(rng.choice([rng.uniform(.5, 1.3), rng.uniform(1.3, 1.5),
                          rng.uniform(1.5, 1.7), 1.3, 1.5]))
    R = float(10**rng.uniform(-.5, 2))
    core = rng.uniform()
    top = R * rng.uniform(.05, .6)
    bot = 0.0
    if core < .12:
        top, bot = R * 1.3, 0.0
    elif core < .24:
        bot = top + R * rng.uniform(0, .2)
    elif core < .36:
        bot = R * rng.uniform(.1001, .2)
        top = bot + R * .3
    elif core < .45:
        top = bot = 0.0
    elif core < .6:
        bot = R * rng.uniform(0, .0999)
        top = bot + R * rng.uniform(.1, .5)
    d = dict(mass=m, R=R, L=float(10**rng.uniform(-1, 6)),
             inertia=float(m * R * R * rng.uniform(.01, .2)),
             Idot=float(m * R * R * rng.normal() * 10**rng.uniform(-10, -3)),
             mdot=float(-10**rng.uniform(-14, -4)),
             mass_conv_reg_fortides=m * float(rng.uniform(1e-4, .5)),
             thickness_conv_reg_fortides=R * float(rng.uniform(.01, .5)),
             radius_conv_reg_fortides=R * float(rng.uniform(.3, 1)),
             conv_mx1_top_r=float(top), conv_mx1_bot_r=float(bot),
             surface_h1=float(rng.choice([.7, .401, .399, .1, 0.])),
             conv_env_turnover_time_l_b=float(10**rng.uniform(-3, .5)))
    for k in ("mass_conv_reg_fortides", "thickness_conv_reg_fortides",
              "radius_conv_reg_fortides"):
        if rng.uniform() < .07:
            d[k] = [0.0, np.nan][int(rng.integers(0, 2))]
    if rng.uniform() < .1:
        d["mdot"] = 0.0
    if rng.uniform() < .1:
        d["Idot"] = 0.0
    return d


def spin(rng, d):
    crit = np.sqrt(dt.GSOL * d["mass"] / d["R"]**3)
    r = rng.uniform()
    if r < .08:
        return 0.0
    return float(crit * 10**rng.uniform(-4, 0))


def evo(flags, mode):
    return detached_evolution(magnetic_braking_mode=mode,
                              **{KW[k]: flags[k] for k in FLAGS})


def call(flags, mode, pri, sec, a, e):
    ev = evo(flags, mode)
    P = types.SimpleNamespace(interp1d=Track({k: v for k, v in pri.items()
                                              if k != "omega"}))
    S = types.SimpleNamespace(interp1d=Track({k: v for k, v in sec.items()
                                              if k != "omega"}))
    ev.set_stars(P, S, 0.0)
    with vk.quiet(), np.errstate(all="ignore"):
        return np.array(ev(0.0, [a, e, sec["omega"], pri["omega"]]), float)


@ck.family("rhs", quick=2600, thorough=40000)
def rhs(rng, c):
    i = c.index
    # single processes first, then random sets
    which = i % 9
    flags = dict.fromkeys(FLAGS, False)
    mode = MODES[int(rng.integers(0, 4))]
    low = rng.uniform() < .3
    if which < 4:
        flags["mb"] = True
        mode = MODES[which]
        low = True
    elif which < 8:
        flags[["tides", "gr", "winds", "spin"][which - 4]] = True
    else:
        for k in FLAGS:
            flags[k] = bool(rng.uniform() < .6)
    pri, sec = structure(rng, low), structure(rng, low)
    pri["omega"], sec["omega"] = spin(rng, pri), spin(rng, sec)
    a = float((pri["R"] + sec["R"]) * 10**rng.uniform(.1, 2.5))
    if flags["gr"] and rng.uniform() < .4:
        # relativistic regime: the 3.5PN terms matter
        a = float(10**rng.uniform(-3.8, -1))
    e = float(rng.choice([0.0, rng.uniform(0, .95), rng.uniform(.0011, .1),
                          5e-4]))
    got = call(flags, mode, pri, sec, a, e)
    ee = 0.0 if e < 1e-3 else e
    want, sc = dt.rhs(pri, sec, a, ee, flags, mode)
    c.note(flags=flags, mode=mode, a=a, e=e, pri=pri, sec=sec)
    names = ["separation", "eccentricity", "secondary spin", "primary spin"]
    # rounding of the AU (1e-5) is amplified next to a tidal resonance
    tol = 2e-4 if flags["tides"] else 2e-5
    for k in range(4):
        c.expect(np.isfinite(got[k]), "derivative finite: " + names[k])
        c.expect(abs(got[k] - want[k]) <= tol * sc[k] + 1e-300,
                 "rate of change of the " + names[k], got=got[k],
                 want=want[k], scale=sc[k], flags=flags, mode=mode)
    # exchange of the stars
    ex = call(flags, mode, sec, pri, a, e)
    c.close(ex, got[[0, 1, 3, 2]], "exchanging the stars exchanges the spins",
            rtol=1e-9, atol=1e-300)
    c.seen(which if which < 8 else tuple(flags.values()),
           mode if flags["mb"] else "", e == 0, ee == 0 and e > 0,
           tuple(np.sign(got).astype(int)))


# ---------------------------------------------------------------------------
_TM = {}


def matcher():
    if "tm" not in _TM:
        _TM["H"] = toygrid.ToyGrid(True, n=1500)
        _TM["He"] = toygrid.ToyGrid(False, .5, 80., n=1500)
        _TM["tm"] = TrackMatcher(grid_Hrich=_TM["H"],
                                 grid_strippedHe=_TM["He"], metallicity=1.0,
                                 matching_method="minimize")
    return _TM["tm"]


class Flow(dict):
    def get(self, k, d=None):
        return "step_detached"


FINAL = ("avg_c_in_c_core_at_He_depletion", "co_core_mass_at_He_depletion")

PROPS = SimulationProperties()
PROPS.flow = Flow()


def make(rng, tmax=1.38e10, rlo_ok=True):
    p = SimulationProperties()
    p.flow = Flow()
    p.max_simulation_time = tmax
    if rlo_ok:
        p.all_step_names = p.all_step_names + ["step_HMS_HMS_RLO"]
    return p


def star_at(grid, m0, t, w=None, **kw):
    v = {k: float(x[0]) for k, x in grid.values(m0, np.array([t])).items()}
    s = SingleStar(state="H-rich_Core_H_burning", metallicity=1.0,
                   mass=v["mass"])
    return s, v


def integrate(tracks, a, e, w, flags, mode, t0, t1):
    """Independent integration up to t1 (no events)."""
    from scipy.integrate import solve_ivp
    (gp, mp, op), (gs, ms, os_) = tracks
    from scipy.interpolate import PchipInterpolator
    keys = ["mass", "mdot", "inertia", "conv_mx1_top_r", "conv_mx1_bot_r",
            "surface_h1", "mass_conv_reg_fortides",
            "thickness_conv_reg_fortides", "radius_conv_reg_fortides",
            "log_L", "log_R", "conv_env_turnover_time_l_b"]
    u = phys.MSUN * phys.RSUN**2

    def table(g, m):
        T = np.linspace(0, g.lifetime(m), 1500)
        v = g.values(m, T)
        f = PchipInterpolator(T, np.array([v[k] for k in keys]).T)
        return f, PchipInterpolator(T, v["inertia"] / u).derivative(), T[-1]

    tab = [table(gp, mp), table(gs, ms)]

    def st(k, off, t, w):
        f, dI, tl = tab[k]
        tt = min(max(t - off, 0), tl)
        v = dict(zip(keys, f(tt)))
        v["Idot"] = float(dI(tt))
        v["inertia"] /= u
        v["L"], v["R"] = 10**v["log_L"], 10**v["log_R"]
        v["conv_env_turnover_time_l_b"] /= phys.SECYR
        v["omega"] = max(w, 0)
        return v

    def f(t, y):
        P, S = st(0, op, t, y[3]), st(1, os_, t, y[2])
        ee = 0.0 if y[1] < 1e-3 else y[1]
        return dt.rhs(P, S, max(y[0], 1e-3), ee, flags, mode)[0]
    r = solve_ivp(f, (t0, t1), [a, e] + list(w), method="Radau", rtol=1e-5,
                  atol=[1e-6, 1e-8, 1e-8, 1e-8])
    return r.y[:, -1]


TRACK = ["mass", "log_R", "log_L", "c_core_radius", "center_h1",
         "center_he4", "center_n14", "center_o16", "surface_h1",
         "surface_he4", "surface_n14", "surface_o16", "log_LZ", "log_Lnuc",
         "c12_c12", "center_gamma", "avg_c_in_c_core", "conv_env_top_mass",
         "conv_env_bot_mass", "conv_env_top_radius", "conv_env_bot_radius",
         "conv_env_turnover_time_g", "conv_env_turnover_time_l_b",
         "conv_env_turnover_time_l_t", "envelope_binding_energy",
         "mass_conv_reg_fortides", "thickness_conv_reg_fortides",
         "radius_conv_reg_fortides", "lambda_CE_1cent", "lambda_CE_10cent",
         "lambda_CE_30cent", "lambda_CE_pure_He_star_10cent",
         "total_mass_h1", "total_mass_he4"]
SHARP = ["he_core_mass", "co_core_mass", "c_core_mass", "o_core_mass",
         "log_LH", "log_LHe", "center_c12"]      # with a jump or a kink


def ref_state(r):
    env = "H-rich" if r["surface_h1"] > .01 else (
        "accreted_He" if round(r["surface_h1"], 10) < round(r["center_h1"],
                                                            10)
        else "stripped_He")

    def on(k):
        return r[k] > -10 and 10**(r[k] - r["log_Lnuc"]) > .03
    if r["center_h1"] > .01:
        core = "Core_H_burning" if on("log_LH") else "non_burning"
    elif r["center_he4"] > .01:
        core = "Core_He_burning" if on("log_LHe") else (
            "Shell_H_burning" if on("log_LH") else "non_burning")
    else:
        core = "Core_He_depleted" if r["center_c12"] > .01 else \
            "Core_C_depleted"
    return env + "_" + core


def records(c, b, k, grid, m0, t0, n0, T, at_cc):
    """everything a step records about star k that follows its track"""
    s = (b.star_1, b.star_2)[k]
    n = len(T)
    age = np.asarray(T) - t0
    true = grid.values(m0, age)
    x = age / grid.lifetime(m0)

    def col(key):
        return np.array([np.nan if v is None else v for v in
                         getattr(s, key + "_history")[n0:]
                         + [getattr(s, key)]], float)
    rec = {key: col(key) for key in TRACK + SHARP}
    ok = np.ones(n, bool)
    if at_cc:
        ok[-1] = False            # replaced by the final values of the track
    for key in TRACK:
        c.close(rec[key][ok], (np.asarray(true[key]) + 0 * x)[ok],
                "recorded quantities on the track", rtol=3e-3,
                atol=3e-3 * np.max(np.abs(true[key])), key=key, star=k + 1)
    sharp = ok & (np.abs(x - .8) > .004) & (np.abs(x - .9) > .004) & (
        x < .993)
    for key in SHARP:
        c.close(rec[key][sharp], (np.asarray(true[key]) + 0 * x)[sharp],
                "recorded quantities on the track", rtol=5e-3, atol=5e-3,
                key=key, star=k + 1)
    # rotation: consistent with the recorded spin frequency
    w, I = col("surf_avg_omega"), col("total_moment_of_inertia")
    c.close(I, np.asarray(true["inertia"]) + 0 * x, "moment of inertia on the "
            "track", rtol=5e-3)
    M, R = rec["mass"] * phys.MSUN, 10**rec["log_R"] * phys.RSUN
    c.expect(np.all(w >= 0), "spin frequency not negative", w=w)
    c.close(col("surf_avg_omega_div_omega_crit")[ok],
            (w / np.sqrt(phys.G * M / R**3))[ok],
            "fraction of the critical rotation", rtol=2e-3, atol=1e-30)
    J = w * I
    c.close(col("log_total_angular_momentum")[ok],
            np.where(J > 0, np.log10(np.where(J > 0, J, 1.)), -99.)[ok],
            "angular momentum of the star", rtol=1e-9, atol=1e-6)
    c.close(col("spin")[ok], (phys.C * J / (phys.G * M**2))[ok],
            "dimensionless spin of the star", rtol=2e-3, atol=1e-30)
    md = np.abs(np.asarray(true["mdot"]) + 0 * x)
    far = ok & (x > .05)
    for key in ("lg_mdot", "lg_wind_mdot"):
        c.close(col(key)[far], np.log10(md[far]), "mass-loss rate on the "
                "track", atol=.01)
    st = list(s.state_history[n0:]) + [s.state]
    for i in range(n - (1 if at_cc else 0)):
        r = {key: rec[key][i] for key in rec}
        c.expect(st[i] == ref_state(r), "recorded state is the state of the "
                 "recorded structure", got=st[i], want=ref_state(r), i=i,
                 star=k + 1)
        c.count("rows checked")
    if at_cc:
        fv = {key: getattr(s, key, None) for key in FINAL}
        c.expect(all(fv[key] == grid.get_final_values("S1_" + key, m0)
                     or abs(fv[key] / grid.get_final_values(
                         "S1_" + key, m0) - 1) < 2e-3 for key in FINAL),
                 "the collapsing star has the final values of its track",
                 got=fv, m0=m0)
        p = s.profile
        c.expect(p is not None and abs(np.max(p["mass"]) / m0 - 1) < 2e-3
                 and np.all(p["omega"] == s.surf_avg_omega),
                 "the collapsing star has the final profile of its track")
        c.count("collapse recorded")
    return w, I


@ck.family("step", quick=96, thorough=1500)
def step(rng, c):
    """Two stars from the zero-age main sequence through the real step."""
    tm = matcher()
    H = _TM["H"]
    m1 = float(10**rng.uniform(0, 1.7))
    m2 = float(m1 * rng.uniform(.3, .99)) if rng.uniform() < .9 else m1
    m2 = max(m2, .6)
    e = float(rng.choice([0, rng.uniform(0, .7)]))
    swap = rng.uniform() < .5
    if swap:
        m1, m2 = m2, m1
    big = max(m1, m2)
    rmax = 10**(np.log10(big) * .65 + 2.15)
    a = float(rmax * 10**rng.uniform(-1.2, .9)) / (1 - e)
    tmax = 1.38e10
    if rng.uniform() < .2:
        tmax = float(H.lifetime(big) * rng.uniform(.3, .99))
    flags = {k: bool(rng.uniform() < .75) for k in FLAGS}
    mode = MODES[int(rng.integers(0, 4))]
    sam = bool(rng.integers(0, 2))
    hist = [dict(), dict(n_o_steps_history=int(rng.integers(2, 30))),
            dict(dt=float(10**rng.uniform(5, 8)))][int(rng.integers(0, 3))]
    if "dt" in hist:
        hist["dt"] = max(hist["dt"], H.lifetime(big) / 400)
    ds = detached_step(track_matcher=tm, metallicity=1.0,
                       magnetic_braking_mode=mode,
                       RLO_orbit_at_orbit_with_same_am=sam, **hist,
                       **{KW[k]: flags[k] for k in FLAGS})
    p = make(rng, tmax)
    w0 = float(rng.uniform(0, .3)) if rng.uniform() < .7 else None
    stars = []
    for m in (m1, m2):
        v = {k: float(x[0]) for k, x in H.values(m, np.array([0.])).items()}
        crit = np.sqrt(phys.G * m * phys.MSUN
                       / (10**v["log_R"] * phys.RSUN)**3)
        kw = {}
        if w0:
            kw = dict(surf_avg_omega=w0 * crit,
                      surf_avg_omega_div_omega_crit=w0,
                      total_moment_of_inertia=v["inertia"],
                      log_total_angular_momentum=np.log10(
                          w0 * crit * v["inertia"]))
        stars.append(SingleStar(state="H-rich_Core_H_burning", mass=m,
                                metallicity=1.0, log_R=v["log_R"], **kw))
    b = BinaryStar(*stars, state="detached", event="ZAMS", time=0.0,
                   separation=a, eccentricity=e, properties=p,
                   orbital_period=phys.kepler_P(a, m1, m2))
    c.note(m1=m1, m2=m2, a=a, e=e, tmax=tmax, flags=flags, mode=mode, w0=w0,
           hist=hist, sam=sam)
    n0 = len(b.time_history)
    with vk.quiet(), np.errstate(all="ignore"):
        ds(b)
    rl = [phys.eggleton(x, y, a * (1 - e)) for x, y in ((m1, m2), (m2, m1))]
    r0 = [10**s.log_R for s in stars]
    if any(r >= .95 * x * 1.001 for r, x in zip(r0, rl)):
        c.expect(b.state == "initial_RLOF", "overfilling at birth",
                 state=b.state)
        c.seen("initial RLOF")
        c.stop()
    if any(r >= .95 * x * .999 for r, x in zip(r0, rl)):
        c.stop()
    # final masses from the true tracks
    t1 = b.time
    v = [{k: float(x[0]) for k, x in H.values(m, np.array([t1])).items()}
         for m in (m1, m2)]
    c.close(b.star_1.mass, v[0]["mass"], "mass of star 1 on its track", 1e-3)
    c.close(b.star_2.mass, v[1]["mass"], "mass of star 2 on its track", 1e-3)
    c.close(10**b.star_1.log_R, 10**v[0]["log_R"],
            "radius of star 1 on its track", 2e-2)
    c.expect(0 < t1 <= min(tmax, min(H.lifetime(m1), H.lifetime(m2)))
             * (1 + 1e-9), "time within the lives and the limit", t=t1)
    try:
        y = integrate(((H, m1, 0.), (H, m2, 0.)), a, e,
                      [w0 * np.sqrt(dt.GSOL * m / r**3) if w0 else 0.
                       for m, r in ((m2, r0[1]), (m1, r0[0]))],
                      flags, mode, 0.0, t1)
    except ValueError:              # the reference integration has no answer
        c.count("no reference integration")
        c.stop()
    af, ef = y[0], max(y[1], 0)
    # a, e immediately before the event
    rlo = b.event in ("oRLO1", "oRLO2")
    got_a, got_e = b.separation, b.eccentricity
    if rlo:
        c.expect(got_e == 0, "circular at the onset of Roche-lobe overflow")
        got_a = got_a / ((1 - ef**2) if sam else (1 - ef))
        c.expect(b.state == "RLO" + b.event[-1], "state names the donor",
                 state=b.state, event=b.event)
    else:
        c.close(got_e, ef, "eccentricity against an independent integration",
                rtol=.01, atol=.003)
    c.close(got_a, af, "separation against an independent integration",
            rtol=.02)
    c.close(b.orbital_period, phys.kepler_P(b.separation, b.star_1.mass,
                                            b.star_2.mass),
            "period and separation obey Kepler", 1e-3)
    # outcome
    fill = []
    for k, o in ((0, 1), (1, 0)):
        RL = phys.eggleton(v[k]["mass"], v[o]["mass"], af * (1 - ef))
        fill.append(10**v[k]["log_R"] / (.95 * RL))
    if rlo:
        k = int(b.event[-1]) - 1
        c.close(fill[k], 1.0, "the named donor just fills 95% of its lobe",
                rtol=.06)
        c.expect(fill[1 - k] < 1.06, "the other star does not overfill")
    else:
        c.expect(max(fill) < 1.06, "no Roche-lobe overflow was missed",
                 fill=fill)
        life = [H.lifetime(m1), H.lifetime(m2)]
        if b.event in ("CC1", "CC2"):
            k = int(b.event[-1]) - 1
            c.close(t1, life[k], "collapse at the end of the track",
                    rtol=1e-6)
            c.expect(life[k] <= life[1 - k] * (1 + 1e-9),
                     "the first star to end its life collapses")
            c.expect(b.state == "detached", "still detached", state=b.state)
        else:
            c.expect(b.event == "maxtime", "event at the time limit",
                     event=b.event)
            c.close(t1, tmax, "stops exactly at the time limit", 1e-9)
    # histories
    T = np.array(b.time_history[n0:] + [b.time], float)
    S = np.array(b.separation_history[n0:] + [b.separation], float)
    c.expect(np.all(np.diff(T) > 0) or len(T) == 1,
             "recorded times increase", T=T[:10])
    lens = {len(b.time_history), len(b.separation_history),
            len(b.star_1.mass_history), len(b.star_2.mass_history),
            len(b.star_1.state_history), len(b.event_history)}
    c.expect(len(lens) == 1, "histories in lockstep", lens=lens)
    M1 = np.array(b.star_1.mass_history[n0:], float)
    if len(M1):
        tv = H.values(m1, T[:-1])["mass"]
        c.close(M1, tv, "recorded masses on the track", 2e-3)
        PH = np.array(b.orbital_period_history[n0:], float)
        M2 = np.array(b.star_2.mass_history[n0:], float)
        c.close(PH, phys.kepler_P(S[:-1], M1, M2),
                "recorded periods obey Kepler", 1e-3)
    spins = []
    for k, m in ((0, m1), (1, m2)):
        w, I = records(c, b, k, H, m, 0.0, n0, T, b.event == "CC%d" % (k + 1))
        spins.append(w[-1] * phys.SECYR)
        ov = np.array(getattr(b, "rl_relative_overflow_%d_history" % (k + 1))[
            n0:] + [getattr(b, "rl_relative_overflow_%d" % (k + 1))], float)
        E = np.array(b.eccentricity_history[n0:] + [b.eccentricity], float)
        q = [H.values(x, T) for x in ((m1, m2) if k == 0 else (m2, m1))]
        RL = phys.eggleton(q[0]["mass"], q[1]["mass"], S * (1 - E))
        if rlo:
            RL[-1] = phys.eggleton(q[0]["mass"][-1], q[1]["mass"][-1],
                                   af * (1 - ef))
        c.close(ov, 10**q[0]["log_R"] / RL - 1, "relative Roche-lobe overflow "
                "at periastron", rtol=.01, atol=.04)
    y_ = np.maximum([y[3], y[2]], 0)
    c.close(spins, y_, "spins against an independent integration", rtol=.06,
            atol=.02 * float(np.max([w0 or 0., 0.0])) * np.max(
                [np.sqrt(dt.GSOL * m / r**3) for m, r in ((m1, r0[0]),
                                                          (m2, r0[1]))])
            + 1e-3 * 2 * np.pi / (phys.kepler_P(af, v[0]["mass"],
                                                v[1]["mass"]) / 365.25))
    if "n_o_steps_history" in hist:
        c.expect(abs(len(T) - hist["n_o_steps_history"]) <= 1,
                 "number of recorded steps", n=len(T))
        c.close(T, t1 * np.arange(1, len(T) + 1) / len(T),
                "recorded steps equally spaced", rtol=1e-6)
    if "dt" in hist and len(T) > 2:
        c.close(np.diff(T)[:-1], hist["dt"] * np.ones(len(T) - 2),
                "recorded steps spaced by dt", rtol=1e-6)
    c.count("steps: " + str(b.event)[:4])
    c.seen(b.event, mode if flags["mb"] else "", tuple(flags.values()),
           tuple(hist), e > 0, swap)


@ck.family("compact", quick=60, thorough=900)
def compact(rng, c):
    """A compact object and a star: only the star evolves."""
    tm = matcher()
    H = _TM["H"]
    m = float(10**rng.uniform(0, 1.5))
    kind = ["BH", "NS", "WD"][int(rng.integers(0, 3))]
    mc = {"BH": float(rng.uniform(3, 30)), "NS": 1.4, "WD": .8}[kind]
    e = float(rng.choice([0, rng.uniform(0, .6)]))
    rmax = 10**(np.log10(m) * .65 + 2.15)
    a = float(rmax * 10**rng.uniform(-1., .9)) / (1 - e)
    first = bool(rng.integers(0, 2))
    flags = {k: bool(rng.uniform() < .7) for k in FLAGS}
    t0 = 1e6
    hist = [dict(), dict(n_o_steps_history=int(rng.integers(2, 12))),
            dict(dt=float(H.lifetime(m) * rng.uniform(.05, .4)))][
                int(rng.integers(0, 3))]
    u = float(rng.uniform(.02, .98))
    ds = detached_step(track_matcher=tm, metallicity=1.0,
                       RNG=wind.Fixed(u), **hist,
                       **{KW[k]: flags[k] for k in FLAGS})
    co = SingleStar(state=kind, mass=mc, metallicity=1.0, spin=.3)
    s = SingleStar(state="H-rich_Core_H_burning", mass=m, metallicity=1.0,
                   log_R=np.log10(m) * .65)
    pair = (co, s) if first else (s, co)
    b = BinaryStar(*pair, state="detached", event="redirect_from_ZAMS",
                   time=t0, separation=a, eccentricity=e,
                   properties=make(rng),
                   orbital_period=phys.kepler_P(a, m, mc))
    co, s = (b.star_1, b.star_2) if first else (b.star_2, b.star_1)
    c.note(m=m, mc=mc, kind=kind, a=a, e=e, first=first, flags=flags,
           hist=hist)
    n0 = len(b.time_history)
    with vk.quiet(), np.errstate(all="ignore"):
        ds(b)
    RL0 = phys.eggleton(m, mc, a * (1 - e))
    r0 = 10**(H.values(m, np.array([0.]))["log_R"][0])
    if r0 >= .95 * RL0 * .999:
        if r0 >= .95 * RL0 * 1.001:
            c.expect(b.state == "initial_RLOF", "overfilling at the start")
        c.stop()
    c.expect(co.mass == mc and co.state == kind,
             "the compact object does not change", mass=co.mass,
             state=co.state)
    c.expect(co.spin == .3, "the spin of the compact object is kept",
             spin=co.spin)
    v = {k: float(x[0]) for k, x in H.values(
        m, np.array([b.time - t0])).items()}
    c.close(s.mass, v["mass"], "the star follows its track", 1e-3)
    T = np.array(b.time_history[n0:] + [b.time], float)
    records(c, b, 1 if first else 0, H, m, t0, n0, T,
            str(b.event).startswith("CC"))
    N = len(T)
    c.expect(co.mass_history[n0:] == [mc] * (N - 1)
             and list(co.state_history[n0:]) == [kind] * (N - 1)
             and co.spin_history[n0:] == [.3] * (N - 1)
             and len(co.lg_mdot_history) == n0 + N - 1,
             "recorded compact object", mass=co.mass_history)
    if kind != "WD":                 # wind accretion of every recorded row
        rlo = str(b.event).startswith("oRLO")
        for i in range(N - (1 if rlo else 0)):
            row = {k: (getattr(s, k + "_history")[n0 + i] if i < N - 1 else
                       getattr(s, k)) for k in
                   ("mass", "log_R", "log_L", "surface_h1", "lg_wind_mdot")}
            orb = {k: (getattr(b, k + "_history")[n0 + i] if i < N - 1 else
                       getattr(b, k)) for k in ("separation",
                                                "eccentricity")}
            w_, rd, raw = wind.bondi(
                types.SimpleNamespace(**orb),
                types.SimpleNamespace(mass=mc), types.SimpleNamespace(**row),
                u, "Kudritzki+2000", True,
                wind.edd(kind, mc, row["surface_h1"])[0])
            if abs(np.log(rd)) < 1e-3:
                continue
            got = co.lg_mdot_history[n0 + i] if i < N - 1 else co.lg_mdot
            c.close(got, np.log10(w_), "rate accreted from the wind",
                    atol=2e-3, i=i, n=N)
            c.count("wind accretion rows")
    n = "2" if first else "1"
    R, RL = 10**v["log_R"], None
    if flags["tides"] or flags["gr"] or flags["mb"]:
        af = None
    else:
        # winds only: a (m1+m2) is conserved
        af = a * (m + mc) / (v["mass"] + mc) if flags["winds"] else a
    if b.event == "oRLO" + n:
        c.expect(b.eccentricity == 0, "circular at the onset of overflow")
        if af:
            c.close(b.separation, af * (1 - e), "separation at the onset",
                    rtol=.02)
        c.close(R, .95 * phys.eggleton(v["mass"], mc, b.separation),
                "the star just fills 95% of its lobe", rtol=.03)
    elif b.event == "CC" + n:
        c.close(b.time, t0 + H.lifetime(m), "collapse at the end of the "
                "track", 1e-6)
        if af:
            c.close(b.separation, af, "separation at the end", rtol=.02)
        c.expect(R < .95 * 1.05 * phys.eggleton(
            v["mass"], mc, b.separation * (1 - b.eccentricity)),
            "no overflow was missed")
    else:
        c.expect(b.event == "maxtime" and H.lifetime(m) + t0 > 1.38e10 * .99,
                 "outcome of a star with a compact companion",
                 event=b.event, state=b.state)
    c.seen(kind, b.event[:3], first, e > 0)


ck.require("monitor:exchanging the stars exchanges the spins", 100)
ck.require("steps: oRLO", 5)
ck.require("steps: CC1", 3)
ck.require("steps: CC2", 3)
ck.require("steps: maxt", 3)
ck.require("rows checked", 200)
ck.require("wind accretion rows", 60)
ck.require("collapse recorded", 5)

if __name__ == "__main__":
    sys.exit(ck.main())
