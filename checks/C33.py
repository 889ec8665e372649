"""C33  Grid steps put a binary onto the MESA run of its initial conditions."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import pickle
import shutil
import tempfile
import warnings
import numpy as np

vk.setup_env()
from posydon.binary_evol.MESA import step_mesa as SM
from posydon.binary_evol.binarystar import BinaryStar, BINARYPROPERTIES
from posydon.binary_evol.singlestar import SingleStar, STARPROPERTIES
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.grids.SN_MODELS import SN_MODELS
from posydon.utils import common_functions as cf
from posydon.utils.posydonerror import FlowError, GridError
import h5grid as hg
from h5grid import CLASSES, POST, SN_NUM
from phys import MSUN, RSUN
import h5grid
import types
import wind

C = vk.Check(
    "C33",
    "real grid steps on synthetic grids (random tracks, refused runs, all "
    "five grid types, either star as donor) with tracks kept or not, time "
    "limits within a track, points on and beyond the edges of the grid and "
    "recording interpolators; the binary is compared with the tables of the "
    "run an own search finds; signature = (step, mode, class, flipped)")

warnings.simplefilter("ignore")
MODELS = list(SN_MODELS)
HMS = ["H-rich_Core_H_burning", "H-rich_Shell_H_burning",
       "H-rich_Core_He_burning", "H-rich_Core_He_depleted",
       "H-rich_Core_C_burning", "accreted_He_Core_H_burning",
       "H-rich_non_burning", "accreted_He_non_burning"]
HE = ["accreted_He_Core_He_burning", "stripped_He_Core_He_burning",
      "stripped_He_Shell_He_burning", "stripped_He_Core_He_depleted",
      "stripped_He_non_burning", "H-rich_non_burning",
      "accreted_He_non_burning"]
ZAMS = ["H-rich_Core_H_burning"]
# step: (class, grid name, compact companion, helium star, companion in q,
#        donor states, companion states, event, event when swapped)
STEPS = {
    "HMS": (SM.MS_MS_step, "HMS_HMS", False, False, True, ZAMS, ZAMS, "ZAMS",
            "ZAMS"),
    "HMSRLO": (SM.HMS_HMS_RLO_step, "HMS_HMS_RLO", False, False, True, HMS,
               HMS, "oRLO1", None),
    "COHMS": (SM.CO_HMS_RLO_step, "CO_HMS_RLO", True, False, False, HMS, None,
              "oRLO1", "oRLO2"),
    "COHeRLO": (SM.CO_HeMS_RLO_step, "CO_HeMS_RLO", True, True, False, HE,
                None, "oRLO1", "oRLO2"),
    "COHe": (SM.CO_HeMS_step, "CO_HeMS", True, True, False, HE, None, None,
             None)}
NAMES = list(STEPS)
MAPS = {"separation": "binary_separation", "orbital_period": "period_days"}
BINKEYS = ["separation", "orbital_period", "rl_relative_overflow_1",
           "rl_relative_overflow_2", "lg_mtransfer_rate", "trap_radius",
           "acc_radius", "t_sync_rad_1", "t_sync_conv_1", "t_sync_rad_2",
           "t_sync_conv_2"]
RATES = {"lg_mdot": "lg_mstar_dot_%d", "lg_system_mdot": "lg_system_mdot_%d",
         "lg_wind_mdot": "lg_wind_mdot_%d"}


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c33-", dir=vk.scratch())
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def grid(rng, name, n=None, **kw):
    """random runs; the masses fit the kind of grid"""
    co, he, q = STEPS[name][2:5]
    runs = []
    n = int(rng.integers(8, 20)) if n is None else n
    for i in range(n):
        m1 = float(10 ** rng.uniform(.3, 2)) if not he else \
            float(10 ** rng.uniform(0, 1.7))
        m2 = float(10 ** rng.uniform(-.2, 1.6)) if co else \
            float(m1 * rng.uniform(max(.06, .55 / m1), .99))
        r = hg.R(rng, m1, m2, float(10 ** rng.uniform(-.5, 3)), he=he, co=co,
                 **kw)
        runs.append(r.supernovae(rng, MODELS))
    return runs


def refuse(rng, runs):
    """runs which did not converge"""
    for r in runs:
        if rng.random() < .2:
            r.cls = r.final["interpolation_class"] = "not_converged"
            r.blank = rng.random() < .5
    return runs


def box(runs):
    ok = [r for r in runs if not (r.cls == "not_converged"
                                  and getattr(r, "blank", False))]
    return [(min(v), max(v)) for v in zip(*[(r.m1, r.m2, r.P) for r in ok])]


def nearest(runs, name, m1, m2, P):
    """index of the nearest converged run, None when it is not clear"""
    q = STEPS[name][4]
    d = [np.inf if r.cls == "not_converged" else
         (np.log10(r.m1 / m1)) ** 2
         + ((r.m2 / r.m1 - m2 / m1) ** 2 if q else np.log10(r.m2 / m2) ** 2)
         + np.log10(r.P / P) ** 2 for r in runs]
    o = np.argsort(d)
    if len(o) > 1 and d[o[1]] - d[o[0]] < 1e-9:
        return None
    return int(o[0])


def make_step(rng, d, name, runs, **kw):
    hg.write(os.path.join(d, "1e+00_Zsun.h5"), runs)
    with vk.quiet():
        return STEPS[name][0](metallicity=1., grid_path=d,
                              RNG=wind.Fixed(.37), **kw)


class Flow(dict):
    pass


def binary(rng, name, m1, m2, P, t0=None, tmax=1e30, flip=False, ecc=0.,
           states=None, event=None, rows=0):
    """the grid's star 1 has m1; flip: it is star 2 of the binary"""
    _, _, co, he, q, s1, s2, e1, e2 = STEPS[name]
    props = SimulationProperties()
    props.max_simulation_time = tmax
    t0 = float(rng.choice([0., 10 ** rng.uniform(3, 7)])) if t0 is None \
        else t0
    a = str(rng.choice(s1)) if states is None else states[0]
    if states is not None:
        b = states[1]
    elif co:
        b = "WD" if m2 < 1.3 else "NS" if m2 < 2.5 else "BH"
    else:
        b = str(rng.choice(s2))
    st = []
    for m, s in ((m1, a), (m2, b)):
        k = {p: float(rng.normal()) for p in STARPROPERTIES
             if p not in ("state", "metallicity", "mass", "profile", "spin")}
        k.update(mass=float(m), state=s, metallicity=1.,
                 spin=float(rng.uniform(0, .9)), profile=None)
        st.append(k)
    ev = e1 if event is None else event
    if flip:
        st = st[::-1]
        ev = e2 if event is None else event
    stars = [SingleStar(**k) for k in st]
    b = BinaryStar(*stars, properties=props, time=t0, state="detached",
                   event=ev, separation=float(10 ** rng.uniform(0, 4)),
                   orbital_period=float(P), eccentricity=ecc,
                   V_sys=[1., -2., 3.], rl_relative_overflow_1=-.5,
                   rl_relative_overflow_2=-.5, lg_mtransfer_rate=-20.)
    for s, k in zip((b.star_1, b.star_2), st):
        for p, v in k.items():
            setattr(s, p, v)
        s.state_history = [k["state"]] * len(s.state_history)
        s.spin_history = [k["spin"]] * len(s.spin_history)
    b.event, b.event_history = ev, [ev] * len(b.event_history)
    return b


def spin_up(a, m0, m):
    return cf.spin_stable_mass_transfer(a, m0, m)       # C20


def log_R(m):
    st = cf.infer_star_state(star_mass=m, star_CO=True)  # C19
    return np.log10(cf.CO_radius(m, st))


def co_state(was, m):
    """a white dwarf remains one; neutron stars become black holes"""
    return "WD" if was == "WD" else "NS" if m <= 2.5 else "BH"


def odd(b, r, flip):
    """a neutron star or black hole on the run of a white dwarf"""
    return r.co and order(b, flip)[1].state != "WD" \
        and cf.infer_star_state(star_mass=r.bh["star_2_mass"][0],
                                star_CO=True) == "WD"


def eddington(m, X, st):
    """Msun/yr"""
    Gc, cl = 6.67428e-8, 2.99792458e10
    if st == "BH":
        eta = 1 - np.sqrt(8 / 9)
    else:
        R = 12.5e5 if st == "NS" else 2.9e8 * m ** (-1 / 3)
        eta = Gc * m * MSUN / (R * cl ** 2)
    return 4 * np.pi * Gc * m * MSUN / (.2 * (1 + X) * eta * cl) \
        / MSUN * 3.15576e7


def accreted(c, got, own, lim, b, don, m, p=None):
    """own transfer and wind, together within the Eddington limit"""
    def v(o, k):
        return getattr(o, k) if p is None else getattr(o, k + "_history")[p]
    orb = types.SimpleNamespace(separation=v(b, "separation"),
                                eccentricity=v(b, "eccentricity"))
    d = types.SimpleNamespace(**{k: v(don, k) for k in (
        "mass", "log_R", "log_L", "surface_h1", "lg_wind_mdot")})
    with np.errstate(all="ignore"):
        w, rd, raw = wind.bondi(orb, types.SimpleNamespace(mass=m), d, .37,
                                "Kudritzki+2000", True, lim)
    if not np.isfinite(w) or abs(np.log(rd)) < 1e-3:
        return
    T = 5772. * (10 ** d.log_L / 100 ** d.log_R) ** .25
    if min(abs(T / 1e4 - 1), abs(T / 2.1e4 - 1)) < 3e-3:
        return
    c.close(got, min(own + w, lim), "accretion of transferred mass and wind",
            rtol=6e-3, own=own, wind=w, lim=lim)
    c.count("accretion %s" % ("limited" if own + w > lim else "wind"
                              if w > .05 * own else "transfer"))


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.names or b.dtype.names:
        return a.shape == b.shape and a.dtype.names == b.dtype.names and \
            all(np.array_equal(a[k], b[k], equal_nan=True)
                for k in a.dtype.names)
    if a.shape != b.shape:
        return False
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    return bool(np.all((np.abs(a - b) <= 1e-9 * np.abs(b) + 1e-300)
                       | np.isnan(a)))


def star_truth(r, s, key, i, before):
    """value of a property of star s (1, 2 in the grid) at row i"""
    if s == 2 and r.co:
        if key == "mass":
            return r.bh["star_2_mass"][i]
        if key == "spin":
            m = r.bh["star_2_mass"]
            return spin_up(before["spin"], m[0], m[i])
        if key == "log_R":
            return log_R(r.bh["star_2_mass"][i])
        if key in ("lg_system_mdot", "lg_wind_mdot"):
            return r.bh[RATES[key] % s][i]
        return before[key]
    if key == "mass":
        return r.bh["star_%d_mass" % s][i]
    if key in RATES:
        return r.bh[RATES[key] % s][i]
    if key == "metallicity":
        return before[key]
    if key == "avg_c_in_c_core":
        return None
    if key == "spin":
        return r.h[s - 1]["spin_parameter"][i]
    return r.h[s - 1][key][i]


def at(r, f, t):
    """row function f at age t of the run"""
    age = r.bh["age"]
    i = int(np.where(age <= t)[0][-1])
    if i == len(age) - 1:
        return f(i)
    a, b = f(i), f(i + 1)
    if a is None or b is None:
        return None
    w = (t - age[i]) / (age[i + 1] - age[i])
    return a * (1 - w) + b * w


def values(star):
    return {k: getattr(star, k) for k in STARPROPERTIES}


def order(b, flip):
    return (b.star_2, b.star_1) if flip else (b.star_1, b.star_2)


SWAP = {"RLO1": "RLO2", "RLO2": "RLO1", "oRLO1": "oRLO2", "oRLO2": "oRLO1",
        "oCE1": "oCE2", "oCE2": "oCE1", "CC1": "CC2", "CC2": "CC1",
        "oDoubleCE1": "oDoubleCE2", "oDoubleCE2": "oDoubleCE1"}


def swapped(x, flip):
    return SWAP.get(x, x) if flip else x


def bkey(k, flip):
    """name of a property of the grid's binary in ours"""
    if flip and k[-2:] in ("_1", "_2"):
        return k[:-1] + {"1": "2", "2": "1"}[k[-1]]
    return k


def judge_end(c, b, r, flip, before, t0, age, name, cls_state=True):
    """the binary at age (None: at the end of the run)"""
    stars = order(b, flip)
    last = len(r.bh) - 1

    def val(f):
        return f(last) if age is None else at(r, f, age)
    for k in BINKEYS:
        w = val(lambda i: r.bh[MAPS.get(k, k)][i])
        g = b_get(b, k, flip)
        c.expect(same(g, w), "binary property of the run", which=k, got=g,
                 want=w)
    c.close(b.time, t0 + (r.bh["age"][-1] if age is None else age),
            "time goes on by the age of the run", rtol=1e-12)
    c.expect(b.eccentricity == before["ecc"] and b.V_sys == [1., -2., 3.],
             "eccentricity and velocity are kept", e=b.eccentricity,
             V=b.V_sys)
    for s in (1, 2):
        x = stars[s - 1]
        for k in STARPROPERTIES:
            if k in ("state", "profile") or (k == "lg_mdot" and s == 2
                                             and r.co):
                continue
            w = val(lambda i: star_truth(r, s, k, i, before[s]))
            if s == 2 and r.co and k not in (
                    "mass", "spin", "log_R", "lg_system_mdot",
                    "lg_wind_mdot"):
                w = before[s][k]
            c.expect(same(getattr(x, k), w), "property of star %d" % s,
                     which=k, got=getattr(x, k), want=w)
            c.count("values")
        if age is None:
            c.expect(same(x.profile, r.prof[s - 1] if not (s == 2 and r.co)
                          else before[s]["profile"]), "final profile", s=s)
        for k in POST:
            if s == 2 and r.co:
                continue
            c.expect(same(getattr(x, k), r.final["S%d_%s" % (s, k)]),
                     "value from the post-processing", which=k, s=s)
        for m in MODELS:
            if r.cls == "unstable_MT":
                continue
            g = getattr(x, m)
            row = r.sn[m]
            if (s == 2 and r.co) or row["S%d_CO_type" % s] == "None":
                c.expect(g is None, "no supernova", m=m, s=s, got=g)
                continue
            want = {"state": row["S%d_CO_type" % s],
                    "SN_type": row["S%d_SN_type" % s],
                    **{k: row["S%d_%s" % (s, k)] for k in SN_NUM}}
            c.expect(set(g) == set(want) and all(
                same(g[k], want[k]) for k in want),
                "supernova values of the star and model", m=m, s=s, got=g,
                want=want)
            c.count("supernovae")
    if r.co:
        x = stars[1]
        m = val(lambda i: r.bh["star_2_mass"][i])
        lim = eddington(m, val(lambda i: r.h[0]["surface_h1"][i]), x.state)
        own = 10 ** val(lambda i: r.bh["lg_mstar_dot_2"][i])
        g = 10 ** x.lg_mdot
        if age is None:
            c.expect(g <= lim * 1.002, "accretion within the Eddington limit",
                     got=g, lim=lim)
            if x.state == "WD":     # known finding of C20
                return
            c.expect(g >= min(own, lim) * .998,
                     "accretion at least that of the run", got=g, own=own)
            if r.bh["lg_wind_mdot_1"][-1] < -90:
                c.close(g, min(own, lim), "accretion without wind",
                        rtol=2e-3)
                c.count("limited", own > lim)
            accreted(c, g, own, lim, b, stars[0], m)


def b_get(b, k, flip, suffix=""):
    """property of the binary, from the view of the grid"""
    return getattr(b, bkey(k, flip) + suffix)


def judge_state(c, b, r, flip, limited, was):
    if flip:
        cf.flip_stars(b)        # C20
    co = (False, r.co)
    cls = None if limited else r.cls
    for s, x in enumerate((b.star_1, b.star_2)):
        want = co_state(was, x.mass) if co[s] else cf.check_state_of_star(x)
        c.expect(x.state == want, "state of the star", got=x.state, s=s + 1,
                 want=want)
    st, ev, case = cf.get_binary_state_and_event_and_mt_case(b, cls)  # C19
    c.expect(b.state == st, "state of the binary", got=b.state, want=st)
    if not limited:
        c.expect(b.event == ev, "event", got=b.event, want=ev, cls=r.cls)
    c.expect(b.mass_transfer_case == case, "case of mass transfer",
             got=b.mass_transfer_case, want=case)
    if flip:
        cf.flip_stars(b)


def judge_history(c, b, r, flip, before, t0, n0, n_rows, initial):
    """rows n0.. of the histories: the initial row, then rows of the track"""
    want = [0] * bool(initial) + list(range(n_rows))
    for k in BINARYPROPERTIES:
        h = getattr(b, k + "_history")
        c.expect(len(h) == n0 + len(want), "length of the history", which=k,
                 got=len(h), want=n0 + len(want))
    for x in (b.star_1, b.star_2):
        for k in STARPROPERTIES:
            h = getattr(x, k + "_history")
            c.expect(len(h) == n0 + len(want), "length of the history",
                     which=k, got=len(h), want=n0 + len(want))
    if b.time_history[:n0] != before["times"]:
        c.expect(False, "older rows are kept", got=b.time_history[:n0])
    stars = order(b, flip)
    for j, i in enumerate(want):
        p = n0 + j
        for k in BINKEYS:
            g = b_get(b, k, flip, "_history")[p]
            w = r.bh[MAPS.get(k, k)][i]
            c.expect(same(g, w), "row of the binary history", which=k, got=g,
                     want=w, row=i)
        c.close(b.time_history[p], t0 + r.bh["age"][i], "time of the row",
                rtol=1e-12)
        c.expect(b.eccentricity_history[p] == before["ecc"], "eccentricity")
        for s in (1, 2):
            x = stars[s - 1]
            for k in STARPROPERTIES:
                if k in ("state", "profile") or (
                        k == "lg_mdot" and s == 2 and r.co):
                    continue
                w = star_truth(r, s, k, i, before[s])
                g = getattr(x, k + "_history")[p]
                c.expect(same(g, w), "row of the history of star %d" % s,
                         which=k, got=g, want=w, row=i)
        if r.co:
            m = r.bh["star_2_mass"][i]
            lim = eddington(m, r.h[0]["surface_h1"][i],
                            stars[1].state_history[p])
            own = 10 ** r.bh["lg_mstar_dot_2"][i]
            g = 10 ** stars[1].lg_mdot_history[p]
            wd = stars[1].state_history[p] == "WD"     # known finding of C20
            c.expect((wd or min(own, lim) * .998 <= g) and g <= lim * 1.002,
                     "accretion history within the Eddington limit", got=g,
                     lim=lim, own=own, row=i)
            if r.bh["lg_wind_mdot_1"][i] < -90 and not wd:
                c.close(g, min(own, lim), "accretion without wind",
                        rtol=2e-3)
            if not wd:
                accreted(c, g, own, lim, b, stars[0], m, p)
        for s in (1, 2):
            x = stars[s - 1]
            w = co_state(before[2]["state"], x.mass_history[p]) \
                if s == 2 and r.co else cf.check_state_of_star(x, i=p)
            c.expect(x.state_history[p] == w, "state in the history",
                     got=x.state_history[p], want=w, row=i, s=s)
        c.count("rows")


def pick(rng, runs, name, B):
    """a point of the grid's box near a run"""
    for _ in range(50):
        r = runs[int(rng.integers(len(runs)))]
        m1, m2, P = [v * 10 ** rng.normal(0, rng.choice([0., .02, .2]))
                     for v in (r.m1, r.m2, r.P)]
        (a, b), (e, f), (g, h) = B
        if not (a <= m1 <= b and g <= P <= h):
            continue
        if STEPS[name][4]:
            q = m2 / m1
            qq = [x.m2 / x.m1 for x in runs]
            if not (max(.05, .5 / m1, min(qq), min(
                    x.m2 for x in runs) / m1) <= q <= max(qq)):
                continue
        elif not e <= m2 <= f:
            continue
        i = nearest(runs, name, m1, m2, P)
        if i is not None:
            return m1, m2, P, runs[i]
    return None


def remember(b, flip):
    s = order(b, flip)
    return {1: values(s[0]), 2: values(s[1]), "ecc": b.eccentricity,
            "times": list(b.time_history)}


@C.family("tracks", 150, 1500)
def tracks(rng, c):
    name = NAMES[c.index % 5]
    track, first = bool(rng.random() < .5), bool(rng.random() < .6)
    runs = refuse(rng, grid(rng, name))
    if all(r.cls == "not_converged" for r in runs):
        c.stop()
    end = str(rng.choice(["stop_at_max_time", "stop_at_end"]))
    with Dir() as d:
        S = make_step(rng, d, name, runs, track_interpolation=track,
                      save_initial_conditions=first, stop_method=end)
        for _ in range(3):
            p = pick(rng, runs, name, box(runs))
            if p is None:
                continue
            m1, m2, P, r = p
            flip = bool(rng.random() < .5) and STEPS[name][8] != STEPS[
                name][7] or (name in ("HMS", "COHe") and rng.random() < .5)
            if name == "HMSRLO":
                flip = False
            if name == "HMS" and m1 == m2:
                continue
            ecc = float(rng.uniform(0, .9)) if name == "HMS" else 0.
            t0 = float(rng.choice([0., 10 ** rng.uniform(3, 7)]))
            tmax = 1e30 if rng.random() < .8 else t0 + r.bh["age"][-1]
            b = binary(rng, name, m1, m2, P, t0=t0, flip=flip, ecc=ecc,
                       tmax=tmax)
            c.note(name=name, m1=m1, m2=m2, P=P, cls=r.cls, flip=flip,
                   track=track, first=first, end=end, tmax=tmax)
            if odd(b, r, flip):
                continue
            before = remember(b, flip)
            n0 = len(b.time_history)
            with vk.quiet():
                S(b)
            exact = tmax < 1e30
            judge_end(c, b, r, flip, before, t0, None, name)
            d0 = np.array(b.nearest_neighbour_distance)
            c.close(d0, [m1 - r.m1, m2 - r.m2, P - r.P],
                    "distance to the run", atol=1e-9)
            if exact:
                c.expect(b.event == "maxtime", "the time is up exactly",
                         got=b.event)
                c.count("exact")
            else:
                judge_state(c, b, r, flip, False, before[2]["state"])
            judge_history(c, b, r, flip, before, t0, n0,
                          len(r.bh) - 1 if track else 0, first)
            g = STEPS[name][1]
            c.expect(str(getattr(b, "interp_class_" + g)) == r.cls
                     and str(getattr(b, "mt_history_" + g))
                     == r.final["mt_history"], "class and history of mass "
                     "transfer of the run")
            c.seen("track", name, track, first, end, r.cls, flip, exact)


@C.family("limit", 120, 1200)
def limit(rng, c):
    """the time is up within the run"""
    name = NAMES[c.index % 5]
    track, first = bool(rng.random() < .5), bool(rng.random() < .6)
    runs = grid(rng, name)
    with Dir() as d:
        S = make_step(rng, d, name, runs, track_interpolation=track,
                      save_initial_conditions=first)
        for _ in range(3):
            p = pick(rng, runs, name, box(runs))
            if p is None:
                continue
            m1, m2, P, r = p
            flip = name != "HMSRLO" and bool(rng.random() < .5)
            if name == "HMS" and m1 == m2:
                continue
            t0 = float(rng.choice([0., 10 ** rng.uniform(3, 7)]))
            A = r.bh["age"]
            age = float(rng.uniform(A[0], A[-1])) if rng.random() < .8 else \
                float(A[int(rng.integers(0, len(A) - 1))])
            tmax = t0 + age
            if tmax >= t0 + A[-1] or tmax < t0 + A[0]:
                continue
            age_ = tmax - t0
            if np.any((np.abs(A - age_) < 1e-7 * (t0 + 1))
                      & (A != age_)):
                continue
            b = binary(rng, name, m1, m2, P, t0=t0, flip=flip, tmax=tmax)
            c.note(name=name, m1=m1, m2=m2, P=P, cls=r.cls, flip=flip,
                   track=track, first=first, t0=t0, age=age)
            if odd(b, r, flip):
                continue
            before = remember(b, flip)
            n0 = len(b.time_history)
            with vk.quiet():
                S(b)
            c.expect(b.event == "maxtime", "the time is up", got=b.event)
            c.expect(b.time == tmax, "exactly at the maximum time",
                     got=b.time, want=tmax)
            judge_limit(c, b, r, flip, before, t0, age_)
            judge_state(c, b, r, flip, True, before[2]["state"])
            k = int(np.sum(t0 + A <= tmax))
            judge_history(c, b, r, flip, before, t0, n0, k if track else 0,
                          first)
            c.count("limits")
            c.seen("limit", name, track, first, r.cls, flip, age in A)


def judge_limit(c, b, r, flip, before, t0, age):
    stars = order(b, flip)
    tol = 1e-6
    for k in BINKEYS:
        w = at(r, lambda i: r.bh[MAPS.get(k, k)][i], age)
        c.close(b_get(b, k, flip), w, "binary between two rows", rtol=tol,
                atol=1e-9, which=k)
    c.expect(b.eccentricity == before["ecc"], "eccentricity",
             got=b.eccentricity)
    c.close(np.array(b.V_sys, float), [1., -2., 3.], "velocity")
    for s in (1, 2):
        x = stars[s - 1]
        for k in STARPROPERTIES:
            if k in ("state", "profile") or (k == "lg_mdot" and s == 2
                                             and r.co):
                continue
            w = at(r, lambda i: star_truth(r, s, k, i, before[s]), age)
            g = getattr(x, k)
            if w is None:
                c.expect(g is None, "unknown", which=k, s=s, got=g)
                continue
            c.close(g, w, "star between two rows", rtol=tol,
                    atol=1e-9, which=k, s=s)
            c.count("values")
        c.expect(x.profile is None, "no profile between the rows", s=s)


@C.family("outside", 400, 4000)
def outside(rng, c):
    """edges of the grid"""
    name = NAMES[c.index % 5]
    runs = grid(rng, name, 6)
    with Dir() as d:
        S = make_step(rng, d, name, runs)
        (a, b_), (e, f), (g, h) = box(runs)
        Q = [r.m2 / r.m1 for r in runs]
        q = STEPS[name][4]
        for _ in range(6):
            flip = name != "HMSRLO" and bool(rng.random() < .5)
            place = [str(rng.choice(["in", "edge", "low", "high"],
                                    p=[.5, .2, .15, .15]))
                     for _ in range(3)]
            ecc = 0. if rng.random() < .8 or name == "HMS" else .3

            def coord(lo, hi, how):
                if how == "in":
                    return float(rng.uniform(lo, hi))
                if how == "edge":
                    return float(rng.choice([lo, hi]))
                if how == "low":
                    return float(lo * rng.choice([1 - 1e-9, .8]))
                return float(hi * rng.choice([1 + 1e-9, 1.2]))
            m1 = coord(a, b_, place[0])
            P = coord(g, h, place[2])
            if q:
                lo = max(.05, .5 / m1) if name == "HMS" else max(
                    min(Q), e / m1)
                hi = 1. if name == "HMS" else max(Q)
                if lo >= hi:
                    continue
                # rounding of m2 / m1
                k = coord(lo, hi, place[1])
                m2 = m1 * k
                if abs(m2 / m1 - lo) < 1e-12 or abs(m2 / m1 - hi) < 1e-12:
                    if not lo <= m2 / m1 <= hi or not (
                            lo <= 1 / (m1 / m2) <= hi):
                        continue
                if name == "HMS" and flip and m1 / m2 <= 1 + 1e-8:
                    continue
                if name == "HMS" and k >= 1.:
                    continue        # then the other one is the primary
                mass_ok = a <= m1 <= b_ and lo <= m2 / m1 <= hi
            else:
                m2 = coord(e, f, place[1])
                mass_ok = a <= m1 <= b_ and e <= m2 <= f
            per_ok = g <= P <= h
            t = binary(rng, name, m1, m2, P, flip=flip, ecc=ecc)
            ev = t.event
            c.note(name=name, m1=m1, m2=m2, P=P, flip=flip, ecc=ecc,
                   place=place, box=box(runs))
            if per_ok and not mass_ok:
                # note: masses outside count also for eccentric orbits
                with vk.quiet():
                    c.raises(GridError, lambda: S(t),
                             "masses outside while the period is inside")
                c.expect(t.state == "ERR" and t.event == "FAILED",
                         "marked as failed", s=t.state, e=t.event)
                what = "error"
            elif not per_ok or ecc > 0:
                if name == "HMSRLO" and not e <= m2 <= f:
                    continue
                snap = (values(t.star_1), values(t.star_2), t.time,
                        t.orbital_period, len(t.time_history))
                with vk.quiet():
                    S(t)
                c.expect(t.event == "redirect_from_" + {
                    "HMS": "ZAMS", "HMSRLO": "HMS_HMS_RLO",
                    "COHMS": "CO_HMS_RLO", "COHeRLO": "CO_HeMS_RLO",
                    "COHe": "CO_HeMS"}[name], "handed on", got=t.event)
                c.expect(t.state == "detached", "detached", got=t.state)
                now = (values(t.star_1), values(t.star_2), t.time,
                       t.orbital_period, len(t.time_history))
                c.expect(all(same(snap[i][k], now[i][k]) for i in (0, 1)
                             for k in snap[i]) and snap[2:] == now[2:],
                         "nothing else is changed")
                what = "redirect"
            else:
                with vk.quiet():
                    S(t)
                c.expect(t.event != ev or ev is None, "taken by the grid",
                         got=t.event)
                c.expect(t.time > 0 and "redirect" not in str(t.event),
                         "evolved", time=t.time, e=t.event)
                what = "inside"
            c.count(what)
            c.seen("out", name, what, flip, *place, ecc > 0)


@C.family("states", 300, 3000)
def states(rng, c):
    """other states and events are refused; depleted stars explode"""
    name = NAMES[c.index % 5]
    runs = hold(rng, name)
    S, rr = runs
    from posydon.binary_evol.flow_chart import STAR_STATES_ALL
    for _ in range(10):
        co, he, q, s1, s2, e1, e2 = STEPS[name][2:]
        pool = list(STAR_STATES_ALL) + s1 * 2 + ["NS", "BH", "WD"] * 2 + [
            "H-rich_Core_C_depleted", "stripped_He_Core_C_depleted"] * 2
        st = [str(rng.choice(pool)), str(rng.choice(pool))]
        if rng.random() < .5:
            st = [str(rng.choice(s1 + ["H-rich_Core_C_depleted",
                                       "stripped_He_Core_C_depleted"])),
                  str(rng.choice(["NS", "WD", "BH"] if co else s2))]
            if rng.random() < .5:
                st = st[::-1]
        ev = [None, "ZAMS", "oRLO1", "oRLO2", "CC1"][int(rng.integers(5))]
        if rng.random() < .5:
            ev = e1
        r = rr[int(rng.integers(len(rr)))]
        t = binary(rng, name, r.m1, r.m2, r.P, states=st, event=ev)
        t.event = ev
        dep = {"COHMS": "H-rich_Core_C_depleted",
               "HMSRLO": "H-rich_Core_C_depleted",
               "HMS": "H-rich_Core_C_depleted"}.get(
                   name, "stripped_He_Core_C_depleted")
        CO = ("WD", "NS", "BH")
        c.note(name=name, st=st, ev=ev)
        if name == "HMS":
            if st == ZAMS * 2 and ev == "ZAMS":
                continue
            want = "CC1" if st[0] == dep else "CC2" if st[1] == dep else None
        elif name == "HMSRLO":
            S_ = set(s1) | {dep}
            if st[0] not in S_ or st[1] not in S_ or ev not in (
                    "oRLO1", "oRLO2"):
                want = None
            else:
                k = 0 if ev == "oRLO1" else 1
                if st[k] != dep:
                    continue
                want = "CC%d" % (k + 1)
        else:
            S_ = set(s1) | {dep}
            want = None
            for k in (0, 1):
                if st[k] in S_ and st[1 - k] in CO and ev == (
                        None if name == "COHe" else "oRLO%d" % (k + 1)):
                    want = "CC%d" % (k + 1) if st[k] == dep else "ok"
            if want == "ok":
                continue
        if want is None:
            with vk.quiet():
                c.raises(FlowError, lambda: S(t),
                         "states the grid is not made for")
            c.expect(t.state == "ERR", "failed", got=t.state)
            c.count("refused")
        else:
            with vk.quiet():
                S(t)
            c.expect(t.event == want, "collapses at once", got=t.event,
                     want=want)
            c.count("collapses")
        c.seen("states", name, want)


_HELD = {}


def hold(rng, name):
    if name not in _HELD:
        g = np.random.default_rng(7)
        runs = grid(g, name, 6)
        with Dir() as d:
            S = make_step(g, d, name, runs)
        _HELD[name] = S, runs
    return _HELD[name]


@C.family("initial", 60, 600)
def initial(rng, c):
    """mass transfer from the start"""
    name = NAMES[c.index % 5]
    runs = grid(rng, name, 8)
    with Dir() as d:
        for r in runs:
            u = rng.random()
            if u < .3:
                r.cls = r.final["interpolation_class"] = "initial_MT"
            elif u < .5:
                r.bh = r.bh[:1]
                r.h = [None if h is None else h[:1] for h in r.h]
                r.cls = r.final["interpolation_class"] = "initial_MT"
            r.final["interpolation_class"] = r.cls
        S = make_step(rng, d, name, runs,
                      track_interpolation=bool(rng.random() < .5))
        for r in runs:
            if nearest(runs, name, r.m1, r.m2, r.P) is None:
                continue
            flip = name != "HMSRLO" and bool(rng.random() < .5)
            tmax = 1e30 if rng.random() < .5 else 2e6
            t = binary(rng, name, r.m1, r.m2, r.P, t0=1e6, flip=flip,
                       tmax=tmax)
            before = remember(t, flip)
            with vk.quiet():
                S(t)
            if r.cls == "initial_MT":
                c.expect(t.state == "initial_RLOF", "overflow from the start",
                         got=t.state)
                x = order(t, flip)
                c.expect(all(same(getattr(x[s - 1], k), before[s][k])
                             for s in (1, 2) for k in STARPROPERTIES),
                         "the stars stay as they are")
                c.count("initial overflow")
            else:
                c.expect(t.state != "initial_RLOF", "no initial overflow")
            c.seen("init", name, r.cls, flip, len(r.bh) > 1)


@C.family("interp", 150, 1500)
def interp(rng, c):
    """values of the initial-final interpolator"""
    name = NAMES[c.index % 5]
    runs = grid(rng, name, 6)
    r = hg.R(rng, 9., 5., 3., he=STEPS[name][3], co=STEPS[name][2])
    r.supernovae(rng, MODELS)
    meth = str(rng.choice(["linear_kNN", "linear3c_kNN", "1NN_1NN"]))
    fv, cl = {}, {}
    for k in h5grid.mesa.BH:
        fv[k] = float(r.bh[k][-1])
    for s in (1, 2):
        for k in h5grid.mesa.STAR:
            fv["S%d_%s" % (s, k)] = np.nan if r.h[s - 1] is None else \
                float(r.h[s - 1][k][-1])
    for k, v in r.final.items():
        (cl if isinstance(v, str) else fv)[k] = v
    drop = None
    for m in MODELS:
        for k, v in r.sn[m].items():
            (cl if isinstance(v, str) else fv)[
                k[:3] + m + k[2:]] = v
    if rng.random() < .2:
        drop = MODELS[int(rng.integers(len(MODELS)))]
        fv.pop("S1_%s_f_fb" % drop)
    if rng.random() < .15:
        cl["interpolation_class"] = r.cls = "initial_MT"
        fv["age"] = np.nan
    end = str(rng.choice(["stop_at_max_time", "stop_at_end"]))
    with Dir() as d:
        stub = hg.Stub(fv, cl, STEPS[name][4])
        sub = os.path.join(d, "interpolators", meth)
        os.makedirs(sub)
        given = rng.random() < .4
        fn = os.path.join(d, "my.pkl") if given else os.path.join(
            sub, "1e+00_Zsun.pkl")
        with open(fn, "wb") as f:
            pickle.dump([stub], f)
        kw = dict(interpolation_path=d, interpolation_filename="my.pkl") \
            if given else {}
        S = make_step(rng, d, name, runs, interpolation_method=meth,
                      stop_method=end, **kw)
        x = runs[int(rng.integers(len(runs)))]
        flip = name != "HMSRLO" and bool(rng.random() < .5)
        t0 = float(10 ** rng.uniform(3, 7))
        i = nearest(runs, name, x.m1, x.m2, x.P)
        if i is None:
            c.stop()
        limited = rng.random() < .3 and r.cls != "initial_MT" \
            and end == "stop_at_max_time"
        tmax = t0 + fv["age"] * .5 if limited else 1e30
        t = binary(rng, name, x.m1, x.m2, x.P, t0=t0, flip=flip, tmax=tmax)
        if odd(t, r, flip) or odd(t, runs[i], flip):
            c.stop()
        before = remember(t, flip)
        n0 = len(t.time_history)
        c.note(name=name, meth=meth, flip=flip, cls=r.cls, limited=limited,
               drop=drop, end=end)
        hg.Stub.asked.clear()
        with vk.quiet():
            S(t)
        c.expect(hg.Stub.asked and hg.Stub.asked[-1] == (x.m1, x.m2, x.P),
                 "the interpolator is asked for the binary of the grid",
                 got=hg.Stub.asked, want=(x.m1, x.m2, x.P))
        if r.cls == "initial_MT":
            c.expect(t.state == "initial_RLOF", "overflow from the start",
                     got=t.state)
            y = order(t, flip)
            c.expect(all(same(getattr(y[s - 1], k), before[s][k])
                         for s in (1, 2) for k in STARPROPERTIES),
                     "the stars stay as they are")
            c.seen("interp", "initial", name, flip)
            return
        if limited:     # then the track of the nearest run is taken
            z = runs[i]
            if t0 + z.bh["age"][-1] <= tmax or z.bh["age"][0] > tmax - t0:
                c.stop()
            c.expect(t.event == "maxtime" and t.time == tmax,
                     "stopped at the maximum time", e=t.event, t=t.time)
            judge_limit(c, t, z, flip, before, t0, tmax - t0)
            judge_history(c, t, z, flip, before, t0, n0, 0, True)
            c.count("limited interpolation")
            c.seen("interp", "limited", name, flip)
            return
        y = order(t, flip)
        for k in BINKEYS:
            c.expect(same(b_get(t, k, flip), fv[MAPS.get(k, k)]),
                     "interpolated property", which=k)
        c.close(t.time, t0 + fv["age"], "time", rtol=1e-12)
        c.expect(t.eccentricity == before["ecc"]
                 and t.V_sys == [1., -2., 3.], "kept")
        c.expect(np.all(np.isnan(t.nearest_neighbour_distance)), "no run")
        for s in (1, 2):
            co = s == 2 and r.co
            for k in STARPROPERTIES:
                if k in ("state", "profile") or (co and k == "lg_mdot"):
                    continue
                m0 = before[2]["mass"]
                if co and k == "spin":
                    w = spin_up(before[2]["spin"], m0, fv["star_2_mass"])
                elif co and k == "avg_c_in_c_core":
                    continue
                else:
                    w = star_truth(r, s, k, -1, before[s])
                c.expect(same(getattr(y[s - 1], k), w),
                         "interpolated property of star %d" % s, which=k,
                         got=getattr(y[s - 1], k), want=w)
                c.count("interpolated")
            c.expect(y[s - 1].profile is None, "no profile")
            for k in POST:
                if co:
                    continue
                w = None if r.cls == "unstable_MT" and "depletion" in k \
                    else r.final["S%d_%s" % (s, k)]
                c.expect(same(getattr(y[s - 1], k), w), "post-processed",
                         which=k)
            for m in MODELS:
                if r.cls == "unstable_MT":
                    continue
                g, row = getattr(y[s - 1], m), r.sn[m]
                if co or row["S%d_CO_type" % s] == "None" or (
                        m == drop and s == 1):
                    c.expect(g is None, "no supernova", m=m, got=g)
                    continue
                want = {"state": row["S%d_CO_type" % s],
                        "SN_type": row["S%d_SN_type" % s],
                        **{k: row["S%d_%s" % (s, k)] for k in SN_NUM}}
                c.expect(set(g) == set(want) and all(
                    same(g[k], want[k]) for k in want),
                    "supernova values of the star and model", m=m, s=s,
                    got=g, want=want)
        if r.co:
            m = fv["star_2_mass"]
            lim = eddington(m, fv["S1_surface_h1"], y[1].state)
            own = 10 ** fv["lg_mstar_dot_2"]
            g = 10 ** y[1].lg_mdot
            wd = y[1].state == "WD"     # known finding of C20
            c.expect((wd or min(own, lim) * .998 <= g) and g <= lim * 1.002,
                     "accretion within the Eddington limit", got=g, lim=lim,
                     own=own)
            if fv["lg_wind_mdot_1"] < -90 and not wd:
                c.close(g, min(own, lim), "accretion without wind",
                        rtol=2e-3)
            if not wd:
                accreted(c, g, own, lim, t, y[0], m)
        c.expect(len(t.time_history) == n0, "no rows are added")
        judge_state(c, t, r, flip, False, before[2]["state"])
        c.seen("interp", name, meth, flip, r.cls, drop is not None)


C.require("values", 2000)
C.require("rows", 200)
C.require("limits", 80)
C.require("accretion wind", 20)
C.require("accretion limited", 20)
C.require("supernovae", 200)
C.require("error", 50)
C.require("redirect", 50)
C.require("inside", 50)
C.require("refused", 100)
C.require("collapses", 30)
C.require("initial overflow", 20)
C.require("interpolated", 500)
C.require("exact", 10)

if __name__ == "__main__":
    sys.exit(C.main())
