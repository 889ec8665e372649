"""C15  Common envelopes obey the alpha-lambda energy budget."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import numpy as np

vk.setup_env()
import phys as P
from posydon.utils import common_functions as cf
from posydon.binary_evol.singlestar import SingleStar, STARPROPERTIES
from posydon.binary_evol.binarystar import BinaryStar, BINARYPROPERTIES
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.binary_evol.CE.step_CEE import StepCEE

C = vk.Check(
    "C15",
    "random donors, companions and orbits go through the real common-envelope "
    "step; orbit, masses, states and mergers are compared with an independent "
    "energy balance, binding energies with a direct integral over the profile;"
    " signature = (family, option, outcome)")
PROPS = SimulationProperties()

H_GIANT = ["H-rich_Shell_H_burning", "H-rich_Core_He_burning",
           "H-rich_Core_He_depleted", "H-rich_Core_C_depleted",
           "H-rich_non_burning", "accreted_He_non_burning"]
HE_GIANT = ["stripped_He_Core_He_depleted", "stripped_He_Core_C_depleted",
            "stripped_He_non_burning"]
MERGE_NOW = ["H-rich_Core_H_burning", "stripped_He_Core_He_burning",
             "accreted_He_Core_He_burning"]
AFTER = ["one_phase_variable_core_definition", "two_phases_stableMT",
         "two_phases_windloss"]
KEPT_STAR = ["center_h1", "center_he4", "center_c12", "center_o16",
             "center_n14", "metallicity", "log_LZ", "log_Lnuc", "c12_c12",
             "center_gamma", "avg_c_in_c_core"]
G2 = P.G * P.MSUN ** 2 / P.RSUN


def lg(rng, a, b, n=None):
    return 10 ** rng.uniform(a, b, n)


def fill(rng, s):
    """give every property of the star some value"""
    for k in STARPROPERTIES:
        if getattr(s, k) is None and k not in ("state", "profile",
                                               "metallicity"):
            setattr(s, k, float(rng.uniform(.1, 1)))


def giant(rng, kind, state, m=None, R=None):
    m = float(lg(rng, .3, 1.8)) if m is None else m
    R = float(lg(rng, 1.5, 3.2)) if R is None else R
    he = m * float(rng.uniform(.15, .6)) if kind == "H" else m
    co = he * float(rng.uniform(.3, .9))
    s = SingleStar(state=state, mass=m, log_R=np.log10(R),
                   metallicity=float(rng.choice([1., .1, 1e-2, 1e-4])))
    s.state = state
    fill(rng, s)
    s.he_core_mass, s.co_core_mass = he, co
    s.he_core_radius = float(lg(rng, -1, .5)) if kind == "H" else R
    s.co_core_radius = float(lg(rng, -2, -.7))
    s.center_h1 = 0.
    s.center_he4 = float(rng.choice([0., .5, .98]))
    s.center_c12 = float(rng.choice([0., .3]))
    s.surface_h1 = .7 if kind == "H" else 0.
    s.log_LH, s.log_LHe, s.log_Lnuc = -99., -99., -99.
    if rng.random() < .6:
        s.log_LHe, s.log_Lnuc = 4., 4.1
    for n, f in (("1cent", .95), ("10cent", 1.), ("30cent", 1.1)):
        # core at the moment of the ejection: more (or less) than the history's
        mc = min(he * f * float(rng.choice([1., 1., 1.05, .93])), m)
        setattr(s, "m_core_CE_" + n, mc)
        setattr(s, "r_core_CE_" + n, s.he_core_radius
                * float(rng.uniform(.7, 1.6)))
        setattr(s, "lambda_CE_" + n, float(lg(rng, -1.5, .5)))
    s.m_core_CE_pure_He_star_10cent = co * float(rng.choice([1., 1.05, .95]))
    s.r_core_CE_pure_He_star_10cent = s.co_core_radius * float(
        rng.uniform(.8, 1.5))
    s.lambda_CE_pure_He_star_10cent = float(lg(rng, -1, .5))
    if rng.random() < .08:
        s.lambda_CE_30cent = np.nan
    return s


def other(rng):
    if rng.random() < .5:
        st = str(rng.choice(["BH", "NS", "WD"]))
        m = {"BH": 5 + 20 * rng.random(), "NS": 1.2 + rng.random(),
             "WD": .6 + .7 * rng.random()}[st]
        s = SingleStar(state=st, mass=float(m), log_R=float(-5.))
    else:
        st = str(rng.choice(["H-rich_Core_H_burning",
                             "stripped_He_Core_He_burning"]))
        s = SingleStar(state=st, mass=float(lg(rng, -.2, 1.3)),
                       log_R=float(rng.uniform(-.3, 1.1)))
        s.co = False
    s.state = st
    s.metallicity = 1.
    fill(rng, s)
    return s


class Matcher:
    """stands in for the single-star grids: gives the relaxed radius"""

    def __init__(self, R):
        self.R, self.calls = R, []

    def do_matching(self, binary, step_name=None, match_primary=True,
                    match_secondary=True):
        self.calls.append((match_primary, match_secondary))
        comp = binary.star_2 if binary.event.endswith("CE1") \
            else binary.star_1
        R = self.R
        if R is None:
            comp.interp1d = None
        else:
            comp.interp1d = lambda t: {"R": R}
        return None, None, False


def snapshot(s):
    return {k: getattr(s, k) for k in STARPROPERTIES}


def same(a, b):
    try:
        return a is b or a == b or (np.isnan(a) and np.isnan(b))
    except TypeError:
        return False


def isnan(v):
    return isinstance(v, float) and np.isnan(v)


def wind(a, m, mf, comp):
    return a * (m + comp) / (mf + comp)


def reemit(a, m, mf, acc):
    """all of what leaves the donor leaves from the accretor"""
    return a * (m / mf) ** 2 * ((m + acc) / (mf + acc)) \
        * np.exp(2 * (mf - m) / acc)


def overflow(m1, r1, m2, r2, a, tol):
    """(excess over the tolerance of the worst star, scale)"""
    e1 = r1 - P.eggleton(m1, m2, a) - tol
    e2 = r2 - P.eggleton(m2, m1, a) - tol
    return max(e1, e2)


C.require("merger", 100)
C.require("ejection", 100)
C.require("companion relaxed", 20)
C.require("partial ejection", 10)


@C.family("step", 12000, 150000)
def step(rng, c):
    double = bool(rng.random() < .3)
    kinds, sts = [], []
    for _ in range(2):
        k = "H" if rng.random() < .7 else "He"
        kinds.append(k)
        sts.append(str(rng.choice(H_GIANT if k == "H" else HE_GIANT)))
    don = giant(rng, kinds[0], sts[0])
    comp = giant(rng, kinds[1], sts[1]) if double else other(rng)
    which = int(rng.integers(1, 3))
    s1, s2 = (don, comp) if which == 1 else (comp, don)
    p = float(lg(rng, .5, 4.2))
    opt_l = str(rng.choice(["default_lambda", "lambda_from_grid_final_values",
                            "lambda_from_grid_final_values"]))
    after = str(rng.choice(AFTER))
    hf = float(rng.choice([.01, .1, .3]))
    alpha = float(lg(rng, -.7, .7))
    lam0 = float(lg(rng, -1, .3))
    hg = str(rng.choice(["optimistic", "pessimistic"]))
    tol = float(rng.choice([1e-3, 1e-3, 1e-6, .05]))
    kw = dict(common_envelope_efficiency=alpha,
              common_envelope_lambda_default=lam0,
              common_envelope_option_for_lambda=opt_l,
              common_envelope_option_for_HG_star=hg,
              core_definition_H_fraction=hf, CEE_tolerance_err=tol,
              common_envelope_option_after_succ_CEE=after)
    if rng.random() < .15 and not double:
        don.state = str(rng.choice(MERGE_NOW))
    relax = None if rng.random() < .1 else float(lg(rng, -1, .5))
    match = Matcher(relax)
    ev = ("oDoubleCE" if double else "oCE") + str(which)
    b = BinaryStar(s1, s2, state="RLO%d" % which, event=ev, time=1.2e6,
                   separation=P.kepler_a(p, s1.mass, s2.mass),
                   orbital_period=p, eccentricity=float(rng.choice([0., .2])),
                   properties=PROPS)
    don, comp = (b.star_1, b.star_2) if which == 1 else (b.star_2, b.star_1)
    for k in BINARYPROPERTIES:
        if getattr(b, k) is None:
            setattr(b, k, float(rng.random()))
    b.V_sys = [1., 2., 3.]
    b.mass_transfer_case = "case_B1"
    b.event, b.state = ev, "RLO%d" % which
    d0, c0 = snapshot(don), snapshot(comp)
    keep = {k: getattr(b, k) for k in ("time", "V_sys", "mass_transfer_case",
                                       "nearest_neighbour_distance")}
    c.note(kw=kw, event=ev, states=[don.state, comp.state], p=p,
           donor={k: d0[k] for k in ("mass", "log_R", "he_core_mass",
                                     "co_core_mass", "he_core_radius",
                                     "co_core_radius")},
           comp={k: c0[k] for k in ("mass", "log_R", "he_core_mass",
                                    "co_core_mass", "he_core_radius",
                                    "co_core_radius")})
    if don.state not in H_GIANT + HE_GIANT or (
            hg == "pessimistic" and don.state == "H-rich_Shell_H_burning"):
        StepCEE(track_matcher=match, **kw)(b)
        c.expect(b.state == "merged" and b.event == "oMerging%d" % which,
                 "a donor without a core merges", state=b.state, event=b.event)
        c.expect(don.mass == d0["mass"] and comp.mass == c0["mass"],
                 "the merging stars keep their masses")
        c.seen("step", "at once", don.state)
        return

    # ------------------------------------------------------------- reference
    def core(s, kind):
        if opt_l == "default_lambda":
            if kind == "H":
                return lam0, s.he_core_mass, s.he_core_radius
            return lam0, s.co_core_mass, s.co_core_radius
        n = "%dcent" % round(hf * 100) if kind == "H" \
            else "pure_He_star_10cent"
        return tuple(getattr(s, q + n) for q in (
            "lambda_CE_", "m_core_CE_", "r_core_CE_"))

    def env(s, lam, mc):
        if np.isnan(lam):
            return 0.
        return G2 * s.mass * (s.mass - mc) / (lam * 10 ** s.log_R)

    lam1, mc1, rc1 = core(don, kinds[0])
    bind = env(don, lam1, mc1)
    if double:
        lam2, mc2, rc2 = core(comp, kinds[1])
        bind += env(comp, lam2, mc2)
    else:
        mc2, rc2 = comp.mass, 10 ** comp.log_R
    a0 = P.kepler_a(p, don.mass, comp.mass)
    a1 = G2 * mc1 * mc2 / 2 / (G2 * don.mass * comp.mass / 2 / a0
                               + bind / alpha)
    relaxed = False
    if not double and comp.state not in ("BH", "NS", "WD"):
        x1 = rc1 - P.eggleton(mc1, mc2, a1) - tol
        x2 = rc2 - P.eggleton(mc2, mc1, a1) - tol
        if min(abs(x1), abs(x2)) < 1e-6 * a1:
            c.stop()
        relaxed = x1 < 0 and x2 > 0
        if relaxed and relax is not None:
            rc2 = relax

    def final(s, kind, mc):
        m, r = (s.he_core_mass, s.he_core_radius) if kind == "H" else \
            (s.co_core_mass, s.co_core_radius)
        return min(m, mc), r
    if after == AFTER[0]:
        f1, q1, f2, q2 = mc1, rc1, mc2, rc2
        worst = [overflow(mc1, rc1, mc2, rc2, a1, tol)]
        a2 = a1
    else:
        f1, q1 = final(don, kinds[0], mc1)
        f2, q2 = final(comp, kinds[1], mc2) if double else (mc2, rc2)
        worst = [overflow(mc1, q1, mc2, q2, a1, tol)]
        if after == AFTER[1] and not double:
            a2 = reemit(a1, mc1, f1, mc2)
        else:
            a2 = wind(a1, mc1, f1, mc2)
            if double:
                a2 = wind(a2, mc2, f2, f1)
        if worst[0] < 0:
            worst.append(overflow(f1, q1, f2, q2, a2, tol))
    if min(abs(w) for w in worst) < 1e-3 * a1:
        c.stop()
    merge = max(worst) > 0

    StepCEE(track_matcher=match, **kw)(b)
    c.note(merge=merge, a1=a1, a2=a2, state=b.state, sep=b.separation)
    c.count("merger" if merge else "ejection")
    c.count("companion relaxed" if relaxed else "companion as is")
    c.seen("step", double, which, kinds[0], kinds[1] if double else comp.state,
           after, opt_l == "default_lambda", merge, relaxed)
    c.expect(len(match.calls) == int(relaxed)
             and all(k == (False, True) for k in match.calls),
             "the companion is matched to a single star only when its radius "
             "alone is in the way", calls=match.calls)
    if merge:
        c.expect(b.state == "merged" and b.event == "oMerging%d" % which,
                 "the binary merges when a core does not fit its Roche lobe",
                 state=b.state, event=b.event, worst=worst)
        c.expect(don.mass == d0["mass"] and comp.mass == c0["mass"],
                 "merging stars keep their masses")
        return
    c.expect(b.state == "detached", "the binary survives when both cores fit",
             state=b.state, worst=worst)
    want_ev = "CC%d" % which if d0["state"] == "stripped_He_Core_He_depleted" \
        else None
    c.expect(b.event == want_ev, "event after the ejection", got=b.event,
             want=want_ev)
    c.expect(b.eccentricity == 0., "the ejected orbit is circular")
    c.close(b.separation, a2, "separation from the energy balance and the "
            "following mass loss", rtol=1e-3)
    if after == AFTER[0]:
        c.close(b.separation, a1, "separation from the energy balance",
                rtol=1e-6)
        c.close(bind, alpha * (G2 * mc1 * mc2 / 2 / b.separation
                               - G2 * d0["mass"] * c0["mass"] / 2 / a0),
                "binding energy equals the efficiency times the orbital "
                "energy released", rtol=1e-5, atol=1e-9 * G2)
    c.close(b.orbital_period, P.kepler_P(b.separation, f1, f2),
            "period and separation agree after the ejection", rtol=1e-3)
    for k, v in keep.items():
        c.expect(same(getattr(b, k), v), "kept: " + k)
    for k in BINARYPROPERTIES:
        if k not in keep and k not in ("separation", "orbital_period",
                                       "eccentricity", "state", "event"):
            c.expect(isnan(getattr(b, k)), "forgotten: " + k,
                     got=getattr(b, k))
    stars = [(don, d0, kinds[0], f1, q1)]
    if double:
        stars.append((comp, c0, kinds[1], f2, q2))
    for s, o, kind, f, q in stars:
        c.close(s.mass, f, "the giant is left with its core mass", rtol=1e-12)
        c.expect(s.mass <= o["mass"], "no mass is gained")
        c.close(s.log_R, np.log10(q), "the giant is left with its core radius",
                rtol=1e-12, atol=1e-12)
        c.close(s.he_core_mass, f, "helium core of the remnant", rtol=1e-12)
        c.close(s.he_core_radius, q, "helium core radius of the remnant",
                rtol=1e-12)
        if kind == "He":
            c.close(s.co_core_mass, f, "CO core of the remnant", rtol=1e-12)
            c.close(s.co_core_radius, q, "CO core radius of the remnant",
                    rtol=1e-12)
            h, he = 0., .1
            lhe = -1e99
        else:
            h = hf if after == AFTER[0] else .01
            he = 1 - h - o["metallicity"] * .0142
            lhe = o["log_LHe"]
            c.expect(s.co_core_mass == o["co_core_mass"]
                     and s.co_core_radius == o["co_core_radius"],
                     "the CO core is untouched")
        c.close(s.surface_h1, h, "surface hydrogen", rtol=1e-12)
        c.close(s.surface_he4, he, "surface helium", rtol=1e-6)
        c.expect(s.log_LH == -1e99 and s.log_LHe == lhe,
                 "luminosities of the burning that is left",
                 got=(s.log_LH, s.log_LHe))
        c.expect(s.state == cf.infer_star_state(
            star_mass=f, surface_h1=h, center_h1=o["center_h1"],
            center_he4=o["center_he4"], center_c12=o["center_c12"],
            log_LH=-1e99, log_LHe=lhe, log_Lnuc=o["log_Lnuc"]),
            "state of the remnant follows from what is left", got=s.state)
        for k in KEPT_STAR:
            c.expect(same(getattr(s, k), o[k]), "centre kept: " + k,
                     got=getattr(s, k), want=o[k])
        done = KEPT_STAR + ["mass", "log_R", "state", "surface_h1",
                            "surface_he4", "log_LH", "log_LHe",
                            "he_core_mass", "he_core_radius", "co_core_mass",
                            "co_core_radius"]
        for k in STARPROPERTIES:
            if k not in done:
                c.expect(isnan(getattr(s, k)), "no stale value: " + k,
                         got=getattr(s, k))
    if not double:
        c.expect(all(same(getattr(comp, k), c0[k]) for k in STARPROPERTIES),
                 "a companion without envelope is left alone",
                 diff=[k for k in STARPROPERTIES
                       if not same(getattr(comp, k), c0[k])])


# -------------------------------------------------------------------- profiles
def profile(rng, kind, m, R, he, co, hot=True, cols=(), n=None):
    """a star from the surface inwards"""
    n = int(rng.integers(40, 160)) if n is None else n
    u = np.sort(rng.random(n - 2))
    q = np.concatenate(([1.], 1 - u, [.002]))
    q = np.unique(np.round(q, 9))[::-1]
    mass = m * q
    n = len(q)
    r = R * np.maximum(q, 1e-9) ** rng.uniform(.8, 3.)
    z = .0142
    w = 4. / m * rng.uniform(1, 4)
    if kind == "H":
        x = .7 / (1 + np.exp(-(mass - he) / w))
        x = np.where(mass < he - 3 * w, 0., x)
        tot = 1 - z * np.ones(n)
        wc = w * .5
        met = z + (1 - z) / (1 + np.exp((mass - co) / wc))
        met = np.where(x > 0, z, met)
        y = 1 - x - met
    else:
        x = np.zeros(n)
        met = z + (1 - z - .0) / (1 + np.exp((mass - co) / (w * .5)))
        y = 1 - met
    y = np.clip(y, 0, 1)
    dm = np.append(mass[:-1] - mass[1:], mass[-1])
    grav = P.G * mass * P.MSUN / (r * P.RSUN)
    en = grav * rng.uniform(.05, .4) + 3e13
    d = {"mass": mass, "radius": r, "log_R": np.log10(r), "dm": dm * P.MSUN,
         "x_mass_fraction_H": x, "y_mass_fraction_He": y,
         "z_mass_fraction_metals": met, "energy": en,
         "neutral_fraction_H": rng.random(n),
         "neutral_fraction_He": rng.random(n) * .5,
         "avg_charge_He": rng.uniform(.3, 1.2, n)}
    d = {k: v for k, v in d.items() if k not in cols}
    out = np.zeros(n, dtype=[(k, "f8") for k in d])
    for k, v in d.items():
        out[k] = v
    return out


EV = 1.602176565e-12


def internal(pr, option):
    """specific energy that helps to eject the envelope"""
    n = len(pr)
    if option.endswith("_gravitational") or "energy" not in pr.dtype.names:
        return np.zeros(n)
    NA = 6.02214129e23
    u = np.array(pr["energy"])
    x, y = pr["x_mass_fraction_H"], pr["y_mass_fraction_He"]
    # dissociation energy of H2: 4.48 eV per molecule
    u = u - x * NA / (2 * 1.00782503207) * 35999.582894 * 1.98644568e-16
    if option.endswith("minus_recombination"):
        h = 1 - np.minimum(pr["neutral_fraction_H"], 1)
        he0 = np.minimum(pr["neutral_fraction_He"], 1)
        q = np.maximum(pr["avg_charge_He"], 0)
        # f0+f1+f2=1, f1+2 f2=q
        f2 = q - 1 + he0
        f1 = 1 - he0 - f2
        u = u - EV * NA * (x * h * 13.598434 / 1.00782503207
                           + y * ((f1 + f2) * 24.587388 + f2 * 54.417765)
                           / 4.002603254)
    return u


def ebind_ref(pr, option, ath):
    """cumulative binding energy (negative) of the cells above each index"""
    r = pr["radius"]
    dm = (pr["dm"] / P.MSUN if "dm" in pr.dtype.names else
          np.append(pr["mass"][:-1] - pr["mass"][1:], pr["mass"][-1]))
    e = -P.G * pr["mass"] * P.MSUN * dm * P.MSUN / (r * P.RSUN) \
        + ath * internal(pr, option) * dm * P.MSUN
    return np.concatenate(([0.], np.cumsum(e)))


def core_ref(pr, kind, frac, co_in_h=False):
    """(index, weight): the boundary lies between index-1 and index"""
    x, y, z = (pr[k] for k in ("x_mass_fraction_H", "y_mass_fraction_He",
                               "z_mass_fraction_metals"))
    if kind == "H" and not co_in_h:
        el, inner, interp = x, y + z, x
    else:
        el, inner, interp = x + y, z, y
    ok = np.nonzero((el <= frac) & (inner >= .1))[0]
    if len(ok) == 0:
        return None, None
    i = int(ok[0])
    if i == 0:
        return 0, None
    return i, (frac - interp[i - 1]) / (interp[i] - interp[i - 1])


OPTS = ["lambda_from_profile_gravitational",
        "lambda_from_profile_gravitational_plus_internal",
        "lambda_from_profile_gravitational_plus_internal_minus_recombination"]


def make(rng):
    kind = "H" if rng.random() < .65 else "He"
    m, R = float(lg(rng, .3, 1.8)), float(lg(rng, 1., 3.))
    he = m * float(rng.uniform(.2, .6)) if kind == "H" else m
    co = he * float(rng.uniform(.3, .8))
    drop = [k for k in ("dm", "energy", "log_R") if rng.random() < .25]
    return kind, m, R, he, co, profile(rng, kind, m, R, he, co, cols=drop)


def lambda_ref(pr, kind, frac, option, ath, co_in_h=False):
    i, w = core_ref(pr, kind, frac, co_in_h)
    cum = ebind_ref(pr, option, ath)
    m, R = pr["mass"][0], pr["radius"][0]
    if i is None:
        return -G2 * m * m / (cum[-1] * R), 0., 0.
    if i == 0:
        return np.nan, m, R
    mc = pr["mass"][i - 1] + w * (pr["mass"][i] - pr["mass"][i - 1])
    rc = pr["radius"][i - 1] + w * (pr["radius"][i] - pr["radius"][i - 1])
    E = cum[i - 1] + w * (cum[i] - cum[i - 1])
    return -P.G * P.MSUN ** 2 / P.RSUN * m * (m - mc) / (E * R), mc, rc


@C.family("lambda", 3500, 40000)
def lam(rng, c):
    kind, m, R, he, co, pr = make(rng)
    option = str(rng.choice(OPTS))
    frac = float(rng.choice([.01, .1, .3])) if kind == "H" else .1
    coh = kind == "H" and rng.random() < .2
    if coh:
        frac = .1
    ath = float(rng.choice([1., .5, 0.]))
    st = str(rng.choice(H_GIANT[:5] if kind == "H" else HE_GIANT))
    want = lambda_ref(pr, kind, frac, option, ath, coh)
    i, w = core_ref(pr, kind, frac, coh)
    c.note(kind=kind, option=option, frac=frac, i=i, want=want, st=st,
           cols=list(pr.dtype.names))
    if i is not None and i > 0 and not 0 <= w <= 1 + 1e-9:
        c.stop()
    if want[0] < 0:
        c.stop()
    got = cf.calculate_lambda_from_profile(
        pr.copy(), st, m1_i=pr["mass"][0], radius1=pr["radius"][0],
        common_envelope_option_for_lambda=option,
        core_element_fraction_definition=frac,
        common_envelope_alpha_thermal=ath, CO_core_in_Hrich_star=coh)
    c.close(got[0], want[0], "lambda gives back the binding energy of the "
            "envelope", rtol=1e-5)
    c.close(got[1], want[1], "core mass at the abundance threshold",
            rtol=1e-9, atol=1e-12)
    c.close(got[2], want[2], "core radius at the abundance threshold",
            rtol=1e-9, atol=1e-12)
    c.seen("lambda", kind, option, frac, coh, i is None, i == 0,
           "dm" in pr.dtype.names, "energy" in pr.dtype.names)


@C.family("parameters", 1200, 4000)
def parameters(rng, c):
    """lambda, core mass and core radius attached to the star of a run"""
    kind, m, R, he, co, pr = make(rng)
    st = str(rng.choice(H_GIANT[:5] if kind == "H" else HE_GIANT))
    k = rng.random()
    s = SingleStar(state=st, mass=pr["mass"][0],
                   log_R=np.log10(pr["radius"][0]))
    s.state = st
    s.profile = pr.copy()
    if k < .08:
        s.profile = None
    elif k < .16:
        s.state = str(rng.choice(["BH", "NS", "WD",
                                  "undetermined_evolutionary_state"]))
    names = ["1cent", "10cent", "30cent", "pure_He_star_10cent"]
    if k >= .16:
        want = {}
        for n, f in zip(names, (.01, .1, .3, .1)):
            coh = n.startswith("pure") and kind == "H"
            if kind == "He" and not n.startswith("pure"):
                want[n] = (np.nan, s.mass, 10 ** s.log_R)
                continue
            i, w = core_ref(pr, kind, f, coh)
            if i is not None and i > 0 and not 0 <= w <= 1 + 1e-9:
                c.stop()
            want[n] = lambda_ref(pr, kind, f, OPTS[2], 1., coh)
            if want[n][0] < 0:
                c.stop()
    else:
        want = {n: (np.nan,) * 3 for n in names}
    cf.CEE_parameters_from_core_abundance_thresholds(s)
    for n in names:
        got = [getattr(s, q + n) for q in ("lambda_CE_", "m_core_CE_",
                                           "r_core_CE_")]
        for g, w, q in zip(got, want[n], ("lambda", "mass", "radius")):
            c.close(g, w, "%s of the %s core" % (q, n), rtol=1e-5, atol=1e-12)
    if kind == "H" and k >= .16:
        c.expect(s.m_core_CE_1cent <= s.m_core_CE_10cent + 1e-12
                 and s.m_core_CE_10cent <= s.m_core_CE_30cent + 1e-12,
                 "a core defined with more hydrogen is no smaller")
    c.seen("parameters", kind, s.state, k < .08)


@C.family("profile_step", 1500, 20000)
def profile_step(rng, c):
    """the step with lambda from the profile, and partial ejection"""
    kind, m, R, he, co, pr = make(rng)
    st = str(rng.choice(H_GIANT[1:5] if kind == "H" else HE_GIANT))
    option = str(rng.choice(OPTS))
    hf = float(rng.choice([.01, .1, .3]))
    frac = hf if kind == "H" else .1
    ath = float(rng.choice([1., .5]))
    alpha = float(lg(rng, -1, .5))
    i, w = core_ref(pr, kind, frac)
    L, mc, rc = lambda_ref(pr, kind, frac, option, ath)
    if i is None or i == 0 or not 0 <= w <= 1 or L < 0:
        c.stop()
    double = bool(rng.random() < .3)
    don = giant(rng, kind, st, m=float(pr["mass"][0]),
                R=float(pr["radius"][0]))
    don.profile = pr.copy()
    if double:
        kind2, m2, R2, he2, co2, pr2 = make(rng)
        i2, w2 = core_ref(pr2, kind2, hf if kind2 == "H" else .1)
        L2, mc2, rc2 = lambda_ref(pr2, kind2, hf if kind2 == "H" else .1,
                                  option, ath)
        if i2 is None or i2 == 0 or not 0 <= w2 <= 1 or L2 < 0:
            c.stop()
        comp = giant(rng, kind2, str(rng.choice(
            H_GIANT[1:5] if kind2 == "H" else HE_GIANT)),
            m=float(pr2["mass"][0]), R=float(pr2["radius"][0]))
        comp.profile = pr2.copy()
    else:
        comp = SingleStar(state="BH", mass=float(lg(rng, 0, 1.3)),
                          log_R=-5.)
        comp.state = "BH"
        mc2, rc2 = comp.mass, 10 ** comp.log_R
    noprof = rng.random() < .12
    if noprof:                       # falls back to the default
        don.profile = None
        L, mc, rc = (.5, don.he_core_mass, don.he_core_radius) \
            if kind == "H" else (.5, don.co_core_mass, don.co_core_radius)
    p = float(lg(rng, .3, 3.5))
    loss = bool(rng.random() < .7)
    which = int(rng.integers(1, 3))
    s1, s2 = (don, comp) if which == 1 else (comp, don)
    M1, M2 = don.mass, comp.mass
    a0 = P.kepler_a(p, M1, M2)
    bind = G2 * M1 * (M1 - mc) / (L * pr["radius"][0])
    if double:
        bind += G2 * M2 * (M2 - mc2) / (L2 * pr2["radius"][0])
    a1 = G2 * mc * mc2 / 2 / (G2 * M1 * M2 / 2 / a0 + bind / alpha)
    ex = overflow(mc, rc, mc2, rc2, a1, 1e-3)
    if abs(ex) < 1e-5 * a1:
        c.stop()
    merge = ex > 0
    ev = ("oDoubleCE" if double else "oCE") + str(which)
    b = BinaryStar(s1, s2, state="RLO%d" % which, event=ev, time=1e6,
                   separation=a0, orbital_period=p, eccentricity=0.,
                   properties=PROPS)
    b.event, b.state = ev, "RLO%d" % which
    don, comp = (b.star_1, b.star_2) if which == 1 else (b.star_2, b.star_1)
    S = StepCEE(common_envelope_efficiency=alpha,
                common_envelope_option_for_lambda=option,
                common_envelope_alpha_thermal=ath,
                core_definition_H_fraction=hf,
                common_envelope_option_after_succ_CEE=AFTER[0],
                mass_loss_during_CEE_merged=loss)
    # what the spiral-in until a core touches its Roche lobe can unbind
    aR = max(rc / P.eggleton(mc, mc2, 1.), rc2 / P.eggleton(mc2, mc, 1.))
    E = alpha * G2 * (mc * mc2 / 2 / aR - M1 * M2 / 2 / a0)
    shares = [1.]
    if double:
        sh = (M1 - mc) / (M1 - mc + M2 - mc2)
        shares = [sh, 1 - sh]
    c.note(kind=kind, double=double, option=option, merge=merge, loss=loss,
           E=E, M1=M1, M2=M2, mc=mc, mc2=mc2, a0=a0, a1=a1, aR=aR,
           cols=list(pr.dtype.names))
    S(b)
    c.seen("profile_step", kind, double, option, merge, loss, E > 0, noprof)
    if not merge:
        c.expect(b.state == "detached", "survives", state=b.state)
        c.close(b.separation, a1, "separation from the profile's binding "
                "energy", rtol=1e-5)
        c.close(don.mass, mc, "core at the threshold", rtol=1e-9)
        if double:
            c.close(comp.mass, mc2, "companion's core at the threshold",
                    rtol=1e-9)
        return
    c.expect(b.state == "merged" and b.event == "oMerging%d" % which,
             "merges", state=b.state, event=b.event)
    parts = [(don, pr, M1, mc, rc, shares[0], kind)]
    if double:
        parts.append((comp, pr2, M2, mc2, rc2, shares[1], kind2))
    for s, q, M, core, rcore, sh, kd in parts:
        ej = M - s.mass
        if not loss or noprof:
            c.expect(ej == 0., "no mass is lost by default or without a "
                     "profile", ej=ej)
            continue
        cum = np.abs(ebind_ref(q, OPTS[2], 1.))
        th = sh * E
        c.expect(-1e-12 <= ej <= M - core + 1e-9,
                 "the ejected mass lies between nothing and the envelope",
                 ej=ej, envelope=M - core)
        # mass above which the binding energy is what is available
        k = int(np.argmax(cum[1:] >= th)) if np.any(cum[1:] >= th) \
            else len(q) - 1
        if th <= 0:
            k = 0
        if np.any(np.abs(cum[1:] / th - 1) < 1e-4):
            continue
        if abs(q["mass"][k] / core - 1) < 1e-6 \
                or abs(q["radius"][k] / rcore - 1) < 1e-6:
            continue
        if q["mass"][k] < core or q["radius"][k] < rcore:
            c.expect(abs(ej - (M - core)) < 1e-9
                     or abs(ej - (M - core - .01)) < 1e-9,
                     "with more energy than needed the envelope goes",
                     ej=ej, envelope=M - core)
        else:
            c.count("partial ejection")
            c.close(ej, M - q["mass"][k], "ejected: the layers that the "
                    "released orbital energy can unbind", rtol=1e-9,
                    atol=1e-9)
        if kd == "He":
            c.close(s.he_core_mass, s.mass, "a helium star is its helium core")
    if not double:
        c.expect(comp.mass == M2, "a companion without envelope ejects none")


@C.family("refuse", 60, 400)
def refuse(rng, c):
    don, comp = giant(rng, "H", "H-rich_Core_He_burning"), other(rng)
    ev = "oCE1"
    kw, k = {}, int(rng.integers(7))
    if k == 0:
        ev = [None, "CC1", "oRLO1", "ZAMS"][int(rng.integers(4))]
    elif k == 1:
        kw["prescription"] = "gamma"
    elif k == 2:
        kw["common_envelope_option_after_succ_CEE"] = "three_phases"
    elif k == 3:
        kw["core_definition_H_fraction"] = .2
    elif k == 4:
        don.state = str(rng.choice(["BH", "WD", "massless_remnant"]))
    elif k == 5:
        don = giant(rng, "He", "stripped_He_Core_He_depleted")
        kw["core_definition_He_fraction"] = .3
    else:
        c.raises(ValueError, lambda: StepCEE(alpha=1.),
                 "unknown parameters are refused")
        c.seen("refuse", k)
        return
    b = BinaryStar(don, comp, state="RLO1", event=ev, time=1e6,
                   separation=1e3, orbital_period=1e3, eccentricity=0.,
                   properties=PROPS)
    b.event = ev
    c.raises(ValueError, lambda: StepCEE(track_matcher=Matcher(.1), **kw)(b),
             "what is no common envelope is refused", k=k)
    c.seen("refuse", k, ev)


if __name__ == "__main__":
    sys.exit(C.main())
