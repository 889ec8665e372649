"""Random population files (the format written by BinaryPopulation.save)."""
import os
import numpy as np
import pandas as pd
from posydon.popsyn import binarypopulation as BP

EVENTS = ["oRLO1", "oRLO2", "oCE1", "oCE2", "CC1", "CC2", "END", "maxtime",
          "redirect_from_ZAMS", "redirect_from_CO_HMS_RLO",
          "redirect_from_CO_HeMS_RLO", "redirect_from_CO_HeMS", "CO_contact",
          "oDoubleCE1", None, None, None]
STATES = ["detached", "RLO1", "RLO2", "contact", "disrupted", "merged"]
ICLASS = ["initial_MT", "stable_MT", "stable_reverse_MT", "no_MT",
          "unstable_MT", None]
MTH = ["Stable contact phase", "Stable RLOF during HMS", "no RLOF", None,
       "Stable RLOF during He"]
INI = dict(metallicity=1., number_of_binaries=10,
           binary_fraction_scheme="const", binary_fraction_const=.7,
           star_formation="burst", max_simulation_time=13.8e9,
           primary_mass_scheme="Kroupa2001", primary_mass_min=6.5,
           primary_mass_max=250., secondary_mass_scheme="flat_mass_ratio",
           secondary_mass_min=.35, secondary_mass_max=250.,
           orbital_scheme="period",
           orbital_period_scheme="Sana+12_period_extended",
           orbital_period_min=.75, orbital_period_max=6000.,
           orbital_separation_scheme="log_uniform", orbital_separation_min=5.,
           orbital_separation_max=1e5, eccentricity_scheme="zero",
           posydon_version="test")


STEPNAMES = ["step_SN", "step_end", "step_detached", "step_CO_HeMS_RLO",
             "step_initially_single", "step_CE", "initial_cond"]


def frames(rng, indices, mets, maxlen=7, with_met=True):
    """history, oneline data frames of the given systems, in that order"""
    hist, one = [], []
    for i in indices:
        n = int(rng.integers(1, maxlen))
        single = rng.random() < .15
        t = np.sort(rng.uniform(0, 1.3e10, n))
        t[0] = 0.
        ev = [EVENTS[k] for k in rng.integers(len(EVENTS), size=n)]
        ev[0] = "ZAMS"
        m1 = float(10 ** rng.uniform(.85, 2.3))
        m2 = float(m1 * rng.uniform(.06, 1))
        for k in range(n):
            hist.append((i, "initially_single_star" if single and k == 0 else
                         STATES[rng.integers(len(STATES))], ev[k], t[k],
                         STEPNAMES[rng.integers(len(STEPNAMES))], m1 * (1 - .1 * k / n),
                         m2, float(rng.normal())))
        one.append((i, "initially_single_star" if single else "detached", m1,
                    0. if single else m2, float(10 ** rng.uniform(0, 3.7)),
                    0., ICLASS[rng.integers(6)], MTH[rng.integers(5)],
                    float(mets[rng.integers(len(mets))]),
                    float(rng.normal())))
    h = pd.DataFrame(hist, columns=[
        "binary_index", "state", "event", "time", "step_names", "S1_mass",
        "S2_mass", "x"]).set_index("binary_index")
    o = pd.DataFrame(one, columns=[
        "binary_index", "state_i", "S1_mass_i", "S2_mass_i",
        "orbital_period_i", "eccentricity_i", "interp_class_HMS_HMS",
        "mt_history_HMS_HMS", "metallicity", "y"]).set_index("binary_index")
    if not with_met:
        o = o.drop(columns="metallicity")
    return h, o


def mass_table(o, mets, masses=None):
    rows = {}
    for z in mets:
        s = o[o["metallicity"] == z] if "metallicity" in o else o
        sg = s["state_i"] == "initially_single_star"
        a = s["S1_mass_i"][sg].sum()
        b = s["S1_mass_i"][~sg].sum() + s["S2_mass_i"][~sg].sum()
        rows[z] = (a + b, a, b, len(s))
    df = pd.DataFrame.from_dict(rows, orient="index", columns=[
        "simulated_mass", "simulated_mass_single", "simulated_mass_binaries",
        "number_of_systems"])
    df.index.name = "metallicity"
    return df


def write(path, h, o, mets, ini=None, mass=None):
    hm = {k: v for k, v in BP.HISTORY_MIN_ITEMSIZE.items() if k in h.columns}
    om = {k: v for k, v in BP.ONELINE_MIN_ITEMSIZE.items() if k in o.columns}
    if os.path.exists(path):
        os.remove(path)
    mt = mass_table(o, mets) if mass is None else mass
    with pd.HDFStore(path, mode="w") as s:
        s.append("history", h, min_itemsize=hm)
        s.append("oneline", o, min_itemsize=om)
        p = dict(INI)
        p.update(ini or {})
        s.append("ini_parameters", pd.DataFrame({k: [v] for k, v
                                                 in p.items()}))
        s.append("mass_per_metallicity", mt)
    return mt


def indices(rng, n):
    """0..n-1, or arbitrary numbers, sorted or not"""
    k = rng.random()
    if k < .35:
        return list(range(n)), "plain"
    ids = rng.choice(4 * n + 5, n, replace=False)
    if k < .6:
        return sorted(int(x) for x in ids), "sparse"
    if k < .8:
        # merged job array: blocks out of order
        cut = int(rng.integers(0, n + 1))
        a = list(range(n))
        return a[cut:] + a[:cut], "blocks"
    return [int(x) for x in ids], "shuffled"


def same(a, b):
    """frames equal (values, order, index), None and NaN alike"""
    if list(a.columns) != list(b.columns) or len(a) != len(b):
        return False
    if not np.array_equal(np.asarray(a.index), np.asarray(b.index)):
        return False
    for c in a.columns:
        x, y = a[c].to_numpy(), b[c].to_numpy()
        nx, ny = pd.isna(x), pd.isna(y)
        if not np.array_equal(nx, ny) or not np.all(x[~nx] == y[~ny]):
            return False
    return True
