"""Synthetic grids of runs for the initial-final interpolation: irregular
points (so that no triangulation is ambiguous), classes as regions, final
values as smooth functions plus awkward columns."""
from types import SimpleNamespace
import numpy as np

NUM = ["star_1_mass", "star_2_mass", "period_days", "age", "neg", "signed",
       "with_zero", "constant", "gappy", "S1_log_R", "S1_log_L",
       "S1_log_Teff", "S1_center_h1"]
CLASSES = ["no_MT", "stable_MT", "unstable_MT"]
MODELS = ["SN_MODEL_v2_01", "SN_MODEL_v2_02"]
# Stefan-Boltzmann with the constants of the package is enforced on log_Teff
LAW = ["S1_log_Teff"]


def points(rng, n, q):
    """initial conditions; q: companions scale with the primary"""
    m1 = 10 ** rng.uniform(np.log10(6), 2, n)
    f = rng.uniform(.05, .98, n)
    m2 = m1 * f if q else rng.uniform(1, 2.5, n)
    if q:
        # make the extremes reach the corners
        m1[:4] = 6.01, 6.02, 99., 99.5
        m2[:4] = m1[:4] * (.06, .9, .06, .9)
    else:
        # light companions at both ends (the kind of grid is read off there)
        i, j = m1.argmin(), m1.argmax()
        m2[[i, j]] = rng.uniform(1, 1.3, 2)
    p = 10 ** rng.uniform(-.5, 3.5, n)
    return np.array([m1, m2, p]).T


def classify(X, q, extra=True):
    r = X[:, 1] / X[:, 0] if q else X[:, 1] - 1.3
    lp = np.log10(X[:, 2])
    k = np.where(lp > 1.8, "no_MT", np.where(r > .45, "stable_MT",
                                             "unstable_MT"))
    if extra:
        k = np.where(lp < -.1, "initial_MT", k)
    return k.astype("U40")


def finals(rng, X):
    """columns of final values: name -> array"""
    l1, l2, lp = np.log10(X).T
    a = rng.uniform(.2, 1, 12)
    d = {"star_1_mass": X[:, 0] * (.3 + .1 * np.sin(lp)),
         "star_2_mass": X[:, 1] * (1 + .2 * a[0] * l1),
         "period_days": 10 ** (a[1] * lp + .3 * l1 - .2 * l2),
         "age": 1e10 * X[:, 0] ** -2.5,
         "neg": -10 ** (a[2] * l1 + lp * .1),
         "signed": np.sin(3 * a[3] * l1) + .5 * lp - .7,
         "with_zero": np.maximum(0., lp - 2 * a[4]),
         "constant": np.full(len(X), 3.25),
         "gappy": a[5] + l1 * a[6] + .2 * lp ** 2,
         "S1_log_R": a[7] * l1 + .4 * lp,
         "S1_log_L": 2 * a[8] * l1 + .1 * lp + 2,
         "S1_center_h1": .7 * a[9] * (1 + np.cos(l1 + lp)) / 2}
    d["S1_log_Teff"] = 3.761 + (d["S1_log_L"] - 2 * d["S1_log_R"]) / 4
    return d


def make(rng, n=160, q=True, extra=True, models=False, gaps=True,
         refused=True):
    X = points(rng, n, q)
    ic = classify(X, q, extra)
    d = finals(rng, X)
    if gaps:
        d["gappy"][rng.random(n) < .1] = np.nan
    if refused:
        w = rng.random(n) < .06
        w[:4] = False
        ic[w] = rng.choice(["not_converged", "ignored_no_RLO",
                            "ignored_no_binary_history"], w.sum())
        for k in d:
            d[k][w] = np.nan
    return build(rng, X, ic, d, models)


def build(rng, X, ic, d, models=False):
    n = len(X)
    iv = np.zeros(n, dtype=[(k, "f8") for k in (
        "star_1_mass", "star_2_mass", "period_days")])
    for i, k in enumerate(iv.dtype.names):
        iv[k] = X[:, i]
    fv = np.zeros(n, dtype=[("model_number", "f8")]
                  + [(k, "f8") for k in NUM] + [("all_nan", "f8")]
                  + [("interpolation_class", "U40"), ("S1_state", "U40"),
                     ("mt_history", "U40")])
    for k in NUM:
        fv[k] = d[k]
    fv["all_nan"] = np.nan
    fv["interpolation_class"] = ic
    x = np.nan_to_num(X, nan=10.)
    fv["S1_state"] = np.where(x[:, 0] > 25, "stripped_He_Core_He_depleted",
                              np.where(x[:, 2] > 30, "H-rich_Core_C_depletion",
                                       "H-rich_non_burning"))
    fv["mt_history"] = np.where(x[:, 2] > 60, "None", "Stable RLOF")
    sn = {}
    for j, m in enumerate(MODELS if models else []):
        t = np.zeros(n, dtype=[("S1_CO_type", "U20"), ("S1_SN_type", "U20"),
                               ("S1_CO_interpolation_class", "U20"),
                               ("S1_mass", "f8"), ("S1_f_fb", "f8"),
                               ("S1_spin", "f8")])
        k = np.where(x[:, 0] > 30 + 5 * j, "BH",
                     np.where(x[:, 0] > 12, "NS", "None"))
        k = np.where(ic == "initial_MT", "None", k)
        for c in ("S1_CO_type", "S1_CO_interpolation_class"):
            t[c] = k
        t["S1_SN_type"] = np.where(k == "None", "None", "CCSN")
        w = k != "None"
        t["S1_mass"] = np.where(w, .4 * x[:, 0] + j, np.nan)
        t["S1_f_fb"] = np.where(w, 1 / (1 + x[:, 2] / 30), np.nan)
        t["S1_spin"] = np.nan
        sn[m] = t
    return SimpleNamespace(initial_values=iv, final_values=fv, SN_MODELS=sn)
