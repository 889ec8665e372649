"""Independent star-formation-history model (cosmic SFR density and the
fraction formed in metallicity bins)."""
import numpy as np
from scipy import special

ZSUN = 0.0142
PAR = {"Madau+Dickinson14": (.015, 2.7, 2.9, 5.6),
       "Madau+Fragos17": (.01, 2.6, 3.2, 6.2),
       "Neijssel+19": (.01, 2.77, 2.9, 4.7),
       "Fujimoto+24": (.010, 2.8, 3.3, 6.6)}


def csfrd(name, z):
    a, b, c, d = PAR[name]
    z = np.asarray(z, float)
    return a * (1 + z) ** b / (1 + ((1 + z) / c) ** d)


def sigma(s):
    return {"Bavera+20": .5, "Neijssel+19": .39}.get(s, s) \
        if isinstance(s, str) else float(s)


def mean_met(name, z):
    z = np.asarray(z, float)
    if name == "Neijssel+19":
        return .035 * 10 ** (-.23 * z)
    return 10 ** (.153 - .074 * z ** 1.34) * ZSUN


def cdf_lognormal(name, s, z):
    """cumulative fraction below metallicity x at redshift z"""
    s = sigma(s)
    if name == "Neijssel+19":
        mu = np.log(mean_met(name, z)) - s * s / 2
        return lambda x: special.ndtr((np.log(x) - mu) / s)
    mu = np.log10(mean_met(name, z)) - s * s * np.log(10) / 2
    return lambda x: special.ndtr((np.log10(x) - mu) / s)


def fractions(cdf, bins, zmin=None, zmax=None, normalise=False):
    """mass fraction in [lo, hi] of every bin; the outer bins reach to the
    limits of the star formation if these lie outside the bins, and nothing
    is formed beyond the limits."""
    lo, hi = np.array(bins[:-1], float), np.array(bins[1:], float)
    if zmax is not None:
        if zmax >= hi[-1]:
            hi[-1] = zmax
        hi = np.minimum(hi, zmax)
    if zmin is not None:
        if zmin <= lo[0]:
            lo[0] = zmin
        lo = np.maximum(lo, zmin)
    hi = np.maximum(hi, lo)
    f = np.array([float(cdf(h)) - float(cdf(l)) for l, h in zip(lo, hi)])
    if normalise:
        f = f / f.sum()
    return f
