"""Reference physics of the detached step (units Msun, Rsun, yr), written from
the papers the code names; symmetric in the two stars."""
import numpy as np
from phys import G, C, MSUN, RSUN, SECYR, eggleton

GSOL = G * MSUN / RSUN**3 * SECYR**2        # Rsun^3 / Msun / yr^2


def clip15(m):
    return min(max((1.5 - m) / 0.2, 0.0), 1.0)


def fin(x):
    return float(x) if np.isfinite(x) else 0.0


def tide_one(s, mc, a, e):
    """(da, de, dOmega) raised in star s by companion of mass mc."""
    m, R, w = s["mass"], s["R"], s["omega"]
    q = mc / m
    # mean motion from Kepler's law in (AU, yr, Msun), AU = 214.95 Rsun
    n = 2 * np.pi * np.sqrt((m + mc) / (a / 214.95)**3)
    Porb = 2 * np.pi / n
    env = [s["mass_conv_reg_fortides"], s["thickness_conv_reg_fortides"],
           s["radius_conv_reg_fortides"]]
    kc = 0.0
    if all(np.isfinite(v) and v != 0 for v in env):
        tau = 0.431 * (env[0] * env[1] * env[2] / (3 * s["L"]))**(1 / 3)
        # tidal pumping frequency |1/Porb - 1/Pspin|
        nu = abs(n - w) / (2 * np.pi)
        f = 1.0 if nu == 0 else min(1.0, (1 / (2 * tau * nu))**2)
        kc = 2 / 21 * f / tau * env[0] / m
    kc = fin(kc)
    core = s["conv_mx1_top_r"] - s["conv_mx1_bot_r"]
    if core > R or core <= 0 or s["conv_mx1_bot_r"] > 0.1 * R:
        E2 = 1.592e-9 * m**2.84
    elif s["surface_h1"] > 0.4:
        E2 = 10**-0.42 * (core / R)**7.5
    else:
        E2 = 10**-0.93 * (core / R)**6.7
    kr = np.sqrt(GSOL * m * R**2 / a**5) * (1 + q)**(5 / 6) * E2
    k = max(kc, kr)
    x = 1 - e * e
    e2, e4, e6, e8 = e**2, e**4, e**6, e**8
    f1 = 1 + 15.5 * e2 + 31.875 * e4 + 11.5625 * e6 + 0.390625 * e8
    f2 = 1 + 7.5 * e2 + 5.625 * e4 + 0.3125 * e6
    f3 = 1 + 3.75 * e2 + 1.875 * e4 + 0.078125 * e6
    f4 = 1 + 1.5 * e2 + 0.125 * e4
    f5 = 1 + 3 * e2 + 0.375 * e4
    r = R / a
    da = -6 * k * q * (1 + q) * r**8 * a / x**7.5 * (f1 - x**1.5 * f2 * w / n)
    de = -27 * k * q * (1 + q) * r**8 * e / x**6.5 * (
        f3 - 11 / 18 * x**1.5 * f4 * w / n)
    rg2 = s["inertia"] / (m * R * R)
    dO = 3 * k * q**2 / rg2 * r**6 * n / x**6 * (f2 - x**1.5 * f5 * w / n)
    scale = (6 * k * q * (1 + q) * r**8 * a / x**7.5
             * (f1 + x**1.5 * f2 * w / n),
             27 * k * q * (1 + q) * r**8 * e / x**6.5
             * (f3 + x**1.5 * f4 * w / n),
             3 * k * q**2 / rg2 * r**6 * n / x**6
             * (f2 + x**1.5 * f5 * w / n))
    return (da, de, dO), scale


def gw(m1, m2, a, e):
    """2.5PN + 3.5PN (Junker & Schaefer 1992), Rsun/yr and 1/yr."""
    M = m1 + m2
    nu = m1 * m2 / M**2
    x = G * M * MSUN / (a * RSUN * C**2)
    y = 1 - e * e
    e2, e4, e6 = e**2, e**4, e**6
    da = -2 * C / 15 * nu / y**4.5 * x**3 * (
        (96 + 292 * e2 + 37 * e4) * y - x / 28 * (
            (14008 + 4707 * nu) + (80124 + 21560 * nu) * e2
            + (17325 + 10458 * nu) * e4 - 0.5 * (5501 - 1036 * nu) * e6))
    de = -nu * C**3 / (15 * G * M * MSUN) * x**4 * e / y**3.5 * (
        (304 + 121 * e2) * y - x / 56 * (
            8 * (16705 + 4676 * nu) + 12 * (9082 + 2807 * nu) * e2
            - (25211 - 3388 * nu) * e4))
    return da * SECYR / RSUN, de * SECYR


def braking(mode, s):
    m, R, w, I = s["mass"], s["R"], s["omega"], s["inertia"]
    tau = s["conv_env_turnover_time_l_b"]
    if mode == "RVJ83":
        # 3.8e-30 cm^-2 s  M R^4 w^3
        Ic = I * MSUN * RSUN**2
        wc = w / SECYR
        return -3.8e-30 * m * MSUN * (R * RSUN)**4 * wc**3 / Ic \
            * SECYR**2 * clip15(m)
    if mode == "M15":
        Ic = I * MSUN * RSUN**2
        wsun = 2.6e-6
        wc = w / SECYR
        crit = np.sqrt(G * m * MSUN / (R * RSUN)**3)
        T0 = 1.4e30 * R**3.1 * m**0.5 * (1 + (wc / crit / 0.072)**2)**(-0.22)
        if w == 0:
            return 0.0
        Ro = 2 * np.pi / w / tau
        if Ro < 0.14:
            T = T0 * (2 / 0.14)**2.6 * wc / wsun
        else:
            T = T0 * (tau / (12.9 / 365.25))**2.6 * (wc / wsun)**3.6
        return -T / Ic * SECYR**2 * clip15(m)
    if mode == "G18":
        if w == 0:
            return 0.0
        Ro = 2 * np.pi / w / tau
        n = 0.03 / Ro + 0.5 * Ro + 1
        Q = 4.05 * np.exp(-1.4 * n)
        # c [g cm^2] w^3 tau Q
        return -3e41 / (MSUN * RSUN**2) * w**3 * tau * Q / I * clip15(m)
    if mode == "CARB":
        md = abs(s["mdot"]) * MSUN / SECYR
        if md == 0 or w == 0:
            return 0.0
        wc = w / SECYR
        B = (wc / 3e-6) * (tau * SECYR / 2.8e6)      # Gauss
        Rc = R * RSUN
        v2 = 2 * G * m * MSUN / Rc + 2 * wc**2 * Rc**2 / 0.07**2
        RA = Rc * (B**4 * Rc**4 / (md**2 * v2))**(1 / 3)
        return -2 / 3 * wc * md * RA**2 / (I * MSUN * RSUN**2) \
            * SECYR**2 * clip15(m)
    raise ValueError(mode)


def spin_winds(s):
    w, I = s["omega"], s["inertia"]
    return 2 / 3 * s["R"]**2 * w * s["mdot"] / I \
        + min(-w * s["Idot"] / I, 100.0)


def rhs(pri, sec, a, e, flags, mode):
    """[da, de, dOsec, dOpri] and an absolute scale for each."""
    out = np.zeros(4)
    sc = np.zeros(4)
    if flags["tides"]:
        for s, o, k in ((sec, pri, 2), (pri, sec, 3)):
            v, z = tide_one(s, o["mass"], a, e)
            v = [fin(x) for x in v]
            z = [fin(x) for x in z]
            out[0] += v[0]
            out[1] += v[1]
            out[k] += v[2]
            sc[0] += abs(z[0])
            sc[1] += abs(z[1])
            sc[k] += abs(z[2])
    if flags["gr"]:
        d = gw(pri["mass"], sec["mass"], a, e)
        out[:2] += d
        sc[:2] += np.abs(d)
    if flags["mb"]:
        for s, k in ((sec, 2), (pri, 3)):
            d = fin(braking(mode, s))
            out[k] += d
            sc[k] += abs(d)
    if flags["winds"]:
        for s in (sec, pri):
            d = -a * s["mdot"] / (pri["mass"] + sec["mass"])
            out[0] += fin(d)
            sc[0] += abs(fin(d))
    if flags["spin"]:
        for s, k in ((sec, 2), (pri, 3)):
            d = fin(spin_winds(s))
            out[k] += d
            sc[k] += abs(d)
    return out, sc
