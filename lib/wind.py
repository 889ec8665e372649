"""Reference Eddington and Bondi-Hoyle accretion onto compact objects."""
import numpy as np
import phys as P


def edd(kind, m, x):
    """(mdot [Msun/yr], efficiency)"""
    if x is None or np.isnan(x):
        x = .7155
    if kind == "BH":
        eta = 1 - np.sqrt(1 - (1 / 3.) ** 2)
    else:
        R = 12.5e5 if kind == "NS" else 2.9e8 * m ** (-1 / 3)
        eta = P.G * m * P.MSUN / (R * P.C ** 2)
    md = 4 * np.pi * P.G * m * P.MSUN / (.2 * (1 + x) * eta * P.C)
    return md / P.MSUN * P.SECYR, eta


class Fixed:
    """random generator giving one known number"""
    def __init__(self, u):
        self.u = u

    def random(self, n=None):
        return self.u if n is None else np.full(n, self.u)


def bondi(b, acc, don, u, scheme, disk, edd_rate):
    GM = P.G * P.MSUN
    m, ma, R = don.mass, acc.mass, 10 ** don.log_R * P.RSUN
    x = don.surface_h1
    T = (10 ** don.log_L * P.LSUN / (4 * np.pi * R ** 2 * 5.670373e-5)) ** .25
    vesc = np.sqrt(2 * GM * m / R)
    if scheme == "Hurley+2002":
        if x <= .01:
            beta = np.interp(m, [10, 120], [.125, 7.])
        else:
            beta = np.interp(m, [1.4, 120], [.5, 7.])
        vw = vesc * np.sqrt(beta)
    else:
        vw = vesc * (2.65 if T >= 21000 else 1. if T <= 10000 else 1.4)
    if x < .4 and T > 1e4:
        vw = 1e5 * 10 ** np.interp(don.lg_wind_mdot, [-50, -5.25, 50],
                                   [3.25 + .25 * 44.75, 3.25,
                                    3.25 + .45 / 2.75 * 55.25])
    e, a = b.eccentricity, b.separation * P.RSUN
    E = P.solve_kepler(2 * np.pi * u, e)
    r = a * (1 - e * np.cos(E))
    v = np.sqrt(GM * (m + ma) * (2 / r - 1 / a))
    # radial component of the orbital velocity
    vr = np.sqrt(GM * (m + ma) / (a * (1 - e * e))) * e * np.sin(
        2 * np.arctan2(np.sqrt(1 + e) * np.sin(E / 2),
                       np.sqrt(1 - e) * np.cos(E / 2)))
    vrel = np.sqrt(v ** 2 + vw ** 2 + 2 * vw * vr)
    mdot = 1.5 * (GM * ma) ** 2 / (2 * vrel ** 3 * vw * r ** 2) \
        * 10 ** don.lg_wind_mdot
    rd = 2 / 3 * (1 / 3 / (1 + m / ma)) ** 2 * (P.C / v) ** 2 \
        / (1 + (vw / v) ** 2) ** 4
    if disk and rd <= 1:
        mdot = 1e-99
    return min(mdot, edd_rate), rd, mdot
