"""Independent physics references (own constants, textbook formulas)."""
import numpy as np

G = 6.67428e-8
C = 2.99792458e10
MSUN = 1.9892e33
RSUN = 6.9598e10
LSUN = 3.8418e33
SECYR = 3.1558149984e7
DAY = 86400.0
KM = 1.0e5
ZSUN = 0.0142
T_UNIVERSE = 13.8e9


def kepler_a(P_days, m1, m2):
    """Separation (Rsun) from period (days), masses in Msun."""
    P = P_days * DAY
    return (G * (m1 + m2) * MSUN * P**2 / (4 * np.pi**2))**(1. / 3) / RSUN


def kepler_P(a, m1, m2):
    """Period (days) from separation (Rsun)."""
    return 2 * np.pi * np.sqrt((a * RSUN)**3 / (G * (m1 + m2) * MSUN)) / DAY


def eggleton(m1, m2, a=1.0):
    """Roche-lobe radius of m1 (same unit as a)."""
    q = np.asarray(m1, float) / np.asarray(m2, float)
    q23 = q**(2. / 3)
    return a * 0.49 * q23 / (0.6 * q23 + np.log(1 + q**(1. / 3)))


def peters_dadt(a, e, m1, m2):
    """da/dt [cm/s] and de/dt [1/s]; a in cm, m in g."""
    k = G**3 * m1 * m2 * (m1 + m2) / C**5
    da = -64. / 5 * k / (a**3 * (1 - e**2)**3.5) * (
        1 + 73. / 24 * e**2 + 37. / 96 * e**4)
    de = -304. / 15 * e * k / (a**4 * (1 - e**2)**2.5) * (
        1 + 121. / 304 * e**2)
    return da, de


def peters_time(m1, m2, a, e):
    """Exact Peters (1964) inspiral time to a=0 [yr]; Msun, Rsun."""
    from scipy.integrate import quad
    M1, M2, A = m1 * MSUN, m2 * MSUN, a * RSUN
    beta = 64. / 5 * G**3 * M1 * M2 * (M1 + M2) / C**5
    if e < 1e-6:
        return A**4 / (4 * beta) / SECYR
    c0 = A * (1 - e**2) * e**(-12. / 19) \
        * (1 + 121. / 304 * e**2)**(-870. / 2299)

    # substitute x = 1-e^2-safe variable: integrate in u with e = e0*u^(19/48)
    def f(x):
        return x**(29. / 19) * (1 + 121. / 304 * x**2)**(1181. / 2299) \
            / (1 - x**2)**1.5
    val, _ = quad(f, 0, e, epsabs=0, epsrel=1e-11, limit=400)
    return 12. / 19 * c0**4 / beta * val / SECYR


def rotmat(axis, ang):
    """Rodrigues rotation matrix."""
    k = np.asarray(axis, float)
    k = k / np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * K @ K


def solve_kepler(M, e):
    """Eccentric anomaly by bisection in [0, 2pi]."""
    lo, hi = 0.0, 2 * np.pi
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if mid - e * np.sin(mid) < M:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


def ks_stat(sample, cdf):
    """Kolmogorov-Smirnov distance * sqrt(n) (>2.8 has p < 4e-7)."""
    x = np.sort(np.asarray(sample, float))
    n = len(x)
    F = np.clip(cdf(x), 0, 1)
    d = max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))
    return d * np.sqrt(n)
