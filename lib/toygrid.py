"""Analytic single-star grids (duck-typed GRIDInterpolator) for the matcher.

Every quantity is a smooth analytic function of (initial mass, age), so the
oracle can evaluate the true track anywhere."""
import numpy as np
from phys import MSUN, RSUN


def _s(x, x0, w):
    return 1 / (1 + np.exp(-(x - x0) / w))


class ToyGrid:
    def __init__(self, hrich=True, mmin=0.5, mmax=100., n=1500):
        self.h = hrich
        self.grid_mass = np.geomspace(mmin, mmax, 40)
        self.n = n
        self.calls = 0

    def lifetime(self, m0):
        return (1e10 * m0**-2.5 + 3e6) * (1.0 if self.h else 0.12)

    def values(self, m0, t):
        """dict of every key at ages t (array)."""
        t = np.asarray(t, float)
        tl = self.lifetime(m0)
        x = np.clip(t / tl, 0, 1)
        wl = 0.02 * m0**0.5               # total mass-loss fraction
        wl = min(wl, 0.25)
        mass = m0 * (1 - wl * x**2)
        mdot = -m0 * wl * 2 * x / tl
        h = self.h
        xt = 0.8 if h else 0.0            # end of core H burning
        if h:
            ch = np.clip(0.7 * (1 - x / xt), 0, None)
            che = 0.98 - ch - np.clip((x - xt) / (0.995 - xt), 0, 1) * 0.98
        else:
            ch = 0 * x
            che = 0.98 * (1 - np.clip(x / 0.995, 0, 1))
        che = np.clip(che, 0, None)
        cc = np.clip(0.35 * (0.98 - ch - che) / 0.98, 0, None) \
            * np.clip((1 - x) / 0.001, 0, 1)
        sh = (0.7 if h else 0.0) + 0 * x
        logR = (np.log10(m0) * 0.65 + 0.25 * x + 1.9 * _s(x, .86, .03)) if h \
            else (np.log10(m0) * 0.6 - 0.7 + 0.15 * x + 0.5 * _s(x, .92, .03))
        logL = 3.2 * np.log10(m0) + 0.4 * x
        logT = 3.76 + 0.25 * (logL - 2 * logR)
        hec = (0.02 * m0 * x / xt * (x < xt) + (x >= xt)
               * m0**1.15 * (0.16 + 0.1 * (x - xt))) if h else mass + 0
        hec = np.minimum(hec, 0.95 * mass) if h else hec
        coc = np.clip(x - (0.9 if h else 0.6), 0, None) / (0.1 if h else 0.4) \
            * 0.7 * hec
        z = 0 * x
        I = 0.07 * mass * 10**(2 * logR) * MSUN * RSUN**2 * (1 - 0.5 * x)
        lH = np.where(ch > 0.0, logL, logL - 0.5) if h else -20 + z
        lHe = np.where(ch > 0.0, -20.0, logL - 0.2) if h else logL - 0.01
        R = 10**logR
        d = dict(
            age=t, mass=mass, mdot=mdot, inertia=I,
            conv_mx1_top_r=0.2 * R * (1 - .3 * x), conv_mx1_bot_r=z,
            surface_h1=sh, center_h1=ch,
            mass_conv_reg_fortides=0.05 * mass * (0.2 + x),
            thickness_conv_reg_fortides=0.15 * R,
            radius_conv_reg_fortides=0.9 * R,
            log_Teff=logT, surface_he3=1e-5 + z,
            surface_he4=0.28 + z if h else 0.98 + z,
            center_he4=che, avg_c_in_c_core=0.3 + z, log_LH=lH, log_LHe=lHe,
            log_LZ=-15 + 10 * x, log_Lnuc=logL, c12_c12=-30 + z,
            center_c12=cc, he_core_mass=hec, log_L=logL, log_R=logR,
            c_core_mass=coc * .5, o_core_mass=coc * .4, co_core_mass=coc,
            c_core_radius=.1 + z, o_core_radius=.1 + z, co_core_radius=.1 + z,
            spin_parameter=1 + z, log_total_angular_momentum=50 + z,
            center_n14=0.005 + z, center_o16=0.01 + 0.6 * x,
            surface_n14=0.001 + z, surface_o16=0.004 + z,
            conv_env_top_mass=mass, conv_env_bot_mass=.9 * mass,
            conv_env_top_radius=R, conv_env_bot_radius=.8 * R,
            conv_env_turnover_time_g=1e6 + z,
            conv_env_turnover_time_l_b=2e6 + z,
            conv_env_turnover_time_l_t=1e5 + z,
            envelope_binding_energy=-1e47 + z, lambda_CE_1cent=.5 + z,
            lambda_CE_10cent=.6 + z, lambda_CE_30cent=.7 + z,
            lambda_CE_pure_He_star_10cent=.4 + z, center_gamma=.1 + z,
            total_mass_h1=.5 * mass, total_mass_he4=.4 * mass)
        if not h:
            d["total_mass_h1"] = z
            d["mass_conv_reg_fortides"] = 0.01 * mass
        return d

    def ages(self, m0):
        tl = self.lifetime(m0)
        return tl * np.linspace(0, 1, self.n)**0.9

    def get(self, key, m0):
        self.calls += 1
        if not (self.grid_mass.min() <= m0 <= self.grid_mass.max()):
            raise ValueError("mass out of the grid")
        return np.array(self.values(m0, self.ages(m0))[key], float)

    def get_final_values(self, key, m0):
        tl = self.lifetime(m0)
        k = key[3:]
        v = self.values(m0, np.array([tl]))
        if k in v:
            return float(v[k][-1])
        return 1000. + m0 if k != "SN" else "x"

    def get_profile(self, key, m0):
        n = 20
        dt = np.dtype([(k, float) for k in (
            "mass", "radius", "logRho", "omega", "energy",
            "x_mass_fraction_H", "y_mass_fraction_He",
            "z_mass_fraction_metals", "neutral_fraction_H",
            "neutral_fraction_He", "avg_charge_He")])
        p = np.zeros(n, dt)
        f = np.linspace(1, 0.01, n)
        p["mass"] = m0 * f
        p["radius"] = f
        p["logRho"] = 2 - 3 * f
        return p[key].copy(), p
