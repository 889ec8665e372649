"""Synthetic MESA runs on disk, with the tables that were written kept in
memory (the oracle for grids made from them)."""
import gzip
import os
import numpy as np

BH = ["model_number", "age", "star_1_mass", "star_2_mass", "period_days",
      "binary_separation", "lg_system_mdot_1", "lg_system_mdot_2",
      "lg_wind_mdot_1", "lg_wind_mdot_2", "lg_mstar_dot_1", "lg_mstar_dot_2",
      "lg_mtransfer_rate", "xfer_fraction", "rl_relative_overflow_1",
      "rl_relative_overflow_2", "trap_radius", "acc_radius", "t_sync_rad_1",
      "t_sync_conv_1", "t_sync_rad_2", "t_sync_conv_2"]
STAR = ["he_core_mass", "c_core_mass", "o_core_mass", "he_core_radius",
        "c_core_radius", "o_core_radius", "center_h1", "center_he4",
        "center_c12", "center_n14", "center_o16", "surface_h1", "surface_he4",
        "surface_c12", "surface_n14", "surface_o16", "c12_c12",
        "center_gamma", "avg_c_in_c_core", "surf_avg_omega",
        "surf_avg_omega_div_omega_crit", "log_LH", "log_LHe", "log_LZ",
        "log_Lnuc", "log_Teff", "log_L", "log_R", "log_center_T",
        "log_center_Rho", "total_moment_of_inertia", "spin_parameter",
        "log_total_angular_momentum", "conv_env_top_mass",
        "conv_env_bot_mass", "conv_env_top_radius", "conv_env_bot_radius",
        "conv_env_turnover_time_g", "conv_env_turnover_time_l_b",
        "conv_env_turnover_time_l_t", "envelope_binding_energy",
        "mass_conv_reg_fortides", "thickness_conv_reg_fortides",
        "radius_conv_reg_fortides", "lambda_CE_1cent", "lambda_CE_10cent",
        "lambda_CE_30cent", "co_core_mass", "co_core_radius",
        "lambda_CE_pure_He_star_10cent", "log_L_div_Ledd", "total_mass_h1",
        "total_mass_he4"]
PROFILE = ["radius", "mass", "logRho", "omega", "energy", "x_mass_fraction_H",
           "y_mass_fraction_He", "z_mass_fraction_metals",
           "neutral_fraction_H", "neutral_fraction_He", "avg_charge_He"]
OUT = ["termination code: min_timestep_limit", "termination code: Primary has "
       "depleted central carbon", "termination code: gamma_center_limit",
       "Terminate: overflow from L2 (Marchant+ 16)", "nothing here",
       "termination code: Secondary has depleted central carbon"]
INITIAL_RLO = "termination code: Terminate because of overflowing initial model"


def table(cols, data):
    a = np.zeros(len(data[cols[0]]), dtype=[(c, "f8") for c in cols])
    for c in cols:
        a[c] = data[c]
    return a


def opener(path, gz):
    return gzip.open(path + ".gz", "wt") if gz else open(path, "w")


def write_table(path, a, header, gz=False, partial=0, drop=()):
    """header: dict for the second and third line"""
    names = [c for c in a.dtype.names if c not in drop]
    with opener(path, gz) as f:
        f.write("header one\n%s\n%s\nfour\nfive\n" % (
            " ".join(header), " ".join(repr(float(v))
                                       for v in header.values())))
        f.write(" ".join(names) + "\n")
        for r in a:
            f.write(" ".join(repr(float(r[c])) for c in names) + "\n")
        if partial:          # a run killed while writing
            f.write(" ".join(repr(float(a[-1][c]) + 1)
                             for c in names[:partial]) + "\n")


def stellar(rng, model, age, mass, cols, kind):
    n = len(model)
    d = {c: rng.normal(size=n) for c in cols}
    x = np.linspace(0, 1, n)
    end = {"ms": .4, "he": .75, "c": 1.}[kind]
    x = x * end
    ch = np.clip(.7 * (1 - x / .5), 0, None)
    che = np.where(x < .5, .98 - ch, np.clip(.98 * (1 - (x - .5) / .35), 0,
                                             None))
    cc = np.where(x < .5, 0., np.clip((x - .5) / .3, 0, 1) * .3)
    cc = np.where(x > .95, .3 * np.clip((1 - x) / .05, 0, 1), cc)
    d.update(center_h1=ch, center_he4=che, center_c12=cc,
             surface_h1=np.full(n, .7 if rng.random() < .7 else .0),
             log_Lnuc=4 + 0 * x,
             log_LH=np.where(ch > 0, 4, 2.), log_LHe=np.where(ch > 0, -9, 3.9))
    d["he_core_mass"] = x * mass * .5
    d["co_core_mass"] = np.clip(x - .45, 0, None) * mass * \
        rng.uniform(.5, 1.5)
    if "model_number" in cols:
        d["model_number"] = model
    if "star_age" in cols:
        d["star_age"] = age
    if "star_mass" in cols:
        d["star_mass"] = np.full(n, mass)
    return table(cols, d)


def thin(rng, model):
    """rows of the models that one table holds: restarts write some again"""
    k = np.arange(len(model))
    if rng.random() < .3 and len(k) > 3:
        k = np.sort(rng.choice(k, int(rng.integers(2, len(k) + 1)),
                               replace=False))
        k = np.unique(np.concatenate((k, [0, len(model) - 1])))
    if rng.random() < .3 and len(k) > 3:
        i = int(rng.integers(1, len(k) - 1))
        j = int(rng.integers(i, len(k) - 1))
        k = np.concatenate((k[:j + 1], k[i:]))
    return k


class Run:
    """one run; tables holds what was written (None: no file)"""

    def __init__(self, rng, root, i, binary=True, m1=None, m2=None, P=None,
                 Z=.0142, n=None, gz=None, flag=None, kinds=None, extra=(),
                 mt=None, ecc=False, tag=""):
        self.binary, self.Z, self.i = binary, Z, i
        self.m1 = round(float(10 ** rng.uniform(.3, 2.)), 4) \
            if m1 is None else m1
        self.m2 = round(float(self.m1 * rng.uniform(.1, 1.)), 4) \
            if m2 is None else m2
        self.P = float("%.4e" % 10 ** rng.uniform(-1, 3)) if P is None else P
        if binary:
            self.key = ("%.4f" % self.m1, "%.4f" % self.m2,
                        "%.4e" % self.P, "%.4e" % Z)
            name = "Zbase_%.4f_m1_%s_m2_%s_initial_z_%s_" \
                "initial_period_in_days_%s_grid_index_%d" % (
                    (Z,) + (self.key[0], self.key[1], self.key[3],
                            self.key[2], i))
        else:
            self.key = ("%.4f" % self.m1, "%.4e" % Z)
            name = "Zbase_%.4f_initial_mass_%s_initial_z_%s_grid_index_%d" % (
                (Z,) + self.key + (i,))
        self.path = os.path.join(root, name)
        self.n = int(rng.integers(3, 14)) if n is None else n
        self.flag = str(rng.choice(OUT)) if flag is None else flag
        self.gz = (lambda: rng.random() < .25) if gz is None else (lambda: gz)
        self.tables = dict.fromkeys(["binary_history", "history1", "history2",
                                     "final_profile1", "final_profile2"])
        self.broken = None
        self.header = {}
        self.build(rng, kinds, list(extra), mt)

    def build(self, rng, kinds, extra, mt):
        n = self.n
        model = np.cumsum(rng.integers(1, 4, n)).astype(float)
        age = np.cumsum(10 ** rng.uniform(1, 5, n))
        self.kinds = kinds or [str(rng.choice(["ms", "he", "c"])),
                               str(rng.choice(["ms", "he", "c"]))]
        self.model, self.age = model, age
        if self.binary:
            d = {c: rng.normal(size=n) for c in BH + extra}
            d.update(model_number=model, age=age,
                     star_1_mass=np.linspace(1, .6, n) * self.m1 * .999,
                     star_2_mass=self.m2 * 1.0001 + 0 * age,
                     period_days=self.P * (1.01 + .1 * np.arange(n)))
            mt = str(rng.choice(["no", "one", "two", "start"])) \
                if mt is None else mt
            self.mt = mt
            r1, r2 = np.full(n, -.5), np.full(n, -.6)
            rate = np.full(n, -99.)
            on = slice(n // 2, None) if mt != "start" else slice(0, None)
            if mt in ("one", "start"):
                r1[on], rate[on] = .1, -5.
            elif mt == "two":
                r2[on], rate[on] = .1, -6.
            d.update(rl_relative_overflow_1=r1, rl_relative_overflow_2=r2,
                     lg_mtransfer_rate=rate)
            k = thin(rng, model)
            cols = BH + extra
            if rng.random() < .3:
                cols = list(rng.permutation(cols))
            self.tables["binary_history"] = table(cols, d)[k]
        cols = (["model_number", "star_age"] if self.binary else
                ["model_number", "star_age", "star_mass"]) + STAR + extra
        for s in (1, 2) if self.binary else (1,):
            if self.binary and rng.random() < .15:
                continue                       # compact object or no output
            t = stellar(rng, model, age, self.m1 if s == 1 else self.m2, cols,
                        self.kinds[s - 1])
            self.tables["history%d" % s] = t[thin(rng, model)]
            if rng.random() < .85 or not self.binary:
                m = int(rng.integers(5, 30))
                p = {c: rng.random(m) for c in PROFILE + extra}
                p["mass"] = np.sort(p["mass"])[::-1] * self.m1
                p["radius"] = np.sort(p["radius"])[::-1]
                self.tables["final_profile%d" % s] = table(PROFILE + extra, p)

    def write(self, rng, partial=None):
        os.makedirs(self.path)
        out = "out.txt" if self.binary else "out_star1_formation_step0.txt"
        with opener(os.path.join(self.path, out), self.gz()) as f:
            f.write("bla\n%s\nbla\n" % self.flag)
        with opener(os.path.join(self.path, "inlist_grid_points"),
                    self.gz()) as f:
            if self.binary:
                f.write("&binary_controls\n\tm1 = %rd0\n\tm2 = %rd0\n"
                        "\tinitial_period_in_days = %rd0\n/\n" % (
                            self.m1, self.m2, self.P))
            else:
                f.write("&controls\n\tinitial_mass = %rd0\n\tinitial_z = "
                        "%rd0\n\tZbase = %rd0\n/\n" % (self.m1, self.Z,
                                                       self.Z))
        Y = float(rng.uniform(.24, .3))
        self.Y = Y
        for name, a in self.tables.items():
            if a is None:
                continue
            if name == "binary_history":
                p, h = os.path.join(self.path, "binary_history.data"), {
                    "initial_don_mass": self.m1, "initial_acc_mass": self.m2,
                    "initial_period_days": self.P}
            else:
                os.makedirs(os.path.join(self.path, "LOGS" + name[-1]),
                            exist_ok=True)
                p = os.path.join(self.path, "LOGS" + name[-1],
                                 "history.data" if "history" in name
                                 else "final_profile.data")
                h = {"initial_Z": self.Z, "initial_Y": Y,
                     "initial_m": self.m1}
            part = 0
            if "history" in name and rng.random() < .15 and len(a):
                part = int(rng.integers(1, len(a.dtype.names) // 2))
            write_table(p, a, h, self.gz(), part,
                        drop=("lg_mtransfer_rate",) if self.broken == name
                        and name == "binary_history" else
                        ("center_h1",) if self.broken == name else ())
        return self

    # ---------------------------------------------------------- expectation
    def scrubbed(self):
        """rows of the models all tables have, without what was redone"""
        out, models = {}, []
        for name in ("binary_history", "history1", "history2"):
            a = self.tables[name]
            if a is None or self.broken == name:
                out[name] = None
                continue
            m = a["model_number"]
            keep = [m[i] < min(m[i + 1:], default=np.inf)
                    for i in range(len(m))]
            out[name] = a[keep]
            models.append(set(a["model_number"][keep]))
        common = set.intersection(*models) if models else set()
        return {k: None if v is None else
                v[[x in common for x in v["model_number"]]]
                for k, v in out.items()}
