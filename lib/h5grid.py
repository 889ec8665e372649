"""Small PSyGrid files with random tracks, written directly; the tables are
kept in memory as the truth."""
import h5py
import numpy as np
import mesa

CE = ["m_core_CE_1cent", "m_core_CE_10cent", "m_core_CE_30cent",
      "m_core_CE_pure_He_star_10cent", "r_core_CE_1cent",
      "r_core_CE_10cent", "r_core_CE_30cent",
      "r_core_CE_pure_He_star_10cent"]
POST = ["avg_c_in_c_core_at_He_depletion",
        "co_core_mass_at_He_depletion"] + CE
SN_NUM = ["f_fb", "mass", "spin", "m_disk_accreted", "m_disk_radiated", "M4",
          "mu4", "h1_mass_ej", "he4_mass_ej"]
CLASSES = ["stable_MT", "unstable_MT", "no_MT", "stable_reverse_MT"]


class R:
    """one run"""

    def __init__(self, rng, m1, m2, P, he=False, co=False, cls=None,
                 n=None, span=None):
        self.m1, self.m2, self.P, self.co = m1, m2, P, co
        n = int(rng.integers(3, 12)) if n is None else n
        model = np.arange(1., n + 1)
        age = np.cumsum(rng.uniform(.2, 1, n))
        age = (age - age[0]) / (age[-1] - age[0]) * (
            10 ** rng.uniform(4, 9) if span is None else span) \
            + rng.choice([0., 10.])
        self.cls = str(rng.choice(CLASSES)) if cls is None else cls
        kinds = [str(rng.choice(["ms", "he", "c"], p=[.5, .3, .2])),
                 str(rng.choice(["ms", "ms", "he"]))]
        d = {c: rng.normal(size=n) for c in mesa.BH}
        for c in ("t_sync_rad_1", "t_sync_conv_1", "t_sync_rad_2",
                  "t_sync_conv_2", "trap_radius", "acc_radius"):
            d[c] = 10 ** rng.uniform(0, 4, n)
        d.update(model_number=model, age=age,
                 star_1_mass=m1 * np.linspace(1, rng.uniform(.3, .95), n),
                 star_2_mass=m2 * np.linspace(1, rng.uniform(1., 1.3), n),
                 period_days=P * np.linspace(1, rng.uniform(.3, 3.), n),
                 binary_separation=10 ** rng.uniform(1, 3, n))
        r1, r2 = rng.uniform(-.9, -.1, n), rng.uniform(-.9, -.1, n)
        rate = rng.uniform(-40, -15, n)
        on = slice(int(rng.integers(1, n)), None)
        if self.cls in ("stable_MT", "unstable_MT"):
            u = rng.random() if not co else 0
            if u < .7:
                r1[on] = rng.uniform(.01, .4)
            if u > .55:
                r2[on] = rng.uniform(.01, .4)
            rate[on] = rng.uniform(-9, -3)
        elif self.cls == "stable_reverse_MT":
            r2[on], rate[on] = .1, -6.
        d.update(rl_relative_overflow_1=r1, rl_relative_overflow_2=r2,
                 lg_mtransfer_rate=rate)
        for s in "12":
            d["lg_mstar_dot_" + s] = rng.uniform(-14, -3.5, n)
            d["lg_wind_mdot_" + s] = rng.choice(
                [-99., rng.uniform(-12, -5)]) + np.zeros(n)
            d["lg_system_mdot_" + s] = rng.uniform(-12, -5, n)
        self.bh = mesa.table(mesa.BH, d)
        cols = ["model_number", "star_age"] + mesa.STAR
        self.h = []
        for s in (1, 2):
            if s == 2 and co:
                self.h.append(None)
                continue
            h = mesa.stellar(rng, model, age, m1 if s == 1 else m2, cols,
                             kinds[s - 1])
            h["log_R"] = rng.uniform(-.5, 2.5, n)
            h["log_L"] = rng.uniform(1, 6, n)
            h["spin_parameter"] = rng.random(n)
            h["center_gamma"] = rng.uniform(0, 3, n)
            h["surface_h1"] = 0. if he else \
                .7 if rng.random() < .7 else np.linspace(.7, .0, n)
            if he and s == 1:
                x = np.linspace(0, 1, n)
                h["center_h1"] = 0.
                h["center_he4"] = np.clip(.98 * (1 - x * rng.choice(
                    [.5, 1.2])), 0, 1)
                h["center_c12"] = .3
                h["log_LH"], h["log_LHe"] = -20, 3.99
            self.h.append(h)
        self.prof = []
        for s in (1, 2):
            if (s == 2 and co) or rng.random() < .15:
                self.prof.append(None)
                continue
            m = int(rng.integers(3, 9))
            self.prof.append(mesa.table(mesa.PROFILE, {
                c: rng.random(m) for c in mesa.PROFILE}))
        self.final = {}
        for s in (1, 2):
            for k in POST:
                self.final["S%d_%s" % (s, k)] = float(rng.uniform(0, 20))
            self.final["S%d_state" % s] = "H-rich_Core_H_burning"
        self.final["termination_flag_1"] = "Primary has depleted"
        self.final["termination_flag_2"] = str(rng.choice(
            ["caseA_from_star1", "no_RLOF", "caseB1"]))
        self.final["termination_flag_3"] = "x"
        self.final["termination_flag_4"] = "y"
        self.final["mt_history"] = str(rng.choice(["Stable case A", "No MT"]))
        self.final["interpolation_class"] = self.cls
        self.sn = {}

    def supernovae(self, rng, names):
        for k in names:
            row = {}
            for s in (1, 2):
                row["S%d_CO_type" % s] = str(rng.choice(
                    ["BH", "NS", "None", "WD"]))
                row["S%d_SN_type" % s] = str(rng.choice(["CCSN", "ECSN"]))
                row["S%d_CO_interpolation_class" % s] = "BH"
                for q in SN_NUM:
                    row["S%d_%s" % (s, q)] = float(rng.uniform(0, 9))
            self.sn[k] = row
        return self


def recs(rows):
    def kind(v):
        return "S70" if isinstance(v, str) else "f8"
    dt = [(k, kind(v)) for k, v in rows[0].items()]
    a = np.zeros(len(rows), dtype=dt)
    for i, r in enumerate(rows):
        for k, v in r.items():
            a[k][i] = v.encode() if isinstance(v, str) else v
    return a


def write(path, runs):
    ini, fin = [], []
    for r in runs:
        e = {c: float(r.bh[c][0]) for c in mesa.BH}
        e.update(star_1_mass=r.m1, star_2_mass=r.m2, period_days=r.P,
                 X=.7, Y=.28, Z=.0142)
        f = {c: float(r.bh[c][-1]) for c in mesa.BH}
        for s in (1, 2):
            for c in mesa.STAR:
                h = r.h[s - 1]
                e["S%d_%s" % (s, c)] = np.nan if h is None else float(h[c][0])
                f["S%d_%s" % (s, c)] = np.nan if h is None else \
                    float(h[c][-1])
        f.update(r.final)
        if r.cls == "not_converged" and getattr(r, "blank", False):
            f.update({c: np.nan for c in mesa.BH})
        ini.append(e)
        fin.append(f)
    with h5py.File(path, "w") as q:
        q.attrs["config"] = repr(str({"binary": True}))
        q["/grid/initial_values"] = recs(ini)
        q["/grid/final_values"] = recs(fin)
        q["/relative_file_paths"] = np.array(
            [b"/x/run%d" % i for i in range(len(runs))])
        for i, r in enumerate(runs):
            g = q.create_group("/grid/run%d" % i)
            if r.bh is not None:
                g["binary_history"] = r.bh
            for s in (1, 2):
                if r.h[s - 1] is not None:
                    g["history%d" % s] = r.h[s - 1]
                if r.prof[s - 1] is not None:
                    g["final_profile%d" % s] = r.prof[s - 1]
        for k in (runs[0].sn if runs else ()):
            q["/grid/SN_MODELS/" + k] = recs([r.sn[k] for r in runs])
    return path


class Stub:
    """stands for a trained interpolator; records what it is asked for"""
    asked = []

    def __init__(self, fv, classes, q):
        self.fv, self.classes, self.interp_in_q = fv, classes, q

    def evaluate(self, binary, *a, **k):
        Stub.asked.append((binary.star_1.mass, binary.star_2.mass,
                           binary.orbital_period))
        return dict(self.fv), dict(self.classes)
