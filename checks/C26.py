"""C26  Interpolated final values are made physically consistent."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import numpy as np

vk.setup_env()
from posydon.interpolation import constraints as K

C = vk.Check(
    "C26",
    "random interpolation results (consistent, slightly and grossly "
    "inconsistent, with missing values) for random selections of quantities "
    "go through the real selection and enforcement of the constraints; every "
    "law is judged by its own formula here; signature = (stars, laws that "
    "were violated before, missing values)")

# physics, independent of the package
G, MSUN, RSUN = 6.67430e-8, 1.988409870698051e33, 6.957e10
LSUN, SIGMA = 3.828e33, 5.670374419e-5


def teff(logL, logR):
    return np.log10((10 ** logL * LSUN / (4 * np.pi * (10 ** logR * RSUN) ** 2
                                          * SIGMA)) ** .25)


def separation(p, m1, m2):
    return (G * (m1 + m2) * MSUN * (p * 86400 / (2 * np.pi)) ** 2) \
        ** (1 / 3) / RSUN


CORES = ["m_core_CE_1cent", "m_core_CE_10cent", "m_core_CE_30cent",
         "m_core_CE_pure_He_star_10cent"]
RCORES = ["r" + k[1:] for k in CORES]
SN = ["direct_mass", "Fryer+12-rapid_mass", "Fryer+12-delayed_mass",
      "Sukhbold+16-engineN20_mass", "Patton&Sukhbold20-engineN20_mass"]
ELEMENTS = ["h1", "he4", "c12", "n14", "o16", "other"]
STAR = ["log_L", "log_R", "log_Teff", "log_LH", "log_LHe", "log_LZ",
        "log_Lnuc", "he_core_mass", "co_core_mass", "he_core_radius",
        "co_core_radius", *CORES, *RCORES, *SN, "mass_conv_reg_fortides",
        "thickness_conv_reg_fortides", "radius_conv_reg_fortides",
        "total_mass_h1", "total_mass_he4",
        *["center_" + e for e in ELEMENTS],
        *["surface_" + e for e in ELEMENTS], "spin_parameter"]
BINARY = ["period_days", "binary_separation", "lg_mtransfer_rate",
          "xfer_fraction", "age", "t_sync_rad_1"]


def values(rng, stars, how):
    """how: 0 consistent, 1 close to the laws, 2 wild"""
    def off(s=1.):
        if how == 0:
            return 0.
        return rng.normal() * (.02 if how == 1 else .8) * s

    d = {}
    d["period_days"] = 10 ** rng.uniform(-1, 4)
    d["lg_mtransfer_rate"] = rng.choice([-99., rng.uniform(-12, -2)])
    d["age"] = 10 ** rng.uniform(5, 10)
    d["t_sync_rad_1"] = 10 ** rng.uniform(3, 12)
    for s in (1, 2):
        d["star_%d_mass" % s] = 10 ** rng.uniform(-.5, 2)
        v = d["lg_mtransfer_rate"] + (
            -rng.uniform(0, 3) if how == 0 else rng.normal())
        d["lg_system_mdot_%d" % s] = -99. if rng.random() < .3 else v
        if how == 0:
            d["lg_system_mdot_%d" % s] = min(d["lg_system_mdot_%d" % s],
                                             d["lg_mtransfer_rate"])
    d["binary_separation"] = separation(
        d["period_days"], d["star_1_mass"], d["star_2_mass"]) \
        * (1 + abs(off()))
    a, b = d["lg_system_mdot_2"], d["lg_mtransfer_rate"]
    d["xfer_fraction"] = (1. if a < -98 or b < -98
                          else 1 - 10 ** (min(a, b) - b)) + off()
    for s in range(1, stars + 1):
        p = "S%d_" % s
        m = d["star_%d_mass" % s]
        e = {}
        e["log_L"], e["log_R"] = rng.uniform(-2, 6), rng.uniform(-2, 3)
        R = 10 ** e["log_R"]
        e["log_Teff"] = teff(e["log_L"], e["log_R"]) + off()
        L = rng.uniform(-12, 6, 3)
        e["log_LH"], e["log_LHe"], e["log_LZ"] = L
        e["log_Lnuc"] = np.log10(np.sum(10 ** L)) + off()
        x = rng.random()
        e["he_core_mass"] = m * (x + abs(off()))
        e["co_core_mass"] = m * x * rng.random() + m * abs(off())
        x = rng.random()
        e["he_core_radius"] = R * (x + abs(off()))
        e["co_core_radius"] = R * x * rng.random() + R * abs(off())
        for k in CORES + SN + ["mass_conv_reg_fortides", "total_mass_h1",
                               "total_mass_he4"]:
            e[k] = m * (rng.random() + off())
        for k in RCORES:
            e[k] = R * (rng.random() + off())
        t = R * (rng.uniform(.01, 1) + off())
        e["thickness_conv_reg_fortides"] = t
        tt = min(max(t, .01 * R), R)
        e["radius_conv_reg_fortides"] = rng.uniform(.5 * tt, R - .5 * tt) \
            + off(R)
        for w in ("center_", "surface_"):
            f = rng.dirichlet(np.full(6, .5))
            f = f + abs(np.array([off(.1) for _ in range(6)]))
            for k, v in zip(ELEMENTS, f):
                e[w + k] = float(v)
        e["spin_parameter"] = rng.random()
        d.update({p + k: float(v) for k, v in e.items()})
    return {k: np.float64(v) for k, v in d.items()}


def ok(*v):
    return all(np.isfinite(x) for x in v)


def judge(c, raw, out, keys, stars):
    """all laws whose quantities are there, on the sanitised values"""
    bad = set()

    def have(*k):
        return all(x in keys for x in k)

    def law(name, k, want, tol=1e-9, scale=None):
        if not ok(want) or not ok(raw[k]):
            return
        if not abs(raw[k] - want) <= tol * max(1, abs(want)):
            bad.add(name)
        c.expect(abs(out[k] - want) <= tol * max(1, abs(want)), name, key=k,
                 got=out[k], want=want)
        c.count(name)

    changed_ok = set()
    k = ["lg_system_mdot_1", "lg_mtransfer_rate"]
    new = dict(raw)
    for s in (1, 2):
        k = "lg_system_mdot_%d" % s
        if have(k, "lg_system_mdot_1", "lg_mtransfer_rate"):
            changed_ok.add(k)
            if not ok(raw[k], raw["lg_mtransfer_rate"]):
                c.expect(np.isnan(out[k]), "unknown rate", key=k)
                continue
            w = min(raw[k], raw["lg_mtransfer_rate"])
            new[k] = w
            law("a star cannot lose more than it transfers", k, w)
    if have("xfer_fraction", "lg_system_mdot_2", "lg_mtransfer_rate"):
        changed_ok.add("xfer_fraction")
        a, b = out["lg_system_mdot_2"], out["lg_mtransfer_rate"]
        if ok(a, b):
            law("accreted fraction", "xfer_fraction",
                1. if a < -98 or b < -98 else 1 - 10 ** (a - b), 1e-9)
        else:
            c.expect(np.isnan(out["xfer_fraction"]), "unknown fraction")
    if have("binary_separation", "period_days", "star_1_mass",
            "star_2_mass"):
        changed_ok.add("binary_separation")
        x = [out[q] for q in ("period_days", "star_1_mass", "star_2_mass")]
        if ok(*x):
            law("Kepler's third law", "binary_separation",
                separation(*x), 5e-4)
            c.close(out["binary_separation"], separation(*x), "Kepler",
                    rtol=5e-4)
        else:
            c.expect(np.isnan(out["binary_separation"]), "unknown separation")
    for s in range(1, stars + 1):
        p = "S%d_" % s
        m = "star_%d_mass" % s
        if have(p + "log_L", p + "log_R", p + "log_Teff"):
            changed_ok.add(p + "log_Teff")
            if ok(out[p + "log_L"], out[p + "log_R"]):
                law("Stefan-Boltzmann law", p + "log_Teff",
                    teff(out[p + "log_L"], out[p + "log_R"]), 5e-4)
            else:
                c.expect(np.isnan(out[p + "log_Teff"]), "unknown Teff")
        L = [p + q for q in ("log_LH", "log_LHe", "log_LZ")]
        if have(p + "log_Lnuc", *L):
            changed_ok.add(p + "log_Lnuc")
            if ok(*[out[q] for q in L]):
                law("nuclear luminosity", p + "log_Lnuc",
                    np.log10(sum(10 ** out[q] for q in L)), 1e-9)
            else:
                c.expect(np.isnan(out[p + "log_Lnuc"]), "unknown Lnuc")
        chains = [([m, p + "he_core_mass", p + "co_core_mass"], 0),
                  ([p + "log_R", p + "he_core_radius",
                    p + "co_core_radius"], 1)]
        chains += [([m, p + q], 0) for q in CORES + SN + [
            "mass_conv_reg_fortides", "total_mass_h1", "total_mass_he4"]]
        chains += [([p + "log_R", p + q], 1) for q in RCORES]
        for ch, log in chains:
            if not have(*ch):
                continue
            changed_ok.update(ch[1:])
            v = [raw[q] for q in ch]
            if not ok(*v):
                continue
            if log:
                v[0] = 10 ** v[0]
            want = [v[0]]
            for x in v[1:]:
                want.append(min(x, want[-1]))
            if want != v:
                bad.add("part exceeds the whole")
            for q, w in zip(ch[1:], want[1:]):
                c.expect(abs(out[q] - w) <= 1e-9 * abs(w),
                         "a part does not exceed the whole", chain=ch,
                         raw=v, got=out[q], want=w)
                c.count("parts")
        tr = [p + "log_R", p + "thickness_conv_reg_fortides",
              p + "radius_conv_reg_fortides"]
        if have(*tr):
            changed_ok.update(tr[1:])
            if ok(*[raw[q] for q in tr]):
                R = 10 ** out[tr[0]]

                def fits(t, r, eps):
                    return t > 0 and r - .5 * t >= -eps \
                        and r + .5 * t <= R + eps
                a = (raw[tr[1]], raw[tr[2]])
                b = (out[tr[1]], out[tr[2]])
                if not fits(*a, 0):
                    bad.add("shell outside of the star")
                else:
                    c.expect(a == b, "a shell inside the star is kept",
                             got=b, want=a)
                c.expect(fits(*b, 1e-8 * max(1, R)),
                         "convective shell inside the star", t=b[0], r=b[1],
                         R=R, raw=a)
                if not fits(*a, 0) and R > 0:
                    t, r = b[0] / R, b[1] / R
                    t0, r0 = a[0] / R, a[1] / R
                    c.expect(min(abs(r - t / 2), abs(r + t / 2 - 1)) < 1e-8,
                             "a shell outside ends on the edge of what is "
                             "possible", t=t, r=r)
                    if abs(r0 - .5) > 1e-6:
                        cr = (t - 1 / 3) * (r0 - .5) - (r - .5) * (t0 - 1 / 3)
                        c.expect(abs(cr) < 1e-8 * max(1, abs(t0), abs(r0)),
                                 "... on the line to the centroid of the "
                                 "possible shells", t=t, r=r, t0=t0, r0=r0)
                c.count("shells")
        for w in ("center_", "surface_"):
            q = [p + w + x for x in ELEMENTS]
            if not have(*q):
                continue
            changed_ok.update(q)
            v = np.array([raw[x] for x in q])
            o = np.array([out[x] for x in q])
            if not ok(*v):
                c.expect(np.array_equal(v, o, equal_nan=True),
                         "unknown abundances are left", v=v, o=o)
                continue
            if abs(v.sum() - 1) > 1e-9:
                bad.add("sum of abundances")
            c.expect(abs(o.sum() - 1) < 2e-9, "abundances add up to one",
                     got=o.sum())
            c.close(o, v / v.sum(), "with their ratios kept", rtol=3e-9,
                    atol=1e-15)
            c.count("sums")
    for k in keys:
        if k not in changed_ok:
            c.expect(out[k] == raw[k] or (np.isnan(out[k])
                                          and np.isnan(raw[k])),
                     "a quantity without a law is left alone", key=k,
                     got=out[k], want=raw[k])
    return tuple(sorted(bad))


@C.family("enforce", 6000, 60000)
def enforce(rng, c):
    stars = 1 + int(rng.random() < .6)
    how = int(rng.integers(3))
    raw = values(rng, stars, how)
    if stars == 1 and rng.random() < .5:
        raw.pop("star_2_mass")
    keys = list(raw)
    part = rng.random()
    if part < .5:           # a selection; both stars get the same one
        names = sorted({k.replace("S2_", "S1_").replace(
            "star_2", "star_1").replace("mdot_2", "mdot_1") for k in raw})
        frac = rng.uniform(.3, .97)
        drop = set(n for n in names if rng.random() > frac)
        if stars == 2:
            drop.discard("S1_log_R")
        keys = [k for k in keys if k.replace("S2_", "S1_").replace(
            "star_2", "star_1").replace("mdot_2", "mdot_1") not in drop]
    rng.shuffle(keys)
    nans = 0
    if rng.random() < .3:
        for k in keys:
            if rng.random() < .05:
                raw[k] = np.float64(np.nan)
                nans += 1
    raw = {k: raw[k] for k in keys}
    before = dict(raw)
    laws = K.find_constraints_to_apply(list(keys))
    out = K.sanitize_interpolated_quantities(raw, laws)
    c.expect(list(raw) == keys and all(
        raw[k] == before[k] or np.isnan(before[k]) for k in keys),
        "the values handed over are not changed")
    c.expect(list(out) == keys, "the same quantities in the same order",
             extra=sorted(set(out) ^ set(keys)))
    bad = judge(c, before, out, set(keys), stars)
    if how == 0 and not nans:
        for k in keys:
            c.close(out[k], before[k], "consistent values stay", rtol=5e-4,
                    atol=5e-4, key=k)
    again = K.sanitize_interpolated_quantities(out, laws)
    for k in keys:
        if ok(out[k]):
            c.close(again[k], out[k], "enforcing twice changes nothing",
                    rtol=1e-7, atol=1e-9, key=k)
    c.count("violated", bool(bad))
    c.seen("enforce", stars, how, part < .5, bool(nans), bad)


@C.family("selections", 150, 1500)
def selections(rng, c):
    """choosing constraints for some quantities leaves the others alone"""
    raw = values(rng, 2, 2)
    full = list(raw)
    held = K.find_constraints_to_apply(full)
    first = K.sanitize_interpolated_quantities(raw, held)
    for _ in range(3):
        K.find_constraints_to_apply(
            [k for k in full if rng.random() < rng.uniform(.2, .95)])
    later = K.sanitize_interpolated_quantities(
        raw, K.find_constraints_to_apply(full))
    c.expect(first == later, "the constraints of one interpolator do not "
             "depend on the ones trained before",
             lost=[k for k in full if first[k] != later[k]])
    c.expect(first == K.sanitize_interpolated_quantities(raw, held),
             "nor do those found before")
    c.expect(K.find_constraints_to_apply([]) == []
             and K.find_constraints_to_apply(["age", "spin"]) == [],
             "nothing to enforce")
    c.seen("sel", len(held))


@C.family("sums", 300, 3000)
def sums(rng, c):
    n = int(rng.integers(1, 7))
    d = {"k%d" % i: float(rng.random()) for i in range(n)}
    d["total"] = 10 ** rng.uniform(-2, 3)
    t = "total" if rng.random() < .5 else float(10 ** rng.uniform(-2, 2))
    want = d["total"] if t == "total" else t
    v = np.array([d["k%d" % i] for i in range(n)])
    out = K.correct_sum(dict(d), ["k%d" % i for i in range(n)], t)
    o = np.array([out["k%d" % i] for i in range(n)])
    c.close(o.sum(), want, "sum as demanded", rtol=1e-8)
    c.close(o / o.sum(), v / v.sum(), "ratios kept", rtol=1e-9)
    c.expect(out["total"] == d["total"], "the demanded value is kept")
    c.seen("sum", n, isinstance(t, str))


C.require("parts", 500)
C.require("shells", 100)
C.require("sums", 100)
C.require("violated", 100)
C.require("Stefan-Boltzmann law", 100)
C.require("accreted fraction", 100)

if __name__ == "__main__":
    sys.exit(C.main())
