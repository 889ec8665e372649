"""C11  Star-formation histories."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import numpy as np

SUB = ["sub%d" % k for k in range(6)]
DATA = {}


def build(d):
    """tables in the format of the published data sets"""
    g = np.random.default_rng([int(os.environ.get("VERIF_SEED", "1") or 1),
                               77])
    p = os.path.join(d, "SFR")
    os.makedirs(os.path.join(p, "Chruslinska+21"))
    # IllustrisTNG: decreasing redshift
    nz, nm = 40, 30
    z = np.sort(np.concatenate([[0.], g.uniform(0, 19, nz - 2), [20.]]))[::-1]
    mets = 10 ** np.linspace(-8, -.3, nm)
    M = g.uniform(0, 1, (nz, nm)) ** 4
    M[0] = 0.                   # nothing formed at the highest redshift
    sfr = g.uniform(.01, .1, nz)
    np.savez(os.path.join(p, "IllustrisTNG.npz"), SFR=sfr, redshifts=z,
             mets=mets, M=M)
    DATA["ill"] = (z[::-1], sfr[::-1], mets, M[::-1])
    # Chruslinska+21: decreasing redshift, minimum above zero
    nz = 25
    z = np.sort(np.concatenate([[.05], g.uniform(.06, 9.9, nz - 2),
                                [10.]]))[::-1]
    dT = g.uniform(10, 300, nz)
    np.savetxt(os.path.join(p, "Chruslinska+21", "Time_redshift_deltaT.dat"),
               np.c_[np.linspace(500, 13000, nz), z, dT], fmt="%.17e")
    ch = {}
    for s in SUB:
        m = g.uniform(0, 1, (nz, 200)) ** 6 * 1e6
        m[:, :3] = 0
        np.savetxt(os.path.join(p, "Chruslinska+21", s + ".dat"), m,
                   fmt="%.17e")
        ch[s] = m
    DATA["chr"] = (z, dT, ch)
    z = np.sort(np.concatenate([[0.], g.uniform(0, 8, 18), [8.]]))
    a = g.uniform(.01, .05, 20)
    b = a * g.uniform(1, 3, 20)
    with open(os.path.join(p, "Zavala+21.txt"), "w") as f:
        f.write("redshift SFRD_min SFRD_max\n")
        for r in zip(z, a, b):
            f.write("%.17e %.17e %.17e\n" % r)
    DATA["zav"] = (z, a, b)


vk.setup_env(build)
from scipy import stats
import sfh
from posydon.popsyn import star_formation_history as S

C = vk.Check(
    "C11",
    "random redshifts, metallicity bins, limits and models drive the real "
    "star-formation histories, random age tables the formation times; every "
    "value is compared with an independent model, samples by KS; signature = "
    "(model, position of the limits, normalisation)")


def gen_bins(rng):
    n = int(rng.integers(1, 9))
    e = np.sort(10 ** rng.uniform(-6, -.3, n + 1))
    if rng.random() < .3:
        e = 10 ** np.linspace(-4.5, -1.3, n + 1)
    return e


def gen_limits(rng, e, wide=True):
    """limits inside, at, and beyond the bins"""
    out = {}
    cand = [e[0], e[-1], e[len(e) // 2], e[0] * .3, min(1., e[-1] * 1.5),
            float(np.sqrt(e[0] * e[1])), float(np.sqrt(e[-1] * e[-2])),
            1e-8, 1., float(10 ** rng.uniform(-6, 0))]
    if rng.random() < .6:
        out["Z_max"] = float(cand[rng.integers(len(cand))])
    if rng.random() < .6:
        out["Z_min"] = float(cand[rng.integers(len(cand))])
    if len(out) == 2 and out["Z_min"] >= out["Z_max"]:
        out = {"Z_min": out["Z_max"], "Z_max": out["Z_min"]}
        if out["Z_min"] == out["Z_max"]:
            out.pop("Z_min")
    return out


def where(e, lim):
    r = []
    for k in ("Z_min", "Z_max"):
        v = lim.get(k)
        r.append("-" if v is None else int(np.searchsorted(e, v))
                 if v < e[-1] else "above")
    return tuple(r)


def compare(c, mod, z, e, cdfs, par, name):
    lim = {"zmin": par.get("Z_min"), "zmax": par.get("Z_max")}
    got = mod.fSFR(z, e)
    c.expect(np.shape(got) == (len(z), len(e) - 1), "shape of the fractions")
    for i in range(len(z)):
        if cdfs[i] is None:
            c.expect(np.all(got[i] == 0), "no fraction without star "
                     "formation")
            continue
        w = sfh.fractions(cdfs[i], e, **lim)
        tot = w.sum()
        if par.get("normalise"):
            if tot <= 1e-9:
                c.count("undecided normalisation")
                continue
            w = w / tot
            c.close(got[i].sum(), 1., "normalised fractions sum to one",
                    rtol=1e-9)
        c.close(got[i], w, "fraction in each metallicity bin", rtol=1e-6,
                atol=1e-11, model=name, bins=e, par=par, z=z[i])
        c.expect(np.all(got[i] >= -1e-12) and got[i].sum() <= 1 + 1e-9,
                 "fractions are a part of one", got=got[i])
    t = mod(z, e)
    c.close(t, np.asarray(mod.CSFRD(z))[:, None] * got,
            "star formation per bin", rtol=1e-12)
    return got


@C.family("analytic", quick=3000, thorough=20000)
def analytic(rng, c):
    name = sorted(sfh.PAR)[rng.integers(4)]
    e = gen_bins(rng)
    par = dict(SFR=name, sigma=["Bavera+20", "Neijssel+19", .3, .5, 1, .8][
        rng.integers(6)])
    par.update(gen_limits(rng, e))
    if rng.random() < .5:
        par["normalise"] = bool(rng.random() < .7)
    z = np.concatenate([[0.], np.sort(10 ** rng.uniform(-2, 1.3, 4))])
    c.note(par=par, bins=e)
    keep = dict(par)
    with vk.quiet():
        m = S.get_SFH_model(par)
        c.close(m.CSFRD(z), sfh.csfrd(name, z), "cosmic star formation rate",
                rtol=1e-9, model=name)
        c.close(m.mean_metallicity(z), sfh.mean_met(name, z),
                "mean metallicity", rtol=1e-9, model=name)
        got = compare(c, m, z, e, [sfh.cdf_lognormal(name, par["sigma"], x)
                                   for x in z], par, name)
        c.close(S.SFR_per_met_at_z(z, e, par), sfh.csfrd(name, z)[:, None]
                * got, "star formation per metallicity", rtol=1e-9)
    c.expect(par == keep, "model parameters stay as they were")
    # the mean of the distribution is the mean metallicity (unlimited, fine)
    if rng.random() < .2:
        s = sfh.sigma(par["sigma"])
        x = 10 ** np.linspace(-12, 3, 4001)
        with vk.quiet():
            f = S.get_SFH_model(dict(SFR=name, sigma=par["sigma"])).fSFR(
                z, x)
        c.close((f * np.sqrt(x[1:] * x[:-1])).sum(axis=1), sfh.mean_met(
            name, z), "mean of the metallicity distribution", rtol=2e-3)
        c.count("mean")
    c.seen(name[:8], where(e, par), par.get("normalise"), len(e) > 2)
    c.count("analytic")


@C.family("tables", quick=1200, thorough=4000)
def tables(rng, c):
    k = rng.integers(3)
    e = gen_bins(rng)
    par = gen_limits(rng, e)
    if rng.random() < .5:
        par["normalise"] = bool(rng.random() < .7)
    if k == 0:
        zz, sfr, mets, M = DATA["ill"]
        name = "IllustrisTNG"
        z = np.sort(rng.uniform(0, 19.9, 5))
        z[0] = float(rng.choice(zz[:-1]))
        if rng.random() < .3:
            z[-1] = 20.5
        with vk.quiet():
            m = S.get_SFH_model(dict(par, SFR=name))
        c.close(m.CSFRD(z), np.interp(z, zz, sfr), "cosmic star formation "
                "rate", rtol=1e-9, model=name)
        mm = np.array([np.nan if r.sum() == 0 else (r * mets).sum() / r.sum()
                       for r in M])
        inner = z < zz[-2]
        c.close(m.mean_metallicity(z)[inner], np.interp(z, zz, mm)[inner],
                "mean metallicity", rtol=1e-9)
        rows = [M[np.flatnonzero(zz <= x)[-1]] for x in z]
        Z = mets
    elif k == 1:
        zz, dT, ch = DATA["chr"]
        sub = SUB[rng.integers(len(SUB))]
        sc, (zs, foh) = list({
            "Asplund09": (.0134, 8.69), "AndersGrevesse89": (.017, 8.83),
            "GrevesseSauval98": (.0201, 8.93), "Villante14": (.019, 8.85),
        }.items())[rng.integers(4)]
        name = "Chruslinska+21"
        par.update(sub_model=sub, Z_solar_scaling=sc)
        z = np.sort(rng.uniform(.05, 9.9, 5))
        if rng.random() < .4:
            z[0] = .01
        z[1] = float(rng.choice(zz))
        with vk.quiet():
            m = S.get_SFH_model(dict(par, SFR=name))
        x = np.linspace(5.3, 9.7, 200)
        Z = 10 ** (np.log10(zs) + x - foh)
        data = ch[sub]
        c.close(m.CSFRD(z), np.interp(z, zz[::-1], (data.sum(axis=1)
                                                    / (1e6 * dT))[::-1]),
                "cosmic star formation rate", rtol=1e-9, model=name)
        mm = (data * Z).sum(axis=1) / data.sum(axis=1)
        c.close(m.mean_metallicity(z), np.interp(z, zz[::-1], mm[::-1]),
                "mean metallicity", rtol=1e-9)
        rows = [data[-1] if v < zz.min() else data[
            np.flatnonzero(zz <= v)[0]] for v in z]
    else:
        zz, a, b = DATA["zav"]
        sub = ["min", "max"][rng.integers(2)]
        name = "Zavala+21"
        par.update(sub_model=sub, sigma=.5)
        z = np.sort(rng.uniform(0, 7.9, 5))
        with vk.quiet():
            m = S.get_SFH_model(dict(par, SFR=name))
        c.close(m.CSFRD(z), np.interp(z, zz, a if sub == "min" else b),
                "cosmic star formation rate", rtol=1e-9, model=name)
        with vk.quiet():
            compare(c, m, z, e, [sfh.cdf_lognormal(name, .5, x) for x in z],
                    par, name)
        c.seen(name, where(e, par), sub)
        c.count("tables")
        return
    cdfs = []
    for r in rows:
        if r.sum() == 0:
            cdfs.append(None)
            continue
        xs = np.append(np.log10(Z), 0.)
        ys = np.append(np.cumsum(r) / r.sum(), 1.)
        cdfs.append(lambda v, xs=xs, ys=ys: np.interp(np.log10(v), xs, ys))
    c.note(par=par, bins=e, z=z)
    with vk.quiet():
        compare(c, m, z, e, cdfs, par, name)
    c.seen(name, where(e, par), par.get("normalise"))
    c.count("tables")


@C.family("refusals", quick=10, thorough=20)
def refusals(rng, c):
    g = lambda **k: (lambda: S.get_SFH_model(k))
    ok = dict(SFR="Madau+Fragos17", sigma=.5)
    for bad in (dict(ok, Z_max=1.5), dict(ok, Z_max=-.1), dict(ok, Z_min=-.1),
                dict(ok, Z_min=1.2), dict(ok, Z_min=.2, Z_max=.1),
                dict(ok, Z_min=.1, Z_max=.1), dict(SFR="Madau+Fragos17"),
                dict(ok, SFR="other"), dict(SFR="Zavala+21", sigma=.5),
                dict(SFR="Zavala+21", sigma=.5, sub_model="other"),
                dict(SFR="Chruslinska+21", sub_model=SUB[0]),
                dict(SFR="Chruslinska+21", Z_solar_scaling="Asplund09"),
                dict(SFR="Chruslinska+21", Z_solar_scaling="other",
                     sub_model=SUB[0])):
        c.raises(ValueError, g(**bad), "invalid model refused", bad=bad)
    for good in (dict(ok, Z_min=0.), dict(ok, Z_min=0., Z_max=1.),
                 dict(ok, Z_max=0.)):
        S.get_SFH_model(good)
        c.count("limits accepted")
    for s in ("other", [.5]):
        m = S.get_SFH_model(dict(ok, sigma=s))
        c.raises(ValueError, lambda: m.fSFR(np.array([1.]), np.array(
            [.001, .01])), "invalid sigma refused", s=s)
    m = S.get_SFH_model(ok)
    c.raises(ValueError, lambda: m.fSFR(np.array([1.]), np.array(
        [.01, .001])), "unsorted bins refused")
    c.raises(ValueError, lambda: S.get_formation_times(3, "other"),
             "unknown scenario refused")
    c.seen("refusals")


def ks(c, s, cdf, msg, **k):
    r = stats.kstest(s, cdf)
    c.expect(r.pvalue > 1e-9, msg, p=r.pvalue, d=r.statistic, **k)


@C.family("times", quick=300, thorough=1500)
def times(rng, c):
    k = ["burst", "constant", "custom_linear", "custom_log10",
         "custom_linear_histogram", "custom_log10_histogram"][rng.integers(6)]
    n = int(rng.choice([1, 2, 3000]))
    seed = int(rng.integers(1 << 31))
    T = float(rng.choice([13.8e9, 10 ** rng.uniform(8, 10)]))
    kw = {}
    if rng.random() < .5:
        kw["max_time"] = T
        kw["max_simulation_time"] = T * 2
    else:
        kw["max_simulation_time"] = T
    path = os.path.join(vk.scratch(), "ages_%d.txt" % os.getpid())
    m = int(rng.integers(2, 9))
    if k.startswith("custom"):
        x = np.sort(rng.uniform(0, T, m + 1))
        if "log10" in k:
            x = np.sort(rng.uniform(5, np.log10(T), m + 1))
        y = rng.uniform(0, 1, m if "hist" in k else m + 1)
        y[rng.integers(len(y))] = 0
        y[rng.integers(len(y))] = 1
        with open(path, "w") as f:
            if "hist" in k:
                f.write("# ages\n\n" + ", ".join("%.17g" % v for v in x)
                        + "\n" + ", ".join("%.17g" % v for v in y) + "\n")
            else:
                f.write("\n".join("%.17g %.17g" % v for v in zip(x, y)))
        kw["custom_ages_file"] = path
    elif k == "burst":
        if rng.random() < .5:
            kw["burst_time"] = float(rng.uniform(0, T))
    else:
        if rng.random() < .5:
            kw["min_time"] = float(rng.uniform(0, T))
    c.note(k=k, n=n, kw=kw)
    nm = k.upper() if rng.random() < .1 else k
    t = np.asarray(S.get_formation_times(n, nm, RNG=np.random.default_rng(
        seed), **kw))
    t2 = np.asarray(S.get_formation_times(n, nm, RNG=np.random.default_rng(
        seed), **kw))
    c.expect(t.size == n, "a formation time for every binary", got=t.shape,
             want=n, k=k)
    c.expect(np.array_equal(t, t2), "formation times reproduce")
    t = t.ravel()
    if k == "burst":
        c.expect(np.all(t == kw.get("burst_time", 0.)), "burst time")
    elif k == "constant":
        a = kw.get("min_time", 0.)
        c.expect(np.all((t >= a) & (t <= T)), "formation times in range")
        if n > 9:
            ks(c, t, lambda v: np.clip((v - a) / (T - a), 0, 1),
               "constant star formation")
    else:
        age = T - t
        if "log10" in k:
            age = np.log10(np.maximum(age, 1e-300))
        tol = 1e-6 * (abs(x[-1]) + abs(T if "log" not in k else 0)) + 1e-3
        c.expect(np.all((age >= x[0] - tol) & (age <= x[-1] + tol)),
                 "ages within the table", lo=age.min(), hi=age.max(),
                 x=(x[0], x[-1]))
        if "hist" in k:
            cum = np.concatenate([[0], np.cumsum(y)]) / y.sum()
            cdf = lambda v: np.interp(v, x, cum)
        else:
            xx = np.linspace(x[0], x[-1], 20001)
            f = np.interp(xx, x, y)
            F = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2)])
            cdf = lambda v: np.interp(v, xx, F / F[-1])
        if n > 9:
            ks(c, age, cdf, "ages follow the table", k=k)
            c.expect(len(np.unique(age)) > .9 * n, "ages differ", k=k)
    c.seen("times", k, n)
    c.count("times " + k)


C.require("analytic", 500)
C.require("tables", 200)
C.require("mean", 50)
for k in ("burst", "constant", "custom_linear", "custom_log10",
          "custom_linear_histogram", "custom_log10_histogram"):
    C.require("times " + k, 3)

if __name__ == "__main__":
    sys.exit(C.main())
