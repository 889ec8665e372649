"""C07  Initial conditions follow the advertised distributions."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
vk.setup_env()
import numpy as np
from scipy import integrate, special, stats
from dist import plaw_int, Piecewise, clip_pieces, sana, gen_imf, LN10
from posydon.popsyn import IMFs, distributions as D, independent_sample as I

C = vk.Check(
    "C07",
    "every generated parameter set drives the real pdf and rvs of every "
    "distribution and the sampling functions; the density is compared point "
    "by point with a closed form and its integral, samples are compared with "
    "the closed-form CDF (Kolmogorov-Smirnov, p < 1e-9 alarms) and their "
    "limits checked; signature = (distribution, parameter class)")
PMIN = 1e-9


def ks(c, sample, cdf, msg, discrete_ok=False, **det):
    s = np.asarray(sample, float)
    r = stats.kstest(s[:4000] if len(s) > 4000 and not discrete_ok else s,
                     lambda x: np.clip(cdf(np.asarray(x)), 0, 1))
    c.count("samples tested", len(s))
    return c.expect(r.pvalue > PMIN, msg, ks=r.statistic, p=r.pvalue, n=len(s),
                    **det)


def bins_test(c, sample, cdf, x0, x1, msg, log=True, tol=0.004, **det):
    """Bulk test: probabilities of 12 bins against the closed form."""
    s = np.asarray(sample, float)
    n = len(s)
    e = np.geomspace(x0, x1, 13) if log else np.linspace(x0, x1, 13)
    p = np.diff(np.clip(cdf(e), 0, 1))
    k = np.histogram(s, bins=e)[0] / n
    sd = np.sqrt(np.clip(p * (1 - p), 1e-12, None) / n)
    return c.expect(np.all(np.abs(k - p) <= 6.5 * sd + 8. / n + tol * p), msg,
                    got=k, want=p, edges=e, **det)


def rep_ok(c, make, msg, **det):
    """same generator state -> same sample; nothing else is consumed"""
    a = make(np.random.default_rng(7))
    b = make(np.random.default_rng(7))
    d = make(np.random.default_rng(8))
    c.expect(np.array_equal(a, b, equal_nan=True), msg + " reproduces", **det)
    c.expect(not np.array_equal(a, d, equal_nan=True),
             msg + " depends on the generator", **det)


@C.family("imf", quick=500, thorough=3000)
def imf(rng, c):
    k, kw, lo, hi, o = gen_imf(rng)
    c.note(imf=k, kw=kw, lo=lo, hi=hi)
    with vk.quiet():
        f = getattr(IMFs, k)(m_min=lo, m_max=hi, **kw)
        x = np.concatenate([[lo, hi], np.geomspace(lo, hi, 30)[1:-1],
                            rng.uniform(lo, hi, 10)])
        if k == "Chabrier2003" or k == "Kroupa2001":
            x = np.concatenate([x, [b for b in (.08, .5, 1.)
                                    if lo <= b <= hi]])
        want = o.pdf(x)
        got = f.pdf(x)
    c.close(got, want, "IMF density", rtol=2e-5, imf=k, kw=kw, lo=lo, hi=hi)
    with vk.quiet():
        c.close(f.pdf(float(x[5])), want[5], "IMF density of one mass",
                rtol=2e-5)
        out = np.array([lo * .5, lo * .999, hi * 1.001, hi * 3, -1., 0.])
        c.expect(np.all(f.pdf(out) == 0), "no star outside the mass range",
                 got=f.pdf(out))
        mix = f.pdf(np.array([lo * .5, x[7], hi * 2]))
    c.close(mix, [0, want[7], 0], "IMF density, mixed", rtol=2e-5)
    with vk.quiet():
        s = f.rvs(size=60000, rng=np.random.default_rng(
            int(rng.integers(1 << 31))))
    c.expect(np.shape(s) == (60000,), "sample size")
    c.expect(np.all((s >= lo * (1 - 1e-12)) & (s <= hi * (1 + 1e-12))),
             "sampled masses in the mass range", lo=lo, hi=hi,
             mn=s.min(), mx=s.max())
    bins_test(c, s, o.cdf, lo, hi, "sampled masses follow the IMF", imf=k,
              kw=kw, lo=lo, hi=hi)
    ks(c, s, o.cdf, "sampled masses follow the IMF (KS)", imf=k, kw=kw)
    rep_ok(c, lambda g: f.rvs(size=50, rng=g), "IMF sample")
    c.expect(np.shape(f.rvs(rng=rng)) == (1,), "default sample size")
    c.seen(k, bool(kw), int(np.log10(lo) * 2), int(np.log10(hi / lo) * 2))
    c.count("imf " + k)


@C.family("imf_errors", quick=6, thorough=30)
def imf_errors(rng, c):
    for k in ("Salpeter", "Kroupa1993", "Kroupa2001", "Chabrier2003"):
        a = float(rng.uniform(.1, 10))
        c.raises(ValueError, lambda: getattr(IMFs, k)(m_min=a, m_max=a),
                 "empty mass range refused")
        c.raises(ValueError, lambda: getattr(IMFs, k)(m_min=a, m_max=a / 2),
                 "inverted mass range refused")
        with vk.quiet():
            f = getattr(IMFs, k)(m_min=a, m_max=2 * a)
            for m in (0., -a):
                c.raises(ValueError, lambda: f.imf(np.array([m, a])),
                         "non-positive mass refused")
    for cl, lo, hi in ((D.FlatMassRatio, "q_min", "q_max"),
                       (D.PowerLawMassRatio, "q_min", "q_max"),
                       (D.ThermalEccentricity, "e_min", "e_max"),
                       (D.UniformEccentricity, "e_min", "e_max")):
        u, v = np.sort(rng.uniform(.01, .99, 2))
        for kw in ({lo: v, hi: u}, {lo: u, hi: u}, {lo: -u}, {hi: 1 + u},
                   {lo: 1.}, {lo: 0., hi: 0.}):
            c.raises(ValueError, lambda: cl(**kw), "invalid range refused",
                     cls=cl.__name__, kw=kw)
    c.raises(ValueError, lambda: D.PowerLawMassRatio(alpha=-1., q_min=0.),
             "divergent power law refused")
    c.raises(ValueError, lambda: D.PowerLawMassRatio(alpha=-2.5, q_min=0.),
             "divergent power law refused")
    for cl, lo, hi in ((D.Sana12Period, "p_min", "p_max"),
                       (D.PowerLawPeriod, "p_min", "p_max"),
                       (D.LogUniform, "min", "max"),
                       (D.LogNormalSeparation, "min", "max")):
        u = float(rng.uniform(1, 50))
        for kw in ({lo: u, hi: u}, {lo: u, hi: u / 2}, {lo: 0., hi: u},
                   {lo: -u, hi: u}):
            c.raises(ValueError, lambda: cl(**kw), "invalid range refused",
                     cls=cl.__name__, kw=kw)
    c.raises(ValueError, lambda: D.LogNormalSeparation(sigma=0.),
             "no width refused")
    c.raises(ValueError, lambda: D.Sana12Period().rvs(size=3),
             "period without primary mass refused")
    c.raises(ValueError, lambda: D.Sana12Period().rvs(
        size=3, m1=np.array([1., 2.])), "wrong number of masses refused")
    c.seen("errors")


def q_case(rng):
    lo = float(rng.choice([0., .05, rng.uniform(0, .6)]))
    hi = float(rng.choice([1., 1., rng.uniform(lo + .05, 1)]))
    return lo, max(hi, lo + .05)


@C.family("mass_ratio", quick=300, thorough=1500)
def mass_ratio(rng, c):
    lo, hi = q_case(rng)
    if rng.random() < .4:
        d, al = D.FlatMassRatio(q_min=lo, q_max=hi), 0.
        name = "flat"
    else:
        al = float(rng.choice([0., 1., -.5, .5, 2., rng.uniform(-2.5, 3)]))
        if al <= -1 and lo == 0.:
            lo = .03
        if abs(al + 1) < 1e-2:
            al = -.9
        if al < 0 and 0 < lo < .03:
            lo = .03
        d = D.PowerLawMassRatio(alpha=al, q_min=lo, q_max=hi)
        name = "power"
    c.note(lo=lo, hi=hi, alpha=al, name=name)
    o = Piecewise([(lo, hi, 1., al)])
    x = np.concatenate([rng.uniform(lo, hi, 30), [hi]])
    x = np.clip(x, lo + 1e-9, hi)
    c.close(d.pdf(x), o.pdf(x), "mass-ratio density", rtol=1e-5, alpha=al,
            lo=lo, hi=hi)
    c.close(d.pdf(float(x[3])), o.pdf(x[3]), "mass-ratio density, one value",
            rtol=1e-5)
    out = np.array([lo - 1e-6, lo - .1, hi + 1e-6, hi + .3, 1.0001, -.2])
    out = out[(out < lo) | (out > hi)]
    c.expect(np.all(d.pdf(out) == 0), "no mass ratio outside its range",
             got=d.pdf(out), out=out)
    s = d.rvs(size=40000, rng=np.random.default_rng(int(rng.integers(1 << 31))))
    c.expect(np.all((s >= lo) & (s <= hi * (1 + 1e-12))),
             "sampled mass ratios in range")
    ks(c, s, o.cdf, "sampled mass ratios follow the density", alpha=al, lo=lo,
       hi=hi)
    bins_test(c, s, o.cdf, lo, hi, "sampled mass ratios follow the density "
              "(bins)", log=False, alpha=al, lo=lo, hi=hi)
    rep_ok(c, lambda g: d.rvs(size=40, rng=g), "mass ratios")
    c.seen(name, round(al), lo == 0, hi == 1)
    c.count("mass ratio " + name)


@C.family("sana", quick=200, thorough=1000)
def sana_period(rng, c):
    lo = float(rng.choice([.35, .75, 1., 1.4, 10 ** rng.uniform(-1, 1.5)]))
    hi = float(rng.choice([6e3, 10 ** 3.5, max(lo, 1.5) * 10 ** rng.uniform(
        .3, 4)]))
    d = D.Sana12Period(p_min=lo, p_max=hi)
    c.note(lo=lo, hi=hi)
    x = 10 ** rng.uniform(np.log10(lo), np.log10(hi), 40)
    x = np.concatenate([x, [v for v in (10 ** .15 * 1.0000001,
                                        10 ** .15 * .9999999, 1.)
                            if lo < v < hi]])
    m1 = rng.choice([1., 7., 14.999, 15., 15.001, 16., 40., 120.], len(x))
    want = np.array([sana(lo, hi, m)[0](np.log10(p)) for p, m in zip(x, m1)])
    c.close(d.pdf(x, m1), want, "period density per dex", rtol=1e-3, lo=lo,
            hi=hi)
    m = float(rng.choice([8., 15., 30.]))
    w = sana(lo, hi, m)[0](np.log10(x))
    c.close(d.pdf(x, m), w, "period density, one primary mass", rtol=1e-3)
    out = np.array([lo * .9, lo * .99999, hi * 1.00001, hi * 5])
    c.expect(np.all(d.pdf(out, m) == 0), "no period outside its range")
    # samples of a mixed population
    n = 30000
    mm = rng.choice([3., 14.9, 15., 15.1, 25., 80.], n)
    s = d.rvs(size=n, m1=mm, rng=np.random.default_rng(
        int(rng.integers(1 << 31))))
    c.expect(np.all((s >= lo * (1 - 1e-12)) & (s <= hi * (1 + 1e-12))),
             "sampled periods in range", mn=s.min(), mx=s.max())
    for grp in (mm <= 15, mm > 15, mm == 15., mm == 15.1):
        cd = sana(lo, hi, mm[grp][0])[1]
        ks(c, np.log10(s[grp]), cd, "sampled periods follow the density of "
           "their primary", lo=lo, hi=hi, m1=mm[grp][0])
        bins_test(c, np.log10(s[grp]), cd, np.log10(lo), np.log10(hi),
                  "sampled periods follow the density of their primary "
                  "(bins)", log=False, m1=mm[grp][0], lo=lo, hi=hi)
    s1 = d.rvs(size=3000, m1=m, rng=rng)
    ks(c, np.log10(s1), sana(lo, hi, m)[1], "periods for one primary mass")
    rep_ok(c, lambda g: d.rvs(size=40, m1=mm[:40], rng=g), "periods")
    c.seen("sana", lo < 10 ** .15, int(np.log10(hi)))
    c.count("sana")


@C.family("orbits", quick=400, thorough=1500)
def orbits(rng, c):
    k = rng.integers(5)
    seed = int(rng.integers(1 << 31))
    g = np.random.default_rng(seed)
    n = 40000
    if k == 0:
        lo = float(rng.choice([1.4, 10 ** rng.uniform(-1, 2)]))
        hi = lo * 10 ** float(rng.uniform(.3, 3 if rng.random() < .7 else 6))
        sl = float(rng.choice([-.55, 0., -1., .3, rng.uniform(-1, .5)]))
        d = D.PowerLawPeriod(slope=sl, p_min=lo, p_max=hi)
        # density per dex of P proportional to P^slope
        o = Piecewise([(lo, hi, 1., sl - 1)])
        x = 10 ** rng.uniform(np.log10(lo), np.log10(hi), 40)
        c.close(d.pdf(x), o.pdf(x) * x * LN10, "power-law period density",
                rtol=1e-4, slope=sl, lo=lo, hi=hi)
        out = np.array([lo * .99, hi * 1.01, -1., 0.])
        cd, name = o.cdf, "powerlaw"
    elif k == 1:
        lo = float(rng.choice([5., 10 ** rng.uniform(0, 2)]))
        hi = lo * 10 ** float(rng.uniform(.2, 5))
        d = D.LogUniform(min=lo, max=hi)
        x = 10 ** rng.uniform(np.log10(lo), np.log10(hi), 40)
        t = 1 / x / np.log(hi / lo)
        r = d.pdf(x) / t
        if np.allclose(r, LN10, rtol=1e-9):
            c.expect(False, "log-uniform density",
                     key="LogUniform.pdf integrates to ln(10)", lo=lo, hi=hi)
        else:
            c.close(d.pdf(x), t, "log-uniform density", rtol=1e-9)
        out = np.array([lo * .99, hi * 1.01, -1., 0.])
        cd, name = lambda v: np.log(np.clip(v, lo, hi) / lo) / np.log(
            hi / lo), "loguniform"
    elif k == 2:
        me, sg = float(rng.uniform(.3, 3)), float(rng.uniform(.1, 1.2))
        lo = 10 ** (me + sg * float(rng.uniform(-2.5, .8)))
        hi = lo * 10 ** float(rng.uniform(.3, 3))
        d = D.LogNormalSeparation(mean=me, sigma=sg, min=lo, max=hi)
        a, b = (np.log10([lo, hi]) - me) / sg
        Z = special.ndtr(b) - special.ndtr(a)
        x = 10 ** rng.uniform(np.log10(lo), np.log10(hi), 40)
        z = (np.log10(x) - me) / sg
        c.close(d.pdf(x), np.exp(-z ** 2 / 2) / np.sqrt(2 * np.pi) / sg / Z
                / x / LN10, "log-normal separation density", rtol=1e-6)
        out = np.array([lo * .99, hi * 1.01, -1., 0.])
        cd, name = lambda v: (special.ndtr((np.log10(np.clip(v, lo, hi)) - me)
                                           / sg) - special.ndtr(a)) / Z, "ln"
    else:
        lo = float(rng.choice([0., rng.uniform(0, .8)]))
        hi = float(rng.choice([1., rng.uniform(lo + .05, 1)]))
        x = rng.uniform(lo, hi, 40)
        if k == 3:
            d = D.ThermalEccentricity(e_min=lo, e_max=hi)
            N = hi ** 2 - lo ** 2
            w, cd = 2 * x / N, lambda v: (np.clip(v, lo, hi) ** 2
                                          - lo ** 2) / N
            name = "thermal"
        else:
            d = D.UniformEccentricity(e_min=lo, e_max=hi)
            w = np.full(40, 1 / (hi - lo))
            cd, name = lambda v: (np.clip(v, lo, hi) - lo) / (hi - lo), "unif"
        c.close(d.pdf(x), w, "eccentricity density", rtol=1e-9)
        out = np.array([lo - .01, hi + .01, -.5, 1.5])
    c.note(name=name, lo=lo, hi=hi)
    c.expect(np.all(d.pdf(out) == 0), "density zero outside the range",
             got=d.pdf(out))
    s = d.rvs(size=n, rng=g)
    c.expect(s.shape == (n,), "sample size")
    c.expect(np.all((s >= lo * (1 - 1e-9)) & (s <= hi * (1 + 1e-9))),
             "samples in range", mn=s.min(), mx=s.max(), lo=lo, hi=hi)
    ks(c, s, cd, "samples follow the density", name=name, lo=lo, hi=hi)
    bins_test(c, s, cd, lo, hi, "samples follow the density (bins)",
              log=lo > 0 and name not in ("thermal", "unif"), name=name,
              lo=lo, hi=hi)
    rep_ok(c, lambda q: d.rvs(size=30, rng=q), name)
    z = D.ZeroEccentricity()
    c.expect(np.all(z.rvs(size=9, rng=rng) == 0), "circular orbits")
    c.seen(name, int(np.log10(hi / max(lo, .01))))
    c.count("orbit " + name)


FRAC = lambda m: np.where(m > 16, .94, np.where(m > 9, .84, np.where(
    m > 5, .76, np.where(m > 2, .59, .4))))


@C.family("population", quick=200, thorough=600)
def population(rng, c):
    n = int(rng.choice([1, 2, 17, 8000, 8000, 8000]))
    imfname = str(rng.choice(["Salpeter", "Kroupa1993", "Kroupa2001"]))
    m_lo = float(rng.choice([1.2, 4., 7., rng.uniform(1, 20)]))
    m_hi = float(rng.choice([120., 150., m_lo + rng.uniform(5, 100)]))
    s_lo = float(rng.choice([.35, .08, m_lo, rng.uniform(.1, m_lo)]))
    s_hi = float(rng.choice([120., 150., m_lo + rng.uniform(0, 40)]))
    scheme2 = str(rng.choice(["flat_mass_ratio"] * 4 + ["q=1"]))
    orb = str(rng.choice(["period", "separation"]))
    ecc = str(rng.choice(["thermal", "uniform", "zero"]))
    kw = dict(number_of_binaries=n, primary_mass_scheme=imfname,
              primary_mass_min=m_lo, primary_mass_max=m_hi,
              secondary_mass_scheme=scheme2, secondary_mass_min=s_lo,
              secondary_mass_max=s_hi, eccentricity_scheme=ecc)
    if orb == "period":
        p_lo, p_hi = .35, float(rng.choice([6e3, 10 ** 3.5]))
        kw.update(orbital_period_scheme="Sana+12_period_extended",
                  orbital_period_min=p_lo, orbital_period_max=p_hi)
    elif rng.random() < .5:
        p_lo, p_hi = 5., 1e5
        kw.update(orbital_separation_scheme="log_uniform",
                  orbital_separation_min=p_lo, orbital_separation_max=p_hi)
    else:
        p_lo, p_hi = 5., 1e4
        kw.update(orbital_separation_scheme="log_normal",
                  orbital_separation_min=p_lo, orbital_separation_max=p_hi,
                  log_orbital_separation_mean=1.9,
                  log_orbital_separation_sigma=.6)
    if rng.random() < .35:
        kw.update(binary_fraction_scheme="Moe+17-massdependent")
        fb = None
    else:
        fb = float(rng.choice([0., 1., .5, .7, rng.uniform(0, 1)]))
        kw.update(binary_fraction_scheme="const", binary_fraction_const=fb)
    c.note(**kw)
    seed = int(rng.integers(1 << 31))
    with vk.quiet():
        o, e, m1, m2 = I.generate_independent_samples(
            orbital_scheme=orb, RNG=np.random.default_rng(seed), **kw)
        o2 = I.generate_independent_samples(
            orbital_scheme=orb, RNG=np.random.default_rng(seed), **kw)
    for a, b in zip((o, e, m1, m2), o2):
        c.expect(np.array_equal(a, b, equal_nan=True),
                 "the same generator gives the same population")
        c.expect(np.shape(a) == (n,), "one value per system")
    single = np.isnan(m2)
    c.expect(np.array_equal(np.isnan(o), single)
             and np.array_equal(np.isnan(e), single),
             "a single star has neither companion nor orbit")
    c.expect(np.all(np.isfinite(m1)) and np.all(
        (m1 >= m_lo * (1 - 1e-12)) & (m1 <= m_hi * (1 + 1e-12))),
        "primaries in the mass range", n_nan=int(np.isnan(m1).sum()))
    b = ~single
    if b.any():
        c.expect(np.all((m2[b] >= s_lo * (1 - 1e-9)) & (m2[b] <= np.minimum(
            m1[b], s_hi if scheme2 != "q=1" else m1[b]) * (1 + 1e-9))),
            "secondaries between their minimum, maximum and the primary")
        if scheme2 == "q=1":
            c.expect(np.array_equal(m1[b], m2[b]), "equal masses")
        c.expect(np.all((o[b] >= p_lo * (1 - 1e-9))
                        & (o[b] <= p_hi * (1 + 1e-9))), "orbits in range")
        c.expect(np.all((e[b] >= 0) & (e[b] <= 1)), "eccentricity in [0, 1]")
        if ecc == "zero":
            c.expect(np.all(e[b] == 0), "circular orbits requested")
    if fb == 0:
        c.expect(single.all(), "no binaries requested")
    if fb == 1:
        c.expect(b.all(), "only binaries requested")
    if n < 1000:
        c.seen("small", n, orb, fb)
        return
    f = FRAC(m1) if fb is None else np.full(n, fb)
    for lo_, hi_ in ((0, 2), (2, 5), (5, 9), (9, 16), (16, 500)):
        w = (m1 > lo_) & (m1 <= hi_)
        if w.sum() > 30:
            pv = stats.binomtest(int(b[w].sum()), int(w.sum()),
                                 float(f[w][0])).pvalue
            c.expect(pv > PMIN, "binary fraction", p=pv, frac=f[w][0],
                     got=b[w].mean(), mass=[lo_, hi_])
    sl = {"Salpeter": [-2.35], "Kroupa1993": [-2.7]}.get(imfname)
    oi = Piecewise([(m_lo, m_hi, 1., sl[0])]) if sl else Piecewise(
        clip_pieces([.08, .5], [-.3, -1.3, -2.3], m_lo, m_hi))
    ks(c, m1, oi.cdf, "primaries follow the IMF", True, imf=imfname)
    if b.sum() > 500:
        if scheme2 == "flat_mass_ratio":
            ql, qh = s_lo / m1[b], np.minimum(1, s_hi / m1[b])
            u = (m2[b] / m1[b] - ql) / (qh - ql)
            ks(c, u, lambda x: np.clip(x, 0, 1),
               "mass ratios are flat in the allowed range", True)
        if orb == "period":
            for grp in (m1[b] <= 15, m1[b] > 15):
                if grp.sum() > 300:
                    ks(c, np.log10(o[b][grp]), sana(
                        p_lo, p_hi, m1[b][grp][0])[1], "periods follow Sana+12"
                       " of their primary", True)
        elif kw["orbital_separation_scheme"] == "log_uniform":
            ks(c, np.log10(o[b]), lambda x: (x - np.log10(p_lo)) / np.log10(
                p_hi / p_lo), "separations log-uniform", True)
        else:
            t = (np.log10([p_lo, p_hi]) - 1.9) / .6
            ks(c, np.log10(o[b]), lambda x: (special.ndtr((x - 1.9) / .6)
                                             - special.ndtr(t[0])) /
               (special.ndtr(t[1]) - special.ndtr(t[0])),
               "separations log-normal", True)
        if ecc == "thermal":
            ks(c, e[b], lambda x: x ** 2, "thermal eccentricities", True)
        elif ecc == "uniform":
            ks(c, e[b], lambda x: x, "uniform eccentricities", True)
        if ecc != "zero":
            lim = 6.5 / np.sqrt(b.sum())
            r = stats.spearmanr(e[b], m1[b]).statistic
            c.expect(abs(r) < lim, "eccentricity independent of mass", r=r)
            r = stats.spearmanr(e[b], o[b]).statistic
            c.expect(abs(r) < lim, "eccentricity independent of orbit", r=r)
    c.seen(imfname, scheme2, orb, ecc, fb if fb in (0, 1, None) else "f")
    c.count("populations")


@C.family("fraction", quick=8, thorough=40)
def fraction(rng, c):
    m = np.concatenate([[.5, 2., 2.0000001, 5., 5.0000001, 9., 9.0000001, 16.,
                         16.0000001, 100.], rng.uniform(.1, 40, 40)])
    c.close(I.generate_binary_fraction(
        m1=m, binary_fraction_scheme="Moe+17-massdependent"), FRAC(m),
        "mass-dependent binary fraction", rtol=0)
    for x in m[:12]:
        c.close(I.generate_binary_fraction(
            m1=float(x), binary_fraction_scheme="Moe+17-massdependent"),
            FRAC(x), "binary fraction of one star", rtol=0, m=x)
    u = float(rng.uniform())
    c.close(np.broadcast_to(I.generate_binary_fraction(
        m1=m, binary_fraction_const=u), m.shape), np.full(len(m), u),
        "constant fraction", rtol=0)
    bad = "no such scheme"
    with vk.quiet():
        for fn in (lambda: I.generate_binary_fraction(
                m1=m, binary_fraction_scheme=bad),
                lambda: I.generate_primary_masses(primary_mass_scheme=bad),
                lambda: I.generate_secondary_masses(
                    m, secondary_mass_scheme=bad),
                lambda: I.generate_orbital_periods(
                    m, orbital_period_scheme=bad),
                lambda: I.generate_orbital_separations(
                    orbital_separation_scheme=bad),
                lambda: I.generate_orbital_separations(
                    orbital_separation_scheme="log_normal"),
                lambda: I.generate_eccentricities(eccentricity_scheme=bad),
                lambda: I.generate_independent_samples(orbital_scheme=bad),
                lambda: I.generate_secondary_masses(
                    np.array([10., 3., 20.]), number_of_binaries=3,
                    secondary_mass_min=3.01)):
            c.raises(ValueError, fn, "unknown scheme or impossible range "
                     "refused")
    c.seen("fraction")


@C.family("samplers", quick=250, thorough=800)
def samplers(rng, c):
    """The generic samplers behind the distributions."""
    from posydon.utils import common_functions as cf
    n = int(rng.integers(2, 40))
    x = np.sort(rng.uniform(-3, 5, n))
    x = x[0] + np.concatenate([[0], np.cumsum(np.maximum(np.diff(x), .02))])
    y = rng.uniform(0, 2, n)
    if rng.random() < .3:
        y[rng.integers(n)] = 0.
    if rng.random() < .3 and n > 2:
        k = rng.integers(n - 1)
        y[k + 1] = y[k]
    if y.max() == 0:
        y[0] = 1.
    seg = .5 * (y[1:] + y[:-1]) * np.diff(x)
    if seg.sum() == 0:
        c.stop()
    cum = np.concatenate([[0], np.cumsum(seg)]) / seg.sum()

    def cdf(v):
        v = np.clip(np.asarray(v, float), x[0], x[-1])
        i = np.clip(np.searchsorted(x, v, side="right") - 1, 0, n - 2)
        t = v - x[i]
        yl = y[i] + (y[i + 1] - y[i]) * t / (x[i + 1] - x[i])
        return cum[i] + .5 * (y[i] + yl) * t / seg.sum()
    g = np.random.default_rng(int(rng.integers(1 << 31)))
    s = cf.inverse_sampler(x, y, size=20000, rng=g)
    c.expect(np.all((s >= x[0] - 1e-9) & (s <= x[-1] + 1e-9)),
             "inverse sampling stays in range")
    ks(c, s, cdf, "inverse sampling follows the density", x=x, y=y)
    s = cf.rejection_sampler(x=x, y=y, size=6000, rng=g)
    c.expect(np.all((s >= x[0]) & (s <= x[-1])) and len(s) == 6000,
             "rejection sampling stays in range")
    ks(c, s, cdf, "rejection sampling follows the density", x=x, y=y)
    s = cf.rejection_sampler(size=3000, x_lim=[x[0], x[-1]],
                             pdf=lambda v: np.interp(v, x, y), rng=g)
    ks(c, s, cdf, "rejection sampling of a function", x=x, y=y)
    # histogram
    h = rng.integers(0, 20, n - 1).astype(float)
    if h.sum() == 0:
        h[0] = 3
    cc = np.concatenate([[0], np.cumsum(h)]) / h.sum()
    s = np.atleast_1d(cf.histogram_sampler(x, h, size=8000, rng=g))
    c.expect(np.all((s >= x[0]) & (s <= x[-1])) and len(s) == 8000,
             "histogram sampling stays in range")
    k = np.histogram(s, bins=x)[0]
    c.expect(np.all(k[h == 0] == 0), "empty bins stay empty")
    ks(c, s, lambda v: np.interp(v, x, cc), "histogram sampling follows the "
       "histogram", h=h)
    c.seen("sampler", min(n, 6), bool((y == 0).any()), bool((h == 0).any()))
    c.count("samplers")


for k, m in (("imf Salpeter", 15), ("imf Kroupa1993", 15),
             ("imf Kroupa2001", 15), ("imf Chabrier2003", 15),
             ("mass ratio flat", 15), ("mass ratio power", 20), ("sana", 40),
             ("orbit powerlaw", 5), ("orbit loguniform", 5), ("orbit ln", 5),
             ("orbit thermal", 5), ("orbit unif", 5), ("populations", 15),
             ("samplers", 40)):
    C.require(k, m)

if __name__ == "__main__":
    sys.exit(C.main())
