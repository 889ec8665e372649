"""C10  Re-weighting a population to another birth population."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
vk.setup_env()
import numpy as np
import pandas as pd
from scipy import integrate
import popfile as pf
from dist import gen_imf, plaw_int, sana, LN10
from posydon.popsyn import norm_pop as N
from posydon.popsyn import independent_sample as I
from posydon.popsyn import synthetic_population as SP

C = vk.Check(
    "C10",
    "random pairs of simulated and requested birth populations and random "
    "systems drive the real density, mean-mass and weight functions; every "
    "value is compared with closed-form densities, and weighted samples with "
    "the requested population; signature = (schemes of both sides, case)")

DAY, RSUN, MSUN, G = 86400., 6.957e10, 1.988409870698051e33, 6.6743e-8


def kepler_a(P, M):
    """separation [Rsun] from period [d] and total mass [Msun]"""
    return (G * M * MSUN * (P * DAY) ** 2 / 4 / np.pi ** 2) ** (1 / 3.) / RSUN


class Pop:
    """random birth population and its closed-form density"""

    def __init__(self, rng, lo=None, hi=None, wide=False, qkind=None,
                 fb=None):
        while True:
            k, kw, l, h, o = gen_imf(rng)
            if lo is None or (l <= lo and h >= hi):
                break
            # widen instead of looping for long
            if rng.random() < .2:
                k = "Salpeter"
                kw = {}
                l, h = lo * .8, hi * 1.3
                from dist import Piecewise
                o = Piecewise([(l, h, 1., -2.35)])
                break
        self.imf, self.lo, self.hi = o, l, h
        p = dict(primary_mass_scheme=k, primary_mass_min=l,
                 primary_mass_max=h)
        if kw:
            p[k] = kw
        self.fb = float(rng.choice([.7, .3, 1., 0., rng.uniform(0, 1)],
                                   p=[.35, .2, .1, .05, .3])) \
            if fb is None else fb
        p.update(binary_fraction_scheme="const",
                 binary_fraction_const=self.fb)
        q = ["mass", "mass", "flat", "power"][rng.integers(4)] \
            if qkind is None else qkind
        self.q = q
        self.smin = l * float(rng.uniform(.01, .9))
        self.smax = h * float(rng.choice([1., 1.2, rng.uniform(.3, 1)]))
        if self.smin / l > self.smax / h:
            self.smax = h
        p.update(secondary_mass_scheme="flat_mass_ratio",
                 secondary_mass_min=self.smin, secondary_mass_max=self.smax)
        if q == "flat":
            self.q0 = float(rng.choice([.05, 0., rng.uniform(0, .5)]))
            self.q1 = float(rng.choice([1., rng.uniform(self.q0 + .1, 1)]))
            p.update(q_min=self.q0, q_max=self.q1)
        elif q == "power":
            self.al = float(rng.choice([0., 1., -.5, 2., rng.uniform(-2, 3)]))
            if abs(self.al + 1) < 1e-2:
                self.al = -.9
            p.update(secondary_mass_scheme="power_law_mass_ratio",
                     mass_ratio_slope=self.al)
            self.q0, self.q1 = .05, 1.
            if rng.random() < .5:
                self.q0 = float(rng.uniform(.01, .4))
                self.q1 = float(rng.choice([1., rng.uniform(.5, 1)]))
                p.update(q_min=self.q0, q_max=self.q1)
            # parameters of the mass-dependent limits must not matter
        self.orb = ["sana", "sana", "power", "sep"][rng.integers(4)]
        if self.orb == "sep":
            self.p0 = float(rng.choice([5., 10 ** rng.uniform(.3, 2)]))
            self.p1 = self.p0 * 10 ** float(rng.uniform(1, 4))
            p.update(orbital_scheme="separation",
                     orbital_separation_scheme="log_uniform",
                     orbital_separation_min=self.p0,
                     orbital_separation_max=self.p1)
        else:
            self.p0 = float(rng.choice([.35, .75, 1.4,
                                        10 ** rng.uniform(-.5, 1)]))
            self.p1 = self.p0 * 10 ** float(rng.uniform(1.5, 4))
            p.update(orbital_scheme="period", orbital_period_min=self.p0,
                     orbital_period_max=self.p1,
                     orbital_period_scheme="Sana+12_period_extended")
            if self.orb == "power":
                self.sl = float(rng.choice([-.55, 0., rng.uniform(-1, .5)]))
                p.update(orbital_period_scheme="power_law",
                         power_law_slope=self.sl)
        self.par = p

    def qlim(self, m):
        if self.q == "mass":
            return self.smin / m, np.minimum(self.smax / m, 1.)
        return self.q0, self.q1

    def qpdf(self, q, m):
        a, b = self.qlim(m)
        if self.q == "power":
            v = np.clip(q, 1e-300, None) ** self.al / plaw_int(
                self.al, self.q0, self.q1)
        else:
            v = 1 / (b - a)
        return np.where((q > a) & (q <= b), v, 0.)

    def ppdf(self, P, m, q):
        if self.orb == "sana":
            lp = np.log10(P)
            return np.array([float(sana(self.p0, self.p1, mm)[0](x))
                             for x, mm in zip(lp, m)])
        if self.orb == "power":
            return np.where((P >= self.p0) & (P <= self.p1), LN10 * P
                            ** self.sl / plaw_int(self.sl - 1, self.p0,
                                                  self.p1), 0.)
        a = kepler_a(P, m * (1 + q))
        return np.where((a >= self.p0) & (a <= self.p1), 2. / 3
                        / np.log10(self.p1 / self.p0), 0.)

    def pdf(self, m, q, P, b):
        s = (1 - self.fb) * self.imf.pdf(m)
        f = self.fb * self.imf.pdf(m)
        out = np.array(s, float)
        if b.any():
            out[b] = f[b] * self.qpdf(q[b], m[b]) * self.ppdf(P[b], m[b],
                                                              q[b])
        return out

    def mean_q(self, m):
        a, b = self.qlim(m)
        if self.q == "power":
            return plaw_int(self.al + 1, a, b) / plaw_int(self.al, a, b)
        return (a + b) / 2

    def mean(self):
        e = np.unique(np.concatenate([np.geomspace(self.lo, self.hi, 6001), [
            x for x in (.08, .5, 1., self.smax) if self.lo < x < self.hi]]))
        x0, x1 = e[:-1], e[1:]
        tot = 0.
        gx, gw = np.polynomial.legendre.leggauss(4)
        for x, w in zip(gx, gw):
            m = (x0 + x1) / 2 + (x1 - x0) / 2 * x
            f = self.imf.pdf(m) * m * (1 + self.fb * self.mean_q(m))
            tot += w * np.sum(f * (x1 - x0) / 2)
        return float(tot)

    def near(self, x, m, q=None):
        """systems too close to a limit to be decided"""
        bad = np.zeros(len(m), bool)
        for v in (self.lo, self.hi):
            bad |= np.abs(m / v - 1) < 1e-9
        return bad

    def boundary(self, m, q, P):
        bad = self.near(None, m)
        a, b = self.qlim(m)
        # inclusive limits are decided by rounding only for q = m2/m1
        bad |= np.abs(q - a) < 1e-9
        bad |= (np.abs(q - b) < 1e-9) & (np.abs(q - 1) > 1e-12)
        v = kepler_a(P, m * (1 + q)) if self.orb == "sep" else P
        tol = 1e-3 if self.orb == "sep" else 1e-9
        bad |= (np.abs(v / self.p0 - 1) < tol) | (np.abs(v / self.p1 - 1)
                                                  < tol)
        if self.orb == "sana":
            bad |= np.abs(np.log10(np.where(P > 0, P, 1)) - .15) < 1e-9
        return bad

    def sig(self):
        return (self.par["primary_mass_scheme"][:4], self.q, self.orb)


def systems(rng, A, B, n, single=.3):
    """random systems in and around the ranges of both populations"""
    lo, hi = min(A.lo, B.lo) * .8, max(A.hi, B.hi) * 1.2
    m = 10 ** rng.uniform(np.log10(lo), np.log10(hi), n)
    k = rng.random(n) < .6
    m[k] = 10 ** rng.uniform(np.log10(max(A.lo, B.lo) if max(A.lo, B.lo)
                                      < min(A.hi, B.hi) else lo),
                             np.log10(min(A.hi, B.hi) if max(A.lo, B.lo)
                                      < min(A.hi, B.hi) else hi), k.sum())
    q = rng.uniform(0, 1, n)
    q[rng.random(n) < .08] = 1.
    P = 10 ** rng.uniform(-1, 4.5, n)
    j = rng.integers(n, size=max(1, n // 10))
    m[j] = rng.choice([14.99, 15., 15.01, 40.], len(j))
    b = rng.random(n) > single
    return m, q, P, b


def frame(m, q, P, b, index=None):
    return pd.DataFrame({
        "S1_mass_i": m, "S2_mass_i": np.where(b, q * m, 0.),
        "orbital_period_i": np.where(b, P, np.nan), "eccentricity_i": 0.,
        "state_i": np.where(b, "detached", "initially_single_star")},
        index=index)


@C.family("weights", quick=170, thorough=6000)
def weights(rng, c):
    A, B = Pop(rng), Pop(rng)
    if rng.random() < .15:
        B = A
    if rng.random() < .4 and B is not A:
        # overlapping ranges
        B = Pop(rng, lo=A.lo, hi=A.hi)
    c.note(sim=A.par, pop=B.par)
    if (A.fb == 1 and B.fb == 0) or (A.fb == 0 and B.fb == 1):
        c.raises(ValueError, lambda: N.calculate_model_weights(
            frame(*systems(rng, A, B, 3)), 1., A.par, B.par),
            "population which was not simulated refused")
        c.count("impossible")
        return
    M = float(10 ** rng.uniform(0, 8))
    m, q, P, b = systems(rng, A, B, 60)
    df = frame(m, q, P, b, index=rng.permutation(200)[:60])
    keep = df.copy()
    pa, pb = dict(A.par), dict(B.par)
    qq = df["S2_mass_i"].to_numpy() / m
    with vk.quiet():
        w = np.asarray(N.calculate_model_weights(df, M, A.par, B.par))
    c.expect(df.equals(keep) and A.par == pa and B.par == pb,
             "the arguments stay as they were")
    Pp = np.where(b, P, 1.)
    bad = b & (A.boundary(m, qq, Pp) | B.boundary(m, qq, Pp))
    bad |= A.near(None, m) | B.near(None, m)
    ok = ~bad
    fa = A.pdf(m, qq, Pp, b)
    fb = B.pdf(m, qq, Pp, b)
    ma, mb = A.mean(), B.mean()
    with np.errstate(all="ignore"):
        want = np.where(fa > 0, fb / fa, 0.) * (ma / mb) / M
    if A is B:
        c.close(w[ok & (fa > 0)], np.full((ok & (fa > 0)).sum(), 1 / M),
                "an unchanged population weighs 1/M_sim", rtol=1e-9)
        c.count("unchanged")
    c.expect(np.all(np.isfinite(w)) and np.all(w >= 0), "weights are finite "
             "and not negative")
    c.close(w[ok], want[ok], "weight of each system", rtol=4e-3,
            sim=A.par, pop=B.par)
    # ratios do not depend on the mean masses and are sharper
    z = ok & (want > 0)
    if z.sum() > 1 and A.orb != "sana" and B.orb != "sana":
        i = np.flatnonzero(z)
        c.close(w[i] / w[i[0]], want[i] / want[i[0]], "ratio of weights",
                rtol=2e-5)
        c.count("ratios")
    c.count("positive weights", int(z.sum()))
    c.count("zero weights", int((ok & (want == 0)).sum()))
    with vk.quiet():
        c.close(N.get_mean_mass(A.par), ma, "mean mass of a population",
                rtol=2e-3, par=A.par)
        got = N.get_pdf(A.par)(m, qq, Pp, b)
        gm = N.get_pdf(A.par, mass_pdf=True)(m, qq, Pp, b)
    c.close(got[ok], fa[ok], "density of initial conditions", rtol=2e-3)
    fm = np.where(b, A.fb * A.imf.pdf(m) * A.qpdf(qq, m),
                  (1 - A.fb) * A.imf.pdf(m))
    c.close(gm[ok], fm[ok], "density of masses", rtol=1e-4)
    c.seen(A.sig(), B.sig(), A is B)
    c.count("weights")


@C.family("refusals", quick=30, thorough=100)
def refusals(rng, c):
    A = Pop(rng, fb=.5)
    for k, v in (("binary_fraction_scheme", "other"),
                 ("orbital_scheme", "other"),
                 ("orbital_period_scheme", "other"),
                 ("orbital_separation_scheme", "other")):
        p = dict(A.par)
        if k == "orbital_period_scheme" and A.orb == "sep":
            continue
        if k == "orbital_separation_scheme" and A.orb != "sep":
            continue
        p[k] = v
        with vk.quiet():
            c.raises(ValueError, lambda: N.get_pdf(p), "unknown %s refused"
                     % k)
    c.seen("refusals", A.orb)


@C.family("reweight", quick=48, thorough=500)
def reweight(rng, c):
    """a sample of one population, weighted, looks like the other one"""
    f = float(rng.uniform(.2, .9))
    lo = float(rng.choice([1., 6.5]))
    hi = float(rng.choice([50., 120.]))
    orb = ["period", "separation"][rng.integers(2)]
    sim = dict(primary_mass_scheme="Kroupa2001", primary_mass_min=lo,
               primary_mass_max=hi, secondary_mass_scheme="flat_mass_ratio",
               secondary_mass_min=.05 * lo, secondary_mass_max=hi,
               binary_fraction_scheme="const", binary_fraction_const=f,
               orbital_scheme="period",
               orbital_period_scheme="Sana+12_period_extended",
               orbital_period_min=.75, orbital_period_max=6000.)
    if orb == "separation":
        sim.update(orbital_scheme="separation",
                   orbital_separation_scheme="log_uniform",
                   orbital_separation_min=5., orbital_separation_max=1e4)
    n = 40000
    g = np.random.default_rng(int(rng.integers(1 << 31)))
    with vk.quiet():
        orbit, ecc, m1, m2 = I.generate_independent_samples(
            number_of_binaries=n, RNG=g, star_formation="burst",
            eccentricity_scheme="zero", **sim)
    b = ~np.isnan(m2)
    m2 = np.where(b, m2, 0.)
    per = phys_period(orbit, m1 + m2) if orb == "separation" else orbit
    Msim = float(np.sum(m1 + m2))
    # requested: narrower range, other slope, other fraction and period law
    pop = dict(sim)
    mlo, mhi = lo * float(rng.uniform(1, 1.4)), hi * float(rng.uniform(.5, 1))
    f2 = float(rng.uniform(.2, .9))
    pop.update(primary_mass_scheme=str(rng.choice(["Salpeter", "Kroupa2001",
                                                   "Chabrier2003"])),
               primary_mass_min=mlo, primary_mass_max=mhi,
               secondary_mass_min=.1 * mlo, secondary_mass_max=mhi,
               binary_fraction_const=f2)
    if orb != "separation":
        pop.update(orbital_period_scheme="power_law", power_law_slope=float(
            rng.uniform(-.3, .2)), orbital_period_min=1.,
            orbital_period_max=1000.)
    else:
        pop.update(orbital_separation_min=10., orbital_separation_max=2000.)
    df = pd.DataFrame({"S1_mass_i": m1, "S2_mass_i": m2,
                       "orbital_period_i": per,
                       "state_i": np.where(b, "detached",
                                           "initially_single_star")})
    with vk.quiet():
        w = np.asarray(N.calculate_model_weights(df, Msim, sim, pop))

    def check(x, want, what):
        t = w * x
        sd = np.std(t) * np.sqrt(n)
        got = t.sum()
        c.expect(abs(got - want) < 7 * sd + .012 * want, what, got=got,
                 want=want, sd=sd, sim=sim, pop=pop)
    check(m1 + m2, 1., "weighted systems add up to one solar mass formed")
    mb = np.sum(w * m1 * b) / np.sum(w * m1)
    t = w * m1
    sd = np.sqrt(np.sum((t * (b - mb)) ** 2)) / t.sum()
    c.expect(abs(mb - f2) < 7 * sd + .01, "weighted binary fraction",
             got=mb, want=f2, sd=sd)
    c.seen("reweight", orb, pop["primary_mass_scheme"])
    c.count("reweighted")


def phys_period(a, M):
    return np.sqrt(4 * np.pi ** 2 * (a * RSUN) ** 3 / (G * M * MSUN)) / DAY


@C.family("transient", quick=40, thorough=1200)
def transient(rng, c):
    mets = [1.] if rng.random() < .4 else [.1, .45, 2.]
    n = int(rng.choice([1, 3, 8, 15, 45]))
    ids, pat = pf.indices(rng, n)
    h, o = pf.frames(rng, ids, mets, maxlen=5)
    o["orbital_period_i"] = np.where(o["state_i"] == "detached",
                                     o["orbital_period_i"], np.nan)
    # components may be stored in either order
    fl = rng.random(n) < .3
    sg = (o["state_i"] == "initially_single_star").to_numpy()
    a, b = o["S1_mass_i"].to_numpy().copy(), o["S2_mass_i"].to_numpy().copy()
    sw = fl & ~sg
    o["S1_mass_i"] = np.where(sw, b, a)
    o["S2_mass_i"] = np.where(sw, a, b)
    A = Pop(rng, lo=6., hi=210., fb=.6)
    B = Pop(rng, lo=6.5, hi=200., fb=float(rng.uniform(.1, .9)))
    A.par.update(number_of_binaries=n)
    mass = pf.mass_table(o, mets)
    mass["simulated_mass"] *= rng.uniform(1, 100, len(mets))
    path = os.path.join(vk.scratch(), "w_%d.h5" % os.getpid())
    flat = {k: v for k, v in A.par.items() if not isinstance(v, dict)}
    pf.write(path, h, o, mets, mass=mass)
    fc = rng.random() < .6
    with vk.quiet():
        P = SP.Population(path, chunksize=int(rng.choice([1, 3, 100])))
        if fc:
            P.calculate_formation_channels(mt_history=False)

    def func(hh, oo, ff):
        m = hh["x"] > -.3
        d = pd.DataFrame({"time": hh["time"][m] * 1e-6}, index=hh.index[m])
        d["metallicity"] = oo["metallicity"].reindex(d.index)
        if ff is not None:
            d["channel"] = ff["channel"].reindex(d.index)
        return d
    with vk.quiet():
        T = P.create_transient_population(func, "tr")
    if T is None:
        c.stop()
    before = T.population
    ident = "w_one"
    with vk.quiet():
        for rep in range(int(rng.choice([1, 2]))):
            if rep:
                T.calculate_model_weights(ident, population_parameters=dict(
                    B.par, binary_fraction_const=.5),
                    simulation_parameters=A.par)
            W = T.calculate_model_weights(
                ident, population_parameters=B.par,
                simulation_parameters=A.par)
    c.expect(W.index.tolist() == before.index.tolist(), "weights belong to "
             "the events in their order")
    m1 = o[["S1_mass_i", "S2_mass_i"]].max(axis=1)
    m2 = o[["S1_mass_i", "S2_mass_i"]].min(axis=1)
    d = pd.DataFrame({"S1_mass_i": m1, "S2_mass_i": m2, "state_i":
                      o["state_i"], "orbital_period_i":
                      o["orbital_period_i"]})
    mm, qq = m1.to_numpy(), (m2 / m1).to_numpy()
    bb = (o["state_i"] != "initially_single_star").to_numpy()
    Pp = np.where(bb, o["orbital_period_i"], 1.)
    fa, fb = A.pdf(mm, qq, Pp, bb), B.pdf(mm, qq, Pp, bb)
    bad = bb & (A.boundary(mm, qq, Pp) | B.boundary(mm, qq, Pp))
    bad |= A.near(None, mm) | B.near(None, mm)
    Ms = mass["simulated_mass"].loc[o["metallicity"]].to_numpy()
    with np.errstate(all="ignore"):
        ww = pd.Series(np.where(fa > 0, fb / fa, 0.) * A.mean() / B.mean()
                       / Ms, index=o.index)
    bad = pd.Series(bad, index=o.index)
    ev = before.index
    use = ~bad.loc[ev].to_numpy()
    c.close(W[ident].to_numpy()[use], ww.loc[ev].to_numpy()[use],
            "weight of each event", rtol=4e-3, ids=ids, ev=ev.tolist())
    c.count("events", len(ev))
    c.expect(pf.same(T.model_weights(ident), W), "weights are stored")
    with vk.quiet():
        T2 = SP.TransientPopulation(path, "tr")
        c.expect(pf.same(T2.model_weights(ident), W), "weights are stored in "
                 "the file")
        # a second set does not disturb the first
        B2 = {k: v for k, v in B.par.items() if not isinstance(v, dict)}
        W2 = T2.calculate_model_weights("w_two", population_parameters=dict(
            B2, binary_fraction_const=.35), simulation_parameters=A.par)
        al = T2.model_weights()
    c.expect(set(al.columns) == {"w_one", "w_two"} and np.array_equal(
        al["w_one"], W["w_one"]) and np.array_equal(al["w_two"],
                                                    W2["w_two"]),
        "all sets of weights")
    mp = T2.model_weight_parameters("w_two")
    c.expect(all(mp.get(k) == v for k, v in dict(
        B2, binary_fraction_const=.35).items()),
        "parameters of the requested population are stored", got=mp)
    eff = T2.efficiency(ident, channels=bool(fc))
    mz = before["metallicity"].to_numpy()
    for z in mets:
        c.close(float(eff.loc[z, "total"]), W[ident].to_numpy()[mz == z].sum(),
                "efficiency of a metallicity", rtol=1e-9, atol=1e-300)
        if fc:
            for ch in before["channel"].unique():
                k = (mz == z) & (before["channel"] == ch).to_numpy()
                c.close(float(eff.loc[z, ch]), W[ident].to_numpy()[k].sum(),
                        "efficiency of a channel", rtol=1e-9, atol=1e-300)
    c.expect(pf.same(pd.read_hdf(path, "history"), h) and pf.same(
        pd.read_hdf(path, "oneline"), o) and pf.same(T.population, before),
        "weights leave the population alone")
    c.seen("transient", pat, len(mets), fc, n)
    c.count("transient")


for k, m in (("weights", 100), ("unchanged", 8), ("ratios", 10),
             ("positive weights", 1000), ("zero weights", 1000),
             ("reweighted", 30), ("transient", 20), ("events", 200)):
    C.require(k, m)

if __name__ == "__main__":
    sys.exit(C.main())
