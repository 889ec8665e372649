"""C36  Correlated initial conditions of Moe & Di Stefano (2017)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import numpy as np

vk.setup_env()
import phys
from scipy.stats import binom
from posydon.popsyn.Moes_distributions import Moe_17_PsandQs
from posydon.popsyn import independent_sample as ins

C = vk.Check(
    "C36",
    "the distributions tabulated by the real generator for random grids and "
    "period ranges against an own statement of the published equations; its "
    "draws (through the generator and the population sampler) against these "
    "tables by probability-integral transforms; signature = (family, mass "
    "range, binaries only, scheme, range)")

NC = {2: [.5, .5], 3: [1 / 3, 4 / 3, 1 / 3], 4: [3 / 8, 9 / 8, 9 / 8, 3 / 8],
      5: [14 / 45, 64 / 45, 24 / 45, 64 / 45, 14 / 45]}


def integrate(x, f):
    """five-point Newton-Cotes (Boole), the rest at lower order"""
    out = 0.
    for i in range(0, len(x) - 1, 4):
        k = len(x[i:i + 5])
        out += (x[i + k - 1] - x[i]) / (k - 1) * np.dot(NC[k], f[i:i + 5])
    return out


def lin(x, *knots):
    """piecewise linear through (x, y), constant outside"""
    return float(np.interp(x, [k[0] for k in knots], [k[1] for k in knots]))


def in_log_mass(m, *knots):
    return float(np.interp(np.log10(m), [np.log10(k[0]) for k in knots],
                           [k[1] for k in knots]))


def q_density(m, lp, q):
    twin = 8. - m if m < 6.5 else 1.5
    F1 = .3 - .15 * np.log10(m)
    F = F1 if lp <= 1 else F1 * (1 - (lp - 1) / (twin - 1))
    if lp >= twin:
        F = 0.
    gl = in_log_mass(
        m, (1.2, -.5 if lp < 5 else -.5 - .3 * (lp - 5)),
        (3.5, lin(lp, (1, -.5), (4.5, -1.2), (6.5, -2.))),
        (6., lin(lp, (1, -.5), (2, -1.4), (4, -2.))))
    gs = in_log_mass(
        m, (1.2, .3),
        (3.5, .2 if lp <= 2.5 else .2 - .3 * (lp - 2.5) if lp <= 5.5
         else -.7 - .2 * (lp - 5.5)),
        (6., lin(lp, (1, .1), (3, -.2), (5.6, -1.5))))
    big = q >= .3
    f = q ** gl
    f = f / integrate(q[big], f[big])
    t = (q >= .95) * 1.
    f = (1 - F) * f + F * t / integrate(q, t)
    i = int(np.argmax(big))
    f[~big] = f[i] * (q[~big] / .3) ** gs
    return f


def e_density(m, lp, e):
    if lp >= .7:
        n3, n7 = .6 - .7 / (lp - .5), .9 - .2 / (lp - .5)
    else:
        n3, n7 = -2.9, -.1
    eta = in_log_mass(m, (3., n3), (7., n7))
    top = 1 - (10 ** lp / 2) ** (-2 / 3)
    if 10 ** lp <= 2 or top <= e[1]:
        return e ** -3.2
    f = e ** eta
    f[e >= top] = 0.
    turn = (e >= .8 * top) & (e <= top)
    if not turn.any():
        return f
    k = int(np.argmax(turn)) - 1
    f[turn] = f[k] * (top - e[turn]) / (.2 * top)
    return f


def p_density(m, lp):
    """companions with q > 0.3 per decade of period"""
    L = np.log10(m)
    f1 = .020 + .04 * L + .07 * L * L
    f2 = .039 + .07 * L + .01 * L * L
    f5 = .078 - .05 * L + .04 * L * L
    a, D = .018, .7
    if lp > 5.5:
        return f5 * np.exp(-.3 * (lp - 5.5))
    return lin(lp, (1., f1), (2.7 - D, f2 - a * D), (2.7 + D, f2 + a * D),
               (5.5, f5))


def inner(m, lp):
    return 1. if lp <= 1.5 else max(
        0., 1 - .11 * (lp - 1.5) ** 1.43 * (m / 10) ** .56)


def cum(f):
    c = np.cumsum(f) - f[0]
    return c / c.max()


GRIDS = {}


def grid(rng, fine=False):
    """generator and its settings"""
    n = (101, 158, 91, 200) if fine else (
        int(rng.integers(3, 9)), int(rng.integers(6, 40)),
        int(rng.choice([91, 46, 181, 94])), int(rng.choice([100, 200, 400])))
    lo = float(rng.choice([1.412, 1., .35, 2. + 10 ** rng.uniform(-4, -1),
                           10 ** rng.uniform(-.3, 1)]))
    hi = float(rng.choice([1e8, 10 ** 3.16, 10 ** 5.5,
                           10 ** rng.uniform(2, 8)]))
    if fine:
        lo, hi = 1.412, 1e8
    kw = dict(zip(("n_M1", "n_logP", "n_q", "n_e"), n))
    if fine:
        kw = {}
    if not fine or rng.random() < .5:
        kw.update(orbital_period_min=lo, orbital_period_max=hi)
    return kw, n, lo, hi


@C.family("tables", 40, 800)
def tables(rng, c):
    kw, n, lo, hi = grid(rng)
    g = Moe_17_PsandQs(**kw)
    m = 10 ** np.linspace(np.log10(.8), np.log10(40), n[0])
    lp = np.linspace(np.log10(lo), np.log10(hi), n[1])
    q = np.linspace(.1, 1, n[2])
    e = 1e-4 + np.linspace(0, .99, n[3])
    c.note(**kw)
    for got, want, nm in ((g.M1v, m, "mass"), (g.logPv, lp, "period"),
                          (g.qv, q, "mass-ratio"), (g.ev, e, "eccentricity")):
        c.close(got, want, "%s grid" % nm, rtol=1e-9)
    for i, M in enumerate(m):
        dens = []
        for j, L in enumerate(lp):
            near = min(abs(L - x) for x in (.7, np.log10(2), 1., 1.5)) < 1e-9
            fq = q_density(M, L, q)
            c.close(g.cumqdist[:, j, i], cum(fq),
                    "mass-ratio distribution", rtol=1e-6, atol=1e-9, M=M,
                    logP=L)
            fe = e_density(M, L, e)
            if not near:
                c.close(g.cumedist[:, j, i], cum(fe),
                        "eccentricity distribution", rtol=1e-6, atol=1e-9,
                        M=M, logP=L)
            f = p_density(M, L) * integrate(q, fq)
            c.close(g.flogP_sq[j, i], f, "companion frequency", rtol=1e-6,
                    M=M, logP=L)
            b = inner(M, L)
            c.close(g.probbin[j, i], b, "companion is the inner binary",
                    rtol=1e-6, atol=1e-12, M=M, logP=L)
            dens.append(f * b)
            c.count("cells")
        dens = np.array(dens)
        c.close(g.cumPbindist[:, i], cum(dens) * integrate(lp, dens),
                "period distribution of the inner binaries", rtol=1e-6,
                atol=1e-9, M=M)
    c.seen("tables", n[2], n[3], lo < 2, round(np.log10(hi)))


def check_draws(c, g, M, mmin, allb, out, n, ecc=True, sep=False):
    """draws of one primary mass against the tables"""
    m2, P, e = out[:3]
    i = int(np.argmin(abs(M - g.M1v)))
    cp = np.array(g.cumPbindist[:, i])
    frac = cp.max()
    if M <= .8:
        frac = frac * np.log10(M / mmin) / np.log10(.8 / mmin)
    if allb:
        frac = 1.
    one = np.isnan(m2)
    c.expect(np.array_equal(one, np.isnan(P)), "a star is single or not")
    k = int((~one).sum())
    pv = min(binom.cdf(k, n, min(frac, 1)), binom.sf(k - 1, n, min(frac, 1)))
    c.expect(pv > 1e-9 and (not allb or k == n), "binary fraction", M=M, n=n,
             binaries=k, frac=frac)
    if k < 50:
        return
    m2, P, e = m2[~one], P[~one], e[~one]
    if sep:
        P = phys.kepler_P(P, M, m2)
    lp = np.log10(P)
    tol = 1e-3 if sep else 1e-9
    c.expect(np.all(lp >= g.logPv[0] - tol)
             and np.all(lp <= g.logPv[-1] + tol), "periods in range",
             lo=lp.min(), hi=lp.max())
    # (what goes beyond one companion per star is not drawn)
    uP = np.interp(lp, g.logPv, cp) / (cp.max() if allb or M <= .8
                                       else min(cp.max(), 1))
    jj = np.argmin(abs(lp[:, None] - g.logPv[None, :]), axis=1)
    uq, ue = [], []
    q = m2 / M
    for a, b, j in zip(q, e, jj):
        cq = np.array(g.cumqdist[:, j, i])
        if M < .8:
            qm = mmin / M
            cq = cq - np.interp(qm, g.qv, cq)
            cq = cq / cq.max()
            cq[g.qv <= qm] = 0.
        uq.append(np.interp(a, g.qv, cq))
        ue.append(np.interp(b, g.ev, g.cumedist[:, j, i]))
    us = {"period": uP, "mass ratio": np.array(uq)}
    if ecc:
        us["eccentricity"] = np.array(ue)
    for nm, u in us.items():
        c.expect(phys.ks_stat(u, lambda x: x) < 3.3,
                 "%s follows its distribution" % nm, M=M,
                 ks=phys.ks_stat(u, lambda x: x))
    ks = list(us)
    for x in range(len(ks)):
        for y in range(x):
            r = np.corrcoef(us[ks[x]], us[ks[y]])[0, 1]
            c.expect(abs(r) < 6.5 / np.sqrt(k), "drawn independently given "
                     "the tables", pair=(ks[x], ks[y]), r=r)
    qlo = max(.1, mmin / M if M < .8 else 0)
    c.expect(np.all(q <= 1 + 1e-9) and np.all(q >= qlo - (
        g.qv[1] - g.qv[0]) - 1e-9), "mass ratios in range", lo=q.min())
    c.count("draws", k)


C.require("draws", 20000)
C.require("cells", 2000)


@C.family("draws", 24, 240)
def draws(rng, c):
    kw, n, lo, hi = grid(rng, fine=c.index % 6 == 0)
    g = Moe_17_PsandQs(RNG=np.random.default_rng(int(rng.integers(2**31))),
                       **kw)
    kind = ["low", "solar", "mid", "high", "beyond"][c.index % 5]
    M = {"low": rng.uniform(.2, .79), "solar": rng.uniform(.81, 2),
         "mid": rng.uniform(2, 9), "high": rng.uniform(9, 40),
         "beyond": rng.uniform(41, 150)}[kind]
    M = float(M)
    mmin = float(rng.choice([.08, .1]))
    allb = bool(rng.integers(2))
    N = 1500
    c.note(M=M, allb=allb, mmin=mmin, **kw)
    out = g(np.full(N, M), M_min=mmin, all_binaries=allb)
    c.expect(all(len(x) == N for x in out), "one draw per primary")
    check_draws(c, g, M, mmin, allb, out, N)
    z = (np.log10(out[3] / .02) + 2.3) / 2.476
    c.expect(phys.ks_stat(z, lambda x: np.clip(x, 0, 1)) < 3.3
             and z.min() >= -1e-9 and z.max() <= 1 + 1e-9,
             "metallicities uniform in the logarithm")
    c.seen("draws", kind, allb, c.index % 6 == 0)


@C.family("population", 10, 80)
def population(rng, c):
    """the sampler of the populations, several populations per process"""
    how = c.index % 4
    kw = dict(n_M1=int(rng.integers(3, 7)), n_logP=int(rng.integers(8, 30)),
              primary_mass_scheme=str(rng.choice(
                  ["Salpeter", "Kroupa2001"])),
              primary_mass_min=7., primary_mass_max=100.,
              orbital_period_min=float(rng.choice([1., 1.412, 5.])),
              orbital_period_max=float(rng.choice([1e3, 1e5, 1e8])),
              number_of_binaries=1500)
    if how == 0:
        kw.update(secondary_mass_scheme="Moe+17-PsandQs",
                  eccentricity_scheme="Moe+17-PsandQs")
    elif how == 1:
        kw.update(orbital_period_scheme="Moe+17-PsandQs",
                  eccentricity_scheme="zero")
    elif how == 2:
        kw.update(eccentricity_scheme="Moe+17-PsandQs",
                  orbital_period_scheme="Sana+12_period_extended")
    else:
        kw.update(secondary_mass_scheme="Moe+17-PsandQs",
                  eccentricity_scheme="thermal")
    sep = how != 1 and bool(rng.integers(2))
    seed = int(rng.integers(2**31))
    sch = "separation" if sep else "period"
    c.note(how=how, sep=sep, **kw)
    res = []
    for k in range(2):
        if k:        # something else sampled in between
            other = dict(kw, orbital_period_min=2., orbital_period_max=500.,
                         n_logP=9, number_of_binaries=30)
            ins.generate_independent_samples(
                "period", RNG=np.random.default_rng(1), **other)
        res.append(ins.generate_independent_samples(
            sch, RNG=np.random.default_rng(seed), **kw))
    for a, b in zip(*res):
        c.expect(np.array_equal(a, b, equal_nan=True), "the same random "
                 "numbers give the same population, whatever was sampled "
                 "before")
    orb, ecc, m1, m2 = res[0]
    c.expect(len(orb) == len(ecc) == len(m1) == len(m2) == 1500,
             "as many systems as asked for")
    c.expect(m1.min() >= 7 and m1.max() <= 100, "primary masses in range")
    one = np.isnan(m2)
    c.expect(np.array_equal(one, np.isnan(orb)), "single stars have no orbit")
    P = phys.kepler_P(orb, m1, m2) if sep else orb
    lo, hi = kw["orbital_period_min"], kw["orbital_period_max"]
    c.expect(np.all((P[~one] > lo * .999) & (P[~one] < hi * 1.001)),
             "orbits in the requested range", lo=np.nanmin(P),
             hi=np.nanmax(P))
    if how == 1:
        c.expect(np.all(ecc[~one] == 0), "circular orbits on request")
    elif how == 3:
        c.expect(phys.ks_stat(ecc[~one], lambda x: x * x) < 3.3,
                 "thermal eccentricities on request")
    # mass by mass against the tables of an own generator
    g = Moe_17_PsandQs(n_M1=kw["n_M1"], n_logP=kw["n_logP"],
                       orbital_period_min=lo, orbital_period_max=hi)
    ii = np.argmin(abs(m1[:, None] - g.M1v[None, :]), axis=1)
    fr = np.minimum(g.cumPbindist.max(axis=0), 1)[ii]
    k, mu, sd = (~one).sum(), fr.sum(), np.sqrt((fr * (1 - fr)).sum())
    c.expect(abs(k - mu) < 6.5 * sd + 2, "binary fraction", got=int(k),
             want=mu)
    lp = np.log10(P[~one])
    jj = np.argmin(abs(lp[:, None] - g.logPv[None, :]), axis=1)
    ii = ii[~one]
    uP = [np.interp(x, g.logPv, g.cumPbindist[:, i])
          / min(g.cumPbindist[:, i].max(), 1) for x, i in zip(lp, ii)]
    uq = [np.interp(x, g.qv, g.cumqdist[:, j, i]) for x, j, i in
          zip((m2 / m1)[~one], jj, ii)]
    us = [("period", uP), ("mass ratio", uq)]
    if how in (0, 2):
        us.append(("eccentricity", [np.interp(x, g.ev, g.cumedist[:, j, i])
                                    for x, j, i in zip(ecc[~one], jj, ii)]))
    if k > 100:
        for nm, u in us:
            c.expect(phys.ks_stat(np.array(u), lambda x: x) < 3.3,
                     "%s of the population" % nm,
                     ks=phys.ks_stat(np.array(u), lambda x: x))
    c.seen("population", how, sep, lo, hi)


if __name__ == "__main__":
    sys.exit(C.main())
