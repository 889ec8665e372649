"""Closed-form densities of the initial-condition distributions."""
import numpy as np
from scipy import special

LN10 = np.log(10.)


def plaw_int(a, lo, hi):
    """integral of x^a between lo and hi"""
    if abs(a + 1) < 1e-12:
        return np.log(hi / lo)
    return (hi ** (a + 1) - lo ** (a + 1)) / (a + 1)


class Piecewise:
    """closed-form density made of power laws: [(lo, hi, coeff, slope)]"""

    def __init__(self, pieces):
        self.p = [x for x in pieces if x[1] > x[0]]
        self.w = [c * plaw_int(a, lo, hi) for lo, hi, c, a in self.p]
        self.tot = sum(self.w)

    def pdf(self, x):
        x = np.asarray(x, float)
        out = np.zeros_like(x)
        for lo, hi, c, a in self.p:
            m = (x >= lo) & (x <= hi)
            out[m] = c * x[m] ** a / self.tot
        return out

    def cdf(self, x):
        x = np.asarray(x, float)
        out = np.zeros_like(x)
        for (lo, hi, c, a), w in zip(self.p, self.w):
            xx = np.clip(x, lo, hi)
            out += c * np.array([plaw_int(a, lo, v) if v > lo else 0.
                                 for v in xx.ravel()]).reshape(x.shape)
        return out / self.tot


def clip_pieces(breaks, slopes, lo, hi):
    """continuous broken power law on [lo, hi]"""
    edges = [0.] + list(breaks) + [np.inf]
    coeff = [1.]
    for b, (s0, s1) in zip(breaks, zip(slopes, slopes[1:])):
        coeff.append(coeff[-1] * b ** (s0 - s1))
    return [(max(lo, e0), min(hi, e1), c, s) for e0, e1, c, s
            in zip(edges, edges[1:], coeff, slopes)]


class Chab:
    def __init__(self, mc, sig, al, mb, lo, hi):
        self.a = (mc, sig, al, mb, lo, hi)
        self.s = sig * LN10
        # int 1/m exp(-(log10 m - log10 mc)^2/2sig^2) dm (erf)
        self.lo_w = self._ln(lo, min(hi, mb)) if lo < mb else 0.
        self.cb = np.exp(-(np.log10(mb / mc)) ** 2 / 2 / sig ** 2) / mb
        self.hi_w = self.cb * mb ** al * plaw_int(-al, max(lo, mb), hi) \
            if hi > mb else 0.
        self.tot = self.lo_w + self.hi_w

    def _ln(self, a, b):
        mc, s = self.a[0], self.s
        z = lambda m: np.log(m / mc) / s / np.sqrt(2)
        return s * np.sqrt(np.pi / 2) * (special.erf(z(b)) - special.erf(z(a)))

    def pdf(self, m):
        mc, sig, al, mb, lo, hi = self.a
        m = np.asarray(m, float)
        f = np.where(m < mb, np.exp(-np.log10(m / mc) ** 2 / 2 / sig ** 2) / m,
                     self.cb * (m / mb) ** -al) / self.tot
        return np.where((m >= lo) & (m <= hi), f, 0.)

    def cdf(self, m):
        mc, sig, al, mb, lo, hi = self.a
        out = []
        for x in np.asarray(m, float):
            v = self._ln(lo, min(x, mb)) if lo < mb else 0.
            if x > mb:
                v += self.cb * mb ** al * plaw_int(-al, max(lo, mb), x)
            out.append(v / self.tot)
        return np.array(out)


def sana(lo, hi, m1):
    """closed form in log10 P"""
    a, b = np.log10(lo), np.log10(hi)
    if m1 <= 15:
        return lambda x: np.where((x >= a) & (x <= b), 1 / (b - a), 0.), \
            lambda x: (np.clip(x, a, b) - a) / (b - a)
    s = .55
    flat = .15 ** -s

    def F(x):
        x = np.clip(np.asarray(x, float), a, b)
        lowpart = flat * (np.minimum(x, .15) - a) if a < .15 else 0 * x
        st = max(a, .15)
        hipart = np.where(x > st, (np.maximum(x, st) ** (1 - s)
                                   - st ** (1 - s)) / (1 - s), 0.)
        return lowpart + hipart
    tot = F(b)

    def f(x):
        x = np.asarray(x, float)
        v = np.where(x < .15, flat, np.abs(np.where(x < .15, 1, x)) ** -s)
        return np.where((x >= a) & (x <= b), v / tot, 0.)
    return f, lambda x: F(x) / tot


def gen_imf(rng):
    lo = float(10 ** rng.uniform(-2, 1.3))
    hi = float(lo * 10 ** rng.uniform(0.1, 3))
    hi = min(hi, 300.)
    if rng.random() < .25:
        lo = float(rng.choice([.01, .08, .1, .5, 1., 7.]))
        hi = float(rng.choice([1.5 * lo, 120., 150., 200.]))
    k = ["Salpeter", "Kroupa1993", "Kroupa2001", "Chabrier2003"][
        rng.integers(4)]
    kw = {}
    if k in ("Salpeter", "Kroupa1993"):
        al = {"Salpeter": 2.35, "Kroupa1993": 2.7}[k]
        if rng.random() < .5:
            al = float(rng.choice([0., .5, 1.5, 2., 3.1, rng.uniform(-1, 4)]))
            if abs(al - 1) < 1e-3:
                al = 1.3
            kw["alpha"] = al
        o = Piecewise([(lo, hi, 1., -al)])
    elif k == "Kroupa2001":
        a = [.3, 1.3, 2.3]
        b = [.08, .5]
        if rng.random() < .4:
            a = [float(x) for x in rng.uniform(.1, 3, 3)]
            b = [float(rng.uniform(.02, .3)), float(rng.uniform(.35, 3))]
            kw.update(alpha1=a[0], alpha2=a[1], alpha3=a[2], m1break=b[0],
                      m2break=b[1])
        o = Piecewise(clip_pieces(b, [-x for x in a], lo, hi))
    else:
        p = dict(m_c=.22, sigma=.57, alpha=2.3, m_break=1.)
        if rng.random() < .4:
            p = dict(m_c=float(rng.uniform(.05, .9)),
                     sigma=float(rng.uniform(.2, .9)),
                     alpha=float(rng.uniform(1.2, 3)),
                     m_break=float(rng.uniform(.5, 3)))
            kw.update(p)
        o = Chab(p["m_c"], p["sigma"], p["alpha"], p["m_break"], lo, hi)
    return k, kw, lo, hi, o
