"""C20  Orbit, accretion and compact-object relations used by every step."""
import os
import sys
import copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import numpy as np

vk.setup_env()
from scipy import stats
from scipy.integrate import solve_ivp
import phys as P
from wind import edd, bondi, Fixed
from posydon.utils import common_functions as cf
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.simulationproperties import SimulationProperties

C = vk.Check(
    "C20",
    "random and boundary arguments (scalars and arrays) drive the real "
    "relations; each result is compared with an independent closed form, an "
    "ODE integration or an inverse; arguments are compared before/after; "
    "signature = (function, regime)")

PROPS = SimulationProperties()


def lg(rng, a, b, n=None):
    return 10 ** rng.uniform(a, b, n)


# --------------------------------------------------------------- Kepler/Roche
@C.family("kepler", 1500, 30000)
def kepler(rng, c):
    n = int(rng.integers(1, 20))
    m1, m2 = lg(rng, -1, 2.5, n), lg(rng, -1, 2.5, n)
    p = lg(rng, -2, 7, n)
    if rng.random() < .3:                      # compact companion/plain floats
        m1, m2, p = float(m1[0]), float(m2[0]), float(p[0])
    a0 = (copy.deepcopy(m1), copy.deepcopy(m2), copy.deepcopy(p))
    a = cf.orbital_separation_from_period(p, m1, m2)
    c.close(a, P.kepler_a(p, m1, m2), "separation from period is Kepler's "
            "third law", rtol=1e-9)
    q = cf.orbital_period_from_separation(a, m1, m2)
    c.close(q, P.kepler_P(a, m1, m2), "period from separation is Kepler's "
            "third law", rtol=1e-3)
    c.close(q, p, "the period survives the round trip", rtol=1e-3)
    q2 = cf.orbital_period_from_separation(2.5 * a, m1, m2)
    c.close(q2, np.asarray(q) * 2.5 ** 1.5, "P scales with a^1.5", rtol=1e-10)
    q2 = cf.orbital_period_from_separation(a, 3 * np.asarray(m1),
                                           3 * np.asarray(m2))
    c.close(q2, np.asarray(q) / 3 ** .5, "P scales with M^-0.5", rtol=1e-10)
    c.expect(np.array_equal(a0[0], m1) and np.array_equal(a0[1], m2)
             and np.array_equal(a0[2], p), "Kepler arguments unchanged")
    c.seen("kepler", np.ndim(m1), int(np.log10(np.max(p))))


@C.family("roche", 2000, 40000)
def roche(rng, c):
    n = int(rng.integers(1, 12))
    kinds = [rng.random() < .6 for _ in range(3)]
    m1 = lg(rng, -1, 2.5, n) if kinds[0] else float(lg(rng, -1, 2.5))
    m2 = lg(rng, -1, 2.5, n) if kinds[1] else float(lg(rng, -1, 2.5))
    a = lg(rng, -1, 5, n) if kinds[2] else float(lg(rng, -1, 5))
    bad = rng.random() < .4
    if bad:
        vals = [m1, m2, a]
        for k in range(3):
            if rng.random() < .5:
                v = [-1., 0., -5.5][int(rng.integers(3))]
                if k == 2 and v == 0:
                    v = -3.
                if isinstance(vals[k], np.ndarray):
                    vals[k][int(rng.integers(n))] = v
                else:
                    vals[k] = v
        m1, m2, a = vals
    keep = copy.deepcopy((m1, m2, a))
    got = cf.roche_lobe_radius(m1, m2, a)
    M1, M2, A = [np.where(np.asarray(v) <= 0, np.nan, v) for v in (m1, m2, a)]
    want = P.eggleton(M1, M2, A)
    c.close(got, want, "Eggleton Roche-lobe radius, undefined for objects "
            "without mass or orbit", rtol=1e-12)
    c.expect(all(np.array_equal(x, y) for x, y in zip(keep, (m1, m2, a))),
             "roche_lobe_radius leaves its arguments unchanged",
             before=keep, after=(m1, m2, a))
    other = cf.roche_lobe_radius(m2, m1, a)
    s = np.asarray(got) + np.asarray(other)
    c.expect(np.all(np.isnan(s) | (s < np.asarray(a))),
             "the two lobes fit into the separation")
    c.seen("roche", tuple(kinds), bad)


@C.family("rlo", 2000, 40000)
def rlo(rng, c):
    m1, m2, a = float(lg(rng, -1, 2)), float(lg(rng, -1, 2)), \
        float(lg(rng, 0, 4))
    l1, l2 = float(P.eggleton(m1, m2, a)), float(P.eggleton(m2, m1, a))
    tol = 1e-8 if rng.random() < .6 else float(lg(rng, -4, 0))

    def pick(lobe):
        k = int(rng.integers(6))
        d = [-.5 * lobe, -.5 * tol, .5 * tol, 3 * tol, .3 * lobe,
             -lobe * .999][k]
        return lobe + d, d, k
    r1, d1, k1 = pick(l1)
    r2, d2, k2 = pick(l2)
    if min(abs(d1 - tol), abs(d2 - tol)) < 1e-10 * a:
        c.stop()
    got = cf.check_for_RLO(m1, r1, m2, r2, a) if tol == 1e-8 else \
        cf.check_for_RLO(m1, r1, m2, r2, a, tolerance=tol)
    c.expect(bool(got) == bool(d1 >= tol or d2 >= tol),
             "overflow when either star exceeds its lobe by the tolerance",
             d1=d1, d2=d2, tol=tol, got=got)
    c.seen("rlo", k1, k2, tol == 1e-8)


# ----------------------------------------------------------------- GW inspiral
@C.family("inspiral", 1000, 15000)
def inspiral(rng, c):
    m1, m2 = float(lg(rng, -.5, 2)), float(lg(rng, -.5, 2))
    a = float(lg(rng, -1, 2))
    e = 0. if rng.random() < .2 else float(rng.choice(
        [rng.uniform(0, .3), rng.uniform(0, .9), rng.uniform(.9, .999),
         1e-3]))
    t = cf.inspiral_timescale_from_separation(m1, m2, a, e)
    c.close(t, P.peters_time(m1, m2, a, e) / 1e6, "Peters merger time [Myr]",
            rtol=1e-5)
    c.close(cf.inspiral_timescale_from_separation(m2, m1, a, e), t,
            "the merger time does not depend on the order of the stars",
            rtol=1e-9)
    p = P.kepler_P(a, m1, m2)
    c.close(cf.inspiral_timescale_from_orbital_period(m1, m2, p, e), t,
            "the merger time from the period is that from the separation",
            rtol=1e-6)
    g1, g2 = m1 * P.MSUN, m2 * P.MSUN
    c.close(cf.beta_gw(g1, g2), 64. / 5 * P.G ** 3 * g1 * g2 * (g1 + g2)
            / P.C ** 5, "Peters' beta", rtol=1e-12)
    bad = [(-m1, m2, a, e), (m1, 0., a, e), (m1, m2, 0., e), (m1, m2, -a, e),
           (m1, m2, a, 1.), (m1, m2, a, -.1), (m1, m2, a, 1.3),
           (m1, -m2, a, e), (0., m2, a, e)]
    b = bad[int(rng.integers(len(bad)))]
    c.raises(ValueError, lambda: cf.inspiral_timescale_from_separation(*b),
             "unphysical orbits are refused", args=b)
    c.seen("inspiral", e == 0, int(e * 5), int(np.log10(max(t, 1e-30))))


@C.family("inspiral_ode", 48, 1500)
def inspiral_ode(rng, c):
    """integrate Peters' orbit-averaged equations instead of the closed form"""
    m1, m2 = float(lg(rng, 0, 2)), float(lg(rng, 0, 2))
    a, e = float(lg(rng, 0, 1.5)), float(rng.uniform(0.02, .85))
    t = cf.inspiral_timescale_from_separation(m1, m2, a, e) * 1e6 * P.SECYR
    A = a * P.RSUN
    g1, g2 = m1 * P.MSUN, m2 * P.MSUN

    def f(x, y):
        da, de = P.peters_dadt(y[0] * A, y[1], g1, g2)
        return [da / A * t, de * t]

    def end(x, y):
        return y[0] - .02
    end.terminal = True
    s = solve_ivp(f, (0, 1.5), [1., e], rtol=1e-9, atol=1e-12,
                  method="LSODA", events=end)
    c.expect(s.t_events[0].size == 1 and abs(s.t_events[0][0] - 1) < 2e-4,
             "the orbit shrinks to nothing in the merger time",
             t=s.t[-1], e=e)
    c.seen("inspiral_ode", int(e * 8))


# ------------------------------------------------------------------------ spin
def isco(a):
    z1 = 1 + np.cbrt(1 - a * a) * (np.cbrt(1 + a) + np.cbrt(1 - a))
    z2 = np.sqrt(3 * a * a + z1 * z1)
    return 3 + z2 - np.sqrt((3 - z1) * (3 + z1 + 2 * z2))


@C.family("spin", 2000, 30000)
def spin(rng, c):
    """Bardeen: dM = E dm0, dJ = L dm0 at the ISCO"""
    m = float(lg(rng, 0, 2))
    a = float(rng.choice([0., rng.uniform(0, 1), rng.uniform(0, 1), .99, 1.]))
    r = isco(a)
    k = int(rng.integers(5))
    f = [1., 1 + (np.sqrt(r) - 1) * rng.random(), np.sqrt(r) * 1.0001,
         np.sqrt(r) * rng.uniform(1, 3), rng.uniform(.3, .999)][k]
    got = cf.spin_stable_mass_transfer(a, m, m * f)
    c.note(a=a, m=m, f=f, got=got)
    c.seen("spin", k, int(a * 5))
    if f < 1:
        c.expect(got is not None and np.isnan(got),
                 "a hole that lost mass has no defined spin", got=got)
        return
    if f > np.sqrt(r) * (1 + 1e-12):
        c.expect(got == 1., "the spin saturates at 1", got=got)
        return
    if f > np.sqrt(r) * (1 - 1e-9):
        return
    want = np.sqrt(r) / 3 / f * (4 - np.sqrt(3 * r / f ** 2 - 2))
    c.close(got, want, "Thorne's spin of an accreting hole", rtol=1e-9,
            atol=1e-9)
    c.expect(-1e-9 <= got <= 1 + 1e-9, "spin in [0, 1]")
    if k == 0:
        c.close(got, a, "no accretion, no spin change", atol=2e-6, rtol=0)
    if k == 1 and rng.random() < .2 and a < .95:
        # composition: accreting in two parts gives the same spin
        g = np.sqrt(f)
        h = cf.spin_stable_mass_transfer(a, m, m * g)
        c.close(cf.spin_stable_mass_transfer(float(h), m * g, m * f), got,
                "accretion in two parts gives the same spin", rtol=0,
                atol=1e-4)


@C.family("spin_invalid", 1)
def spin_invalid(rng, c):
    for args in [(None, 5., 6.), (.1, None, 6.), (.1, 5., None),
                 (-.1, 5., 6.), (.1, 0., 6.), (.1, -1., 6.), (.1, 5., 0.),
                 (.1, 5., -2.)]:
        c.expect(cf.spin_stable_mass_transfer(*args) is None,
                 "no spin for undefined masses or spins", args=args)
    c.seen("invalid")


# ------------------------------------------------------------- compact objects
@C.family("radii", 1000, 15000)
def radii(rng, c):
    m = float(lg(rng, -1, 2.5))
    rs = 2 * P.G * m * P.MSUN / P.C ** 2 / P.RSUN
    c.close(cf.Schwarzschild_Radius(m), rs, "Schwarzschild radius", rtol=1e-9)
    c.close(cf.CO_radius(m, "BH"), rs, "a black hole has its Schwarzschild "
            "radius", rtol=1e-9)
    c.close(cf.CO_radius(m, "NS"), 12.5e5 / P.RSUN, "a neutron star has "
            "12.5 km", rtol=1e-9)
    c.close(cf.CO_radius(m, "WD"), 2.9e8 * m ** (-1 / 3) / P.RSUN,
            "white dwarf mass-radius relation", rtol=1e-9)
    c.raises(ValueError, lambda: cf.CO_radius(-m, "BH"), "no mass, no radius")
    c.raises(ValueError, lambda: cf.CO_radius(0., "NS"), "no mass, no radius")
    c.raises(ValueError, lambda: cf.CO_radius(m, "star"), "only compact "
             "objects have a compact radius")
    L, R = float(lg(rng, -5, 7)), float(lg(rng, -3, 4))
    T = cf.stefan_boltzmann_law(L, R)
    c.close(4 * np.pi * (R * P.RSUN) ** 2 * 5.670373e-5 * T ** 4, L * P.LSUN,
            "luminosity of the effective temperature", rtol=1e-9)
    mm = float(rng.choice([m, 2., 1.999999, 10., 9.99999, 100., 99.999]))
    if mm < 2:
        w = 1e8
    elif mm < 10:
        w = 10 ** 8.7855 * mm ** -2.6094
    elif mm < 100:
        w = 10 ** 6.875 * mm ** -.69897
    else:
        w = 3e5
    c.close(cf.He_MS_lifetime(mm), w, "helium main-sequence lifetime",
            rtol=1e-9)
    c.raises(ValueError, lambda: cf.He_MS_lifetime(-mm), "lifetime needs mass")
    c.seen("radii", mm < 2, mm < 10, mm < 100)


# -------------------------------------------------------------------- accretion
def mk_star(rng, state, **kw):
    d = dict(state=state, mass=float(lg(rng, 0, 2)),
             surface_h1=float(rng.uniform(0, .75)), metallicity=1.,
             log_R=float(rng.uniform(0, 3.2)), log_L=float(rng.uniform(2, 6)),
             lg_wind_mdot=float(rng.uniform(-8, -3)),
             he_core_radius=float(rng.uniform(.1, 1)),
             he_core_mass=float(rng.uniform(.1, 1)))
    d.update(kw)
    s = SingleStar(**d)
    s.state = state
    return s


CO_M = {"BH": (2.6, 80.), "NS": (1.2, 2.5), "WD": (.3, 1.4)}


def mk_acc(rng, kind=None, donor=None, **kw):
    kind = kind or str(rng.choice(["BH", "NS", "WD"]))
    lo, hi = CO_M[kind]
    co = mk_star(rng, kind, mass=float(rng.uniform(lo, hi)), surface_h1=None)
    d = donor or mk_star(rng, "H-rich_Core_H_burning")
    if rng.random() < .3:
        d.surface_h1 = rng.choice([None, np.nan])
    first = bool(rng.random() < .5)
    b = BinaryStar(*((co, d) if first else (d, co)),
                   separation=float(lg(rng, 1, 3.5)),
                   eccentricity=float(rng.uniform(0, .7)), time=1e6,
                   state="detached", event=None, properties=PROPS, **kw)
    b.star_1.state, b.star_2.state = \
        (kind, "H-rich_Core_H_burning")[::1 if first else -1]
    return b, (b.star_1 if first else b.star_2), \
        (b.star_2 if first else b.star_1), kind, first


WD = "Eddington limit of a white dwarf"


@C.family("eddington", 1500, 20000)
def eddington(rng, c):
    kind = ("BH", "NS", "WD")[c.index % 3]
    b, acc, don, kind, first = mk_acc(rng, kind)
    got, eta = cf.eddington_limit(b)
    w, we = edd(kind, acc.mass, don.surface_h1)
    key = None
    if kind == "WD":
        # the recorded defect: radius taken for a mass in grams
        bad = P.G * acc.mass * P.MSUN / (
            2.9e8 * (acc.mass * P.MSUN) ** (-1 / 3) * P.C ** 2)
        if abs(eta / bad - 1) < 1e-6 and abs(got * eta / (w * we) - 1) < 1e-6:
            key = WD
    c.close(eta, we, "radiative efficiency of the accretor", rtol=1e-9,
            key=key)
    c.close(got, w, "Eddington accretion rate", rtol=1e-9, key=key)
    c.seen("edd", kind, first, don.surface_h1 is None)
    if kind == "WD":
        return
    lg_edd = np.log10(w)
    k = int(rng.integers(5))
    lm = [lg_edd - rng.uniform(0.01, 3), lg_edd + rng.uniform(0.01, .9),
          lg_edd + np.log10(8.5) + rng.uniform(.01, 3),
          lg_edd + np.log10(8.4), None][k]
    b.lg_mtransfer_rate = lm
    md, bm = cf.beaming(b)
    if lm is None:
        c.expect(np.isnan(md) and bm == 1, "no transfer, no beaming")
    else:
        m = 10 ** lm / w
        wb = 73 / m ** 2 if m > 8.5 else 1
        wm = w * (1 + np.log(m)) / wb if m >= 1 else w * m
        c.close(bm, wb, "beaming factor", rtol=1e-8)
        c.close(md, wm, "apparent super-Eddington rate", rtol=1e-8)
    c.seen("beam", k)
    # the history entry asked for is the one used
    acc.mass_history = [acc.mass, acc.mass * 1.3]
    acc.state_history = [kind, kind]
    don.surface_h1_history = [.3, .5]
    got = cf.eddington_limit(b, idx=1)[0]
    c.close(got, edd(kind, acc.mass * 1.3, .5)[0], "Eddington rate of the "
            "entry asked for", rtol=1e-9)
    for s in (b.star_1, b.star_2):
        s.state = "H-rich_Core_H_burning"
    c.raises(ValueError, lambda: cf.eddington_limit(b),
             "no Eddington rate without a compact object")


@C.family("bondi", 1500, 20000)
def bondi_fam(rng, c):
    b, acc, don, kind, first = mk_acc(rng, str(rng.choice(["BH", "NS"])))
    don.surface_h1 = float(rng.choice([rng.uniform(0, .009),
                                       rng.uniform(.02, .39),
                                       rng.uniform(.41, .75)]))
    don.mass = float(rng.choice([lg(rng, 0, 2), rng.uniform(121, 200),
                                 rng.uniform(.5, 1.39)]))
    u = float(rng.uniform(0.02, .98))
    scheme = str(rng.choice(["Hurley+2002", "Kudritzki+2000"]))
    disk = bool(rng.random() < .5)
    if disk and rng.random() < .6:              # orbits fast and slow enough
        b.separation = float(lg(rng, .5, 2))
        don.log_R = float(rng.uniform(1.5, 3.2))
    er = edd(kind, acc.mass, don.surface_h1)[0]
    if disk and rng.random() < .5:              # just at the disk criterion
        lo, hi = -1., 6.
        f = []
        for x in (lo, hi):
            b.separation = 10 ** x
            f.append(bondi(b, acc, don, u, scheme, disk, er)[1] > 1)
        if f[0] != f[1]:
            for _ in range(40):
                mid = (lo + hi) / 2
                b.separation = 10 ** mid
                if (bondi(b, acc, don, u, scheme, disk, er)[1] > 1) == f[0]:
                    lo = mid
                else:
                    hi = mid
            b.separation = float(10 ** lo * (1 + rng.choice([-3e-3, 3e-3])))
            c.count("near the disk criterion")
        else:
            b.separation = float(lg(rng, .5, 2))
    w, rd, raw = bondi(b, acc, don, u, scheme, disk, er)
    if abs(np.log(rd)) < 1e-6:
        c.stop()
    got = cf.bondi_hoyle(b, acc, don, idx=-1, wind_disk_criteria=disk,
                         RNG=Fixed(u), scheme=scheme)
    c.note(u=u, scheme=scheme, disk=disk, e=b.eccentricity)
    c.close(got, w, "Bondi-Hoyle wind accretion, limited by Eddington",
            rtol=1e-5)
    c.count("disk %s" % (rd > 1))
    c.seen("bondi", scheme, disk, rd > 1, raw > w, don.surface_h1 < .01)


@C.family("rows", 300, 4000)
def rows(rng, c):
    """several rows of a history at once: each gets its own rate"""
    b, acc, don, kind, first = mk_acc(rng, str(rng.choice(["BH", "NS"])))
    n = int(rng.integers(1, 6))
    u = float(rng.uniform(.02, .98))
    R = []
    for i in range(n + 1):
        R.append(dict(mass=float(lg(rng, .3, 2)), log_R=float(
            rng.uniform(.5, 2.5)), log_L=float(rng.uniform(3, 6)),
            surface_h1=float(rng.choice([.005, .2, .6])),
            lg_wind_mdot=float(rng.uniform(-8, -4)), he_core_radius=.5,
            ma=float(rng.uniform(*CO_M[kind])),
            separation=float(lg(rng, .5, 3)),
            eccentricity=float(rng.uniform(0, .6))))
    for k in ("mass", "log_R", "log_L", "surface_h1", "lg_wind_mdot",
              "he_core_radius"):
        setattr(don, k + "_history", [r[k] for r in R[:-1]])
        setattr(don, k, R[-1][k])
    acc.mass_history, acc.mass = [r["ma"] for r in R[:-1]], R[-1]["ma"]
    acc.state_history, acc.state = [kind] * n, kind
    for k in ("separation", "eccentricity"):
        setattr(b, k + "_history", [r[k] for r in R[:-1]])
        setattr(b, k, R[-1][k])
    k = int(rng.integers(1, n + 2))
    idx = [slice(-k, None), np.arange(n + 1)[-k:], -k][int(rng.integers(3))]
    use = [R[-k]] if isinstance(idx, int) else R[-k:]
    e = [edd(kind, r["ma"], r["surface_h1"]) for r in use]
    got, eta = cf.eddington_limit(b, idx=idx)
    c.close(np.atleast_1d(got), [x[0] for x in e], "Eddington rate of each "
            "row", rtol=1e-9)
    c.close(np.atleast_1d(eta), [x[1] for x in e], "efficiency of each row",
            rtol=1e-9)
    scheme = str(rng.choice(["Hurley+2002", "Kudritzki+2000"]))
    disk = bool(rng.random() < .5)

    class O:
        def __init__(self, **kw):
            self.__dict__.update(kw)
    w = [bondi(O(**r), O(mass=r["ma"]), O(**r), u, scheme, disk, x[0])
         for r, x in zip(use, e)]
    if any(abs(np.log(x[1])) < 1e-6 for x in w):
        c.stop()
    got = cf.bondi_hoyle(b, acc, don, idx=idx, wind_disk_criteria=disk,
                         RNG=Fixed(u), scheme=scheme)
    c.close(np.atleast_1d(got), [x[0] for x in w], "wind accretion of each "
            "row", rtol=1e-5, scheme=scheme)
    c.seen("rows", scheme, disk, len(use), type(idx).__name__)


C.require("disk True", 5)
C.require("disk False", 20)
C.require("near the disk criterion", 20)


# ----------------------------------------------------------------------- orbits
@C.family("wind_orbit", 1000, 15000)
def wind_orbit(rng, c):
    mi, mc = float(lg(rng, 0, 2)), float(lg(rng, -1, 2))
    mf = mi * float(rng.uniform(.1, 1))
    p, a = float(lg(rng, -1, 5)), float(lg(rng, 0, 4))
    f = (mi + mc) / (mf + mc)
    c.close(cf.period_evol_wind_loss(mf, mi, mc, p), p * f ** 2,
            "period widens with the square of the mass ratio", rtol=1e-9)
    c.close(cf.separation_evol_wind_loss(mf, mi, mc, a), a * f,
            "a(m1+m2) is conserved in fast isotropic winds", rtol=1e-9)
    c.seen("wind", int(f * 4))


@C.family("stable_mt", 750, 15000)
def stable_mt(rng, c):
    md, ma, p = float(lg(rng, 0, 1.7)), float(lg(rng, 0, 1.7)), \
        float(lg(rng, 0, 3))
    mf = md * float(rng.uniform(.3, 1))
    al = float(rng.choice([0., 1., rng.uniform(0, 1)]))
    be = float(rng.choice([0., 1., rng.uniform(0, .95)]))
    got = cf.period_change_stable_MT(p, md, mf, ma, alpha=al, beta=be)

    # angular momentum: alpha leaves with the donor's specific angular
    # momentum, beta(1-alpha) with the accretor's
    def f(x, y):
        d, A = md - x, y[1]
        M = d + A
        dA = (1 - al) * (1 - be)
        lj = -(al * A / d + be * (1 - al) * d / A) / M
        # P ~ J^3 M / (d A)^3
        return [3 * lj + (dA - 1) / M + 3 / d - 3 * dA / A, dA]
    s = solve_ivp(f, (0, md - mf), [0., ma], rtol=1e-10, atol=1e-12)
    c.close(got, p * np.exp(s.y[0][-1]), "period after stable transfer "
            "follows from the angular momentum lost", rtol=1e-6,
            al=al, be=be, md=md, mf=mf, ma=ma)
    c.seen("stable", al in (0, 1), be in (0, 1), mf < .6 * md)
    if rng.random() < .2:
        c.raises(ValueError, lambda: cf.period_change_stable_MT(
            p, md, md * 1.01, ma, alpha=al, beta=be),
            "a donor cannot gain mass")
        for a_, b_ in ((-.1, be), (1.1, be), (al, -.1), (al, 1.01)):
            c.raises(ValueError, lambda: cf.period_change_stable_MT(
                p, md, mf, ma, alpha=a_, beta=b_),
                "efficiencies outside of [0,1] are refused")


@C.family("rotate", 500, 7500)
def rotate(rng, c):
    ax = rng.normal(size=3)
    if rng.random() < .3:
        ax = np.eye(3)[int(rng.integers(3))] * rng.choice([-2., 1., 5.])
    t = float(rng.uniform(-7, 7))
    keep = ax.copy()
    R = cf.rotate(ax, t)
    c.close(R, P.rotmat(ax, t), "right-handed rotation by the angle",
            atol=1e-12)
    c.expect(np.array_equal(ax, keep), "the axis is unchanged")
    c.close(R @ cf.rotate(ax, -t), np.eye(3), "rotating back", atol=1e-12)
    if rng.random() < .1:
        c.raises(ValueError, lambda: cf.rotate(np.zeros(3), t), "no axis")
        c.raises(ValueError, lambda: cf.rotate(np.ones(2), t), "no axis")
    c.seen("rotate", int(t))


@C.family("metstring", 1)
def metstring(rng, c):
    want = {2.: "2e+00", 1.: "1e+00", .45: "4.5e-01", .2: "2e-01",
            .1: "1e-01", .01: "1e-02", .001: "1e-03", 1e-4: "1e-04"}
    for z, s in want.items():
        c.expect(cf.convert_metallicity_to_string(z) == s,
                 "metallicity label", got=cf.convert_metallicity_to_string(z))
        c.expect(float(s) == z, "label reads back")
    for z in (.5, 0., 3., -1., .02):
        c.raises(ValueError, lambda: cf.convert_metallicity_to_string(z),
                 "unknown metallicities are refused")
    c.seen("met")


# ------------------------------------------------------------------- flip stars
LAB = ["detached", "RLO1", "RLO2", "contact", "merged", "disrupted", "RLOx"]
EVT = [None, "ZAMS", "oRLO1", "oRLO2", "oCE1", "oCE2", "oDoubleCE1",
       "oDoubleCE2", "CC1", "CC2", "maxtime", "END", "redirect_from_ZAMS"]
SWAP = {}
for _p in ("RLO", "oRLO", "oCE", "oDoubleCE", "CC"):
    SWAP[_p + "1"], SWAP[_p + "2"] = _p + "2", _p + "1"


@C.family("flip", 1000, 15000)
def flip(rng, c):
    n = int(rng.integers(1, 12))
    b = BinaryStar(mk_star(rng, "BH"), mk_star(rng, "H-rich_Core_H_burning"),
                   properties=PROPS)
    b.star_1.state = "BH"
    b.state = LAB[int(rng.integers(len(LAB) - 1))]
    b.event = EVT[int(rng.integers(len(EVT)))]
    b.state_history = [LAB[k] for k in rng.integers(0, len(LAB) - 1, n)]
    b.event_history = [EVT[k] for k in rng.integers(0, len(EVT), n)]
    names = ["t_sync_rad_", "t_sync_conv_", "rl_relative_overflow_"]
    for q in names:
        for k in "12":
            setattr(b, q + k, float(rng.normal()))
            setattr(b, q + k + "_history", rng.normal(size=n).tolist())
    b.separation_history = rng.normal(size=n).tolist()
    before = {k: copy.copy(v) for k, v in vars(b).items()}

    def view(x):
        return {k: (v if not isinstance(v, list) else list(v))
                for k, v in vars(x).items()}
    v0 = view(b)
    s1, s2 = vars(b.star_1).copy(), vars(b.star_2).copy()
    cf.flip_stars(b)
    v1 = view(b)

    def sw(x):
        return SWAP.get(x, x)
    c.expect(vars(b.star_1).keys() == s2.keys() and all(
        vars(b.star_1)[k] is s2[k] or vars(b.star_1)[k] == s2[k]
        for k in s2 if k not in ("metallicity",) and not (
            isinstance(s2[k], float) and np.isnan(s2[k]))),
        "star 1 is the former star 2")
    c.expect(b.star_2.mass == s1["mass"] and b.star_2.state == s1["state"],
             "star 2 is the former star 1")
    c.expect(v1["state"] == sw(v0["state"]), "the state names the right star",
             got=v1["state"], was=v0["state"])
    c.expect(v1["event"] == sw(v0["event"]), "the event names the right star",
             got=v1["event"], was=v0["event"])
    c.expect(v1["state_history"] == [sw(x) for x in v0["state_history"]],
             "recorded states name the right star", got=v1["state_history"],
             was=v0["state_history"])
    c.expect(v1["event_history"] == [sw(x) for x in v0["event_history"]],
             "recorded events name the right star", got=v1["event_history"],
             was=v0["event_history"])
    for q in names:
        for h in ("", "_history"):
            c.expect(v1[q + "1" + h] == v0[q + "2" + h]
                     and v1[q + "2" + h] == v0[q + "1" + h],
                     "quantities of the single stars are exchanged",
                     name=q + h)
    touched = {"star_1", "star_2", "state", "event", "state_history",
               "event_history"} | {q + k + h for q in names for k in "12"
                                   for h in ("", "_history")}
    for k in v0:
        if k not in touched:
            c.expect(v1.get(k) is v0[k] or v1.get(k) == v0[k] or (
                isinstance(v0[k], float) and np.isnan(v0[k])),
                "everything else stays", name=k)
    cf.flip_stars(b)
    v2 = view(b)
    for k in touched - {"star_1", "star_2"}:
        c.expect(v2[k] == v0[k], "flipping twice restores the binary", name=k)
    c.seen("flip", v0["state"], v0["event"], n == 0)


# --------------------------------------------------------------------- samplers
def ks(x, cdf, n):
    return P.ks_stat(x, cdf)


def piecewise_cdf(x, y):
    """CDF of the linearly interpolated density"""
    ar = .5 * (y[1:] + y[:-1]) * np.diff(x)
    cum = np.concatenate([[0], np.cumsum(ar)])

    def F(s):
        k = np.clip(np.searchsorted(x, s, "right") - 1, 0, len(x) - 2)
        d = s - x[k]
        sl = (y[k + 1] - y[k]) / (x[k + 1] - x[k])
        return (cum[k] + y[k] * d + .5 * sl * d * d) / cum[-1]
    return F


@C.family("samplers", 48, 1000)
def samplers(rng, c):
    n = 3000
    k = int(rng.integers(2, 9))
    x = np.sort(rng.uniform(-3, 5, k))
    while np.min(np.diff(x)) < 1e-2:
        x = np.sort(rng.uniform(-3, 5, k))
    y = rng.uniform(0, 1, k)
    if rng.random() < .5 and k > 2:
        y[int(rng.integers(k))] = 0
    if rng.random() < .5:
        y[:2] = y[0] + .1                         # a flat segment
    keep = x.copy(), y.copy()
    F = piecewise_cdf(x, y)
    g = lambda: np.random.default_rng(int(rng.integers(1 << 30)))
    s = cf.inverse_sampler(x, y, size=n, rng=g())
    c.expect(s.shape == (n,) and s.min() >= x[0] and s.max() <= x[-1],
             "inverse sampling: as many values as asked for, in range")
    c.expect(ks(s, F, n) < 2.6, "inverse sampling follows the density")
    o = rng.permutation(k)
    s = cf.rejection_sampler(x[o], y[o], size=n, rng=g())
    c.expect(s.shape == (n,) and ks(s, F, n) < 2.6,
             "rejection sampling of a table follows the density")
    s = cf.rejection_sampler(size=n, x_lim=[x[0], x[-1]],
                             pdf=lambda v: np.interp(v, x, y), rng=g())
    c.expect(s.shape == (n,) and ks(s, F, n) < 2.6,
             "rejection sampling of a function follows the density")
    h = rng.uniform(0, 1, k - 1)
    h[int(rng.integers(k - 1))] += .2
    s = cf.histogram_sampler(x, h, size=n, rng=g())
    cum = np.concatenate([[0], np.cumsum(h)]) / h.sum()
    c.expect(s.shape == (n,) and ks(s, lambda v: np.interp(v, x, cum), n)
             < 2.6, "histogram sampling follows the bin weights")
    c.expect(np.array_equal(keep[0], x) and np.array_equal(keep[1], y),
             "samplers leave their tables unchanged")
    seed = int(rng.integers(1 << 30))
    for fn in (lambda r: cf.inverse_sampler(x, y, size=20, rng=r),
               lambda r: cf.rejection_sampler(x, y, size=20, rng=r),
               lambda r: cf.histogram_sampler(x, h, size=20, rng=r)):
        c.expect(np.array_equal(fn(np.random.default_rng(seed)),
                                fn(np.random.default_rng(seed))),
                 "samples are reproducible from the generator")
    c.raises(ValueError, lambda: cf.rejection_sampler(size=3),
             "no density, no samples")
    c.raises(ValueError, lambda: cf.rejection_sampler(
        size=3, pdf=lambda v: v), "a density function needs limits")
    c.seen("samplers", k, float(y.min()) == 0)


# ------------------------------------------------------------------------- table
@C.family("table", 750, 10000)
def table(rng, c):
    from posydon.utils.interpolators import interp1d
    k = int(rng.integers(2, 9))
    x = np.sort(rng.uniform(-3, 5, k))
    if np.min(np.diff(x)) < 1e-3:
        c.stop()
    y = rng.normal(size=k)
    o = [np.arange(k), np.arange(k)[::-1], rng.permutation(k)][
        int(rng.integers(3))]
    q = np.concatenate([x, rng.uniform(x[0] - 2, x[-1] + 2, 20)])
    want = np.interp(q, x, y)
    mode = int(rng.integers(5))
    kw, lo, hi = [({}, None, None), ({"fill_value": (7.,)}, 7., 7.),
                  ({"fill_value": (7., -9.)}, 7., -9.),
                  ({"left": 4., "right": 5.}, 4., 5.),
                  ({"fill_value": "extrapolate"}, None, None)][mode]
    if lo is not None:
        want = np.interp(q, x, y, left=lo, right=hi)
    if mode == 4:
        want = np.where(q < x[0], y[0] + (y[1] - y[0]) / (x[1] - x[0])
                        * (q - x[0]), want)
        want = np.where(q > x[-1], y[-1] + (y[-1] - y[-2]) / (x[-1] - x[-2])
                        * (q - x[-1]), want)
    keep = x[o].copy(), y[o].copy()
    X, Y = x[o], y[o]
    f = interp1d(X, Y, **kw)
    c.close(f(q), want, "linear interpolation of a table in any order",
            rtol=1e-9, atol=1e-12, mode=mode)
    c.close(float(f(float(q[-1]))), want[-1], "scalar interpolation",
            rtol=1e-9, atol=1e-12)
    c.expect(np.array_equal(X, keep[0]) and np.array_equal(Y, keep[1]),
             "the table is unchanged")
    c.raises(NotImplementedError, lambda: interp1d(x, y, kind="cubic"),
             "unsupported kinds are refused")
    c.seen("table", k, mode)


if __name__ == "__main__":
    sys.exit(C.main())
