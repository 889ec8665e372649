"""C16: inspiral of double compact objects."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import numpy as np
from scipy.integrate import quad
from scipy.optimize import brentq
import phys
import toygrid
from posydon.binary_evol.DT.double_CO import DoubleCO
from posydon.binary_evol.track_match import TrackMatcher
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.utils.common_functions import (
    inspiral_timescale_from_separation, inspiral_timescale_from_orbital_period,
    CO_radius)

ck = vk.Check("C16", "double compact objects of all types, separations from "
              "contact to light years, eccentricities 0..0.9999 and time "
              "limits on either side of the merger, evolved by the real "
              "step; contact time, orbit at the limit and every recorded "
              "intermediate orbit against the closed Peters solution; "
              "non-trivial by (types, outcome, eccentricity, recording)")

_TM = {}


def matcher():
    if not _TM:
        _TM["tm"] = TrackMatcher(
            grid_Hrich=toygrid.ToyGrid(True, n=50),
            grid_strippedHe=toygrid.ToyGrid(False, .5, 80., n=50),
            metallicity=1.0, matching_method="minimize")
    return _TM["tm"]


class Flow(dict):
    def get(self, k, d=None):
        return "step_dco"


def radius(m, kind):
    """Rsun."""
    if kind == "BH":
        return 2 * phys.G * m * phys.MSUN / phys.C**2 / phys.RSUN
    if kind == "NS":
        return 12.5e5 / phys.RSUN
    return 2.9e8 * m**(-1. / 3) / phys.RSUN


def shape(e):
    """a(e)/c0 of Peters (1964) eq. 5.11."""
    return e**(12. / 19) / (1 - e * e) * (1 + 121. / 304 * e * e)**(870. / 2299)


def beta(m1, m2):
    return 64. / 5 * phys.G**3 * m1 * m2 * (m1 + m2) * phys.MSUN**3 / phys.C**5


def time_between(m1, m2, a0, e0, a1):
    """Time [yr] from (a0, e0) down to a1 (Rsun), and e there."""
    if a1 >= a0:
        return 0.0, e0
    b = beta(m1, m2)
    if e0 <= 1e-12:
        return ((a0 * phys.RSUN)**4 - (a1 * phys.RSUN)**4) / (4 * b) \
            / phys.SECYR, 0.0
    c0 = a0 / shape(e0)
    # solve log shape(e) = log(a1/c0) in log e
    f = lambda l: np.log(shape(np.exp(l))) - np.log(a1 / c0)
    le1 = brentq(f, np.log(1e-300) * .9, np.log(e0), xtol=1e-14)
    e1 = np.exp(le1)
    g = lambda l: np.exp(l) * np.exp(l)**(29. / 19) \
        * (1 + 121. / 304 * np.exp(2 * l))**(1181. / 2299) \
        / (1 - np.exp(2 * l))**1.5
    # integrate in log e, in pieces (integrand decays as e^(48/19))
    lo = max(le1, np.log(e0) - 40)
    pts = np.linspace(lo, np.log(e0), 12)
    val = sum(quad(g, p, q, epsabs=0, epsrel=1e-11)[0]
              for p, q in zip(pts[:-1], pts[1:]))
    return 12. / 19 * (c0 * phys.RSUN)**4 / b * val / phys.SECYR, e1


def mk(kind, m):
    # a massive white dwarf is recognised by its composition
    kw = dict(center_c12=.4, surface_he4=.1) if kind == "WD" else {}
    return SingleStar(state=kind, mass=m, metallicity=1.0, spin=.2, **kw)


@ck.family("inspiral", quick=450, thorough=6000)
def inspiral(rng, c):
    kinds = [["BH", "NS", "WD"][int(rng.integers(0, 3))] for _ in "12"]
    m = [float({"BH": rng.uniform(2.6, 60), "NS": rng.uniform(1.1, 2.5),
                "WD": rng.uniform(.3, 1.4)}[k]) for k in kinds]
    rsum = radius(m[0], kinds[0]) + radius(m[1], kinds[1])
    e = float(rng.choice([0.0, rng.uniform(0, .95), 1 - 10**rng.uniform(-4, -1),
                          10**rng.uniform(-6, -2)]))
    t0 = float(10**rng.uniform(6, 9.5))
    tmax = 1.38e10
    # choose the merger time relative to the remaining time
    T = (tmax - t0) * float(10**rng.uniform(-6, 3))
    if rng.uniform() < .15:
        T = (tmax - t0) * float(1 + rng.choice([-1, 1])
                                * 10**rng.uniform(-3, -1))
    f = lambda la: np.log(phys.peters_time(m[0], m[1], np.exp(la), e)) \
        - np.log(T)
    a = float(np.exp(brentq(f, -20, 30)))
    a = max(a, rsum * 1.2)
    tc, ec = time_between(m[0], m[1], a, e, rsum)
    # without the last orbits this is the full Peters time
    n = int(rng.integers(2, 40)) if rng.uniform() < .5 else None
    st = DoubleCO(track_matcher=matcher(), metallicity=1.0,
                  n_o_steps_history=n)
    dtk = None
    if n is None and rng.uniform() < .3:
        dtk = float((min(tc, tmax - t0)) * rng.uniform(.02, 1.8))
        st = DoubleCO(track_matcher=matcher(), metallicity=1.0, dt=dtk)
    p = SimulationProperties()
    p.flow = Flow()
    p.max_simulation_time = tmax
    b = BinaryStar(mk(kinds[0], m[0]), mk(kinds[1], m[1]), state="detached",
                   event=None, time=t0, separation=a, eccentricity=e,
                   orbital_period=phys.kepler_P(a, *m), properties=p,
                   V_sys=[1., 2., 3.])
    c.note(kinds=kinds, m=m, a=a, e=e, t0=t0, tc=tc, n=n, dt=dtk)
    n0 = len(b.time_history)
    with vk.quiet(), np.errstate(all="ignore"):
        st(b)
    merges = t0 + tc < tmax
    near = abs(t0 + tc - tmax) < 1e-6 * tmax
    if not near:
        c.expect((b.event == "CO_contact") == merges,
                 "merges within the time limit exactly when Peters says so",
                 event=b.event, tc=tc)
    if b.event == "CO_contact":
        c.expect(b.state == "contact", "state at contact", state=b.state)
        c.close(b.time - t0, tc, "time of contact", rtol=1e-5,
                atol=1e-6 * (1 + t0 * 1e-9))
        c.close(b.separation, rsum, "separation at contact is the sum of the "
                "radii", rtol=1e-4)
        c.expect(b.eccentricity == 0, "circular at contact")
    else:
        c.expect(b.event == "maxtime" and b.state == "detached",
                 "outcome at the time limit", event=b.event, state=b.state)
        c.expect(b.time == tmax, "stops at the time limit", t=b.time)
        if not near:
            # the orbit at the limit: invert time -> a
            la = brentq(lambda l: time_between(m[0], m[1], a, e, np.exp(l))[0]
                        - (tmax - t0), np.log(rsum), np.log(a), xtol=1e-13)
            _, e1 = time_between(m[0], m[1], a, e, np.exp(la))
            slack = 1e-5 * max(1, (tc / max(tc - (tmax - t0), 1e-300)))
            c.close(b.separation, np.exp(la), "separation at the time limit",
                    rtol=min(slack, .05))
            c.close(b.eccentricity, e1, "eccentricity at the time limit",
                    rtol=min(10 * slack, .1), atol=1e-9)
    c.close(b.orbital_period, phys.kepler_P(b.separation, *m),
            "period and separation obey Kepler", 5e-4)
    c.note(after=(b.star_1.mass, b.star_2.mass, b.star_1.state, b.star_2.state))
    c.expect(b.star_1.mass == m[0] and b.star_2.mass == m[1]
             and b.star_1.state == kinds[0] and b.star_2.state == kinds[1],
             "compact objects are unchanged")
    c.expect(list(b.V_sys) == [1., 2., 3.], "systemic velocity kept",
             V=b.V_sys)
    # recorded orbits lie on one Peters trajectory
    T = np.array(b.time_history[n0:], float)
    A = np.array(b.separation_history[n0:], float)
    E = np.array(b.eccentricity_history[n0:], float)
    if n is not None:
        c.expect(len(T) == n - 1, "number of recorded steps", got=len(T), n=n)
    if dtk is not None and len(T) > 1:
        c.close(np.diff(T), dtk * np.ones(len(T) - 1), "recorded spacing",
                rtol=1e-6, atol=1e-3)
    if len(T):
        c.expect(np.all(np.diff(np.append(T, b.time)) > 0),
                 "recorded times increase")
        c.expect(np.all(np.diff(A) < 0) and np.all(A <= a * (1 + 1e-9)),
                 "the orbit shrinks")
        for k in (0, len(T) // 2, len(T) - 1):
            tk, ek = time_between(m[0], m[1], a, e, A[k])
            c.close(T[k] - t0, tk, "recorded orbit at its time", rtol=1e-4,
                    atol=1e-5 * min(tc, tmax - t0) + 1e-6)
            c.close(E[k], ek, "recorded eccentricity", rtol=1e-5, atol=1e-9)
    c.count("outcome: " + str(b.event))
    c.seen(tuple(kinds), b.event, round(e, 1), n is not None, dtk is not None)


@ck.family("timescale", quick=400, thorough=6000)
def timescale(rng, c):
    """The published merger time of any orbit."""
    m1, m2 = [float(10**rng.uniform(-.5, 2)) for _ in "12"]
    a = float(10**rng.uniform(-2, 5))
    e = float(rng.choice([0.0, rng.uniform(0, .99),
                          1 - 10**rng.uniform(-5, -1)]))
    want = phys.peters_time(m1, m2, a, e) / 1e6
    with vk.quiet():
        got = inspiral_timescale_from_separation(m1, m2, a, e)
        P = phys.kepler_P(a, m1, m2)
        got2 = inspiral_timescale_from_orbital_period(m1, m2, P, e)
        sw = inspiral_timescale_from_separation(m2, m1, a, e)
    c.note(m1=m1, m2=m2, a=a, e=e)
    c.close(got, want, "inspiral time from the separation [Myr]", 1e-4)
    c.close(got2, want, "inspiral time from the period [Myr]", 2e-3)
    c.close(sw, got, "symmetric in the masses", 1e-9)
    c.seen(e == 0, int(np.log10(want)))


@ck.family("radii", quick=60, thorough=300)
def radii(rng, c):
    kind = ["BH", "NS", "WD"][c.index % 3]
    m = float(10**rng.uniform(-.5, 2))
    c.close(CO_radius(m, kind), radius(m, kind), "radius of a compact object",
            1e-3)
    for bad in (0.0, -m):
        c.raises(ValueError, lambda: CO_radius(bad, kind),
                 "impossible mass refused")
    c.seen(kind)


ck.require("outcome: CO_contact", 30)
ck.require("outcome: maxtime", 30)

if __name__ == "__main__":
    sys.exit(ck.main())
