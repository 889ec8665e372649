"""C12  Cosmic rates of transient populations."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
vk.setup_env()
import numpy as np
import pandas as pd
from scipy import integrate
import astropy.units as u
from astropy import constants as K
from astropy.cosmology import Planck15 as COS, z_at_value
import popfile as pf
import sfh
from posydon.popsyn import rate_calculation as R
from posydon.popsyn import synthetic_population as SP
from posydon.utils.constants import Zsun

C = vk.Check(
    "C12",
    "random transient populations, star-formation models, time steps and "
    "chunk sizes drive the real cosmic-weight, rate-density and observable "
    "calculations; every weight, redshift and rate is recomputed from the "
    "cosmology and an independent star-formation model; signature = "
    "(metallicity layout, model, chunking, channels)", case_timeout=500)
AGE0, T100 = COS.age(0.).value, COS.age(100.).value
_zt = np.concatenate([np.geomspace(1e-6, .01, 400)[:-1],
                      np.geomspace(.01, 120, 6000)])
_tt = COS.age(_zt).value
# dense monotone table t -> z, cubic in log(1+z)
from scipy.interpolate import PchipInterpolator
_z_of_t = PchipInterpolator(_tt[::-1], np.log1p(_zt)[::-1])


def z_of_t(t):
    return np.expm1(_z_of_t(t))


def ref_edges(dt):
    n = int((AGE0 - T100) * 1e3 / dt)
    t = AGE0 - dt * 1e-3 * np.arange(n + 1)
    return t, n


@C.family("bins", quick=26, thorough=300)
def bins(rng, c):
    dt = float(rng.choice([100., 50., 137., 250., 500., 1000., 3000., 137.81,
                           10 ** rng.uniform(1.8, 3.9)]))
    if rng.random() < .3:
        # nearly a whole number of bins
        k = int(rng.integers(2, 60))
        dt = (AGE0 - T100) * 1e3 / k * (1 + float(rng.choice(
            [-1e-6, 1e-6, -1e-3, 1e-3])))
    c.note(dt=dt)
    t, n = ref_edges(dt)
    e = R.get_redshift_bin_edges(dt)
    z = R.get_redshift_bin_centers(dt)
    c.expect(len(e) == n + 2 and len(z) == n + 1, "number of redshift bins",
             got=(len(e), len(z)), want=n, dt=dt)
    c.expect(e[0] == 0 and e[-1] == 100, "the bins reach from today to z=100")
    c.expect(np.all(np.diff(e) > 0) and np.all(np.diff(z) > 0),
             "redshift bins are ordered", e=e[-3:], dt=dt)
    if len(e) == n + 2 and len(z) == n + 1:
        c.close(COS.age(e[1:-1]).value, t[1:], "bins of equal cosmic time",
                rtol=1e-5)
        edge_t = np.concatenate([t, [T100]])
        mid = (edge_t[1:] + edge_t[:-1]) / 2
        full = AGE0 - dt * 1e-3 * (np.arange(n + 1) + .5)
        got = COS.age(z).value
        c.close(got[:-1], mid[:-1], "bin centres are mid-times", rtol=1e-5)
        # the earliest bin ends at z=100, earlier than a whole step
        c.expect(edge_t[-1] < got[-1] < edge_t[-2] and (
            abs(got[-1] - mid[-1]) < 1e-4 or abs(got[-1] - full[-1]) < 1e-4),
            "centre of the earliest bin", got=got[-1], mid=mid[-1],
            full=full[-1])
        c.expect(np.all((z > e[:-1]) & (z < e[1:])), "centres lie in their "
                 "bins")
    for _ in range(4):
        a, b = np.sort(10 ** rng.uniform(-3, 1.5, 2))
        if rng.random() < .3:
            a = 0.
        H0 = COS.H(0).to("1/yr").value
        cc = K.c.to("Gpc/yr").value
        x = np.linspace(a, b, 2001)
        f = 4 * np.pi * cc / H0 * (COS.comoving_distance(x).value * 1e-3) ** 2 \
            / np.sqrt(COS.Om0 * (1 + x) ** 3 + 1 - COS.Om0) / (1 + x)
        c.close(R.get_shell_comoving_volume(a, b, "infinite"),
                integrate.simpson(f, x=x), "comoving shell volume",
                rtol=1e-4, a=a, b=b)
    c.raises(ValueError, lambda: R.get_shell_comoving_volume(0., 1., "LIGO"),
             "unknown sensitivity refused")
    zz = 10 ** rng.uniform(-3, 1.9, 10)
    c.close(R.get_cosmic_time_from_redshift(zz), COS.age(zz).value,
            "cosmic time", rtol=1e-9)
    c.close(R.get_comoving_distance_from_redshift(zz),
            COS.comoving_distance(zz).value, "comoving distance", rtol=1e-9)
    c.seen("bins", int(np.log10(dt) * 8))
    c.count("bins")


@C.family("inverse", quick=2, thorough=8)
def inverse(rng, c):
    t = np.sort(rng.uniform(.15, AGE0 * .99999, 400))
    got = R.get_redshift_from_cosmic_time(t)
    c.close(got, z_of_t(t), "redshift of a cosmic time", rtol=2e-5, atol=1e-7)
    t = np.sort(rng.uniform(.0166, .15, 100))
    c.close(R.get_redshift_from_cosmic_time(t), z_of_t(t),
            "redshift of an early cosmic time", rtol=.05)
    c.seen("inverse")
    c.count("inverse")


def met_edges(mets, dlog):
    l = np.log10(np.sort(mets) * Zsun)
    if len(l) == 1:
        if dlog is None:
            return 10. ** np.array([-9., 0.])
        if isinstance(dlog, float):
            return 10 ** np.array([l[0] - dlog / 2, l[0] + dlog / 2])
        return 10 ** np.array([min(dlog), max(dlog)])
    m = (l[1:] + l[:-1]) / 2
    return 10 ** np.concatenate([[l[0] - (l[1] - l[0]) / 2], m,
                                 [l[-1] + (l[-1] - l[-2]) / 2]])


@C.family("rates", quick=48, thorough=400)
def rates(rng, c):
    lay = int(rng.integers(4))
    mets = [[1.], [.1], [.1, 1.], [2., .01, .45]][lay]
    n = int(rng.integers(1, 9))
    ids, pat = pf.indices(rng, n)
    h, o = pf.frames(rng, ids, mets, maxlen=5)
    path = os.path.join(vk.scratch(), "r_%d.h5" % os.getpid())
    mass = pf.mass_table(o, mets)
    pf.write(path, h, o, mets, mass=mass)
    ch = int(rng.choice([1, 2, 3, 7, 100000]))
    fc = rng.random() < .6

    def func(hh, oo, ff):
        m = hh["x"] > -.5
        d = pd.DataFrame({"time": hh["time"][m] * 1e-6 * 10 ** float(0),
                          "x": hh["x"][m]}, index=hh.index[m])
        d["metallicity"] = oo["metallicity"].reindex(d.index)
        if ff is not None:
            d["channel"] = ff["channel"].reindex(d.index)
        return d
    name = str(rng.choice(["tr", "BBH_mergers"]))
    with vk.quiet():
        P = SP.Population(path, chunksize=ch)
        if fc:
            P.calculate_formation_channels(mt_history=False)
        T = P.create_transient_population(func, name)
    if T is None:
        c.stop()
    ev = T.population
    if n <= 4 and rng.random() < .5:
        ch = 2
    T = SP.TransientPopulation(path, name, chunksize=ch)
    w = rng.uniform(0, 1e-5, len(ev))
    with pd.HDFStore(path, "a") as s:
        s.put("transients/" + name + "/weights/other",
              pd.DataFrame({"other": w * 3}, index=ev.index))
        s.put("transients/" + name + "/weights/mine",
              pd.DataFrame({"mine": w}, index=ev.index))
    sf = str(rng.choice(sorted(sfh.PAR)))
    dt = float(rng.choice([200., 450., 1000., 777.]))
    M = dict(SFR=sf, sigma=[.5, "Bavera+20", "Neijssel+19", .3][
        rng.integers(4)], delta_t=dt, normalise=bool(rng.random() < .5))
    if rng.random() < .6:
        M["Z_max"] = float(rng.choice([1., .1, .02]))
    if rng.random() < .5:
        M["Z_min"] = float(rng.choice([1e-6, 1e-5]))
    dlog = None
    if len(mets) == 1:
        k = rng.integers(3)
        if k == 1:
            dlog = float(rng.uniform(.2, 2))
        elif k == 2:
            dlog = [float(np.log10(mets[0] * Zsun) - rng.uniform(.1, 1)),
                    float(np.log10(mets[0] * Zsun) + rng.uniform(.1, 1))]
        if dlog is not None or rng.random() < .5:
            M["dlogZ"] = dlog
    c.note(M=M, mets=mets, n=len(ev), chunk=ch, ids=ids)
    default = dict(R.DEFAULT_SFH_MODEL)
    given = {k: (list(v) if isinstance(v, list) else v) for k, v in M.items()}
    with vk.quiet():
        c.raises(ValueError, lambda: T.calculate_cosmic_weights(
            "sf", "nothing", MODEL_in=M), "unknown model weights refused")
        if rng.random() < .4:
            # an earlier calculation under the same name is replaced
            M0 = dict(SFR=str(rng.choice(sorted(sfh.PAR))), sigma=.5,
                      delta_t=float(rng.choice([dt, 900.])))
            if "dlogZ" in M:
                M0["dlogZ"] = M["dlogZ"]
            T.calculate_cosmic_weights("sf", "other", MODEL_in=M0)
            c.count("recalculated")
        rt = T.calculate_cosmic_weights("sf", "mine", MODEL_in=M)
    c.expect(R.DEFAULT_SFH_MODEL == default and M == given,
             "the models passed in stay as they were")
    me = met_edges(np.array(mets), dlog)
    c.close(rt.centers_metallicity_bins, np.sort(mets) * Zsun,
            "metallicity bin centres", rtol=1e-12)
    c.close(rt.edges_metallicity_bins, me, "metallicity bin edges",
            rtol=1e-9)
    zb = R.get_redshift_bin_centers(dt)
    ze = R.get_redshift_bin_edges(dt)
    c.close(rt.centers_redshift_bins, zb, "redshift bin centres", rtol=1e-9)
    c.close(rt.edges_redshift_bins, ze, "redshift bin edges", rtol=1e-9)
    tb = COS.age(zb).value
    b = rt.z_birth
    c.close(b["z"].to_numpy(), zb, "birth redshifts", rtol=1e-9)
    c.close(b["t"].to_numpy(), tb, "birth times", rtol=1e-9)
    W, Z = rt.weights, rt.z_events
    c.expect(W.index.tolist() == ev.index.tolist() and Z.index.tolist()
             == ev.index.tolist() and W.shape == Z.shape == (len(ev), len(zb)),
             "a weight for every event and birth bin",
             got=(W.shape, len(ev), len(zb)), chunk=ch)
    if W.shape != (len(ev), len(zb)):
        return
    te = tb[None, :] + ev["time"].to_numpy()[:, None] * 1e-3
    Z, W = Z.to_numpy(), W.to_numpy()
    inside = te < AGE0 - 1e-4
    out = te > AGE0 + 1e-4
    c.expect(np.all(np.isnan(Z[out])), "no event after today")
    zt = np.where(inside, z_of_t(np.where(inside, te, 1.)), np.nan)
    late = inside & (te > .15)
    c.close(Z[late], zt[late], "redshift of each event", rtol=2e-5, atol=2e-6)
    early = inside & (te <= .15)
    c.close(Z[early], zt[early], "redshift of each early event", rtol=.05)
    c.count("events inside the Hubble time", int(inside.sum()))
    c.count("events outside the Hubble time", int(out.sum()))
    # weights
    sfr = sfh.csfrd(sf, zb)
    mi = np.searchsorted(np.sort(mets), ev["metallicity"].to_numpy())
    fr = np.array([sfh.fractions(sfh.cdf_lognormal(sf, M["sigma"], z), me,
                                 M.get("Z_min"), M.get("Z_max"),
                                 M["normalise"]) for z in zb])
    D = np.where(inside, COS.comoving_distance(np.where(
        inside, zt, 1.)).value, np.nan)
    want = 4 * np.pi * K.c.to("Mpc/yr").value * D ** 2 * dt * 1e6 \
        * (sfr[:, None] * fr)[:, mi].T * w[:, None]
    fin = late & np.isfinite(want) & (te < AGE0 - .01)
    c.close(W[fin], want[fin], "weight of each event", rtol=1e-3,
            atol=1e-12 * np.nanmax(np.where(fin, want, 0)) + 1e-300, M=M,
            mets=mets)
    c.expect(np.all(np.isnan(W[out]) | (W[out] == 0)),
             "no weight after today")
    # the rate density sums weights per redshift bin
    chs = bool(fc and rng.random() < .7)
    with vk.quiet():
        rt2 = SP.Rates(path, name, "sf", chunksize=ch)
        c.raises(ValueError, lambda: rt2.intrinsic_rate_density,
                 "rate density before it is computed")
        D1 = rt2.calculate_intrinsic_rate_density(channels=chs)
        D2 = rt2.intrinsic_rate_density
    c.expect(D1.equals(D2), "the rate density is stored")
    k = np.searchsorted(ze, Z.ravel(), side="left") - 1
    k = np.where(np.isnan(Z.ravel()), -1, k).reshape(Z.shape)
    V = np.array([R.get_shell_comoving_volume(x, y) for x, y in zip(
        ze[:-1], ze[1:])])
    groups = {"total": np.ones(len(ev), bool)}
    if chs:
        for q in ev["channel"].unique():
            groups[q] = (ev["channel"] == q).to_numpy()
    c.expect(set(D1.columns) == set(groups) and len(D1) == len(V),
             "rate densities of all channels", got=list(D1.columns))
    for g, m in groups.items():
        s = np.array([np.nansum(W[(k == i) & m[:, None]]) for i in range(
            len(V))])
        c.close(D1[g].to_numpy(), s / V, "intrinsic rate density of " + (
            "the population" if g == "total" else "a channel"), rtol=1e-9,
            atol=1e-300)
    c.close(D1.index.to_numpy(), ze[:-1], "redshifts of the rate density",
            rtol=1e-9)
    # observable population
    calls = []

    def obs(tc, zc, wc):
        calls.append((tc, zc, wc))
        return wc * (tc["x"] > 0).to_numpy()[:, None] * .25
    for rep in range(int(rng.choice([1, 2]))):
        calls.clear()
        with vk.quiet():
            rt2.calculate_observable_population(obs, "det")
    O = rt2.observable_population("det")
    for tc, zc, wc in calls:
        c.expect(tc.index.tolist() == zc.index.tolist() == wc.index.tolist()
                 and len(tc) <= ch, "a chunk holds matching events")
    full = np.where(np.isnan(W), np.nan, W) * (ev["x"] > 0).to_numpy()[
        :, None] * .25
    c.expect(O.shape == W.shape and np.array_equal(O.to_numpy(), full,
                                                   equal_nan=True)
             and O.index.tolist() == ev.index.tolist(),
             "observable weight of every event", chunk=ch, got=O.shape)
    c.expect("det" in rt2.observable_population_names,
             "names of observable populations")
    c.raises(ValueError, lambda: rt2.observable_population("none"),
             "unknown observable population refused")
    c.raises(ValueError, lambda: SP.Rates(path, name, "zz"),
             "unknown star formation history refused")
    c.expect(pf.same(T.population, ev), "rates leave the events alone")
    c.seen("rates", lay, sf, min(ch, 4), chs, dlog is None, "Z_max" in M,
           "Z_min" in M, M["normalise"])
    c.count("rates")


for k, m in (("bins", 20), ("inverse", 2), ("rates", 30), ("recalculated", 8),
             ("events inside the Hubble time", 500),
             ("events outside the Hubble time", 100)):
    C.require(k, m)

if __name__ == "__main__":
    sys.exit(C.main())
