"""C27: systems read from a file start exactly as written there."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import shutil
import signal
import numpy as np
import pandas as pd
import phys
from posydon.binary_evol.flow_chart import flow_chart
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.popsyn import sample_from_file as sf
from posydon.popsyn.binarypopulation import BinaryGenerator, BinaryPopulation

ck = vk.Check("C27", "random tables of initial conditions (any of the "
              "documented column names, in any case and order, with "
              "unrelated columns, singles, missing columns and kicks) read "
              "directly, binary by binary and by whole populations split "
              "over job arrays; every starting value is compared with the "
              "row of the file; non-trivial by (columns, rows, offset, "
              "scheme)")

# the documented names of a column, by preference
NAMES = {
    "m1": ["s1_mass", "primary_mass", "mass_1", "m_1", "m1"],
    "m2": ["s2_mass", "secondary_mass", "mass_2", "m_2", "m2"],
    "P": ["orbital_period", "period", "p_orb", "porb", "p"],
    "a": ["orbital_separation", "separation", "semi-major_axis",
          "semi_major_axis", "a"],
    "e": ["eccentricity", "ecc", "e"]}
KICK = {"velocity": ("0", "w"), "azimuthal_angle": ("1", "phi"),
        "polar_angle": ("2", "theta"), "mean_anomaly": ("3", "mean_anomaly")}
for s in "12":
    for k, (n, short) in KICK.items():
        NAMES["%s_%s" % (k, s)] = [
            "s%s_natal_kick_%s" % (s, k), "s%s_natal_kick_array_%s" % (s, n),
            "%s_%s" % (short, s), "%s%s" % (short, s)]
KICKS = [["%s_%s" % (k, s) for k in KICK] for s in "12"]
RANGES = dict(primary_mass_scheme="Kroupa2001", primary_mass_min=7.,
              primary_mass_max=120., secondary_mass_scheme="flat_mass_ratio",
              secondary_mass_min=.5, secondary_mass_max=120.,
              orbital_separation_scheme="log_uniform",
              orbital_separation_min=5., orbital_separation_max=1e4,
              orbital_period_scheme="Sana+12_period_extended",
              orbital_period_min=1., orbital_period_max=5e3,
              eccentricity_scheme="uniform", binary_fraction_const=1,
              binary_fraction_scheme="const")


def case(rng, s):
    k = rng.integers(4)
    return [s, s.upper(), s.title(), "".join(
        x.upper() if rng.uniform() < .5 else x for x in s)][k]


def table(rng, n, drop=(), single=.15, kicks=.6):
    """A file of initial conditions: (data frame, what it says)."""
    v = {"m1": 10**rng.uniform(.9, 2, n), "P": 10**rng.uniform(0, 3.7, n),
         "a": 10**rng.uniform(1, 4, n), "e": rng.uniform(0, 1, n)}
    v["m2"] = v["m1"] * rng.uniform(.1, 1, n)
    v["m2"][rng.uniform(size=n) < single] = np.nan
    for s in KICKS:
        for k, w in zip(s, (rng.uniform(0, 500, n), rng.uniform(
                0, 2 * np.pi, n), rng.uniform(0, np.pi, n),
                rng.uniform(0, 2 * np.pi, n))):
            if rng.uniform() < kicks:
                v[k] = w
    cols, used = [], set()
    for k, w in v.items():
        if k in drop:
            continue
        names = NAMES[k]
        i = int(rng.integers(len(names)))
        cols.append((case(rng, names[i]), w))
        if i + 1 < len(names) and rng.uniform() < .15:
            # a less preferred name is there as well
            j = int(rng.integers(i + 1, len(names)))
            cols.append((case(rng, names[j]), rng.uniform(1, 2, n)))
    for x in ("metallicity", "S1_massive", "period_f", "xm1", "unnamed"):
        if rng.uniform() < .2:
            cols.append((x, rng.uniform(0, 1, n)))
    order = rng.permutation(len(cols))
    df = pd.DataFrame({cols[j][0]: cols[j][1] for j in order})
    return df, {k: w for k, w in v.items() if k not in drop}


def same(x, y):
    """The same number up to its representation in a text file."""
    if x is None or y is None:
        return x is None and y is None
    return bool(np.isclose(float(x), float(y), rtol=1e-12, atol=0,
                           equal_nan=True))


def path(c):
    return os.path.join(vk.scratch(), "c27_%d_%d.csv" % (os.getpid(),
                                                         c.index))


def store(df, p):
    df.to_csv(p, index=False, float_format="%.17g")


def drops(rng):
    r = rng.uniform()
    return () if r < .5 else tuple(
        k for k in ("m1", "m2", "P", "a", "e") if rng.uniform() < .4)


def inside(k, x, w, m1):
    """A value not in the file comes from the requested distribution."""
    x = np.asarray(x, float)
    if k == "e":
        return np.all((x >= 0) & (x <= 1))
    if k == "m1":
        return np.all((x >= 7) & (x <= 120))
    if k == "m2":
        return np.all((x >= .5 * (1 - 1e-9)) & (x <= m1 * (1 + 1e-9)))
    if k == "P":
        return np.all((x >= 1 - 1e-9) & (x <= 5e3 * (1 + 1e-9)))
    return np.all((x >= 5 - 1e-9) & (x <= 1e4 * (1 + 1e-9)))


@ck.family("rows", quick=300, thorough=4000)
def rows(rng, c):
    n = int(rng.integers(1, 12))
    drop = drops(rng)
    df, v = table(rng, n, drop)
    p = path(c)
    store(df, p)
    scheme = str(rng.choice(["period", "separation"]))
    o = "P" if scheme == "period" else "a"
    kw = dict(RANGES, read_samples_from_file=p)
    num = int(rng.integers(0, 9))
    idx = int(rng.integers(0, 30))
    full = np.arange(n)
    if num:
        kw["number_of_binaries"] = num
        full = np.arange(num) % n
        if rng.uniform() < .7:
            kw["index"] = idx
            full = (idx + np.arange(num)) % n
    c.note(columns=list(df.columns), scheme=scheme, num=num, n=n,
           index=kw.get("index"))
    g = np.random.default_rng(5)
    with vk.quiet():
        out = sf.get_samples_from_file(scheme, RNG=g, **kw)
        if num == 0:
            out0 = sf.get_kick_samples_from_file(
                **{k: x for k, x in kw.items()
                   if k != "number_of_binaries"})
        else:
            out0 = sf.get_kick_samples_from_file(**kw)
    m1 = np.asarray(out[2], float)
    for k, x in zip((o, "e", "m1", "m2"), out):
        c.expect(len(x) == len(full), "number of systems", column=k,
                 got=len(x), want=len(full))
        if k in v:
            c.expect(all(map(same, x, v[k][full])), "values of the file",
                     column=k, got=list(x)[:5], want=list(v[k][full])[:5])
        elif k not in ("m2", "P") or m1.min() >= 7:
            # (companions of at least half a solar mass)
            c.expect(inside(k, x, v, m1), "values not in the file are drawn "
                     "from the distributions asked for", column=k,
                     got=list(x)[:5])
    for j, x in enumerate(out0):
        for q, k in enumerate(KICKS[j]):
            got = [y for y in np.asarray(x, object)[:, q]]
            want = list(v[k][full]) if k in v else [None] * len(full)
            c.expect(len(got) == len(want) and all(
                map(same, got, want)), "kicks of the file",
                column=k, got=got[:5], want=want[:5])
    os.remove(p)
    c.count("tables")
    c.seen("rows", n, num > n, idx > n, scheme, len(drop))


@ck.family("binaries", quick=150, thorough=2000)
def binaries(rng, c):
    n = int(rng.integers(1, 8))
    df, v = table(rng, n)
    p = path(c)
    store(df, p)
    scheme = ["period", "separation"][c.index % 2]
    met = float(rng.choice([1., .1, 1e-4]))
    kw = dict(RANGES, read_samples_from_file=p, orbital_scheme=scheme,
              metallicity=met, star_formation="burst",
              max_simulation_time=1e10, number_of_binaries=n)
    with vk.quiet():
        G = BinaryGenerator(sampler=sf.get_samples_from_file, **kw)
        for i in [int(x) for x in rng.integers(0, 3 * n + 1, 4)]:
            b = G.draw_initial_binary(index=i, **kw)
            start(c, b, i, v, n, scheme, met)
    os.remove(p)
    c.count("drawn", 4)
    c.seen("binary", n, scheme)


def start(c, b, i, v, n, scheme, met):
    r = i % n
    one = np.isnan(v["m2"][r])
    c.expect(b.index == i, "number of the system", got=b.index, want=i)
    c.expect(same(b.star_1.mass, v["m1"][r]), "mass of the primary", i=i,
             got=b.star_1.mass, want=v["m1"][r])
    c.expect(b.star_1.metallicity == met and b.event == "ZAMS"
             and b.time == 0, "start of a burst")
    if one:
        c.expect(b.state == "initially_single_star"
                 and b.star_2.state == "massless_remnant"
                 and b.star_2.mass == 0, "no companion: a single star",
                 state=b.state, companion=b.star_2.state)
        c.expect(all(np.isnan(x) for x in (b.separation, b.orbital_period,
                                           b.eccentricity)),
                 "a single star has no orbit")
    else:
        c.expect(b.state == "detached" and same(b.star_2.mass, v["m2"][r])
                 and same(b.eccentricity, v["e"][r]), "mass of the secondary and "
                 "eccentricity", i=i, got=(b.star_2.mass, b.eccentricity),
                 want=(v["m2"][r], v["e"][r]))
        if scheme == "period":
            P = v["P"][r]
            a = phys.kepler_a(P, v["m1"][r], v["m2"][r])
            c.expect(same(b.orbital_period, P), "period of the file")
        else:
            a = v["a"][r]
            P = phys.kepler_P(a, v["m1"][r], v["m2"][r])
            c.expect(same(b.separation, a), "separation of the file")
        c.close(b.separation, a, "Kepler: separation", rtol=2e-3)
        c.close(b.orbital_period, P, "Kepler: period", rtol=2e-3)
    for s, names in zip((b.star_1, b.star_2), KICKS):
        if one and s is b.star_2:
            continue
        got = [getattr(s, "natal_kick_" + k) for k in KICK]
        want = [float(v[k][r]) if k in v else None for k in names]
        c.expect(all(map(same, got, want)), "kick of the file", i=i, got=got, want=want)


@ck.family("population", quick=24, thorough=200)
def population(rng, c):
    """Whole populations, also split over a job array."""
    n = int(rng.integers(1, 9))
    N = int(rng.integers(1, 14))
    df, v = table(rng, n)
    p = path(c)
    store(df, p)
    size = int(rng.integers(1, min(4, N) + 1))
    scheme = str(rng.choice(["period", "separation"]))
    d = os.path.join(vk.scratch(), "c27p_%d_%d" % (os.getpid(), c.index))
    os.makedirs(d)
    seen = {}

    def step(b):
        seen.setdefault(b.index, []).append(b.copy() if hasattr(
            b, "copy") else b)
        b.event = "END"
    try:
        for r in range(size):
            props = SimulationProperties()
            props.flow = dict(flow_chart())
            for s in set(props.flow.values()):
                setattr(props, s, step)
            props.steps_loaded = True
            kw = dict(RANGES, number_of_binaries=N, orbital_scheme=scheme,
                      read_samples_from_file=p, metallicity=.1,
                      metallicities=[.1], star_formation="burst",
                      max_simulation_time=1e10, population_properties=props,
                      temp_directory=os.path.join(d, "b"), tqdm=False,
                      use_MPI=False, entropy=int(rng.integers(99)))
            if size > 1:
                kw.update(JOB_ID=7, RANK=r, size=size)
            with vk.quiet():
                pop = BinaryPopulation(**kw)
                pop.evolve(optimize_ram=False, breakdown_to_df=False,
                           tqdm=False)
            for b in pop.manager.binaries:
                i = b.index
                seen.setdefault(i, []).append(b)
                q = {}
                for s, star in (("1", b.star_1), ("2", b.star_2)):
                    q[s] = star.mass_history[0]
                c.expect(same(q["1"], v["m1"][i % n]) and (
                    np.isnan(v["m2"][i % n]) or same(q["2"],
                                                     v["m2"][i % n])),
                    "first row of the history", i=i, got=q)
                o = b.to_oneline_df()
                c.expect(same(o["S1_mass_i"].iloc[0], v["m1"][i % n]),
                         "start in one line", i=i)
        c.expect(sorted(seen) == list(range(N)), "every number once",
                 got=sorted(seen), N=N)
        for i, bs in seen.items():
            for b in bs[:1]:
                b.event = "ZAMS"
                start(c, b, i, v, n, scheme, .1)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        os.remove(p)
    c.count("systems", N)
    c.seen("population", n, N > n, size, scheme)


@ck.family("refused", quick=6, thorough=6)
def refused(rng, c):
    p = path(c)
    df, v = table(rng, 0 if c.index % 2 else 3)
    store(df, p)

    def late(*a):
        raise TimeoutError("no answer")
    if c.index % 2:
        # a file without systems must not be read for ever
        old = signal.signal(signal.SIGALRM, late)
        try:
            for f in (lambda: sf.get_samples_from_file(
                    "period", read_samples_from_file=p, number_of_binaries=2,
                    **RANGES), lambda: sf.get_kick_samples_from_file(
                        read_samples_from_file=p, number_of_binaries=2)):
                signal.alarm(20)
                try:
                    with vk.quiet():
                        f()
                    res = "read"
                except TimeoutError:
                    res = "hangs"
                except Exception:
                    res = "refused"
                signal.alarm(0)
                c.expect(res == "refused", "a file without systems is "
                         "refused", got=res)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    else:
        c.raises(ValueError, lambda: sf.get_samples_from_file(
            "nonsense", read_samples_from_file=p, **RANGES),
            "unknown orbital scheme")
        c.raises(FileNotFoundError, lambda: sf.get_samples_from_file(
            "period", read_samples_from_file=p + "x"), "missing file")
        c.raises(FileNotFoundError, lambda: sf.get_kick_samples_from_file(
            read_samples_from_file=p + "x"), "missing file of kicks")
        c.raises(KeyError, lambda: sf.get_samples_from_file("period"),
                 "no file given")
        c.raises(KeyError, lambda: sf.get_kick_samples_from_file(),
                 "no file of kicks given")
    os.remove(p)
    c.seen("refused", c.index % 2)


ck.require("tables", 250)
ck.require("drawn", 300)
ck.require("systems", 60)

if __name__ == "__main__":
    sys.exit(ck.main())
