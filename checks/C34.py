"""C34  Single-star tracks, end values and profiles are interpolated right."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import types
import shutil
import tempfile
import h5py
import numpy as np

vk.setup_env()
from scipy.interpolate import PchipInterpolator
from posydon.interpolation.interpolation import GRIDInterpolator
from posydon.utils.interpolators import SingleStarInterpolator
from posydon.binary_evol.track_match import TrackMatcher
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.grids.SN_MODELS import SN_MODELS
import mesa
import h5grid

C = vk.Check(
    "C34",
    "single-star grids with random tracks, gaps in the end values and "
    "profiles of different depth are written, loaded by the real interpolator "
    "and asked at, between, next to and beyond the masses of the grid in "
    "random order; every answer against the tables written; signature = "
    "(query, place, what limits)")

MODELS = list(SN_MODELS)
NAMES = {"age": "star_age", "mass": "star_mass", "mdot": "star_mdot",
         "inertia": "total_moment_of_inertia"}
KEYS = ["age", "mass", "mdot", "inertia", "conv_mx1_top_r", "conv_mx1_bot_r",
        "surface_he3"] + [k for k in mesa.STAR if k not in (
            "total_moment_of_inertia", "log_L_div_Ledd", "log_center_T",
            "log_center_Rho")]
COLS = ["star_age", "star_mass", "star_mdot", "conv_mx1_top_r",
        "conv_mx1_bot_r", "surface_he3"] + mesa.STAR
FINAL = ["S1_" + k for k in h5grid.POST]
PROF = mesa.PROFILE


class Track:
    def __init__(self, rng, m, gaps=True):
        self.m = m
        n = int(rng.integers(4, 30))
        d = {c: rng.normal(size=n) for c in COLS}
        d["star_age"] = np.cumsum(rng.uniform(.1, 1, n)) * 10 ** rng.uniform(
            4, 8)
        d["star_mass"] = m * np.linspace(1, rng.uniform(.3, 1.), n)
        d["log_L"] = rng.uniform(2, 5, n)
        # pre-main sequence: hydrogen burning takes over at row z
        z = int(rng.integers(0, n))
        d["log_LH"] = d["log_L"] + np.where(
            np.arange(n) < z, rng.uniform(-3, -.01, n),
            rng.uniform(-.004, .01, n))
        if rng.random() < .2:           # a helium star never does
            d["log_LH"] = np.full(n, -20.)
        self.h = mesa.table(COLS, d)
        k = int(rng.integers(4, 15))
        q = np.concatenate(([1.], np.sort(rng.uniform(.05, .999, k))[::-1],
                            [rng.choice([1e-3, rng.uniform(1e-3, .04)])]))
        p = {c: rng.normal(size=k + 2) for c in PROF}
        p["mass"] = q * self.h["star_mass"][-1]
        self.p = mesa.table(PROF, p)
        self.f = {c: float(rng.uniform(-1, 20)) for c in FINAL}
        if gaps:
            for c in FINAL:
                if rng.random() < .3:
                    self.f[c] = np.nan
        self.f["S1_state"] = "x"
        self.sn = {}
        for s in MODELS:
            r = {"S1_CO_type": str(rng.choice(["BH", "NS", "WD"])),
                 "S1_SN_type": str(rng.choice(["CCSN", "ECSN"])),
                 "S1_CO_interpolation_class": "BH"}
            for x in h5grid.SN_NUM:
                r["S1_" + x] = float(rng.uniform(0, 9)) \
                    if rng.random() > .2 else np.nan
            self.sn[s] = r

    def value(self, key):
        return np.asarray(self.h[NAMES.get(key, key)], float)


def write(path, tracks):
    ini, fin = [], []
    for t in tracks:
        ini.append(dict({"S1_" + c: float(t.h[c][0]) for c in mesa.STAR},
                        S1_star_mass=t.m, Z=.0142))
        fin.append(dict({"S1_" + c: float(t.h[c][-1]) for c in mesa.STAR},
                        S1_star_mass=float(t.h["star_mass"][-1]), **t.f))
    with h5py.File(path, "w") as q:
        q.attrs["config"] = repr(str({"binary": False}))
        q["/grid/initial_values"] = h5grid.recs(ini)
        q["/grid/final_values"] = h5grid.recs(fin)
        q["/relative_file_paths"] = np.array(
            [b"/x/run%d" % i for i in range(len(tracks))])
        for i, t in enumerate(tracks):
            g = q.create_group("/grid/run%d" % i)
            g["history1"] = t.h
            g["final_profile1"] = t.p
        for s in MODELS:
            q["/grid/SN_MODELS/" + s] = h5grid.recs([t.sn[s] for t in tracks])
    return path


def make(rng, n=None):
    n = int(rng.integers(2, 8)) if n is None else n
    ms = np.unique(np.round(10 ** rng.uniform(0, 2, n), 3))
    tr = [Track(rng, float(m)) for m in ms]
    tr = [tr[i] for i in rng.permutation(len(tr))]
    return tr


def ask(rng, tracks):
    """(mass, where)"""
    ms = np.sort([t.m for t in tracks])
    u = rng.random()
    if u < .25 or len(ms) < 2:
        return float(rng.choice(ms)), "on"
    i = int(rng.integers(0, len(ms) - 1))
    a, b = ms[i], ms[i + 1]
    if u < .4:
        return float(rng.choice([np.nextafter(a, b), np.nextafter(b, a),
                                 a + 1e-9 * (b - a)])), "next"
    if u < .5:
        return float(a + (b - a) / 2), "middle"
    return float(rng.uniform(np.nextafter(a, b), b)), "between"


def sides(tracks, m):
    lo = max((t for t in tracks if t.m < m), key=lambda t: t.m)
    hi = min((t for t in tracks if t.m > m), key=lambda t: t.m)
    return lo, hi


def on(tracks, m):
    return next((t for t in tracks if t.m == m), None)


def mix(a, b, w):
    return a * (1 - w) + b * w


def zams(log_L, log_LH):
    """first row with 99% of the luminosity from hydrogen; None: unclear"""
    x = log_LH - log_L - np.log10(.99)
    if np.any(np.abs(x) < 1e-9):
        return None
    k = np.flatnonzero(x > 0)
    return int(k[0]) if len(k) else 0


def want_track(tracks, key, m):
    t = on(tracks, m)
    if t is not None:
        v, L, H = t.value(key), t.value("log_L"), t.value("log_LH")
    else:
        lo, hi = sides(tracks, m)
        n = min(len(lo.h), len(hi.h))
        w = (m - lo.m) / (hi.m - lo.m)
        v, L, H = [mix(lo.value(k)[:n], hi.value(k)[:n], w)
                   for k in (key, "log_L", "log_LH")]
    z = zams(L, H)
    if z is None:
        return None
    return v[z:] - (v[z] if key == "age" else 0), z


def get_final(t, key):
    for s in MODELS:
        if key.startswith("S1_" + s + "_"):
            return t.sn[s]["S1_" + key[len("S1_" + s + "_"):]]
    return t.f[key]


def want_final(tracks, key, m):
    t = on(tracks, m)
    if t is not None:
        return get_final(t, key), "on"
    lo = [t for t in sorted(tracks, key=lambda t: -t.m) if t.m < m]
    hi = [t for t in sorted(tracks, key=lambda t: t.m) if t.m > m]
    a = next((t for t in lo if np.isfinite(get_final(t, key))), None)
    b = next((t for t in hi if np.isfinite(get_final(t, key))), None)
    if a is None or b is None:
        return np.nan, "no value on one side"
    how = "skipped" if (a is not lo[0] or b is not hi[0]) else "neighbours"
    w = (m - a.m) / (b.m - a.m)
    return mix(get_final(a, key), get_final(b, key), w), how


def want_profile(tracks, key, m):
    t = on(tracks, m)
    if t is not None:
        return np.asarray(t.p[key], float), t, "on"
    lo, hi = sides(tracks, m)
    q = [np.asarray(t.p["mass"], float) / t.p["mass"][0] for t in (lo, hi)]
    deep = 0 if q[0][-1] >= q[1][-1] else 1     # ends further outside
    grid = q[deep]
    v = [np.interp(grid, q[i][::-1], np.asarray(t.p[key], float)[::-1])
         for i, t in enumerate((lo, hi))]
    w = (m - lo.m) / (hi.m - lo.m)
    return mix(v[0], v[1], w), (lo, hi)[deep], "low" if deep == 0 else "high"


def load(tracks, d):
    return GRIDInterpolator(write(os.path.join(d, "g.h5"), tracks))


def query(rng, c, g, tracks, n):
    for _ in range(n):
        m, where = ask(rng, tracks)
        kind = str(rng.choice(["track", "final", "state", "profile"]))
        if kind == "track":
            key = str(rng.choice(KEYS + ["age"] * 9))
            w = want_track(tracks, key, m)
            if w is None:
                continue
            got = np.array(g.get(key, m))
            scale = max(np.abs(np.concatenate([t.value(key)
                                               for t in tracks])).max(), 1)
            c.close(got, w[0], "a track is the linear mixture of its "
                    "neighbours from the zero-age main sequence on",
                    rtol=1e-9, atol=1e-11 * scale, quantity=key, m=m,
                    zams=w[1])
            if key == "age":
                c.expect(len(got) and got[0] == 0, "ages are counted from the "
                         "zero-age main sequence", got=got[:3])
            c.seen("track", where, min(w[1], 2), len(w[0]) < 3)
            c.count("tracks")
        elif kind == "final":
            key = str(rng.choice(FINAL)) if rng.random() < .6 else \
                "S1_%s_%s" % (rng.choice(MODELS), rng.choice(h5grid.SN_NUM))
            v, how = want_final(tracks, key, m)
            got = g.get_final_values(key, m)
            c.close(got, v, "an end value is mixed from the closest runs "
                    "having it", rtol=1e-9, atol=1e-9, quantity=key, m=m,
                    how=how)
            c.seen("final", where, how, key in FINAL)
            c.count("finals")
        elif kind == "state":
            key = "S1_%s_%s" % (rng.choice(MODELS),
                                rng.choice(["CO_type", "SN_type"]))
            t = on(tracks, m)
            if t is None:
                lo, hi = sides(tracks, m)
                d = abs(m - lo.m) - abs(hi.m - m)
                if abs(d) < 1e-12 * hi.m and get_final(lo, key) != \
                        get_final(hi, key):
                    continue
                t = lo if d < 0 else hi
            got = g.get_final_state(key, m)
            c.expect(str(got) == get_final(t, key), "a type is that of the "
                     "closer run", got=str(got), want=get_final(t, key), m=m,
                     quantity=key)
            c.seen("state", where)
            c.count("states")
        else:
            key = str(rng.choice(PROF))
            v, t, how = want_profile(tracks, key, m)
            got, old = g.get_profile(key, m)
            c.close(got, v, "a profile is mixed at equal relative masses",
                    rtol=1e-8, atol=1e-8, quantity=key, m=m)
            c.expect(len(old) == len(t.p) and all(
                np.array_equal(old[k], t.p[k]) for k in PROF),
                "the profile giving the layers is returned along with it",
                m=m, how=how)
            c.seen("profile", where, how)
            c.count("profiles")


@C.family("queries", quick=480, thorough=9000)
def queries(rng, c):
    d = tempfile.mkdtemp(dir=vk.scratch())
    g = None
    try:
        tracks = make(rng)
        g = load(tracks, d)
        c.note(masses=[t.m for t in tracks])
        c.close(np.sort(g.grid_mass), np.sort([t.m for t in tracks]),
                "every run of the file is offered")
        for gm, ga in zip(g.grid_mass, g.grid_age):
            c.close(ga, on(tracks, gm).value("age").max(),
                    "the age range of each run is known")
        query(rng, c, g, tracks, 40)
        ms = [t.m for t in tracks]
        for m in (min(ms) * .99, max(ms) * 1.01, np.nextafter(min(ms), 0),
                  np.nextafter(max(ms), 1e9)):
            for f, a in ((g.get, "mass"), (g.get_final_values, FINAL[0]),
                         (g.get_final_state, "S1_%s_CO_type" % MODELS[0]),
                         (g.get_profile, "mass")):
                c.raises(ValueError, lambda: f(a, m),
                         "no answer is given beyond the masses of the grid")
    finally:
        if g is not None:
            g.close()
        shutil.rmtree(d, ignore_errors=True)


@C.family("star", quick=160, thorough=3000)
def star(rng, c):
    """end values and profile go to the star from the grid of its kind"""
    d = tempfile.mkdtemp(dir=vk.scratch())
    try:
        sets, gs = [], []
        for i in range(2):
            sub = os.path.join(d, str(i))
            os.mkdir(sub)
            sets.append(make(rng, int(rng.integers(2, 6))))
            for t in sets[-1]:
                for k in ("star_mass", "total_moment_of_inertia"):
                    t.h[k] = np.abs(t.h[k]) + .1
                t.h["star_mass"][0] = t.m
            gs.append(load(sets[-1], sub))
        try:
            tm = TrackMatcher(grid_Hrich=gs[0], grid_strippedHe=gs[1],
                              metallicity=1.)
            for _ in range(6):
                i = int(rng.integers(0, 2))
                m, where = ask(rng, sets[i])
                s = types.SimpleNamespace(
                    interp1d=types.SimpleNamespace(m0=m), htrack=(i == 0),
                    surf_avg_omega=float(rng.random()), profile=None)
                tm.get_star_final_values(s)
                for k in h5grid.POST:
                    v, how = want_final(sets[i], "S1_" + k, m)
                    c.close(getattr(s, k), v, "end values of the star are "
                            "those of its own grid", rtol=1e-9, atol=1e-9,
                            quantity=k)
                tm.get_star_profile(s)
                for k in PROF:
                    if k == "omega":
                        v = np.full(len(s.profile), s.surf_avg_omega)
                    else:
                        v = want_profile(sets[i], k, m)[0]
                    c.close(s.profile[k], v, "the profile of the star is "
                            "that of its own grid, rotating rigidly",
                            rtol=1e-8, atol=1e-8, quantity=k)
                c.seen(i, where)
                c.count("stars")
            # the stored runs must not be altered by what was done
            query(rng, c, gs[0], sets[0], 8)
            query(rng, c, gs[1], sets[1], 8)
        finally:
            for g in gs:
                g.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)


LABEL = {2.: "2e+00", 1.: "1e+00", .45: "4.5e-01", .2: "2e-01", .1: "1e-01",
         .01: "1e-02", .001: "1e-03", .0001: "1e-04"}


@C.family("metallicity", quick=24, thorough=200)
def metallicity(rng, c):
    """each matcher reads the grids of its own metallicity"""
    d = tempfile.mkdtemp(dir=vk.scratch())
    try:
        zs = [float(z) for z in rng.choice(list(LABEL), 3, replace=False)]
        truth = {}
        for kind in ("HMS", "HeMS"):
            os.mkdir(os.path.join(d, kind))
            for z in zs:
                tr = make(rng, 3)
                for t in tr:
                    t.h["total_moment_of_inertia"] = np.abs(
                        t.h["total_moment_of_inertia"]) + .1
                write(os.path.join(d, kind, LABEL[z] + "_Zsun.h5"), tr)
                truth[kind, z] = tr
        sp = SimulationProperties()
        sp.single_HMS_path = os.path.join(d, "HMS")
        sp.single_HeMS_path = os.path.join(d, "HeMS")
        try:
            for _ in range(6):
                z = float(rng.choice(zs))
                step = str(rng.choice(["step_a", "step_b"]))
                sp.create_track_matcher(z, step, {"metallicity": z})
                tm = sp.track_matchers[z, step]
                for kind, g in (("HMS", tm.grid_Hrich),
                                ("HeMS", tm.grid_strippedHe)):
                    query(rng, c, g, truth[kind, z], 5)
                    c.seen(kind, z)
                    c.count("matchers")
        finally:
            sp.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)


@C.family("interpolator", quick=1500, thorough=30000)
def interpolator(rng, c):
    """the time interpolation of one star"""
    n = int(rng.integers(2, 25))
    t = np.cumsum(rng.uniform(1e-3, 1, n)) * 10 ** rng.uniform(-2, 9)
    t -= rng.choice([0, t[0]])
    k = int(rng.integers(1, 9))
    keys = ["q%d" % i for i in rng.permutation(k)]
    y = []
    for i in range(k):
        u = rng.random()
        v = rng.normal(size=n) if u < .5 else \
            np.cumsum(rng.uniform(-.2, 1, n)) if u < .8 else \
            np.round(rng.normal(size=n))
        y.append(v * 10 ** rng.uniform(-9, 9))
    pos = [bool(rng.random() < .4) for _ in range(k)]
    der = [bool(rng.random() < .3) for _ in range(k)]
    kw = {}
    if rng.random() < .8:
        kw["positives"] = list(pos)
    else:
        pos = [False] * k
    if rng.random() < .8:
        kw["derivatives"] = list(der)
    else:
        der = [False] * k
    keep = [v.copy() for v in y]
    data = np.array(y) if rng.random() < .5 else y
    f = SingleStarInterpolator(t, data, list(keys), **kw)
    c.expect(sorted(f.keys) == sorted(keys), "every quantity is offered once",
             got=f.keys, want=keys)
    c.expect(f.t_max == t.max() and f.offset == 0, "the track ends at its "
             "last age")
    off = float(rng.choice([0., rng.uniform(-1, 1) * t[-1]]))
    f.offset = off
    q = np.sort(np.concatenate((rng.uniform(t[0], t[-1], 6), t)))
    forms = [("array", q + off), ("scalar", float(rng.choice(q)) + off)]
    for form, tq in forms:
        got = f(tq)
        for i, key in enumerate(keys):
            p = PchipInterpolator(t, keep[i])
            if der[i]:
                p = p.derivative()
            w = p(np.asarray(tq) - off)
            if pos[i]:
                w = np.maximum(w, 0)
            sc = np.abs(keep[i]).max() + 1e-300
            if der[i]:
                sc = np.abs(p(t)).max() + sc / np.diff(t).min() * 1e-3
            c.close(got[key], w, "each quantity follows its own table, "
                    "monotone between the rows", rtol=1e-7, atol=1e-6 * sc
                    if der[i] else 1e-8 * sc, quantity=key, form=form,
                    positive=pos[i], derivative=der[i], offset=off)
            if not der[i] and not pos[i] and form == "array" and off == 0:
                c.close(f(t)[key], keep[i], "the table itself is met at its "
                        "rows", rtol=1e-9, atol=1e-12 * sc)
        c.seen(form, off == 0, any(pos), any(der), n == 2)
        c.count("interpolations")
    c.expect(all(np.array_equal(a, b) for a, b in zip(keep, y)),
             "the tables stay as given")


for k_, m_ in (("tracks", 300), ("finals", 300), ("states", 200),
               ("profiles", 300), ("stars", 100), ("matchers", 30),
               ("interpolations", 500)):
    C.require(k_, m_)
if __name__ == "__main__":
    sys.exit(C.main())
