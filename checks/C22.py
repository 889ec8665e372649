"""C22  Scrubbing and downsampling keep tracks and profiles faithful."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import numpy as np

vk.setup_env()
from posydon.grids.downsampling import TrackDownsampler, rescale_from_0_to_1
from posydon.grids import scrubbing as sc
from posydon.grids.psygrid import downsample_history, downsample_profile

C = vk.Check(
    "C22",
    "random tracks (smooth, stepped, spiky, piecewise linear, integer, "
    "constant columns), histories with repeated/backward steps and profiles "
    "drive the real downsampler and scrubbers; the kept rows are judged by "
    "interpolating between them and by own reference models; signature = "
    "(function, shape of the input, share of rows kept)")


def track(rng, n, d):
    t = np.cumsum(10 ** rng.uniform(-4, 2, n))
    if rng.random() < .3:
        t = np.linspace(0, 1, n)
    s = (t - t[0]) / max(t[-1] - t[0], 1e-300)
    cols = []
    kinds = []
    for _ in range(d):
        k = int(rng.integers(6))
        kinds.append(k)
        if k == 0:
            y = np.sin(rng.uniform(1, 30) * s + rng.uniform(0, 6))
        elif k == 1:
            y = np.where(s > rng.random(), 1., 0.) + s
        elif k == 2:
            y = np.exp(-((s - rng.random()) / .01) ** 2)
        elif k == 3:
            y = np.full(n, rng.normal())
        elif k == 4:
            y = np.cumsum(rng.normal(size=n))
        else:
            y = s * rng.normal()
        cols.append(y * 10 ** rng.uniform(-6, 30) + rng.normal() * 10
                    ** rng.uniform(-3, 3))
    return t, np.array(cols).T, tuple(sorted(set(kinds)))


def scaled(X):
    X = np.asarray(X, float)
    lo, hi = X.min(axis=0), X.max(axis=0)
    return np.where(hi > lo, (X - lo) / np.where(hi > lo, hi - lo, 1), 0.)


def judge(c, t, X, keep, err, interval=None):
    """rows kept: ends, and linear interpolation within the error"""
    n = len(t)
    k = np.where(keep)[0]
    c.expect(keep[0] and keep[-1], "first and last row are kept")
    if err is None or n < 3:
        c.expect(keep.all(), "nothing is dropped without a tolerance")
        return
    S = scaled(X)
    lim = None
    if interval is not None:
        lim = interval if interval >= 0 else -interval * abs(t[-1] - t[0])
    for i, j in zip(k[:-1], k[1:]):
        if j == i + 1:
            continue
        m = np.arange(i + 1, j)
        w = (t[m] - t[i]) / (t[j] - t[i])
        y = S[i] + w[:, None] * (S[j] - S[i])
        e = np.linalg.norm(S[m] - y, axis=1).max()
        if not c.expect(e <= err + 1e-9, "every dropped row is reproduced "
                        "within the error", e=e, err=err, i=i, j=j):
            return
        if lim is not None:
            if not c.expect(t[j] - t[i] <= lim * (1 + 1e-12),
                            "no gap larger than the interval", gap=t[j] - t[i],
                            lim=lim):
                return


@C.family("downsample", 300, 4000)
def downsample(rng, c):
    n = int(rng.choice([1, 2, 3, 4, 10, 60, 300]))
    d = int(rng.integers(1, 5))
    t, X, kinds = track(rng, n, d)
    if rng.random() < .15:
        X = rng.integers(-9, 100, (n, d))               # whole numbers
        kinds = "int"
    err = [None, 0., 1e-3, .01, .1, .5, 1.5][int(rng.integers(7))]
    iv = None if rng.random() < .5 else float(rng.choice(
        [-.05, -.3, -1.5, .1 * (t[-1] - t[0]) + 1e-9]))
    keepX, keept = X.copy(), t.copy()
    arg = X[:, 0] if d == 1 and rng.random() < .5 else X
    T = TrackDownsampler(t, arg)
    tt, XX = T.downsample(max_err=err, max_interval=iv)
    c.expect(np.array_equal(X, keepX) and np.array_equal(t, keept),
             "the given track is unchanged")
    keep = np.isin(t, tt)
    c.expect(len(tt) == keep.sum() and np.array_equal(t[keep], tt),
             "the times kept are times of the track")
    rng_ = np.ptp(np.asarray(X, float), axis=0)
    c.expect(XX.shape == X[keep].shape and np.all(
        np.abs(XX - X[keep]) <= 1e-12 * rng_ + 1e-12 * np.abs(X[keep])),
        "the rows kept have the values of the track", kinds=kinds,
        got=XX[:5], want=X[keep][:5])
    judge(c, t, X, keep, err, iv)
    _, S = T.extract_downsample(scale_back=False)
    c.close(S, scaled(X)[keep], "rescaled values", rtol=1e-9, atol=1e-9)
    c.seen("ds", n, d, kinds, err, iv is None, int(4 * keep.mean()))


@C.family("linear", 60, 800)
def linear(rng, c):
    """a piecewise linear track needs its breakpoints only"""
    n, nb = int(rng.integers(20, 400)), int(rng.integers(0, 8))
    t = np.cumsum(rng.uniform(.1, 1, n))
    b = np.unique(np.concatenate([[0, n - 1], rng.integers(1, n - 1, nb)]))
    X = np.array([np.interp(t, t[b], rng.normal(size=len(b)))
                  for _ in range(int(rng.integers(1, 4)))]).T
    T = TrackDownsampler(t, X)
    tt, _ = T.downsample(max_err=1e-7)
    keep = np.isin(t, tt)
    c.expect(set(np.where(keep)[0]) <= set(b.tolist()),
             "rows on straight lines are dropped", kept=np.where(keep)[0],
             breaks=b)
    judge(c, t, X, keep, 1e-7)
    c.seen("linear", len(b))


@C.family("long", 8, 60)
def long(rng, c):
    """deep recursion: every row matters"""
    n = int(rng.integers(1500, 4000))
    t = np.arange(n) + .0
    y = [np.exp(-t / 50.), t ** 3, rng.normal(size=n), 2. ** (-t / 3)][
        c.index % 4]
    T = TrackDownsampler(t, y)
    err = float(rng.choice([0., 1e-12, 1e-4]))
    tt, XX = T.downsample(max_err=err)
    judge(c, t, y.reshape(-1, 1), np.isin(t, tt), err)
    c.seen("long", c.index % 4, err)


@C.family("refused", 1)
def refused(rng, c):
    t, X = [0., 1., 2., 3.], [[1., 2.], [2., 2.], [5., 1.], [1., 1.]]
    V = ValueError
    c.raises(V, lambda: TrackDownsampler([0., 2., 1., 3.], X), "decreasing")
    c.raises(V, lambda: TrackDownsampler([0., 1., 1., 3.], X), "repeated")
    c.raises(V, lambda: TrackDownsampler(3., X), "no track")
    c.raises(V, lambda: TrackDownsampler([[0.], [1.]], X), "two-dimensional")
    c.raises(V, lambda: TrackDownsampler(t, 4.), "no values")
    c.raises(V, lambda: TrackDownsampler([1., 2.], [[[1.]], [[2.]]]), "3d")
    for e in (-.1, np.inf, np.nan):
        c.raises(V, lambda: TrackDownsampler(t, X).downsample(e),
                 "invalid error")
    c.raises(V, lambda: rescale_from_0_to_1([1., 2.]), "matrices only")
    c.seen("refused")


# -------------------------------------------------------------- grid wrappers
def table(rng, n, names, t, tname, desc=False):
    a = np.zeros(n, dtype=[(tname, "f8"), ("model_number", "f8")]
                 + [(x, "f8") for x in names])
    a[tname] = t[::-1] if desc else t
    a["model_number"] = np.arange(n)
    for x in names:
        y = np.cumsum(rng.normal(size=n)) if rng.random() < .5 else np.sin(
            np.linspace(0, rng.uniform(1, 20), n))
        a[x] = y * 10 ** rng.uniform(-3, 3)
    return a


@C.family("history", 200, 2500)
def history(rng, c):
    n = int(rng.choice([1, 2, 5, 80]))
    t = np.cumsum(rng.uniform(.1, 5, n))
    binary = bool(rng.random() < .7)
    bh = table(rng, n, ["a", "b"], t, "age") if binary else None
    h1 = table(rng, n, ["c", "d"], t, "star_age") if not binary \
        or rng.random() < .8 else None
    h2 = table(rng, n, ["e"], t, "star_age") if rng.random() < .6 else None
    ex = ["model_number", "age", "star_age"] + (
        ["d"] if rng.random() < .4 else [])
    err = [None, .01, .1, .3][int(rng.integers(4))]
    par = {"history_DS_error": err, "history_DS_exclude": ex,
           "binary": binary}
    orig = [None if x is None else x.copy() for x in (bh, h1, h2)]
    out = downsample_history(bh, h1, h2, par)
    first = bh if bh is not None else h1
    keep = np.isin(first["model_number"], out[0 if bh is not None else 1][
        "model_number"])
    X = np.array([o[x] for o in orig if o is not None for x in o.dtype.names
                  if x not in ex]).T
    for o, r, x in zip(orig, out, (bh, h1, h2)):
        if o is None:
            c.expect(r is None, "missing histories stay missing")
        else:
            c.expect(np.array_equal(r, o[keep]), "all histories keep the same "
                     "rows, unchanged", rows=len(r))
            c.expect(np.array_equal(x, o), "histories given are unchanged")
    judge(c, t, X, keep, err)
    c.seen("history", n, binary, h1 is None, h2 is None, err, len(ex))
    if binary and h1 is not None and n > 2 and err is not None:
        c.raises(IndexError, lambda: downsample_history(bh, h1[1:], h2, par),
                 "histories of different length are refused")


@C.family("profile", 150, 2000)
def profile(rng, c):
    n = int(rng.choice([1, 2, 5, 150]))
    m = np.cumsum(rng.uniform(.01, 1, n))
    p = table(rng, n, ["radius", "x"], m, "mass", desc=True)
    err = [None, .01, .1, .3][int(rng.integers(4))]
    iv = [None, -.02, -.1, .5][int(rng.integers(4))]
    ex = ["mass", "star_mass", "model_number"]
    par = {"profile_DS_error": err, "profile_DS_exclude": ex,
           "profile_DS_interval": iv}
    o = p.copy()
    r = downsample_profile(p, par)
    keep = np.isin(o["model_number"], r["model_number"])
    c.expect(np.array_equal(r, o[keep]) and np.array_equal(p, o),
             "profile rows keep order and values")
    X = np.array([o["radius"], o["x"]]).T[::-1]
    judge(c, m, X, keep[::-1], err, iv)
    c.expect(downsample_profile(None, par) is None, "no profile")
    c.seen("profile", n, err, iv)


# ------------------------------------------------------------------- scrubbing
def messy(rng, n, mods):
    """model numbers and ages with MESA retries: steps back, repeats"""
    m = list(mods)
    a = np.cumsum(rng.uniform(.1, 2, n)).tolist()
    for _ in range(int(rng.integers(0, 4))):
        k = int(rng.integers(1, n)) if n > 1 else 0
        j = max(0, k - int(rng.integers(1, 4)))
        if rng.random() < .5:                          # redo some steps
            m[k:k], a[k:k] = m[j:k], [x + float(rng.choice([0., .05]))
                                      for x in a[j:k]]
        else:
            a[k] = a[j]
        n = len(m)
    return np.array(m), np.array(a)


def ref_scrub(mods, ages):
    """backwards from the last row: strictly earlier and lower"""
    keep = []
    lm, la = np.inf, np.inf
    for i in range(len(mods) - 1, -1, -1):
        if ages[i] < la and mods[i] < lm:
            keep.append(i)
            lm, la = mods[i], ages[i]
    return keep[::-1]


@C.family("scrub", 600, 8000)
def scrub(rng, c):
    n = int(rng.integers(1, 15))
    base = np.cumsum(rng.integers(1, 4, n))
    tabs, mods, ages, refs = [], [], [], []
    nt = int(rng.integers(1, 4))
    for k in range(nt):
        if rng.random() < .15 and k:
            tabs.append(None)
            mods.append(None)
            ages.append(None)
            refs.append(None)
            continue
        b = base if rng.random() < .7 else base[rng.random(n) < .7]
        if len(b) == 0:
            b = base[-1:]
        m, a = messy(rng, len(b), b)
        t = np.zeros(len(m), dtype=[("v", "f8"), ("row", "i8")])
        t["v"], t["row"] = rng.normal(size=len(m)), np.arange(len(m))
        tabs.append(t)
        mods.append(m)
        ages.append(a)
        refs.append(ref_scrub(m, a))
    orig = [None if t is None else t.copy() for t in tabs]
    common = None
    for m, r in zip(mods, refs):
        if r is not None:
            s = set(m[r].tolist())
            common = s if common is None else common & s
    out = sc.scrub(tables=tabs, models=mods, ages=ages)
    c.expect(len(out) == nt, "one table for each")
    for t, m, a, r, o, q in zip(tabs, mods, ages, refs, out, orig):
        if t is None:
            c.expect(o is None, "missing tables stay missing")
            continue
        w = [i for i in r if int(m[i]) in common]
        c.expect(np.array_equal(o, q[w]), "scrubbed rows: strictly "
                 "increasing in age and model, common to all tables, the "
                 "latest of repeated steps", got=o["row"], want=w, m=m, a=a)
        k = o["row"]
        c.expect(np.all(np.diff(a[k]) > 0) and np.all(np.diff(m[k]) > 0),
                 "strictly increasing in age and model")
        c.expect(set(m[k].tolist()) == common, "the same models in all tables")
        c.expect(np.array_equal(t, q), "tables given are unchanged")
    c.seen("scrub", nt, n, len(common))


@C.family("after_rlo", 400, 5000)
def after_rlo(rng, c):
    n = int(rng.integers(1, 12))
    cols = ["age", "lg_mtransfer_rate"]
    which = int(rng.integers(4))
    if which in (0, 1, 3):
        cols.append("rl_relative_overflow_1")
    if which in (0, 2, 3):
        cols.append("rl_relative_overflow_2")
    bh = np.zeros(n, dtype=[(x, "f8") for x in cols])
    bh["age"] = np.cumsum(rng.uniform(.1, 1, n)) + 10 ** rng.uniform(0, 7)
    bh["lg_mtransfer_rate"] = rng.choice([-99., -20., -11.], n)
    for x in cols[2:]:
        bh[x] = rng.uniform(-1, -.01, n)
    on = None
    if rng.random() < .8:
        on = int(rng.integers(n))
        x = cols[int(rng.integers(1, len(cols)))]
        bh[x][on] = -10. if x == cols[1] else 0.     # at the threshold
        if rng.random() < .5:
            bh[x][on] += .3
        later = rng.integers(on, n, 2)
        bh["lg_mtransfer_rate"][later[0]] = -3.
        for y in cols[2:]:
            bh[y][later[1]] = .2
    h = []
    for k in range(2):
        if rng.random() < .2:
            h.append(None)
            continue
        t = np.zeros(n, dtype=[("v", "f8")] + ([("star_age", "f8")]
                     if rng.random() < .7 else []))
        t["v"] = rng.normal(size=n)
        if "star_age" in t.dtype.names:
            t["star_age"] = bh["age"]
        h.append(t)
    ob, oh = bh.copy(), [None if x is None else x.copy() for x in h]
    r = sc.keep_after_RLO(bh, h[0], h[1])
    c.seen("rlo", which, on is None, on == 0)
    if on is None:
        c.expect(r is None, "no overflow, no run", r=r)
        return
    nb = r[0]
    c.expect(len(nb) == n - on, "rows from the first overflow on",
             got=len(nb), want=n - on)
    for x in cols[1:]:
        c.expect(np.array_equal(nb[x], ob[x][on:]), "values unchanged")
    c.close(nb["age"], ob["age"][on:] - ob["age"][on], "age counts from the "
            "first overflow", rtol=0, atol=1e-8)
    for o, q in zip(oh, r[1:]):
        if o is None:
            c.expect(q is None, "missing histories stay missing")
            continue
        c.expect(np.array_equal(q["v"], o["v"][on:]), "star rows from the "
                 "first overflow on")
        if "star_age" in o.dtype.names:
            c.close(q["star_age"], nb["age"], "stars and binary share the age",
                    rtol=0, atol=1e-8)


@C.family("tiny_steps", 100, 1000)
def tiny_steps(rng, c):
    """steps below the resolution of the age"""
    n = int(rng.integers(3, 8))
    bh = np.zeros(n, dtype=[(x, "f8") for x in (
        "age", "lg_mtransfer_rate", "rl_relative_overflow_1")])
    a0 = float(rng.uniform(1e6, 1e7))
    dt = np.spacing(a0) * rng.integers(1, 6, n)
    bh["age"] = a0 + np.cumsum(dt)
    bh["lg_mtransfer_rate"] = -3.
    h = np.zeros(n, dtype=[("star_age", "f8")])
    h["star_age"] = bh["age"]
    r = sc.keep_after_RLO(bh, h, None)
    c.expect(np.all(np.diff(r[0]["age"]) > 0), "ages stay increasing",
             age=r[0]["age"])
    c.expect(abs(r[0]["age"][0]) < .01 * a0, "age counts from the overflow")
    c.close(r[1]["star_age"], r[0]["age"], "the same age", atol=0, rtol=0)
    c.seen("tiny", n)


@C.family("till_he", 600, 8000)
def till_he(rng, c):
    n = int(rng.integers(1, 12))
    t = np.cumsum(rng.uniform(.1, 1, n))
    Y, X, kw = .01, .1, {}
    if rng.random() < .3:           # other limits
        Y, X = rng.uniform(.005, .3), rng.uniform(.02, .4)
        kw = dict(Ystop=Y, XCstop=X)
    # which of the tables have an age
    ages = [(1, 1, 1), (1, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1), (0, 1, 0),
            (0, 0, 1), (0, 0, 0)][int(rng.integers(16)) % 8
                                  if rng.random() < .6 else 0]
    bh = np.zeros(n, dtype=[("age" if ages[0] else "model", "f8"),
                            ("v", "f8")])
    bh["age" if ages[0] else "model"], bh["v"] = t, rng.normal(size=n)
    hs, dep = [], []
    for k in range(2):
        lacks = str(rng.choice(["center_he4", "center_c12"])) \
            if rng.random() < .1 else None
        h = np.zeros(n, dtype=[(x, "f8") for x in (
            "star_age" if ages[1 + k] else "model", "center_he4",
            "center_c12") if x != lacks])
        h["star_age" if ages[1 + k] else "model"] = t
        he = rng.uniform(2 * Y, 1, n)
        cc = rng.choice([.5 * X, 3 * X], n)
        d = None
        if rng.random() < .7:
            d = int(rng.integers(0, n))
            he[d:] = .9 * Y * rng.random(n - d)
            # carbon above the limit: not yet (or never)
            e = int(rng.integers(d, n + 1))
            cc[d:e] = 2 * X
            cc[e:] = .5 * X
            d = e if e < n and lacks is None else None
        for x, v in (("center_he4", he), ("center_c12", cc)):
            if x != lacks:
                h[x] = v
        hs.append(h)
        dep.append(d)
    if not (ages[0] or ages[1] and ages[2]):
        dep = [None, None]          # no age: as it is
    ob, oh = bh.copy(), [x.copy() for x in hs]
    c.note(ages=ages, dep=dep, limits=(Y, X))
    rb, r1, r2, flag = sc.keep_till_central_abundance_He_C(bh, *hs, **kw)
    if dep == [None, None]:
        w, wf = n, ""
    else:
        star = 0 if dep[1] is None or (dep[0] is not None
                                       and dep[0] <= dep[1]) else 1
        wf = ("Primary", "Secondary")[star] \
            + " got stopped before central carbon depletion"
        i = dep[star]
        w = i + 1 if i < n - 1 else i
    c.expect(flag == wf, "which star stopped", got=flag, want=wf)
    c.expect(len(rb) == w and np.array_equal(rb, ob[:w])
             and np.array_equal(r1, oh[0][:w])
             and np.array_equal(r2, oh[1][:w]),
             "rows up to the first depletion of helium (and low carbon)",
             got=len(rb), want=w, n=n, dep=dep)
    for args in ((None, hs[0], hs[1]), (bh, None, hs[1]), (bh, hs[0], None)):
        q = sc.keep_till_central_abundance_He_C(*args)
        c.expect(q[3] == "" and all(x is y for x, y in zip(q, args)),
                 "incomplete runs are kept")
    c.seen("till", dep[0] is None, dep[1] is None, w == n, ages)


if __name__ == "__main__":
    sys.exit(C.main())
