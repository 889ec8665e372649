"""C24  Final values of binaries follow from the runs of their class."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import warnings
import numpy as np
from types import SimpleNamespace

vk.setup_env()
from scipy.interpolate import LinearNDInterpolator
from posydon.interpolation.IF_interpolation import IFInterpolator
from posydon.interpolation.data_scaling import DataScaler
import ifgrid as ig

C = vk.Check(
    "C24",
    "interpolators of all kinds are trained on random irregular grids "
    "(companions in mass or mass ratio, gaps, refused runs, awkward columns, "
    "supernova tables) and asked at runs, between runs and outside; answers "
    "are judged by the runs themselves, by own normalisation and nearest "
    "runs, by changing runs which must not matter; signature = (kind, "
    "classes, place of the query)")

warnings.simplefilter("ignore")
KINDS = ("classes", "linear", "1NN")


def train(grid, params, seed=0):
    np.random.seed(seed)
    with vk.quiet():
        f = IFInterpolator(grid=grid, interpolators=[dict(p) for p in params])
        f.train()
    return f


def params(rng, kind, cm=None, **kw):
    p = {"class_method": cm or str(rng.choice(["kNN", "1NN"])), **kw}
    if kind == "classes":
        k = list(ig.CLASSES)
        rng.shuffle(k)
        p["interp_classes"] = [str(x) for x in k]
        p["interp_method"] = kw.get("interp_method", ["linear"] * len(k))
    else:
        p["interp_method"] = kind
    return p


def ask(f, X):
    """numbers (with their names) and classes at the points X"""
    with vk.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        num, cat = [], []
        for x in X:
            b = SimpleNamespace(star_1=SimpleNamespace(mass=x[0]),
                                star_2=SimpleNamespace(mass=x[1]),
                                orbital_period=x[2])
            a, k = f.evaluate(b)
            num.append(a)
            cat.append(k)
    return num, cat


def X_of(grid):
    return np.array([grid.initial_values[k] for k in (
        "star_1_mass", "star_2_mass", "period_days")]).T


def norm(v, ref, how):
    """own normalisation"""
    if how == "none":
        return v
    if how == "log_min_max":
        v, ref = np.log10(v), np.log10(ref)
    if how == "neg_log_min_max":
        v, ref = np.log10(-v), np.log10(-ref)
    lo, hi = ref.min(), ref.max()
    return 2 * (v - lo) / (hi - lo) - 1


def unnorm(t, ref, how):
    if how == "none":
        return t
    g = {"log_min_max": np.log10, "neg_log_min_max":
         lambda v: np.log10(-v)}.get(how, lambda v: v)
    lo, hi = g(ref).min(), g(ref).max()
    y = (t + 1) / 2 * (hi - lo) + lo
    return {"log_min_max": lambda y: 10 ** y,
            "neg_log_min_max": lambda y: -10 ** y}.get(how, lambda y: y)(y)


@C.family("runs", 45, 400)
def runs(rng, c):
    """asked at the initial conditions of a run: the run"""
    q = bool(rng.random() < .6)
    kind = KINDS[c.index % 3]
    grid = ig.make(rng, int(rng.integers(110, 200)), q, rng.random() < .7,
                   refused=rng.random() < .6)
    p = params(rng, kind)
    f = train(grid, [p], int(rng.integers(99)))
    X = X_of(grid)
    fv = grid.final_values
    idx = rng.permutation(len(X))[:40]
    num, cat = ask(f, X[idx])
    for i, a, k in zip(idx, num, cat):
        ic = str(fv["interpolation_class"][i])
        if ic.startswith("ignored") or ic == "not_converged":
            c.expect(str(k["interpolation_class"]) in
                     ig.CLASSES + ["initial_MT"],
                     "a refused run does not make a class",
                     got=k["interpolation_class"])
            continue
        for key in ("interpolation_class", "S1_state", "mt_history"):
            c.expect(str(k[key]) == str(fv[key][i]), "class of the run",
                     which=key, got=k[key], want=fv[key][i], kind=kind)
        names = set(ig.NUM) | {"all_nan"}
        c.expect(names <= set(a) and "model_number" not in set(a) - {
            "model_number"} and set(a) <= names | {"model_number"},
            "all numerical quantities, and no others", got=sorted(a))
        c.expect(np.isnan(a["all_nan"]), "nothing known: NaN",
                 got=a["all_nan"])
        if ic == "initial_MT":
            if p["class_method"] == "kNN" or kind == "classes":
                c.expect(all(np.isnan(v) for v in a.values()),
                         "no final values for mass transfer from the start",
                         got=a, kind=kind)
            continue
        for key in ig.NUM:
            w = fv[key][i]
            if key in ig.LAW:
                c.close(a[key], w, "law", atol=2e-3, rtol=0)
                continue
            if np.isnan(w):
                c.expect(np.isnan(a[key]) == (kind == "1NN"),
                         "a gap: nearest value, or NaN with 1NN",
                         got=a[key], kind=kind)
                continue
            c.close(a[key], w, "final value of the run", rtol=1e-7,
                    atol=1e-9, which=key, kind=kind)
            c.count("values at runs")
    c.seen("runs", kind, q, p["class_method"])


def scalings(rng, cls, keys, fv):
    """explicit normalisations: per class and overall"""
    ic = fv["interpolation_class"]
    logs = {"star_1_mass", "star_2_mass", "period_days", "age"}

    def inp():
        return [str(rng.choice(["min_max", "log_min_max"]))
                for _ in range(3)]

    def out(klass=None):
        w = np.isin(ic, cls) if klass is None else ic == klass
        return ["none" if np.ptp(fv[k][w]) == 0 else
                str(rng.choice(["min_max", "log_min_max"])) if k in logs
                else str(rng.choice(["min_max", "neg_log_min_max"]))
                if k == "neg" else "min_max" for k in keys]
    return ({k: inp() for k in cls}, inp()), ({k: out(k) for k in cls}, out())


@C.family("between", 30, 300)
def between(rng, c):
    """own triangulation per class; nearest run outside"""
    q = bool(rng.random() < .5)
    kind = ("classes", "linear")[c.index % 2]
    mixed = kind == "classes" and rng.random() < .4
    grid = ig.make(rng, int(rng.integers(120, 200)), q,
                   extra=rng.random() < .6, gaps=False,
                   refused=rng.random() < .5)
    keys = [k for k in ig.NUM if k not in ig.LAW]
    ins, outs = scalings(rng, ig.CLASSES, keys, grid.final_values)
    p = params(rng, kind, cm="1NN", out_keys=keys, out_nan_keys=["all_nan"])
    if kind == "classes":
        p.update(in_scaling=ins, out_scaling=outs)
        if mixed:
            p["interp_method"] = [str(rng.choice(["linear", "1NN"]))
                                  for _ in p["interp_classes"]]
    else:
        p.update(in_scaling=(ins[1], ins[1]), out_scaling=(outs[1], outs[1]))
    f = train(grid, [p])
    X = X_of(grid)
    Z = X.copy()
    if q:
        Z[:, 1] = X[:, 1] / X[:, 0]
    fv = grid.final_values
    ic = fv["interpolation_class"]
    good = np.isin(ic, ig.CLASSES)
    known = good | (ic == "initial_MT")
    Y = np.array([fv[k] for k in keys]).T
    # queries: between pairs of runs, and some outside
    Q = []
    gi = np.where(known)[0]
    for _ in range(40):
        i, j = rng.choice(gi, 2)
        t = rng.random()
        z = 10 ** (np.log10(Z[i]) * t + np.log10(Z[j]) * (1 - t))
        if rng.random() < .2:
            z = z * 10 ** rng.normal(0, .3, 3)
        Q.append([z[0], z[1] * z[0] if q else z[1], z[2]])
    Q = np.array(Q)
    ZQ = Q.copy()
    if q:
        ZQ[:, 1] = Q[:, 1] / Q[:, 0]
    num, cat = ask(f, Q)
    # nearest run: class
    N = np.array([norm(Z[known, i], Z[known, i], ins[1][i])
                  for i in range(3)]).T
    NQ = np.array([norm(ZQ[:, i], Z[known, i], ins[1][i])
                   for i in range(3)]).T
    tri = {}
    for k in (ig.CLASSES if kind == "classes" else [None]):
        w = (ic == k) if k else good
        s, so = (ins[0][k], outs[0][k]) if k else (ins[1], outs[1])
        # without classes all runs which are not refused set the range
        ref = Z[w] if k else Z[known]
        M = np.array([norm(Z[w, i], ref[:, i], s[i]) for i in range(3)]).T
        V = np.array([norm(Y[w, i], Y[w, i], so[i])
                      for i in range(len(keys))]).T
        tri[k] = (LinearNDInterpolator(M, V), M, Y[w], s, so, ref)
    for j in range(len(Q)):
        dist = np.sum((N - NQ[j]) ** 2, axis=1)
        want = ic[known][dist.argmin()]
        near = np.sort(dist)[:2]
        if near[1] - near[0] < 1e-9:
            continue
        got = str(cat[j]["interpolation_class"])
        c.expect(got == want, "class of the nearest run", got=got, want=want)
        if got not in ig.CLASSES:
            if kind == "classes":
                c.expect(all(np.isnan(v) for v in num[j].values()),
                         "nothing for other classes", got=num[j])
            continue
        k = got if kind == "classes" else None
        ip, M, V, s, so, ref = tri[k]
        z = np.array([norm(ZQ[j, i], ref[:, i], s[i]) for i in range(3)])
        y = ip(z[None])[0]
        meth = dict(zip(p["interp_classes"], p["interp_method"]))[k] \
            if k else "linear"
        d2 = np.sum((M - z) ** 2, axis=1)
        o = np.sort(d2)
        if meth == "1NN" or np.isnan(y[0]):
            if o[1] - o[0] < 1e-9:
                continue
            y = V[d2.argmin()]
            where = "nearest"
        else:
            y = np.array([unnorm(y[i], V[:, i], so[i])
                          for i in range(len(keys))])
            where = "inside"
            lo, hi = V.min(axis=0), V.max(axis=0)
        for i, key in enumerate(keys):
            c.close(num[j][key], y[i], "value " + (
                "of the nearest run of the class" if where == "nearest"
                else "between the runs of the class"), rtol=1e-6,
                atol=1e-8, which=key, kind=kind, meth=meth)
        c.count(where)
        c.seen("between", kind, meth, where, q)


@C.family("gaps", 24, 240)
def gaps(rng, c):
    """gaps of a column are filled from the nearest run having a value,
    whatever of the possible normalisations defines the distance"""
    q = bool(rng.random() < .5)
    kind = ("classes", "linear")[c.index % 2]
    n = int(rng.integers(110, 200))
    X = ig.points(rng, n, q)
    ic = ig.classify(X, q, rng.random() < .6)
    d = ig.finals(rng, X)
    d["gappy"] = rng.permutation(np.linspace(1., 9., n))
    hole = rng.random(n) < rng.choice([.1, .3, .6])
    w = np.where(rng.random(n) < .08)[0]
    w = w[(w > 3) & (w != X[:, 0].argmin()) & (w != X[:, 0].argmax())]
    ic[w] = rng.choice(["not_converged", "ignored_no_RLO",
                        "ignored_no_binary_history"], len(w))
    # refused runs next to a gap have no say
    for i in w:
        X[i] = X[rng.choice(np.where(hole)[0])] * 10 ** rng.normal(0, .003, 3)
        hole[i] = False
    d["gappy"][hole] = rng.choice([np.nan, np.nan, np.inf, -np.inf],
                                  hole.sum())
    grid = ig.build(rng, X, ic, d)
    f = train(grid, [params(rng, kind, cm="1NN")])
    Z = X.copy()
    if q:
        Z[:, 1] /= Z[:, 0]
    good = np.isin(ic, ig.CLASSES)
    known = good | (ic == "initial_MT")
    give = np.where(good & ~hole)[0]
    idx = np.where(good & hole)[0]
    N = {(i, h): norm(Z[:, i], Z[known, i], h) for i in range(3)
         for h in ("min_max", "log_min_max")}
    num, cat = ask(f, X[idx])
    for i, a, k in zip(idx, num, cat):
        if str(k["interpolation_class"]) != str(ic[i]):
            continue
        near, clear = set(), True
        for hs in np.ndindex(2, 2, 2):
            D = sum((N[j, ("min_max", "log_min_max")[h]][give]
                     - N[j, ("min_max", "log_min_max")[h]][i]) ** 2
                    for j, h in enumerate(hs))
            o = np.argsort(D)
            clear = clear and D[o[1]] - D[o[0]] > 1e-6
            near.add(int(give[o[0]]))
        if len(near) > 1 or not clear:
            continue
        src = near.pop()
        raw = give[np.argmin(np.sum((X[give] - X[i]) ** 2, axis=1))]
        c.close(a["gappy"], d["gappy"][src], "a gap gets the value of the "
                "nearest run having one", rtol=1e-6, kind=kind)
        c.count("gaps")
        c.seen("gaps", kind, q, raw == src, ic[src] == ic[i],
               str(d["gappy"][i]))


C.require("gaps", 60)


@C.family("strangers", 16, 150)
def strangers(rng, c):
    """runs of other classes and refused runs do not matter"""
    q = bool(rng.random() < .5)
    grid = ig.make(rng, 130, q, extra=True, gaps=True, refused=False)
    X, fv = X_of(grid), grid.final_values
    p = params(rng, "classes", cm="1NN")
    keep = str(rng.choice(ig.CLASSES))
    w = fv["interpolation_class"] != keep
    d = {k: np.array(fv[k]) for k in ig.NUM}
    e = {k: v.copy() for k, v in d.items()}
    for k in ig.NUM:
        if k in ("constant",):
            continue
        e[k][w] = rng.permutation(e[k][w]) * rng.choice([1., .5, 2.])
    e["gappy"] = d["gappy"] = np.nan_to_num(d["gappy"], nan=1.5)
    ic = np.array(fv["interpolation_class"])
    A = train(ig.build(rng, X, ic, d), [p])
    B = train(ig.build(rng, X, ic, e), [p])
    # add runs that are to be ignored
    n = 12
    X2 = ig.points(rng, n + 4, q)[4:]
    nanin = rng.random(n) < .4
    X2[nanin] = np.nan
    k2 = np.where(nanin, rng.choice(["no_MT", "not_converged"], n),
                  rng.choice(["not_converged", "ignored_no_RLO",
                              "ignored_no_binary_history"], n))
    if q and rng.random() < .5:       # equal masses are left out
        X2[~nanin, 1] = X2[~nanin, 0]
        k2[~nanin] = "no_MT"
    g = {k: np.append(v, rng.uniform(5, 50, n)) for k, v in d.items()}
    D = train(ig.build(rng, np.vstack([X, X2]), np.append(ic, k2), g), [p])
    Q = ig.points(rng, 34, q)[4:]
    a, ca = ask(A, Q)
    b, cb = ask(B, Q)
    dd, cd = ask(D, Q)
    for j in range(len(Q)):
        ka = str(ca[j]["interpolation_class"])
        c.expect(ka == str(cb[j]["interpolation_class"])
                 == str(cd[j]["interpolation_class"]),
                 "class is the same")
        for k in ig.NUM:
            tol = 1e-9 * np.nanmax(np.abs(d[k]))
            c.expect(abs(a[j][k] - dd[j][k]) <= tol
                     or np.isnan(a[j][k] + dd[j][k]),
                     "refused runs have no influence", which=k,
                     got=dd[j][k], want=a[j][k])
            if ka == keep:
                c.expect(abs(a[j][k] - b[j][k]) <= tol
                         or np.isnan(a[j][k]) and np.isnan(b[j][k]),
                         "runs of other classes have no influence", which=k,
                         got=b[j][k], want=a[j][k])
                c.count("own class")
    c.seen("strangers", q, keep)


@C.family("bounds", 18, 180)
def bounds(rng, c):
    """default normalisation: between the extremes of the class"""
    q = bool(rng.random() < .5)
    kind = KINDS[c.index % 3]
    grid = ig.make(rng, 150, q, rng.random() < .5, refused=False)
    p = params(rng, kind)
    f = train(grid, [p])
    Q = ig.points(rng, 54, q)[4:]
    num, cat = ask(f, Q)
    fv = grid.final_values
    Z, ZQ = X_of(grid), Q.copy()
    if q:
        Z[:, 1] /= Z[:, 0]
        ZQ[:, 1] /= ZQ[:, 0]
    ic = fv["interpolation_class"]
    for j in range(len(Q)):
        k = str(cat[j]["interpolation_class"])
        c.expect(k in set(ic), "a class of the grid", got=k)
        if k == "initial_MT":
            if p["class_method"] == "kNN":
                c.expect(all(np.isnan(v) for v in num[j].values()),
                         "no final values", kind=kind)
            continue
        w = (ic == k) if kind == "classes" else np.isin(ic, ig.CLASSES)
        for key in ig.NUM:
            if key in ig.LAW:
                continue
            v = fv[key][w]
            v = v[np.isfinite(v)]
            if kind == "1NN" and np.isnan(num[j][key]):
                c.expect(key == "gappy", "only gaps are NaN", which=key)
                continue
            e = 1e-9 * np.abs(v).max()
            if key == "gappy":    # gaps may be filled by other classes
                v = fv[key][np.isfinite(fv[key])]
            c.expect(v.min() - e <= num[j][key] <= v.max() + e,
                     "within the range of the runs", which=key,
                     got=num[j][key], lo=v.min(), hi=v.max(), kind=kind)
            if kind == "1NN":
                c.expect(np.any(np.abs(v - num[j][key]) <= e),
                         "a value of a run", which=key)
    # majority: a point deep inside a class
    c.seen("bounds", kind, q, p["class_method"])


@C.family("classes", 10, 100)
def classes(rng, c):
    """kNN: unanimous neighbours decide; 1NN: the nearest does"""
    q = bool(rng.random() < .5)
    cm = ("kNN", "1NN")[c.index % 2]
    grid = ig.make(rng, int(rng.integers(150, 260)), q, extra=True,
                   gaps=False, refused=False)
    ins = [str(rng.choice(["min_max", "log_min_max"])) for _ in range(3)]
    keys = ["star_1_mass", "age"]
    f = train(grid, [{"interp_method": "linear", "class_method": cm,
                      "out_keys": keys, "out_nan_keys": [],
                      "in_scaling": (ins, ins),
                      "out_scaling": (["min_max"] * 2, ["min_max"] * 2)}],
              int(rng.integers(99)))
    Q = ig.points(rng, 204, q)[4:]
    with vk.quiet():
        cat = f.test_classifiers(Q)
    Z, ZQ = X_of(grid), Q.copy()
    if q:
        Z[:, 1] /= Z[:, 0]
        ZQ[:, 1] /= ZQ[:, 0]
    N = np.array([norm(Z[:, i], Z[:, i], ins[i]) for i in range(3)]).T
    NQ = np.array([norm(ZQ[:, i], Z[:, i], ins[i]) for i in range(3)]).T
    num, cat1 = ask(f, Q[:10])
    for key in ("interpolation_class", "S1_state", "mt_history"):
        lab = grid.final_values[key]
        for j in range(len(Q)):
            d = np.sum((N - NQ[j]) ** 2, axis=1)
            o = np.argsort(d)
            m = 1 if cm == "1NN" else 20
            if cm == "1NN" and d[o[1]] - d[o[0]] < 1e-9:
                continue
            s = set(lab[o[:m]].tolist())
            if len(s) == 1:
                c.expect(str(cat[key][j]) == str(s.pop()),
                         "class of the neighbours", which=key, cm=cm)
                c.count("decided")
            else:
                c.expect(str(cat[key][j]) in s,
                         "class of some neighbour", which=key, cm=cm)
            if j < 10:
                c.expect(str(cat1[j][key]) == str(cat[key][j]),
                         "one by one as in a table")
    c.seen("classes", cm, q)


@C.family("several", 8, 80)
def several(rng, c):
    """several interpolators: supernova tables, columns, save and load"""
    grid = ig.make(rng, 150, True, True, models=True, refused=False)
    keys = [k for k in ig.NUM if rng.random() < .8]
    ps = [params(rng, "classes", cm="kNN", out_keys=list(keys),
                 out_nan_keys=["all_nan"], c_key="interpolation_class",
                 c_keys=["interpolation_class", "S1_state", "mt_history"])]
    order = list(ig.MODELS)
    rng.shuffle(order)
    for m in order:
        m = str(m)
        ps.append({"interp_method": ["linear"] * 2,
                   "interp_classes": ["BH", "NS"], "class_method": "kNN",
                   "out_keys": ["S1_%s_mass" % m, "S1_%s_f_fb" % m],
                   "out_nan_keys": ["S1_%s_spin" % m],
                   "c_keys": ["S1_%s_CO_interpolation_class" % m,
                              "S1_%s_CO_type" % m, "S1_%s_SN_type" % m],
                   "c_key": "S1_%s_CO_interpolation_class" % m})
    f = train(grid, ps)
    X = X_of(grid)
    idx = rng.permutation(len(X))[:20]
    num, cat = ask(f, X[idx])
    for i, a, k in zip(idx, num, cat):
        for m in ig.MODELS:
            t = grid.SN_MODELS[m][i]
            for s in ("CO_interpolation_class", "CO_type", "SN_type"):
                c.expect(str(k["S1_%s_%s" % (m, s)]) == str(t["S1_" + s]),
                         "supernova class of the run", model=m, which=s,
                         got=k["S1_%s_%s" % (m, s)])
            skip = grid.final_values["interpolation_class"][i] == "initial_MT"
            for s in ("mass", "f_fb", "spin"):
                g, w = a["S1_%s_%s" % (m, s)], t["S1_" + s]
                if np.isnan(w):
                    c.expect(np.isnan(g), "no supernova, no value", got=g)
                elif not skip:
                    c.close(g, w, "supernova value of the run", rtol=1e-7,
                            which=s, model=m)
        c.count("sn rows")
    # tables
    Q = ig.points(rng, 30, True)
    with vk.quiet():
        T = f.test_interpolator(Q.copy())
        Q0 = Q.copy()
        f.test_interpolator(Q0)
    c.expect(np.array_equal(Q0, Q), "the points are not changed")
    names = sum([p["out_keys"] for p in ps], [])
    num, cat = ask(f, Q)
    c.expect(T.shape == (len(Q), len(names)), "one column per quantity",
             got=T.shape, want=len(names))
    if T.shape[1] == len(names):
        for j in range(len(Q)):
            for i, k in enumerate(names):
                g, w = T[j, i], num[j][k]
                c.expect(abs(g - w) <= 1e-12 * abs(w) or np.isnan(g)
                         and np.isnan(w), "table as one by one", which=k,
                         got=g, want=w)
    sub = rng.permutation(len(Q))[:7]
    with vk.quiet():
        S = f.test_interpolator(Q[sub].copy())
    c.expect(np.allclose(S, T[sub], rtol=1e-9, equal_nan=True,
                         atol=1e-10 * np.nanmax(np.abs(T), initial=0.)),
             "rows do not depend on the others")
    # keep and reload
    path = os.path.join(vk.scratch(), "i%d.pkl" % c.index)
    f.save(path)
    g = IFInterpolator()
    g.load(path)
    n2, c2 = ask(g, Q)
    for j in range(len(Q)):
        c.expect(set(n2[j]) == set(num[j]) and all(
            np.isclose(n2[j][k], num[j][k], rtol=1e-9, atol=1e-13,
                       equal_nan=True) for k in num[j]) and all(
            str(c2[j][k]) == str(cat[j][k]) for k in cat[j]),
            "a loaded interpolator answers the same")
    os.remove(path)
    bad = [dict(p) for p in ps]
    bad[1]["out_keys"] = bad[1]["out_keys"] + [keys[0]]
    c.raises(ValueError, lambda: IFInterpolator(grid=grid, interpolators=bad),
             "one quantity from two interpolators is refused")
    c.seen("several", len(keys))


@C.family("scaler", 400, 5000)
def scaler(rng, c):
    n = int(rng.integers(2, 40))
    m = str(rng.choice(["min_max", "log_min_max", "neg_log_min_max",
                        "max_abs", "log_max_abs", "standarize",
                        "log_standarize", "neg_log_standarize", "log",
                        "none"]))
    x = rng.normal(size=n) * 10 ** rng.uniform(-3, 6)
    if "log" in m:
        x = 10 ** rng.uniform(-5, 8, n)
        if m.startswith("neg"):
            x = -x
    lo = float(rng.normal())
    hi = lo + float(10 ** rng.uniform(-2, 2))
    s = DataScaler()
    x0 = x.copy()
    t = s.fit_and_transform(x, method=m, lower=lo, upper=hi)
    c.expect(np.array_equal(x, x0), "data unchanged")
    g = np.log10(np.abs(x)) if "log" in m else x
    if "min_max" in m:
        c.close([t.min(), t.max()], [lo, hi], "range", rtol=1e-9, atol=1e-9)
        w = lo + (g - g.min()) / (g.max() - g.min()) * (hi - lo)
    elif "max_abs" in m:
        w = g / np.abs(g).max()
    elif "standarize" in m:
        w = (g - g.mean()) / g.std()
    else:
        w = g
    c.close(t, w, "normalised", rtol=1e-8, atol=1e-9, method=m)
    y = x[rng.permutation(n)] * (1 + .5 * rng.random(n))
    back = s.inv_transform(s.transform(y))
    c.close(back, y, "back to the data", rtol=1e-7,
            atol=1e-9 * np.abs(y).max() if "log" not in m else 0, method=m)
    d = DataScaler()
    c.raises(AssertionError, lambda: d.transform(x), "not fitted")
    c.raises(AssertionError, lambda: d.inv_transform(x), "not fitted")
    c.raises(ValueError, lambda: d.fit(x, method="minmax"), "unknown method")
    c.seen("scaler", m)


C.require("values at runs", 500)
C.require("inside", 50)
C.require("nearest", 20)
C.require("own class", 100)
C.require("decided", 200)

if __name__ == "__main__":
    sys.exit(C.main())
