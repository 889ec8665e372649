"""C39: active learning (psy-cris): data, interpolators, sampling, proposals."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
SCRATCH = vk.setup_env()
import copy
import functools
import inspect
import warnings
import numpy as np
import pandas as pd
from scipy.interpolate import LinearNDInterpolator, Rbf
from posydon.active_learning.psy_cris import utils as U
from posydon.active_learning.psy_cris.classify import Classifier
from posydon.active_learning.psy_cris.data import TableData
from posydon.active_learning.psy_cris.regress import Regressor
from posydon.active_learning.psy_cris.sample import Sampler

ck = vk.Check("C39", "random tables (string, integer and negative integer "
              "classes, classes of one row, missing, zero and text outputs, "
              "files, omitted values, columns and rows) go through the real "
              "TableData, Classifier, Regressor, Sampler and proposal code; "
              "row by row models, direct interpolation of the rows concerned, "
              "and acceptance statistics of recorded chains decide; "
              "non-trivial by (classes, dimensions, modes)")

ZMAX = 6.5


def family(name, quick, thorough):
    def deco(fn):
        @functools.wraps(fn)
        def quiet(rng, c):
            with vk.quiet():
                return fn(rng, c)
        return ck.family(name, quick, thorough)(quiet)
    return deco


def eq(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(
        a, b, rtol=rtol, atol=atol, equal_nan=True))


def make(rng, dim=None, n=None, style=None, nout=2, gaps=False, hollow=False):
    """Random table: DataFrame, input columns, output columns, classes."""
    dim = dim or int(rng.integers(2, 4))
    n = n or int(rng.integers(25, 70))
    style = style or str(rng.choice(["str", "int", "neg", "shift"]))
    k = int(rng.integers(2, 6))
    names = {"str": ["bb", "A", "stable MT", "c_1", "zz"],
             "int": [1, 2, 3, 4, 6], "neg": [-1, 0, 1, 2, 5],
             "shift": [2, 1, 3, 0, 7]}[style][:k]
    lo = rng.uniform(-5, 5, dim)
    w = rng.uniform(.5, 4, dim)
    x = lo + w * rng.random((n, dim))
    v = rng.normal(size=(k, dim))
    cen = lo + w * rng.random((k, dim))
    lab = np.argmin((((x[:, None, :] - cen) / w) ** 2).sum(-1), axis=1)
    lab[:2 * k] = np.repeat(np.arange(k), 2)
    df = pd.DataFrame(x, columns=["in%d" % i for i in range(dim)])
    if style == "str":
        df["kind"] = np.array(names, dtype=object)[lab]
    else:
        df["kind"] = np.array(names)[lab]
    outs = []
    for j in range(nout):
        y = np.sin(x @ v[j % k]) + 1.5 + .3 * j
        df["out%d" % j] = y
        outs.append("out%d" % j)
    if gaps:
        # zeros, a text column, a column missing in one class
        z = df["out0"].to_numpy().copy()
        z[rng.random(n) < .15] = 0.
        df["out0"] = z
        txt = np.array(["t%d" % i for i in range(n)], dtype=object)
        df["text"] = txt
        outs.append("text")
        m = df["out1"].to_numpy().copy()
        m[lab == 0] = np.nan
        df["out1"] = m
        if rng.random() < .5:
            df["zero"] = 0.
            outs.append("zero")
    if hollow:
        for o in outs:
            if o != "text":
                df.loc[lab == k - 1, o] = np.nan
    df["extra"] = rng.integers(0, 9, n)
    df = df.sample(frac=1., random_state=int(rng.integers(2**31)))
    if rng.random() < .5:
        df = df.reset_index(drop=True)
    cols = ["kind"] + outs
    return df, ["in%d" % i for i in range(dim)], cols, style


def table(df, ins, outs, **kw):
    return TableData(None, list(ins), list(outs), "kind",
                     my_DataFrame=df.copy(), **kw)


def regr_cols(sub, outs):
    """Columns of a class with numbers: decided by its first row."""
    good = []
    for o in outs:
        if o == "kind":
            continue
        try:
            val = float(sub[o].iloc[0])
        except (TypeError, ValueError):
            continue
        if not np.isnan(val):
            good.append(o)
    return good


@family("table", 120, 900)
def fam_table(rng, c):
    df, ins, outs, style = make(rng, gaps=rng.random() < .7,
                                hollow=rng.random() < .3,
                                dim=int(rng.integers(1, 5)))
    kw = {}
    want = df
    mode = []
    files = rng.random() < .4
    if rng.random() < .5:
        vals = [3] if rng.random() < .5 else [3, 7]
        if "text" in df.columns and rng.random() < .5:
            vals.append("t5")
        if rng.random() < .3:
            vals.append(float(df["in0"].iloc[4]))
        if files:
            vals = [x for x in vals if not isinstance(x, float)]
        kw["omit_vals"] = vals
        bad = np.zeros(len(want), bool)
        for r in range(len(want)):
            bad[r] = any(any((not isinstance(y, str) or isinstance(x, str))
                             and y == x for y in want.iloc[r].tolist())
                         for x in vals)
        want = want[~bad]
        mode.append("omit")
    if rng.random() < .4:
        kw["omit_cols"] = ["extra"]
        want = want.drop(columns=["extra"])
        mode.append("cols")
    if rng.random() < .4 and len(want) > 8:
        sel = sorted(rng.choice(len(want), int(.7 * len(want)), replace=False))
        kw["subset_interval"] = [int(i) for i in sel]
        want = want.iloc[sel]
        mode.append("subset")
    if len(want) < 2:
        return
    paths = None
    if files:
        parts = np.array_split(np.arange(len(df)), int(rng.integers(1, 4)))
        paths = []
        for i, p in enumerate(parts):
            f = os.path.join(SCRATCH, "t39_%d_%d_%d.csv" % (os.getpid(),
                                                           c.index, i))
            df.iloc[p].to_csv(f, index=False)
            paths.append(f)
        mode.append("files%d" % len(parts))
    given_ins = list(ins) + (["nope"] if rng.random() < .3 else [])
    before = df.copy()
    try:
        t = TableData(paths, given_ins, outs, "kind",
                      my_DataFrame=None if files else df, **kw)
    finally:
        for f in paths or []:
            os.remove(f)
    c.expect(before.equals(df), "the table of the user is left as it was")
    c.seen("table", style, len(ins), len(set(want["kind"])), tuple(mode))
    full = t.get_data("full", return_df=True)
    c.expect(sorted(full.columns) == sorted(want.columns),
             "columns are kept except the omitted ones",
             got=list(full.columns), want=list(want.columns))
    c.expect(len(full) == len(want), "rows are kept except the omitted ones",
             got=len(full), want=len(want), mode=mode)
    if len(full) != len(want):
        c.stop()
    inp, out = t.get_data("input"), t.get_data("output", return_df=True)
    c.expect(eq(inp, want[ins].to_numpy(), 1e-12), "inputs are those columns "
             "of the rows, in their order")
    c.expect(eq(inp, t.get_data(["input", "output"], return_df=True)[0]
                .to_numpy()), "several parts at once are the same")
    c.expect(list(out["kind"]) == list(want["kind"]), "classes of the rows")
    names = sorted(set(want["kind"]))
    cl = t.get_class_data("class_col")
    c.expect(list(cl) == list(want["kind"]), "class of each row")
    u = list(t.get_class_data("unique_class_keys"))
    c.expect(u == names and t.num_classes == len(names)
             and list(t.class_ids) == list(range(len(names))),
             "the classes are the distinct ones", got=u, want=names)
    ids = list(t.get_class_data("class_col_to_ids"))
    c.expect([names[i] for i in ids] == list(want["kind"]),
             "the identifier of a row is that of its class", style=style,
             got=ids[:8], rows=list(want["kind"])[:8])
    m = t.get_class_data("class_id_mapping")
    c.expect(all(m[i] == names[i] for i in range(len(names))),
             "an identifier stands for its class", style=style,
             got={str(a): str(b) for a, b in m.items()})
    if style == "str":
        c.expect(all(m[x] == i for i, x in enumerate(names)),
                 "a class has its identifier")
    b = np.asarray(t.get_binary_mapping_per_class())
    wb = np.array([[int(r == x) for r in want["kind"]] for x in names])
    c.expect(b.shape == wb.shape and (b == wb).all(),
             "one against the rest mapping of the rows")
    pair = t.get_class_data(["class_col", "binary_data"])
    c.expect(list(pair[0]) == list(cl) and (np.asarray(pair[1]) == wb).all(),
             "several parts of the class data")
    gi, go = t.get_regr_data("input"), t.get_regr_data("output")
    raw = t.get_regr_data("raw_output")
    c.expect(sorted(map(str, gi)) == sorted(map(str, names)),
             "inputs of every class")
    for x in names:
        sub = want[want["kind"] == x]
        c.expect(eq(gi[x].to_numpy(float), sub[ins].to_numpy(), 1e-12),
                 "inputs of a class are those of its rows", cls=str(x))
        c.expect(list(raw[x]["kind"]) == [x] * len(sub),
                 "outputs of a class are those of its rows")
        good = regr_cols(sub, [o for o in outs if o in want.columns])
        if not good:
            c.expect(not isinstance(go[x], pd.DataFrame),
                     "a class without numbers has nothing to regress",
                     cls=str(x))
            c.count("hollow")
            continue
        c.expect(isinstance(go[x], pd.DataFrame)
                 and list(go[x].columns) == good,
                 "numbers of a class are to be regressed", cls=str(x),
                 got=str(getattr(go[x], "columns", None)), want=good)
        if isinstance(go[x], pd.DataFrame):
            c.expect(eq(go[x].to_numpy(float), sub[good].to_numpy(float),
                        1e-12), "values to regress are those of its rows")
    c.count("tables")


def near(x, n):
    d = np.sqrt(((x[:, None, :] - x[None, :, :]) ** 2).sum(-1))
    np.fill_diagonal(d, np.inf)
    o = np.argsort(d, axis=1)[:, :n]
    return o, np.take_along_axis(d, o, 1).mean(1)


@family("neighbors", 80, 600)
def fam_neighbors(rng, c):
    df, ins, outs, style = make(rng, gaps=rng.random() < .7,
                                hollow=rng.random() < .3)
    ns = [int(i) for i in rng.choice([1, 2, 3, 5, 9, 14],
                                     int(rng.integers(1, 4)), replace=False)]
    undef = None if rng.random() < .5 else -7.25
    t = table(df, ins, outs, n_neighbors=ns, undefined_p_change_val=undef)
    go, gi = t.get_regr_data("output"), t.get_regr_data("input")
    for x in sorted(set(df["kind"])):
        sub = df[df["kind"] == x]
        good = regr_cols(sub, outs)
        if not good:
            continue
        xin = sub[ins].to_numpy()
        wcols = {}
        for o in good:
            y = sub[o].to_numpy(float)
            if (y == 0).all():
                continue
            for n in ns:
                if n > len(sub) - 1:
                    c.count("skipped neighbors")
                    continue
                idx, _ = near(xin, n)
                ch = np.abs((y[:, None] - y[idx]).mean(1))
                with np.errstate(all="ignore"):
                    w = np.where(y == 0, np.nan if undef is None else undef,
                                 ch / y)
                wcols["APC%d_%s" % (n, o)] = w
        got = [k for k in go[x].columns if k not in good]
        c.expect(sorted(got) == sorted(wcols), "average changes for each "
                 "number of neighbors a class has", got=got,
                 want=sorted(wcols), size=len(sub), ns=ns)
        for k in wcols:
            if k in go[x].columns:
                c.expect(eq(go[x][k], wcols[k], 1e-8), "average fractional "
                         "change to the nearest rows of the same class",
                         column=k, cls=str(x), got=go[x][k].to_numpy()[:5],
                         want=wcols[k][:5])
                c.count("changes")
        c.expect(eq(go[x][good], sub[good].to_numpy(float)),
                 "values stay as they are")
    x = df[ins].to_numpy()
    if rng.random() < .5:
        form = x
    else:
        form = df[ins]
    ns = [n for n in ns if n < len(df)]
    ind, avg = t.find_n_neighbors(form, ns, return_avg_dists=True)
    for n in ns:
        wi, wd = near(x, n)
        c.expect(np.array_equal(np.asarray(ind[n]), wi), "nearest rows of "
                 "each row, not itself", n=n)
        c.expect(eq(avg[n], wd, 1e-8), "average distance to them", n=n)
    c.seen("neighbors", style, tuple(sorted(ns)), undef is None)


def queries(rng, df, ins, n=25):
    x = df[ins].to_numpy()
    lo, hi = x.min(0), x.max(0)
    q = lo + (hi - lo) * rng.random((n, len(ins)))
    w = rng.dirichlet(np.ones(6), 8)
    q[:8] = np.array([wi @ x[rng.choice(len(x), 6)] for wi in w])
    q[8:10] = hi + .5 * (hi - lo)
    return q


NAMES = {"lin": ["linear", "lin", "LinearNDInterpolator",
                 "linear nd interpolator"],
         "rbf": ["rbf", "RBF", "RadialBasisFunction"]}


def probs(kind, x, lab, names, q):
    """Probabilities of each class by one against the rest interpolation."""
    one = np.array([[float(r == k) for k in names] for r in lab])
    if kind == "lin":
        p = LinearNDInterpolator(x, one)(q)
    else:
        p = np.array([Rbf(*x.T, one[:, j])(*q.T)
                      for j in range(len(names))]).T
        p = np.clip(p, 0, 1)
    keep = np.where(~np.isnan(p[:, 0]))[0]
    p = p[keep]
    with np.errstate(all="ignore"):
        return p / p.sum(1)[:, None], keep


@family("classify", 80, 600)
def fam_classify(rng, c):
    df, ins, outs, style = make(rng)
    t = table(df, ins, outs)
    cl = Classifier(t)
    kind = str(rng.choice(["lin", "rbf"]))
    name = str(rng.choice(NAMES[kind]))
    x, lab = df[ins].to_numpy(), list(df["kind"])
    names = sorted(set(lab))
    rows = np.arange(len(df))
    both = rng.random() < .4
    if both:
        cl.train_everything(["linear", "rbf"])
    elif rng.random() < .4:
        rows = np.sort(rng.choice(len(df), int(.8 * len(df)), replace=False))
        cl.train(name, di=list(rows))
    else:
        cl.train_everything([name])
    q = queries(rng, df, ins)
    w, keep = probs(kind, x[rows], [lab[i] for i in rows], names, q)
    ok = np.isfinite(w).all(1)
    form = q.tolist() if rng.random() < .3 else q
    p, good = cl.return_probs(name, form)
    c.expect(np.array_equal(good, keep), "queries with a classification",
             got=good, want=keep, kind=kind)
    if not np.array_equal(good, keep):
        c.stop()
    p = np.asarray(p)
    c.expect(eq(p[ok], w[ok], 1e-6, 1e-8), "probability of each class is "
             "that of the interpolation of the rows trained on, normalised",
             kind=kind, style=style, got=p[ok][:3], want=w[ok][:3])
    c.expect((p[ok] >= -1e-12).all() and eq(p[ok].sum(1), np.ones(ok.sum())),
             "probabilities are not negative and sum to one")
    ids, mx, g2 = cl.get_class_predictions(name, q)
    cn, mx2, _ = cl.get_class_predictions(name, q, return_ids=False)
    c.expect(eq(np.asarray(mx)[ok], w[ok].max(1), 1e-6),
             "highest probability")
    srt = np.sort(w, axis=1)
    sure = ok & (srt[:, -1] - srt[:, -2] > 1e-6)
    best = w.argmax(1)
    c.expect(all(ids[i] == best[i] for i in np.where(sure)[0]),
             "the class of the highest probability is predicted")
    c.expect(all(cn[i] == names[best[i]] for i in np.where(sure)[0]),
             "by its name", style=style,
             got=[str(cn[i]) for i in np.where(sure)[0]][:6],
             want=[str(names[best[i]]) for i in np.where(sure)[0]][:6])
    back, _, g3 = cl.get_class_predictions(name, x[rows], return_ids=False)
    if kind == "rbf" or len(g3) == len(rows):
        c.expect(all(back[i] == lab[r] for i, r in enumerate(rows)),
                 "the class of a row trained on is predicted there",
                 kind=kind)
        c.count("training rows", len(rows))
    one, _ = cl.return_probs(name, q[keep[0]])
    c.expect(eq(np.asarray(one)[0], p[0], 1e-8), "a single query alone")
    # cross validation
    alpha = float(rng.uniform(.3, .95))
    tr, tx, ty = cl.get_cross_val_data(alpha)
    tr = list(tr)
    rest = [i for i in range(len(df)) if i not in set(tr)]
    c.expect(len(set(tr)) == len(tr) == int(len(df) * alpha)
             and tr == sorted(tr), "rows to train on are distinct",
             n=len(tr), alpha=alpha)
    c.expect(eq(tx, x[rest]) and [names[i] for i in ty]
             == [lab[i] for i in rest], "all others are tested with")
    rec = []
    real = cl.get_cross_val_data

    def spy(*a, **k):
        rec.append(real(*a, **k))
        return rec[-1]
    cl.get_cross_val_data = spy
    bad = rng.random() < .3
    if bad:
        try:
            cl.cross_validate(["linear"], 2.2 / len(df))
        except Exception:
            c.count("failed validation")
    else:
        try:
            pc, tm = cl.cross_validate([name], alpha)
        except Exception:
            pc = None
        if pc is not None and len(rec) == 1:
            tr = [int(i) for i in rec[0][0]]
            rest = [i for i in range(len(df)) if i not in set(tr)]
            w2, k2 = probs(kind, x[tr], [lab[i] for i in tr], names, x[rest])
            srt = np.sort(w2, axis=1)
            if len(k2) and np.isfinite(w2).all() \
                    and (srt[:, -1] - srt[:, -2] > 1e-6).all():
                n = sum(names[w2[j].argmax()] == lab[rest[i]]
                        for j, i in enumerate(k2))
                c.close(float(pc[0]), 100. * n / len(k2), "percentage of the "
                        "other rows predicted right", rtol=1e-9, atol=1e-9)
                c.count("validated")
    p3, _ = cl.return_probs(name, q)
    c.expect(eq(np.asarray(p3)[ok], p[ok], 1e-10), "the trained classifier "
             "is the same after cross validation", failed=bad)
    r = cl.get_rnd_test_inputs(50, other_rng={0: [-99., -98.]})
    c.expect(r.shape == (50, len(ins)) and (r[:, 0] >= -99).all()
             and (r[:, 0] <= -98).all() and all(
                 (r[:, j] >= x[:, j].min()).all()
                 and (r[:, j] <= x[:, j].max()).all()
                 for j in range(1, len(ins))),
             "random inputs are in the range")
    c.seen("classify", kind, style, len(ins), len(names), both,
           len(rows) < len(df), bad)
    c.count("classified", len(q))


@family("gauss", 6, 30)
def fam_gauss(rng, c):
    df, ins, outs, style = make(rng, dim=2, n=24)
    kinds = sorted(set(df["kind"]))
    pick = np.array([kinds.index(i) for i in df["kind"]])
    lo, w = df["in0"].min(), df["in0"].max() - df["in0"].min()
    # one cluster for each class
    df["in0"] = lo + w * (2 * pick + rng.random(len(df))) / len(kinds)
    x, lab = df[ins].to_numpy(), list(df["kind"])
    names = sorted(set(lab))
    t = table(df, ins, outs)
    cl = Classifier(t)
    cl.train("gp", n_restarts=1)
    q = queries(rng, df, ins)
    p, good = cl.return_probs("GaussianProcessClassifier", q)
    c.expect(list(good) == list(range(len(q))) and p.shape == (len(q),
                                                              len(names)),
             "every query has a classification")
    c.expect((p >= 0).all() and eq(p.sum(1), np.ones(len(q))),
             "probabilities are not negative and sum to one")
    ids, mx, _ = cl.get_class_predictions("gp", q, return_ids=False)
    c.expect([names[i] for i in p.argmax(1)] == list(ids) and
             eq(mx, p.max(1)), "the class of the highest probability")
    back = cl.get_class_predictions("gp", x, return_ids=False)[0]
    hit = np.mean([i == j for i, j in zip(back, lab)])
    c.expect(hit > .4, "separate classes are told apart", share=hit)
    rg = Regressor(t)
    rg.train("gp", [names[0]], ["out0"])
    sub = df[df["kind"] == names[0]]
    f = rg.get_predictions(["gp"], [names[0]], ["out0"],
                           sub[ins].to_numpy())
    got = f["GaussianProcessRegressor"][names[0]]["out0"]
    c.expect(eq(got, sub["out0"], 5e-2, 5e-2), "a Gaussian process goes "
             "through the rows", got=got[:4], want=sub["out0"].to_numpy()[:4])
    c.seen("gauss", style, len(names))
    c.count("gaussian", len(q))


def regress(kind, x, y, q):
    ok = ~np.isnan(y)
    if kind == "lin":
        return LinearNDInterpolator(x[ok], y[ok])(q)
    return Rbf(*x[ok].T, y[ok])(*q.T)


@family("regress", 80, 600)
def fam_regress(rng, c):
    hollow = rng.random() < .4
    df, ins, outs, style = make(rng, dim=2, n=int(rng.integers(40, 90)),
                                gaps=rng.random() < .6, hollow=hollow)
    apc = [2] if rng.random() < .6 else None
    undef = None if rng.random() < .5 else -7.25
    t = table(df, ins, outs, n_neighbors=apc, undefined_p_change_val=undef)
    rg = Regressor(t)
    kind = str(rng.choice(["lin", "rbf"]))
    name = str(rng.choice(NAMES[kind][:2]))
    key = {"lin": "LinearNDInterpolator", "rbf": "RBF"}[kind]
    sizes = df["kind"].value_counts()
    names = [k for k in sorted(set(df["kind"])) if sizes[k] >= 8]
    if not names:
        return
    go = t.get_regr_data("output")
    if (sizes >= 5).all() and not (df["out0"] == 0).any():
        rg.train_everything([name])
    else:
        for k in names:
            if isinstance(go[k], pd.DataFrame):
                rg.train(name, [k], None)
    q = queries(rng, df, ins)
    mxs = []
    for k in sorted(set(df["kind"])):
        if isinstance(go[k], pd.DataFrame):
            a = [o for o in go[k].columns if o.startswith("APC")]
            if a:
                v = go[k][a].to_numpy()
                mxs.append(np.nanmax(np.abs(v)))
    if mxs:
        c.close(float(rg.abs_max_APC), float(max(mxs)),
                "largest average change of all classes", rtol=1e-12)
    else:
        c.expect(rg.abs_max_APC is None, "no average change")
    for k in names:
        if not isinstance(go[k], pd.DataFrame):
            c.count("class without regression")
            continue
        sub = df[df["kind"] == k]
        x = sub[ins].to_numpy()
        for col in go[k].columns:
            y = go[k][col].to_numpy(float).copy()
            if undef is not None and not np.isnan(y).any():
                y[y == undef] = np.nan
            if np.isfinite(y).sum() < 5:
                continue
            pr = rg.get_predictions([name], [k], [col], q)[key][k][col]
            want = regress(kind, x, y, q)
            sc = np.nanmax(np.abs(y))
            c.expect(eq(pr, want, 1e-5, 1e-6 * sc), "prediction is the "
                     "interpolation of the defined values of the class only",
                     cls=str(k), column=col, kind=kind, got=pr[:4],
                     want=want[:4])
            okr = np.isfinite(y)
            at = rg.get_predictions([name], [k], [col], x[okr])[key][k][col]
            fin = np.isfinite(at)
            c.expect(eq(at[fin], y[okr][fin], 1e-4, 1e-6 * sc),
                     "values of the rows are predicted there", column=col)
            c.count("predictions")
        a = [o for o in go[k].columns if o.startswith("APC")]
        one = q[3]
        if a and not any(go[k][o].isna().all() for o in a):
            vals = [float(rg.get_predictions([name], [k], [o], one)[key][k][o]
                          [0]) for o in a]
            if np.isfinite(vals).all():
                m, which = rg.get_max_APC_val(name, k, one)
                c.close(float(m), max(vals), "largest average change at a "
                        "place", rtol=1e-9)
                c.expect(which == a[int(np.argmax(vals))], "its column",
                         got=which)
                c.count("max change")
        elif not a:
            m, which = rg.get_max_APC_val(name, k, one)
            c.expect(m == 0 and which is None, "no average change there")
    # cross validation
    k = names[int(rng.integers(len(names)))]
    if not isinstance(go[k], pd.DataFrame):
        return
    sub = df[df["kind"] == k]
    x = sub[ins].to_numpy()
    cols = [o for o in go[k].columns if not o.startswith("APC")
            and go[k][o].notna().all()
            and (undef is None or (go[k][o] != undef).all())]
    if not cols or (go[k][cols[0]] == 0).all():
        return
    col = cols[0]
    y = go[k][col].to_numpy(float)
    alpha = float(rng.uniform(.5, .9))
    tx, ty, tr = rg.get_cross_val_data(k, col, alpha)
    rest = [i for i in range(len(sub)) if i not in set(int(j) for j in tr)]
    c.expect(len(tr) == len(set(tr)) == int(len(sub) * alpha)
             and eq(tx, x[rest]) and eq(ty, y[rest]),
             "rows are split into those trained on and all others")
    c.raises(ValueError, lambda: rg.get_cross_val_data(k, col, 1.5),
             "fractions above one are refused")
    if len(tr) < 5:
        return
    rec = []
    real = rg.get_cross_val_data

    def spy(*a_, **k_):
        rec.append(real(*a_, **k_))
        return rec[-1]
    rg.get_cross_val_data = spy
    first = rg.get_predictions([name], [k], [col], q)[key][k][col]
    pd_, diff = rg.cross_validate(name, k, col, alpha)
    if len(rec) == 1:
        tr = [int(i) for i in rec[0][2]]
        rest = [i for i in range(len(sub)) if i not in set(tr)]
        w = regress(kind, x[tr], y[tr], x[rest])
        if kind == "lin":
            hole = np.isnan(w)
            w[hole] = regress("rbf", x[tr], y[tr], x[rest])[hole]
        sc = np.abs(y).max()
        c.expect(eq(diff, w - y[rest], 1e-4, 1e-5 * sc), "differences of "
                 "the rows not trained on", kind=kind, got=diff[:4],
                 want=(w - y[rest])[:4])
        nz = y[rest] != 0
        c.expect(eq(pd_, 100 * diff[nz] / y[rest][nz], 1e-9, 1e-9),
                 "percentages of them, without zeros")
        c.count("regression validated")
        if (~nz).any():
            c.count("zeros left out")
    again = rg.get_predictions([name], [k], [col], q)[key][k][col]
    c.expect(eq(first, again, 1e-10), "the trained regressor is the same "
             "after cross validation")
    if rng.random() < .4:
        cut = float(rng.uniform(.01, .3))
        del rec[:]
        hold, att = rg.mult_diffs(name, k, [col], alpha, cut)
        p = np.asarray(hold[0], float)
        if len(p):
            c.expect(eq(att[0], [100. * np.mean(np.abs(p) >= 100 * cut),
                                 p.mean(), p.std()], 1e-9, 1e-9),
                     "share outside, mean and spread of the percentages")
            c.count("mult")
    r = rg.get_rnd_test_inputs(k, 40, other_rng={1: [50., 51.]})
    c.expect(r.shape == (40, 2) and (r[:, 1] >= 50).all()
             and (r[:, 1] <= 51).all() and (r[:, 0] >= x[:, 0].min()).all()
             and (r[:, 0] <= x[:, 0].max()).all(),
             "random inputs are in the range of the class")
    c.seen("regress", kind, style, apc is None, undef is None, hollow)


@family("target", 50, 400)
def fam_target(rng, c):
    df, ins, outs, style = make(rng, dim=2, n=50)
    t = table(df, ins, outs, n_neighbors=[2] if rng.random() < .7 else None)
    x, lab = df[ins].to_numpy(), list(df["kind"])
    names = sorted(set(lab))
    N = len(names)
    cl = Classifier(t)
    cl.train_everything(["linear", "rbf"])
    kind = str(rng.choice(["lin", "rbf"]))
    name = {"lin": "linear", "rbf": "rbf"}[kind]
    s = Sampler(classifier=cl)
    beta = float(rng.choice([.5, 1., 2., 3.5]))
    q = queries(rng, df, ins)
    w, keep = probs(kind, x, lab, names, q)
    want = np.full(len(q), 0.)
    with np.errstate(all="ignore"):
        want[keep] = ((1 - w.max(1)) / (1 - 1. / N)) ** beta
    sure = np.ones(len(q), bool)
    sure[keep] = np.isfinite(w).all(1)
    for i in range(len(q)):
        if not sure[i]:
            continue
        g = float(np.ravel(s.TD_classification(name, q[i], TD_BETA=beta))[0])
        if i in keep:
            c.expect(abs(g - want[i]) < 1e-5 + 1e-6 * want[i], "the target "
                     "grows with the uncertainty of the class", got=g,
                     want=want[i], beta=beta, kind=kind, classes=N)
            c.count("targets")
        else:
            c.expect(0 <= g <= 1e-15, "the target is negligible where there "
                     "is no classification", got=g, at=q[i])
            c.count("targets outside")
    many = np.ravel(s.TD_classification(name, q[sure], TD_BETA=beta))
    c.expect(eq(many, np.where(want[sure] == 0, many, want[sure]), 1e-5,
                1e-5) and (many[want[sure] == 0] < 1e-6).all(),
             "many places at once are as each alone", kind=kind)
    # with regression
    sizes = df["kind"].value_counts()
    go = t.get_regr_data("output")
    if t.get_regr_data("output")[names[0]].shape[1] > 2 and \
            (sizes >= 4).all() and (df[outs[1:]] != 0).all().all():
        rg = Regressor(t)
        rg.train_everything(["rbf"])
        s2 = Sampler(classifier=cl, regressor=rg)
        tau, A1 = float(rng.random()), float(rng.uniform(.1, 2))
        mx = max(np.nanmax(np.abs(
            go[k][[o for o in go[k] if o.startswith("APC")]].to_numpy()))
            for k in names)
        srt = np.sort(w, axis=1)
        for j, i in enumerate(keep[:12]):
            if not sure[i] or srt[j, -1] - srt[j, -2] < 1e-6:
                continue
            k = names[w[j].argmax()]
            cols = [o for o in go[k] if o.startswith("APC")]
            if not cols or any(go[k][o].isna().any() for o in cols):
                continue
            xs = df[df["kind"] == k][ins].to_numpy()
            v = max(float(Rbf(*xs.T, go[k][o].to_numpy(float))(*q[i]))
                    for o in cols)
            reg = np.log10(A1 * abs(v) + 1) / np.log10(A1 * mx + 1)
            full = (tau * (1 - w[j].max()) / (1 - 1. / N)
                    + (1 - tau) * reg) ** beta
            g = float(np.ravel(s2.TD_classification_regression(
                [name, "rbf"], q[i], TD_TAU=tau, TD_BETA=beta,
                TD_A1=A1))[0])
            c.expect(abs(g - full) < 1e-4 + 1e-4 * full, "target with both "
                     "terms", got=g, want=full, tau=tau, A1=A1)
            c.count("both terms")
        if kind == "lin":
            g = float(np.ravel(s2.TD_classification_regression(
                ["linear", "rbf"], q[8]))[0])
            c.expect(0 <= g <= 1e-15, "negligible outside", got=g)
    c.seen("target", kind, style, N, beta)


def bump(rng, dim, lo, hi):
    """A positive function with structure, recording where it is asked."""
    cen = lo + (hi - lo) * rng.random((2, dim))
    w = (hi - lo) * rng.uniform(.15, .5, (2, dim))
    calls, kws = [], []

    def f(x):
        x = np.ravel(np.asarray(x, float))
        return float(np.exp(-.5 * (((x - cen[0]) / w[0]) ** 2).sum())
                     + .5 * np.exp(-.5 * (((x - cen[1]) / w[1]) ** 2).sum())
                     + 1e-3)

    def target(name, x, **kw):
        calls.append(np.array(x, float))
        kws.append((name, dict(kw)))
        return f(x)
    return f, target, calls, kws


def zscore(hits, ps):
    hits, ps = np.asarray(hits, float), np.asarray(ps, float)
    var = (ps * (1 - ps)).sum()
    return None if var < 10 else (hits - ps).sum() / np.sqrt(var)


def box(rng):
    dim = int(rng.integers(1, 4))
    df, ins, outs, style = make(rng, dim=dim, n=20, style="str")
    t = table(df, ins, outs)
    x = df[ins].to_numpy()
    return Sampler(classifier=Classifier(t)), x.min(0), x.max(0), dim, x


@family("mcmc", 40, 300)
def fam_mcmc(rng, c):
    np.random.seed(int(rng.integers(2**31)))
    s, lo, hi, dim, x = box(rng)
    f, target, calls, kws = bump(rng, dim, lo, hi)
    T = float(rng.choice([1., 1., 2., 8., 40.]))
    start = lo + (hi - lo) * rng.random(dim)
    wide = rng.random() < .3
    if wide:
        alpha = (hi - lo) * 1e-4
        start = .5 * (lo + hi)
    else:
        alpha = (hi - lo) * rng.uniform(.1, .5, dim)
    a = list(alpha) if dim > 1 or rng.random() < .5 else float(alpha[0])
    N = int(rng.choice([1000, 2500]))
    lim = float(rng.choice([1e5, 1e5, 40, 900]))
    prev = [start] if rng.random() < .5 else [x[0], start]
    steps, acc, rej = s.run_MCMC(N, a, list(prev), target, "anything", T=T,
                                 upper_limit_reject=lim, TD_BETA=2.)
    steps = np.asarray(steps)
    n0 = len(prev)
    c.expect(eq(steps[:n0], prev), "the walk starts at the given place")
    c.expect(len(steps) == n0 + acc, "one step for each acceptance",
             steps=len(steps), accepted=acc)
    c.expect(acc + rej == N or (rej == int(lim) and acc + rej < N),
             "trials are counted", accepted=acc, rejected=rej, trials=N,
             limit=lim)
    c.expect((steps[n0:] >= lo).all() and (steps[n0:] <= hi).all(),
             "steps stay in the range of the data", dim=dim)
    c.expect(all(k == ("anything", {"TD_BETA": 2.}) for k in kws),
             "settings reach the target")
    cur, j = n0 - 1, 0
    hits, ps, jump = [], [], []
    for z in calls:
        if np.array_equal(z, steps[cur]):
            continue
        inside = (z >= lo).all() and (z <= hi).all()
        hit = cur + 1 < len(steps) and np.array_equal(z, steps[cur + 1])
        r = f(z) / f(steps[cur])
        jump.append((z - steps[cur]) / alpha)
        if not inside:
            c.expect(not hit, "no step outside")
        elif r >= 1:
            c.expect(hit, "a step to a higher target is taken", ratio=r)
            c.count("uphill")
        else:
            hits.append(hit)
            ps.append(r ** (1 / T))
        cur += hit
    c.expect(cur == len(steps) - 1, "every step was a trial", seen=cur,
             steps=len(steps))
    z = zscore(hits, ps)
    if z is not None:
        c.expect(abs(z) < ZMAX, "downhill steps are taken with the ratio to "
                 "the power of one over the temperature", z=z, T=T,
                 n=len(hits), taken=float(np.mean(hits)),
                 expected=float(np.mean(ps)))
        c.count("downhill", len(hits))
    if wide and len(jump) > 100:
        J = np.array(jump)
        n = J.size
        c.expect(abs((J ** 2).sum() - n) < 7 * np.sqrt(2 * n)
                 and (abs(J.sum(0)) < 7 * np.sqrt(len(J))).all(),
                 "steps are normal with the given width",
                 var=float((J ** 2).mean()))
        c.count("widths")
    c.seen("mcmc", dim, T, wide, lim < 1e4, rej == int(lim))


@family("ptmcmc", 20, 150)
def fam_ptmcmc(rng, c):
    np.random.seed(int(rng.integers(2**31)))
    s, lo, hi, dim, x = box(rng)
    f, target, calls, kws = bump(rng, dim, lo, hi)
    Tm = float(rng.choice([1.2, 3., 10., 40.]))
    cs = float(rng.choice([1.2, 1.5, 2.]))
    nd = int(rng.integers(1, 6))
    N = int(rng.choice([200, 400]))
    rec = []
    real = s.run_MCMC
    sig = inspect.signature(real)

    def spy(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        st = np.atleast_2d(np.array(b.arguments["step_history"], float))
        out = real(*a, **k)
        rec.append((float(b.arguments["T"]), st[-1], np.array(out[0]),
                    out[1], np.ravel(b.arguments["alpha"])))
        return out
    s.run_MCMC = spy
    kw = {}
    init = np.median(x, axis=0)
    if rng.random() < .5:
        init = lo + (hi - lo) * rng.random(dim)
        kw["init_pos"] = list(init)
    al = np.abs(hi - lo) / 5
    if rng.random() < .5:
        al = (hi - lo) * rng.uniform(.1, .4)
        kw["alpha"] = list(al)
    ch, T = s.run_PTMCMC(Tm, N, target, "nm", N_draws_per_swap=nd,
                         c_spacing=cs, TD_X=1, **kw)
    T = np.asarray(T, float)
    w = [Tm]
    while w[-1] > 1.3:
        w.append(w[-1] ** (1 / cs))
    c.expect(eq(T, w + [1.], 1e-9), "temperatures from the highest to one",
             got=T, want=w + [1.])
    c.expect(sorted(ch) == list(range(len(T))), "a chain for each of them")
    for i in ch:
        h = np.asarray(ch[i])
        c.expect((h >= lo).all() and (h <= hi).all() and h.shape[1] == dim,
                 "steps stay in the range of the data", chain=i)
        c.expect(eq(h[0], init), "chains start at the given place or at the "
                 "median of the data", got=h[0], want=init)
    c.expect(all(k == ("nm", {"TD_X": 1}) for k in kws),
             "settings reach the target")
    loops = int(N / nd)
    K = len(T)
    if len(rec) != loops * K:
        c.expect(len(rec) == 0, "each chain walks between the swaps",
                 walks=len(rec), want=loops * K)
        return
    hits, ps = [], []
    last = None
    cat = [[] for _ in range(K)]
    for L in range(loops):
        seg = rec[L * K:(L + 1) * K]
        starts = [g[1] for g in seg]
        for i in range(K):
            cat[i].append(seg[i][2])
            c.expect(abs(seg[i][0] - T[i]) < 1e-9, "a chain walks with its "
                     "temperature")
            c.expect(eq(np.broadcast_to(seg[i][4], (dim,)), al, 1e-9),
                     "steps have the given width or a fifth of the range",
                     got=seg[i][4], want=al)
        if last is not None:
            h = list(last)
            for i in range(K - 1):
                a, b = h[i], h[i + 1]
                same = np.array_equal(a, b)
                if np.array_equal(starts[i], b) and not same:
                    h[i], h[i + 1] = b, a
                    sw = True
                else:
                    sw = False
                if not same:
                    p = min(1., (f(b) / f(a)) ** (1 / T[i] - 1 / T[i + 1]))
                    hits.append(sw)
                    ps.append(p)
                    if p == 1:
                        c.expect(sw, "chains swap when that is more likely")
            c.expect(eq(h, starts), "chains go on where they or their "
                     "neighbors were", loop=L)
        last = [g[2][-1] for g in seg]
    for i in range(K):
        c.expect(eq(ch[i], np.concatenate(cat[i])), "a history has all steps "
                 "of its chain", chain=i)
    z = zscore(hits, ps)
    if z is not None:
        c.expect(abs(z) < ZMAX, "chains swap with the ratio of the tempered "
                 "targets", z=z, n=len(hits), taken=float(np.mean(hits)),
                 expected=float(np.mean(ps)))
        c.count("swaps", len(hits))
    c.seen("ptmcmc", dim, Tm, cs, nd)
    c.count("chains", K)


@family("density", 40, 300)
def fam_density(rng, c):
    np.random.seed(int(rng.integers(2**31)))
    s, lo, hi, dim, x = box(rng)
    n = int(rng.choice([150, 300]))
    h = lo + (hi - lo) * rng.random((n, dim))
    train = rng.random() < .6
    add = rng.random() < .4
    N = int(rng.integers(4, 40))
    kappa = float(10 ** rng.uniform(-2, .5) * np.mean(hi - lo) ** 2)
    vm = None
    mult = np.ones(dim)
    if rng.random() < .4:
        mult = rng.uniform(.3, 2, dim)
        vm = mult.copy()
    before = h.copy()
    acc, rej = s.do_simple_density_logic(
        h, N, kappa, var_mult=vm, add_mvns_together=add,
        include_training_data=train)
    c.expect(np.array_equal(before, h), "the history is left as it was")
    acc = np.asarray(acc).reshape(-1, dim)
    rej = np.asarray(rej).reshape(-1, dim)
    c.expect(len(acc) + len(rej) == n, "every step is accepted or rejected",
             acc=len(acc), rej=len(rej), n=n)
    cov = kappa * .5 * N ** (-1. / dim) * mult
    pts = [] if not train else list(x)
    hits, ps = [], []
    i = j = 0
    for z in h:
        p = 1.
        if pts:
            e = np.exp(-.5 * ((z - np.array(pts)) ** 2 / cov).sum(1))
            p = max(0., 1 - e.sum()) if add else float(np.prod(1 - e))
        if i < len(acc) and np.array_equal(acc[i], z):
            hit = True
            i += 1
            pts.append(z)
        elif j < len(rej) and np.array_equal(rej[j], z):
            hit = False
            j += 1
        else:
            c.expect(False, "accepted and rejected steps are those of the "
                     "history in its order")
            c.stop()
        hits.append(hit)
        ps.append(p)
        if p > 1 - 1e-12:
            c.expect(hit, "a step far from all points is accepted")
        if p == 0.:
            c.expect(not hit, "a step on top of the points is rejected")
    z = zscore(hits, ps)
    if z is not None:
        c.expect(abs(z) < ZMAX, "steps are accepted where the points are "
                 "sparse", z=z, taken=float(np.mean(hits)),
                 expected=float(np.mean(ps)), train=train, add=add)
        c.count("densities", n)
    # a history with a training point and repeated steps
    h2 = np.concatenate([x[:3], h[:20], h[:20]])
    acc, rej = s.do_simple_density_logic(h2, N, kappa,
                                         include_training_data=True)
    acc = np.asarray(acc).reshape(-1, dim)
    c.expect(not any(np.array_equal(a, b) for a in acc for b in x),
             "training data is not proposed again")
    c.expect(len({tuple(a) for a in acc}) == len(acc),
             "no point is proposed twice")
    # normalisation
    nh = s.normalize_step_history(h)
    c.expect(eq(nh, (h - lo) / (hi - lo)), "normalised steps")
    c.expect(eq(s.undo_normalize_step_history(nh), h, 1e-9),
             "and the way back")
    s.save_chain_step_history("k", {0: h})
    c.raises(Exception, lambda: s.save_chain_step_history("k", {0: acc}),
             "saved chains are not overwritten")
    c.expect(np.array_equal(s.get_saved_chain_step_history("k")[0], h),
             "saved chains are returned")
    c.seen("density", dim, train, add, vm is None)


@family("propose", 16, 100)
def fam_propose(rng, c):
    np.random.seed(int(rng.integers(2**31)))
    s, lo, hi, dim, x = box(rng)
    h = lo + (hi - lo) * rng.random((120, dim))
    train = rng.random() < .5
    N = int(rng.integers(3, 10))
    reps = int(rng.integers(1, 4))
    rec = []
    real = s.do_simple_density_logic

    def spy(*a, **k):
        out = real(*a, **k)
        rec.append(np.array(out[0]))
        return out
    s.do_simple_density_logic = spy
    seed = int(rng.integers(10**6))
    kw = dict(include_training_data=train, n_repeats=reps, seed=seed,
              max_iters=600, add_mvns_together=bool(rng.random() < .3))
    k0 = float(np.mean(hi - lo) ** 2 * .3)
    try:
        pts, kap = s.get_proposed_points(h, N, k0, **kw)
    except ValueError:
        c.count("not converged")
        return
    pts = np.asarray(pts)
    c.expect(pts.shape == (N, dim), "as many points as asked for",
             got=pts.shape, want=N)
    hs = {tuple(r) for r in h}
    c.expect(all(tuple(r) in hs for r in pts)
             and len({tuple(r) for r in pts}) == len(pts),
             "points are distinct steps of the history")
    c.expect(np.isfinite(kap) and kap > 0, "the scale that gave them")
    good = [r for r in rec if len(r) == N]
    if rec:
        def spread(r):
            d = np.sqrt(((r[:, None] - r[None]) ** 2).sum(-1))
            return d[np.triu_indices(len(r), 1)].mean()
        c.expect(len(good) == reps, "repeated as often as asked",
                 got=len(good), want=reps)
        if good:
            best = max(spread(r) for r in good)
            c.close(float(spread(pts)), float(best), "the most widespread "
                    "of them", rtol=1e-9)
    p2, k2 = s.get_proposed_points(h, N, k0, **kw)
    c.expect(eq(p2, pts) and abs(k2 - kap) <= 1e-12 * kap,
             "the same seed gives the same points")
    c.seen("propose", dim, train, reps)
    c.count("proposed", N)


def settings(dim, rng, **samp):
    ins = ["input_%d" % (i + 1) for i in range(dim)]
    kw = {"TableData_kwargs": {"table_paths": None, "input_cols": ins,
                               "output_cols": ["class", "output_1"],
                               "class_col_name": "class"},
          "Classifier_kwargs": {"classifier_names": ["rbf"]},
          "Regressor_kwargs": {"do_regression": False,
                               "regressor_names": ["rbf"]},
          "Sampler_kwargs": {"T_max": 8, "N_tot": 120,
                             "init_pos": [0.1] * dim,
                             "target_dist": "TD_classification",
                             "classifier_name": "rbf",
                             "N_draws_per_swap": 4, "c_spacing": 1.6,
                             "alpha": [1.2 if dim == 2 else .4] * dim,
                             "TD_BETA": 1.},
          "Proposal_kwargs": {"kappa": 3. if dim == 2 else .6,
                              "n_repeats": 1,
                              "max_iters": 600,
                              "pred_classifier_name": "rbf",
                              "cut_fraction": .1}}
    return kw, ins


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(
            same(a[k], b[k]) for k in a)
    if isinstance(a, pd.DataFrame):
        return isinstance(b, pd.DataFrame) and a.equals(b)
    try:
        return bool(np.all(a == b))
    except Exception:
        return a is b


@family("query", 20, 120)
def fam_query(rng, c):
    import random
    np.random.seed(int(rng.integers(2**31)))
    random.seed(int(rng.integers(2**31)))
    dim = 2 if rng.random() < .7 else 3
    df = U.get_regular_grid_df(N=36 if dim == 2 else 64, dim=dim)
    small = rng.random() < .3
    if dim == 2 and not small:
        pass
    size = df["class"].value_counts()
    df = df[df["class"].isin(size[size > 1].index)].reset_index(drop=True)
    if small:
        df.loc[int(rng.integers(len(df))), "class"] = "E" if dim == 2 else 9
    kw, ins = settings(dim, rng)
    kw["TableData_kwargs"]["my_DataFrame"] = df
    mode = "small" if small else str(rng.choice(["plain", "random",
                                                 "regression"]))
    if mode == "random":
        kw["Proposal_kwargs"]["do_random_proposal"] = True
    if mode == "regression":
        kw["Regressor_kwargs"]["do_regression"] = True
        kw["TableData_kwargs"]["n_neighbors"] = [2]
        kw["Sampler_kwargs"]["target_dist"] = "TD_classification_regression"
        kw["Sampler_kwargs"]["classifier_name"] = ("rbf", "rbf")
        kw["Sampler_kwargs"]["TD_TAU"] = .6
        kw["Sampler_kwargs"]["N_tot"] = 60
        kw["Sampler_kwargs"]["T_max"] = 2
    N = int(rng.integers(2, 7))
    keep = copy.deepcopy(kw)
    x = df[ins].to_numpy()
    cl = Classifier(TableData(None, ins, ["class"], "class",
                              my_DataFrame=df))
    cl.train("rbf")
    for turn in range(2):
        try:
            pts, cls = U.get_new_query_points(N_new_points=N, **kw)
        except ValueError as e:
            if "empty sequence" in str(e):
                c.count("not converged")
                c.expect(same(keep, kw), "settings are left as they were")
                continue
            raise
        pts = np.asarray(pts)
        c.expect(pts.shape == (N, dim), "as many points as asked for",
                 got=pts.shape, want=[N, dim], mode=mode)
        c.expect((pts >= x.min(0)).all() and (pts <= x.max(0)).all(),
                 "points are in the range of the data", mode=mode)
        want = cl.get_class_predictions("rbf", pts, return_ids=False)[0]
        c.expect(len(cls) == len(pts) and all(
            a == b for a, b in zip(cls, want)), "with the class predicted "
            "for each", got=[str(i) for i in cls],
            want=[str(i) for i in want], mode=mode)
        c.expect(same(keep, kw), "settings are left as they were", mode=mode,
                 turn=turn)
        if small:
            j = [k for k in range(len(df))
                 if (df["class"] == df["class"].iloc[k]).sum() == 1][0]
            d = np.abs(pts - x[j]).max()
            c.expect(d < 10 * (x.max(0) - x.min(0)).max(), "around the row "
                     "alone in its class")
        c.count("queries")
    c.seen("query", dim, mode)


@family("small", 24, 200)
def fam_small(rng, c):
    np.random.seed(int(rng.integers(2**31)))
    dim = int(rng.integers(1, 4))
    k = int(rng.integers(0, 4))
    rows, cls = [], []
    off = rng.uniform(-300, 300, dim)
    cl0 = []
    for g in range(max(k, 1)):
        cen = off + 1000. * g
        p = cen + rng.normal(size=(15, dim)) * rng.uniform(.1, 1., dim)
        rows.append(p)
        cls += ["x", "y"] * 7 + (["only%d" % g] if k else ["x"])
        cl0.append(p[-1])
    x = np.concatenate(rows)
    df = pd.DataFrame(x, columns=["in%d" % i for i in range(dim)])
    df["kind"] = cls
    df["out0"] = 1. + rng.random(len(df))
    if rng.random() < .5:
        df.index = df.index + 100
    order = rng.permutation(len(df))
    df = df.iloc[order]
    t = table(df, ["in%d" % i for i in range(dim)], ["kind", "out0"])
    nn = int(rng.integers(1, 8))
    n = int(rng.integers(1, 3) * 900 + rng.integers(0, 3))
    m = float(rng.choice([.33, 1., .1]))
    got = U.do_small_class_proposal(t, nn, n_new_points=n,
                                    length_scale_mult=m)
    if k == 0:
        c.expect(got is None, "nothing without a class of one row")
        c.count("no small class")
        return
    got = np.asarray(got)
    c.expect(got.shape == (n, dim), "as many points as asked for",
             got=got.shape, want=[n, dim])
    if got.shape != (n, dim):
        c.stop()
    which = np.argmin(np.abs(got[:, None, 0] - np.array(cl0)[None, :, 0]),
                      axis=1)
    counts = np.bincount(which, minlength=k)
    c.expect(counts.max() - counts.min() <= 1, "evenly around the classes of "
             "one row", got=counts)
    for g in range(k):
        d = np.sqrt(((x - cl0[g]) ** 2).sum(1))
        idx = np.argsort(d)[1:nn + 1]
        sc = m * np.abs(x[idx] - cl0[g]).mean(0)
        J = (got[which == g] - cl0[g]) / sc
        L = len(J)
        if L < 100:
            continue
        v = (J ** 2).sum(0)
        c.expect((abs(v - L) < 7 * np.sqrt(2 * L)).all()
                 and (abs(J.sum(0)) < 7 * np.sqrt(L)).all(),
                 "normal with the average distance to its neighbors",
                 var=v / L, mean=J.mean(0), scale=sc)
        c.count("small classes")
    c.seen("small", dim, k, nn)


@family("loop", 12, 60)
def fam_loop(rng, c):
    np.random.seed(int(rng.integers(2**31)))
    dim = 2 if rng.random() < .75 else 3
    kw, ins = settings(dim, rng)
    n0 = 36 if dim == 2 else 64
    per = [4, 6] if rng.random() < .3 else int(rng.integers(3, 8))
    extra = int(rng.integers(8, 14))
    keep = copy.deepcopy(kw)
    rec = []
    real = U.get_new_query_points

    def spy(*a, **k):
        out = real(*a, **k)
        rec.append((k.get("TableData_kwargs", {}).get("my_DataFrame"),
                    np.array(out[0])))
        return out
    U.get_new_query_points = spy
    try:
        dfs, preds = U.do_dynamic_sampling(
            N_final_points=n0 + extra, new_points_per_iter=per,
            N_starting_points=n0, jitter=bool(rng.random() < .4), dim=dim,
            **kw)
    except ValueError as e:
        if "empty sequence" in str(e):
            c.count("not converged")
            return
        raise
    finally:
        U.get_new_query_points = real
    c.expect(same(keep, kw), "settings are left as they were")
    c.expect(len(dfs[0]) == n0 and len(preds) == len(dfs)
             and preds[0] is None, "starts with the regular grid")
    if not isinstance(per, list):
        c.expect(len(dfs[-1]) == n0 + extra, "ends with the number of points "
                 "asked for", got=len(dfs[-1]), want=n0 + extra)
    else:
        c.expect(len(dfs[-1]) >= n0 + extra, "ends with the number of points "
                 "asked for", got=len(dfs[-1]), want=n0 + extra)
    truth = U.get_output_2D if dim == 2 else U.get_output_3D
    for i in range(1, len(dfs)):
        a, b = dfs[i - 1], dfs[i]
        c.expect(b.iloc[:len(a)].reset_index(drop=True).equals(
            a.reset_index(drop=True)), "earlier points are kept", turn=i)
        new = b.iloc[len(a):]
        if len(new) == 0:
            continue
        t = truth(*[new[j].to_numpy() for j in ins])
        c.expect(list(t["class"]) == list(new["class"])
                 and eq(t["output_1"], new["output_1"]),
                 "new points have the true class and output")
        d = np.sqrt(((new[ins].to_numpy()[:, None]
                      - a[ins].to_numpy()[None]) ** 2).sum(-1))
        c.expect((d >= 1e-5).all(), "new points are not on top of others")
        if len(rec) == len(dfs) - 1 and rec[i - 1][0] is not None:
            c.expect(rec[i - 1][0].reset_index(drop=True).equals(
                a.reset_index(drop=True)), "they are proposed from all the "
                "points sampled so far", turn=i, used=len(rec[i - 1][0]),
                have=len(a))
    c.count("loops", len(dfs) - 1)
    c.seen("loop", dim, isinstance(per, list), len(dfs))


@family("score", 30, 200)
def fam_score(rng, c):
    np.random.seed(int(rng.integers(2**31)))
    dim = 2 if rng.random() < .7 else 3
    truth = U.get_output_2D if dim == 2 else U.get_output_3D
    how = str(rng.choice(["regular", "jitter", "ppa", "random"]))
    half = 3. if dim == 2 else 1.
    if how == "random":
        n = 60 if dim == 2 else 150
        df = U.get_random_grid_df(n, dim=dim)
        c.expect(len(df) == n, "as many random points as asked for")
    elif how == "ppa":
        ppa = [int(i) for i in rng.integers(5, 9, dim)]
        df = U.get_regular_grid_df(N_ppa=ppa, dim=dim)
        c.expect(len(df) == np.prod(ppa) and all(
            len(np.unique(df["input_%d" % (i + 1)])) == ppa[i]
            for i in range(dim)), "points of each axis")
    else:
        e = int(rng.integers(6, 9)) if dim == 2 else 5
        df = U.get_regular_grid_df(N=e ** dim, jitter=how == "jitter",
                                   dim=dim)
        c.expect(len(df) == e ** dim, "as many points as asked for")
    ins = ["input_%d" % (i + 1) for i in range(dim)]
    x = df[ins].to_numpy()
    if how == "jitter":
        w = 2 * half / e
        mid = .5 * (x.max(0) + x.min(0))
        c.expect((abs(mid) <= .5 * w + 1e-9).all() and eq(
            x.max(0) - x.min(0), [2 * half] * dim), "the grid is shifted by "
            "half a bin at most")
    elif how == "random":
        c.expect((abs(x) <= half).all(), "random points are in the range")
    else:
        c.expect(eq(x.max(0), [half] * dim) and eq(x.min(0), [-half] * dim),
                 "the grid spans the range")
    i = int(rng.integers(len(df)))
    one = truth(*[float(v) for v in x[i]])
    c.expect(one["class"].iloc[0] == df["class"].iloc[i]
             and eq(one["output_1"], [df["output_1"].iloc[i]]),
             "class and output of a point do not depend on the others")
    # performance
    size = df["class"].value_counts()
    if (size < 4).any():
        df = df[df["class"].isin(size[size >= 4].index)].reset_index(
            drop=True)
    res = 14 if dim == 2 else 7
    cn = str(rng.choice(["linear", "rbf"]))
    acc, conf, reg = U.calc_performance([df], cls_name=cn, regr_name="rbf",
                                        resolution=res,
                                        verbose=bool(rng.random() < .4))
    x = df[ins].to_numpy()
    lab = list(df["class"])
    names = sorted(set(lab))
    ax = [np.linspace(x[:, j].min(), x[:, j].max(), res) for j in range(dim)]
    q = np.array([g.ravel() for g in np.meshgrid(*ax)]).T
    w, keep = probs("lin" if cn == "linear" else "rbf", x, lab, names, q)
    tr = list(truth(*q.T)["class"])
    srt = np.sort(w, axis=1)
    close = (srt[:, -1] - srt[:, -2] < 1e-6) | ~np.isfinite(w).all(1)
    pred = np.full(len(q), None, dtype=object)
    pred[keep] = [names[j] for j in w.argmax(1)]
    slack = int(close.sum())
    right = sum(a == b for a, b in zip(pred, tr))
    c.expect(abs(acc[0] * len(q) - right) <= slack + 1e-6, "accuracy is the "
             "share of the places with the true class predicted",
             got=float(acc[0]), want=right / len(q), slack=slack, dim=dim,
             cls=cn)
    all_t = sorted(set(tr))
    C = np.asarray(conf[0])
    c.expect(C.shape == (len(all_t), len(all_t)), "a row for each true class")
    for a, ta in enumerate(all_t):
        m = [i for i in range(len(q)) if tr[i] == ta]
        for b, tb in enumerate(all_t):
            want = sum(pred[i] == tb for i in m) / len(m)
            c.expect(abs(C[a, b] - want) <= (slack + 1e-6) / len(m),
                     "confusion is the share of a true class predicted as "
                     "another", got=C[a, b], want=want)
    if slack == 0:
        for k in names:
            m = [i for i in range(len(q)) if pred[i] == k]
            if not m:
                c.expect(all(v >= 1e8 for v in reg[0][k]), "no place of the "
                         "class")
                continue
            sub = df[df["class"] == k]
            pv = Rbf(*sub[ins].to_numpy().T, sub["output_1"].to_numpy())(
                *q[m].T)
            tv = truth(*q[m].T)["output_1"].to_numpy()
            with np.errstate(all="ignore"):
                d = np.sort(abs((pv - tv) / tv))
            if not np.isfinite(d).all():
                continue
            want = [d[int(f * len(d))] for f in (.5, .683, .954, .997)]
            c.expect(eq(reg[0][k], want, 1e-3, 1e-6), "differences of the "
                     "regression below which a share of the places lies",
                     got=reg[0][k], want=want)
            c.count("regression scores")
    c.count("scores")
    c.seen("score", dim, how, cn, len(names))


@family("small tools", 20, 200)
def fam_tools(rng, c):
    dim = int(rng.integers(1, 4))
    a = rng.random((30, dim))
    th = float(10 ** rng.uniform(-3, -.5))
    b = np.concatenate([rng.random((20, dim)),
                        a[:5] + th * rng.choice([.5, 2.], (5, 1))
                        * np.eye(dim)[0]])
    got = U.check_dist(a, b, threshold=th)
    d = np.sqrt(((b[:, None] - a[None]) ** 2).sum(-1)).min(1)
    far = abs(d - th) > 1e-12
    c.expect(len(got) == len(b) and all(bool(g) == (x >= th) for g, x, f in
                                        zip(got, d, far) if f),
             "points closer than the threshold are turned down")
    n = int(rng.integers(20, 90))
    cls = ["a", "b", "c"]
    tr = np.array([cls[i] for i in rng.integers(0, 3, n)])
    tr[:3] = cls
    pr = np.array([cls[i] for i in rng.integers(0, 3, n)])
    C = U.get_confusion_matrix(pr, tr, cls)
    W = [[np.mean(pr[tr == i] == j) for j in cls] for i in cls]
    c.expect(eq(C, W), "confusion matrix", got=C, want=W)
    v = np.abs(rng.normal(size=n))
    lim = sorted(rng.uniform(.05, .95, 3))
    for lims in (None, list(lim)):
        g = U.calc_regression_accuracy(v, lims)
        for x, f in zip(g, lims or [.5, .683, .954, .997]):
            k = np.sum(v < x)
            c.expect(x in v and abs(k - f * n) <= 1 + 1e-9, "a share of the "
                     "differences lies below", share=f, below=int(k), n=n)
    ini = {"TableData": {"input_cols": ["a", "B"], "omit_vals": [-1, "x"],
                         "n": None, "kw": {"sep": ","}},
           "Sampler": {"T_max": float(rng.uniform(1, 50)), "TD_BETA": 2,
                       "name": ("linear", "rbf"), "flag": True}}
    p = os.path.join(SCRATCH, "p39_%d_%d.ini" % (os.getpid(), c.index))
    with open(p, "w") as f:
        f.write("; comment\n")
        for s in ini:
            f.write("[%s]\n" % s)
            for k, val in ini[s].items():
                f.write("%s %s %r\n" % (k, "=:"[int(rng.integers(2))], val))
    try:
        got = U.parse_inifile(p)
    finally:
        os.remove(p)
    c.expect(got == {s + "_kwargs": ini[s] for s in ini}, "settings of a "
             "file are those written", got=got)
    c.raises(ValueError, lambda: U.parse_inifile(p), "a file that is not "
             "there is reported")
    c.count("tools")
    c.seen("tools", dim)


for k, v in {"tables": 30, "hollow": 3, "changes": 60, "skipped neighbors": 3,
             "classified": 500, "training rows": 300, "failed validation": 3,
             "validated": 5, "gaussian": 30, "predictions": 100,
             "class without regression": 2, "regression validated": 10,
             "targets": 300, "targets outside": 20, "both terms": 20,
             "downhill": 3000, "uphill": 1000, "widths": 2,
             "chains": 20, "densities": 1000, "proposed": 10,
             "queries": 6, "small classes": 5, "loops": 4, "scores": 8,
             "tools": 10}.items():
    ck.require(k, v)

if __name__ == "__main__":
    sys.exit(ck.main())
