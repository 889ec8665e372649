"""C03: binaries to data frames and back."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import numpy as np
import pandas as pd
import auto
from auto import BinaryStar, SingleStar, BINARYPROPERTIES, STARPROPERTIES
from posydon.binary_evol.simulationproperties import (StepNamesHooks,
                                                      TimingHooks)

ck = vk.Check("C03", "random recorded histories (all states and events, None "
              "and NaN values, extra and unequal columns, column selections, "
              "failed binaries) converted to history and one-line data "
              "frames, through an HDF5 file and back, compared value by "
              "value; non-trivial by (conversion, selection, ending, rows)")

SCAL = ["natal_kick_velocity", "natal_kick_azimuthal_angle",
        "natal_kick_polar_angle", "natal_kick_mean_anomaly", "SN_type",
        "f_fb", "spin_orbit_tilt_first_SN", "spin_orbit_tilt_second_SN"]


def isnull(x):
    return x is None or x is pd.NA or (isinstance(x, float) and np.isnan(x)) \
        or (isinstance(x, np.floating) and np.isnan(x))


def eq(a, b):
    if isnull(a) or isnull(b):
        return isnull(a) and isnull(b)
    return bool(a == b) if isinstance(a, str) or isinstance(b, str) \
        else float(a) == float(b)


def evolved(rng, n, hooks=(), fault=False):
    sc = auto.Script(rng, n)
    p = sc.props(hooks)
    b = sc.binary(p, index=int(rng.integers(0, 10**6)))
    if fault:
        sc.fault = (int(rng.integers(0, n)), lambda bb: 1 / 0)
    try:
        with vk.quiet():
            b.evolve()
    except ZeroDivisionError:
        b.event = "FAILED"
        b.traceback = "x"
    for k, s in enumerate((b.star_1, b.star_2)):
        for nm in SCAL:
            setattr(s, nm, "CCSN" if nm == "SN_type" else
                    float(rng.normal()) if rng.uniform() < .8 else None)
    return sc, b


def expected(b):
    """name -> list of values, from the histories."""
    out = {}
    for p in BINARYPROPERTIES:
        h = getattr(b, p + "_history")
        if p == "V_sys":
            for j, ax in enumerate("xyz"):
                out["V_sys_" + ax] = [v[j] for v in h]
        elif p == "nearest_neighbour_distance":
            for j, ax in enumerate("xyz"):
                out["NN_dist_" + ax] = [v[j] for v in h]
        else:
            out[p] = list(h)
    for q, s in (("S1_", b.star_1), ("S2_", b.star_2)):
        for p in STARPROPERTIES:
            if p != "profile":
                out[q + p] = list(getattr(s, p + "_history"))
    return out


def compare(c, df, want, tag):
    bad = []
    for k, v in want.items():
        if k not in df.columns:
            bad.append((k, "missing"))
            continue
        got = list(df[k])
        if len(got) != len(v):
            bad.append((k, len(got), len(v)))
            continue
        for j, (x, y) in enumerate(zip(got, v)):
            if not eq(x, y):
                bad.append((k, j, x, y))
                break
    c.expect(not bad, "values of the data frame " + tag, bad=bad[:5])


def hist_equal(a, b):
    for p in BINARYPROPERTIES:
        x, y = getattr(a, p + "_history"), getattr(b, p + "_history")
        if len(x) != len(y):
            return (p, len(x), len(y))
        for u, v in zip(list(x) + [getattr(a, p)], list(y) + [getattr(b, p)]):
            if p in ("V_sys", "nearest_neighbour_distance"):
                if not auto.same(u, v):
                    return (p, u, v)
            elif not eq(u, v):
                return (p, u, v)
    for q in ("star_1", "star_2"):
        s, t = getattr(a, q), getattr(b, q)
        for p in STARPROPERTIES:
            if p == "profile":
                continue
            x, y = getattr(s, p + "_history"), getattr(t, p + "_history")
            if len(x) != len(y):
                return (q, p, len(x), len(y))
            for u, v in zip(list(x) + [getattr(s, p)],
                            list(y) + [getattr(t, p)]):
                if not eq(u, v):
                    return (q, p, u, v)
    return None


@ck.family("history", quick=90, thorough=1800)
def history(rng, c):
    n = int(rng.integers(1, 12))
    fault = rng.uniform() < .25
    hooks = [(StepNamesHooks, {}), (TimingHooks, {})]
    sc, b = evolved(rng, n, hooks, fault)
    want = expected(b)
    ek = {}
    if rng.uniform() < .5:
        ek = {"extra_columns": {"step_names": "string",
                                "step_times": "float64"}}
    # an extra column which is shorter than the histories
    short = rng.uniform() < .3
    before = auto.snapshot(b)
    if short:
        b.my_short = [1.5]
        ek = {"extra_columns": dict(ek.get("extra_columns", {}),
                                    my_short="float64")}
    c.note(n=n, fault=fault, extra=list(ek), short=short)
    df = b.to_df(**ek)
    c.expect(all(eq(u, v) if not isinstance(u, (list, np.ndarray)) else
                 auto.same(u, v) for k in before for u, v in zip(
                     before[k][0], auto.snapshot(b)[k][0]))
             and all(len(before[k][0]) == len(auto.snapshot(b)[k][0])
                     for k in before),
             "converting does not change the histories")
    if short:
        c.expect(b.my_short == [1.5], "converting does not change an extra "
                 "column", got=b.my_short)
    rows = len(b.time_history)
    c.expect(len(df) == rows and list(df.index) == [b.index] * rows
             and df.index.name == "binary_index", "one row per recorded "
             "state, labelled by the binary", n=len(df), rows=rows)
    compare(c, df, want, "(history)")
    if "step_names" in ek.get("extra_columns", {}):
        c.expect(list(df["step_names"])[:len(b.step_names)]
                 == list(b.step_names), "extra column kept")
    if short:
        v = list(df["my_short"])
        c.expect(v[0] == 1.5 and all(isnull(x) for x in v[1:]),
                 "short column padded with nulls", v=v)
    extra = ek.get("extra_columns", {})
    d2 = BinaryStar.from_df(df, extra_columns=extra)
    c.expect(d2.index == b.index, "index survives", got=d2.index)
    # the current values of b are those of the last recorded row, unless it
    # failed or was hidden
    for p in BINARYPROPERTIES:
        setattr(b, p, getattr(b, p + "_history")[-1])
    for s in (b.star_1, b.star_2):
        for p in STARPROPERTIES:
            setattr(s, p, getattr(s, p + "_history")[-1])
    d = hist_equal(b, d2)
    c.expect(d is None, "the binary survives the round trip", diff=d)
    c.expect(not any(e is pd.NA or (isinstance(e, float))
                     for e in d2.event_history),
             "no event stays None", ev=d2.event_history)
    with vk.quiet():
        df2 = d2.to_df(**ek)
    bad = [k for k in df.columns if k not in df2.columns or not all(
        eq(x, y) for x, y in zip(df[k], df2[k]))]
    c.expect(not bad and len(df2) == len(df), "the data frame survives the "
             "round trip", bad=bad[:5])
    if rng.uniform() < .3:
        fn = os.path.join(vk.scratch(), "c03_%d_%d.h5" % (os.getpid(),
                                                          c.index))
        lens = {k: 60 for k in df.columns if df[k].dtype == object}
        df.to_hdf(fn, key="history", format="table", min_itemsize=lens)
        back = pd.read_hdf(fn, "history")
        os.remove(fn)
        d3 = BinaryStar.from_df(back, extra_columns=extra)
        d = hist_equal(b, d3)
        c.expect(d is None, "the binary survives a file", diff=d)
        c.seen("file")
    c.count("round trips")
    c.seen("history", fault, short, bool(ek), min(rows, 5))


@ck.family("columns", quick=60, thorough=900)
def columns(rng, c):
    """Selections of columns."""
    sc, b = evolved(rng, int(rng.integers(1, 8)))
    want = expected(b)
    how = c.index % 4
    bp = [p for p in BINARYPROPERTIES
          if p not in ("V_sys", "nearest_neighbour_distance")]
    sp = [p for p in STARPROPERTIES if p != "profile"]
    sel = [str(x) for x in rng.choice(bp, 4, replace=False)]
    ss = [str(x) for x in rng.choice(sp, 3, replace=False)]
    if how == 0:
        df = b.to_df(only_select_columns=sel,
                     S1_kwargs=dict(only_select_columns=ss),
                     include_S2=False)
        names = sel + ["S1_" + x for x in ss]
    elif how == 1:
        df = b.to_df(ignore_columns=sel, include_S1=False,
                     S2_kwargs=dict(ignore_columns=ss))
        names = [k for k in want if not k.startswith("S1_")
                 and k not in sel and k not in ["S2_" + x for x in ss]]
    elif how == 2:
        df = b.to_df(include_S1=False, include_S2=False)
        names = [k for k in want if not k.startswith(("S1_", "S2_"))]
    else:
        df = b.to_df(null_value=-99.)
        names = list(want)
        flo = [k for k in names if not k.endswith("state")
               and k not in ("event", "mass_transfer_case")]
        bad = [k for k in flo for x, y in zip(df[k], want[k])
               if (y is None and x != -99.) or (y is not None
                                                and not eq(x, y))]
        c.expect(not bad, "null values replaced", bad=bad[:4])
        c.seen("null")
        c.stop()
    c.note(how=how, sel=sel, ss=ss)
    c.expect(sorted(df.columns) == sorted(names), "exactly the selected "
             "columns", diff=sorted(set(df.columns) ^ set(names))[:6])
    compare(c, df, {k: want[k] for k in names}, "(selection)")
    c.seen("columns", how)


def kind(col):
    """Type of a column; text may be stored as objects."""
    t = str(col.dtype)
    return "string" if t in ("object", "str") else t


@ck.family("stars", quick=40, thorough=600)
def stars(rng, c):
    """Extra columns and selections that differ between the stars."""
    sc, b = evolved(rng, int(rng.integers(1, 8)))
    rows = len(b.time_history)
    want = expected(b)
    n1, n2 = "alpha_note", "beta_count"
    if rng.uniform() < .5:
        n1, n2 = n2, n1
    full = {"alpha_note": ["txt %d" % i for i in range(rows)],
            "beta_count": [float(x) for x in rng.integers(0, 9, rows)]}
    types = {"alpha_note": "string", "beta_count": "float32"}
    for st, nm in ((b.star_1, n1), (b.star_2, n2)):
        setattr(st, nm, list(full[nm]))
    short = rng.uniform() < .3 and rows > 1
    if short:                       # shorter than the histories
        setattr(b.star_1, n1, full[n1][:1])
    sel = [str(x) for x in rng.choice(
        [p for p in STARPROPERTIES if p != "profile"], 3, replace=False)]
    k1 = dict(extra_columns={n1: types[n1]})
    k2 = dict(extra_columns={n2: types[n2]})
    one = c.index % 3
    if one == 1:
        k2.update(only_select_columns=sel)
    elif one == 2:
        k1.update(ignore_columns=sel)
    with vk.quiet():
        df = b.to_df(S1_kwargs=k1, S2_kwargs=k2)
    c.note(n1=n1, short=short, sel=sel, one=one)
    gone = {1: ["S2_" + p for p in STARPROPERTIES if p not in sel],
            2: ["S1_" + p for p in sel]}.get(one, [])
    names = [k for k in want if k not in gone]
    # (only the selected columns: no extra ones)
    names += ["S1_" + n1] + ["S2_" + n2] * (one != 1)
    c.expect(set(names) <= set(df.columns) <= set(names) | {"S2_" + n2},
             "columns of each star", diff=sorted(
                 set(df.columns) ^ set(names))[:6])
    compare(c, df, {k: want[k] for k in names if k in want}, "(stars)")
    for q, nm, v in (("S1_", n1, getattr(b.star_1, n1)), ("S2_", n2,
                                                         full[n2])):
        if q + nm not in df.columns:
            continue
        got = list(df[q + nm])
        v = list(v) + [None] * (rows - len(v))
        c.expect(all(eq(x, y) for x, y in zip(got, v)),
                 "extra column of one star", got=got, want=v)
        c.expect(nm == n1 and short or kind(df[q + nm]) == types[nm],
                 "type of an extra column", got=str(df[q + nm].dtype),
                 want=types[nm])
    with vk.quiet():
        d = BinaryStar.from_df(df)
    lens = {len(getattr(s, p + "_history")) for s in (d.star_1, d.star_2)
            for p in STARPROPERTIES} | {
        len(getattr(d, p + "_history")) for p in BINARYPROPERTIES}
    c.expect(lens == {rows}, "histories of both stars as long as the table",
             lens=lens)
    if not short and one == 0:
        with vk.quiet():
            o = b.to_oneline_df(S1_kwargs=k1, S2_kwargs=k2)
        for q, nm in (("S1_", n1), ("S2_", n2)):
            for e, v in (("_i", full[nm][0]), ("_f", full[nm][-1])):
                c.expect(eq(o[q + nm + e].iloc[0], v)
                         and kind(o[q + nm + e]) == types[nm],
                    "extra column of one star in one line",
                    got=str(o[q + nm + e].dtype), value=o[q + nm + e].iloc[0])
    # scalars of one star only
    q, k = (("S1_", "S1_kwargs"), ("S2_", "S2_kwargs"))[c.index % 2]
    st = (b.star_1, b.star_2)[c.index % 2]
    nm = str(rng.choice(SCAL))
    with vk.quiet():
        o = b.to_oneline_df(**{k: dict(scalar_names=[nm])})
    other = {"S1_": "S2_", "S2_": "S1_"}[q]
    c.expect(q + nm in o.columns and eq(o[q + nm].iloc[0], getattr(st, nm))
             and other + nm not in o.columns, "scalars of one star",
             star=q, name=nm)
    c.seen("stars", n1, short, one)


@ck.family("partial", quick=60, thorough=900)
def partial(rng, c):
    """Loading data frames without some orbital columns."""
    sc, b = evolved(rng, int(rng.integers(1, 8)))
    n = len(b.time_history)
    m = [np.array(s.mass_history, float) for s in (b.star_1, b.star_2)]
    a = 10**rng.uniform(1, 3, n)
    import phys
    P = phys.kepler_P(a, m[0], m[1])
    b.separation_history = list(a)
    b.orbital_period_history = list(P)
    b.eccentricity_history = [float(x) for x in rng.uniform(0, 1, n)]
    df = b.to_df()
    drop = ["separation", "orbital_period", "eccentricity"][c.index % 3]
    df = df.drop(columns=[drop])
    with vk.quiet():
        d = BinaryStar.from_df(df)
    got = np.array(getattr(d, drop + "_history"), float)
    want = {"separation": a, "orbital_period": P,
            "eccentricity": np.zeros(n)}[drop]
    c.close(got, want, "completed column " + drop, 1e-3)
    c.close(getattr(d, drop), want[-1], "current " + drop, 1e-3)
    o = b.to_oneline_df().drop(columns=[drop + "_i", drop + "_f"])
    with vk.quiet():
        d = BinaryStar.from_oneline_df(o)
    c.close(getattr(d, drop), want[0], "completed %s of a one-line frame"
            % drop, 1e-3)
    lens = {len(getattr(d, p + "_history")) for p in BINARYPROPERTIES}
    c.expect(lens == {1}, "one recorded state", lens=lens)
    c.seen("partial", drop)


@ck.family("oneline", quick=90, thorough=1800)
def oneline(rng, c):
    n = int(rng.integers(1, 10))
    fault = rng.uniform() < .3
    sc, b = evolved(rng, n, (), fault)
    if rng.uniform() < .3:
        b.warnings = ["w"]
    b.interp_class_HMS_HMS = "stable_MT"
    want = expected(b)
    ns = int(rng.integers(1, len(SCAL) + 1))
    names = [str(x) for x in rng.choice(SCAL, ns, replace=False)]
    c.note(n=n, fault=fault, names=names)
    xn = ["note", "my_final_note", "x_i_f", "S1_note"][int(rng.integers(4))]
    setattr(b, xn, ["text %d" % j for j in range(len(b.time_history))])
    o = b.to_oneline_df(scalar_names=["interp_class_HMS_HMS"],
                        extra_columns={xn: "string"},
                        S1_kwargs=dict(scalar_names=names),
                        S2_kwargs=dict(scalar_names=SCAL))
    c.expect(len(o) == 1 and list(o.index) == [b.index], "one line")
    bad = [k for k in want if not (eq(o[k + "_i"].iloc[0], want[k][0])
                                   and eq(o[k + "_f"].iloc[0], want[k][-1]))]
    c.expect(not bad, "initial and final values", bad=bad[:5])
    c.expect(o[xn + "_i"].iloc[0] == "text 0" and o[xn + "_f"].iloc[0]
             == "text %d" % (len(b.time_history) - 1),
             "extra column of the binary", name=xn)
    c.expect(o["FAILED"].iloc[0] == int(fault), "failure flag")
    c.expect(o["WARNING"].iloc[0] == int(hasattr(b, "warnings")),
             "warning flag")
    bad = [x for x in names if not eq(o["S1_" + x].iloc[0],
                                      getattr(b.star_1, x))] \
        + [x for x in SCAL if not eq(o["S2_" + x].iloc[0],
                                     getattr(b.star_2, x))]
    c.expect(not bad, "scalar columns", bad=bad)
    c.expect(o["interp_class_HMS_HMS"].iloc[0] == "stable_MT",
             "scalar column of the binary")
    with vk.quiet():
        d = BinaryStar.from_oneline_df(o)
    c.expect(d.index == b.index, "index survives")
    bad = []
    for p in BINARYPROPERTIES:
        u, v = getattr(b, p + "_history")[0], getattr(d, p)
        if p == "event" and fault:
            u = "FAILED"
        if not (auto.same(u, v) if p in ("V_sys",
                                         "nearest_neighbour_distance")
                else eq(u, v)):
            bad.append((p, u, v))
    for s, t, q in ((b.star_1, d.star_1, "1"), (b.star_2, d.star_2, "2")):
        for p in STARPROPERTIES:
            if p != "profile" and not eq(getattr(s, p + "_history")[0],
                                         getattr(t, p)):
                bad.append((q, p, getattr(s, p + "_history")[0],
                            getattr(t, p)))
    for x in names:
        if not eq(getattr(b.star_1, x), getattr(d.star_1, x)):
            bad.append((x, getattr(b.star_1, x), getattr(d.star_1, x)))
    c.expect(not bad, "the initial binary is recovered from its line",
             bad=bad[:5])
    # the old form of the kicks
    o2 = o.copy()
    k = [float(v) for v in rng.normal(size=4)]
    for j in range(4):
        o2["S2_natal_kick_array_%d" % j] = [k[j]]
    with vk.quiet():
        d = BinaryStar.from_oneline_df(o2)
    c.expect([d.star_2.natal_kick_velocity,
              d.star_2.natal_kick_azimuthal_angle,
              d.star_2.natal_kick_polar_angle,
              d.star_2.natal_kick_mean_anomaly] == k,
             "kicks in their old form")
    c.count("one-line round trips")
    c.seen("oneline", fault, ns, min(n, 4))


ck.require("round trips", 50)
ck.require("one-line round trips", 50)

if __name__ == "__main__":
    sys.exit(ck.main())
