"""C08  Population files show exactly what was stored."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
vk.setup_env()
import numpy as np
import pandas as pd
import popfile as pf
from posydon.popsyn import synthetic_population as SP
from posydon.utils.constants import Zsun

C = vk.Check(
    "C08",
    "random population files (indices plain, sparse, out of order; chunk "
    "sizes from 1) are opened with the real classes and every access is "
    "compared with the stored data frames; signature = (access, index "
    "pattern, chunk class)")


def setup(rng, n=None, mets=(1.,), **kw):
    n = n or int(rng.integers(1, 14))
    ids, pat = pf.indices(rng, n)
    h, o = pf.frames(rng, ids, mets, **kw)
    p = os.path.join(vk.scratch(), "pop_%d.h5" % os.getpid())
    mt = pf.write(p, h, o, mets)
    return p, ids, pat, h, o, mt


def chunk(rng, n):
    return int(rng.choice([1, 2, 3, n, n + 1, max(1, n // 2), 100000]))


@C.family("views", quick=90, thorough=3000)
def views(rng, c):
    p, ids, pat, h, o, mt = setup(rng)
    ch = chunk(rng, len(h))
    c.note(ids=ids, chunk=ch)
    H = SP.History(p, chunksize=ch)
    O = SP.Oneline(p, chunksize=ch)
    c.expect(len(H) == len(h), "number of history rows")
    c.expect(len(O) == len(o), "number of systems")
    c.expect(H.number_of_systems == len(o), "number of systems (history)")
    c.expect(sorted(H.indices.tolist()) == sorted(ids), "indices (history)")
    c.expect(sorted(O.indices.tolist()) == sorted(ids), "indices (oneline)")
    ln = h.groupby(h.index).size()
    c.expect(all(int(H.lengths.loc[i].iloc[0]) == ln[i] for i in ids)
             and len(H.lengths) == len(ids), "history lengths")
    c.expect(list(H.columns) == list(h.columns) and list(O.columns)
             == list(o.columns), "columns")
    top = max(ids) + 2
    for name, V, d in (("history", H, h), ("oneline", O, o)):
        nm = name + " "
        i = int(rng.choice(ids))
        c.expect(pf.same(V[i], d.loc[[i]]), nm + "of one system", i=i)
        miss = [x for x in range(top) if x not in ids]
        if miss:
            c.expect(len(V[int(miss[0])]) == 0, nm + "of an absent system")
        k = int(rng.integers(1, len(ids) + 1))
        sel = [int(x) for x in rng.choice(ids, k, replace=False)]
        want = d[d.index.isin(sel)]
        got = V[sel]
        c.expect(pf.same(got, want), nm + "of a list of systems", sel=sel)
        c.expect(pf.same(V[np.array(sel)], want), nm + "of an index array")
        a, b = sorted(int(x) for x in rng.integers(0, top + 1, 2))
        c.expect(pf.same(V[a:b], d[(d.index >= a) & (d.index < b)]),
                 nm + "slice", a=a, b=b)
        c.expect(pf.same(V[:b], d[d.index < b]), nm + "slice without start",
                 b=b)
        c.expect(pf.same(V[a:], d[d.index >= a]), nm + "slice without end",
                 a=a)
        c.expect(pf.same(V[:], d), nm + "complete slice")
        num = "x" if name == "history" else "y"
        m = (d[num] > 0).to_numpy()
        c.expect(pf.same(V[m], d[m]), nm + "of a boolean array", chunk=ch)
        mm = V[num] > 0
        c.expect(pf.same(V[mm], d[m]), nm + "of a boolean data frame")
        cols = [str(x) for x in rng.choice(d.columns, 3, replace=False)]
        c.expect(pf.same(V[cols[0]], d[[cols[0]]]), nm + "column")
        c.expect(set(V[cols].columns) == set(cols) and pf.same(
            V[cols][cols], d[cols]), nm + "columns")
        for bad in ("nothing", [cols[0], "nothing"]):
            c.raises(ValueError, lambda: V[bad], nm + "unknown column refused")
        c.raises(ValueError, lambda: V[None], nm + "invalid key refused")
        n = int(rng.integers(1, len(d) + 3))
        c.expect(pf.same(V.head(n), d.iloc[:n]), nm + "head", n=n)
        if n <= len(d):
            c.expect(pf.same(V.tail(n), d.iloc[-n:]), nm + "tail", n=n)
        s, e = sorted(int(x) for x in rng.integers(0, len(d) + 1, 2))
        if s < e:
            c.expect(pf.same(V.select(start=s, stop=e), d.iloc[s:e]),
                     nm + "rows by position", s=s, e=e)
        c.expect(pf.same(V.select(where="index == %d" % i), d.loc[[i]]),
                 nm + "select where")
        c.expect(pf.same(V.select(where="index > %d" % i, columns=cols)[cols],
                         d.loc[d.index > i, cols]), nm + "select where, "
                 "columns")
    # opening again: lengths are now read from the file
    H2 = SP.History(p, chunksize=ch)
    c.expect(np.array_equal(H2.lengths.to_numpy(), H.lengths.to_numpy())
             and np.array_equal(H2.indices, H.indices),
             "history lengths are stored")
    c.raises(FileNotFoundError, lambda: SP.History(p + "x"), "missing file")
    c.raises(FileNotFoundError, lambda: SP.Oneline(p + "x"), "missing file")
    c.seen(pat, min(ch, 4), len(ids) > 5)
    c.count("views")


@C.family("population", quick=60, thorough=800)
def population(rng, c):
    mets = [1.] if rng.random() < .5 else [.1, .45, 2.]
    p, ids, pat, h, o, mt = setup(rng, mets=mets)
    with vk.quiet():
        P = SP.Population(p, chunksize=chunk(rng, len(ids)))
    c.expect(len(P) == len(ids) and P.number_of_systems == len(ids),
             "number of systems")
    c.expect(sorted(P.indices.tolist()) == sorted(ids), "indices")
    c.expect(pf.same(P.history[:], h) and pf.same(P.oneline[:], o),
             "tables of a population")
    c.close(P.mass_per_metallicity.to_numpy(), mt.to_numpy(),
            "mass per metallicity", rtol=0)
    c.close(P.solar_metallicities, mets, "metallicities in solar units",
            rtol=1e-12)
    c.close(P.metallicities, np.array(mets) * Zsun, "metallicities",
            rtol=1e-12)
    for k, v in pf.INI.items():
        c.expect(P.ini_params[k] == v, "population parameters", key="ini", k=k)
    c.expect(P.columns == {"history": list(h.columns),
                           "oneline": list(o.columns)}, "columns")
    # a file without accounting, opened with its metallicity and ini file
    with pd.HDFStore(p, "a") as s:
        del s["mass_per_metallicity"]
        del s["ini_parameters"]
    c.raises(ValueError, lambda: SP.Population(p), "file without parameters "
             "refused")
    ini = os.path.join(vk.REPO, "posydon/popsyn/population_params_default.ini")
    z = float(rng.choice([.1, 1., 2.]))
    with vk.quiet():
        P = SP.Population(p, metallicity=z, ini_file=ini)
        Q = SP.Population(p)
    sg = o["state_i"] == "initially_single_star"
    s1 = o["S1_mass_i"][sg].sum()
    b1 = (o["S1_mass_i"] + o["S2_mass_i"])[~sg].sum()
    for X in (P, Q):
        t = X.mass_per_metallicity
        c.expect(list(t.index) == [z], "metallicity of the accounting")
        c.close(t[["simulated_mass", "simulated_mass_single",
                   "simulated_mass_binaries", "number_of_systems"]].iloc[0],
                [s1 + b1, s1, b1, len(o)], "simulated mass of singles and "
                "binaries", rtol=1e-12)
    # opened once more with another metallicity: accounted anew
    z2 = .45
    with vk.quiet():
        P = SP.Population(p, metallicity=z2, ini_file=ini)
        Q = SP.Population(p)
    for X in (P, Q):
        t = X.mass_per_metallicity
        c.expect(list(t.index) == [z2] and list(X.solar_metallicities)
                 == [z2], "accounting replaced", got=list(t.index))
        c.close(t["simulated_mass"].iloc[0], s1 + b1, "accounting replaced: "
                "mass", rtol=1e-12)
        c.close(X.metallicities, [z2 * Zsun], "accounting replaced: "
                "metallicity", rtol=1e-12)
    bad = os.path.join(vk.scratch(), "bad_%d.h5" % os.getpid())
    for drop in ("history", "oneline"):
        pf.write(bad, h, o, mets)
        with pd.HDFStore(bad, "a") as s:
            del s[drop]
        c.raises(ValueError, lambda: SP.Population(bad),
                 "file without %s refused" % drop)
    c.seen("pop", pat, len(mets))
    c.count("populations")


MAP = {"initial_MT": "initial_MT", "stable_MT": "oRLO1",
       "stable_reverse_MT": "oRLO1-reverse", "no_MT": "None",
       "unstable_MT": "oCE1/oDoubleCE1"}


def channel(ev, icl, mth, use):
    ev = [e for e in ev if not pd.isna(e)]
    if icl in ("stable_MT", "stable_reverse_MT"):
        ev = [ev[0], MAP[icl]] + ev[1:]
    dbg = "_".join(ev)
    ch = dbg
    for r in ("_redirect_from_ZAMS", "_redirect_from_CO_HMS_RLO",
              "_redirect_from_CO_HeMS_RLO", "_redirect_from_CO_HeMS",
              "_CO_contact"):
        ch = ch.replace(r, "")
    if use and mth == "Stable contact phase":
        ch = ch.replace("oRLO1", "oRLO1-contact")
    return dbg[:100], ch[:100]


@C.family("channels", quick=90, thorough=1500)
def channels(rng, c):
    p, ids, pat, h, o, mt = setup(rng, n=int(rng.integers(1, 12)),
                                  maxlen=int(rng.choice([4, 7, 12])))
    ch = chunk(rng, len(ids))
    use = bool(rng.random() < .6)
    c.note(ids=ids, chunk=ch, mt_history=use)
    with vk.quiet():
        P = SP.Population(p, chunksize=ch)
        c.expect(P.formation_channels is None, "no channels before they are "
                 "computed")
        for rep in range(int(rng.choice([1, 2]))):
            P.calculate_formation_channels(mt_history=use)
        F = P.formation_channels
    c.expect(sorted(F.index.tolist()) == sorted(ids),
             "every system has one channel", got=F.index.tolist(), ids=ids)
    for i in ids:
        if i not in F.index:
            continue
        r = o.loc[i]
        w = channel(h.loc[[i], "event"], r["interp_class_HMS_HMS"],
                    r["mt_history_HMS_HMS"], use)
        g = F.loc[[i]].iloc[0]
        c.expect(g["channel_debug"] == w[0], "sequence of events",
                 got=g["channel_debug"], want=w[0], chunk=ch, ids=ids)
        c.expect(g["channel"] == w[1], "formation channel", got=g["channel"],
                 want=w[1], mt=use)
    with vk.quiet():
        c.expect(pf.same(SP.Population(p).formation_channels, F),
                 "channels are stored")
    c.expect(pf.same(pd.read_hdf(p, "history"), h)
             and pf.same(pd.read_hdf(p, "oneline"), o),
             "channels leave the tables alone")
    c.seen("channels", pat, min(ch, 4), use)
    c.count("channels")


@C.family("transients", quick=90, thorough=2000)
def transients(rng, c):
    mets = [1.] if rng.random() < .5 else [.1, .45, 2.]
    p, ids, pat, h, o, mt = setup(rng, n=int(rng.integers(1, 12)), mets=mets)
    ch = chunk(rng, len(ids))
    with_fc = bool(rng.random() < .4)
    c.note(ids=ids, chunk=ch, fc=with_fc)
    with vk.quiet():
        P = SP.Population(p, chunksize=ch)
        if with_fc:
            P.calculate_formation_channels(mt_history=False)
    FC = P.formation_channels
    calls = []
    sub = rng.random() < .5
    hc = ["time", "event", "step_names", "x"] if sub else None
    oc = ["metallicity", "y", "mt_history_HMS_HMS"] if sub else None
    texts = [x for x in ("event", "step_names", "mt_history_HMS_HMS")
             if rng.random() < .5]

    def func(hh, oo, ff):
        calls.append((hh, oo, ff))
        # one event per history row with x > 0: time, metallicity, ids
        m = hh["x"] > 0
        df = pd.DataFrame({"time": hh["time"][m] * 1e-6, "x": hh["x"][m]},
                          index=hh.index[m])
        df["metallicity"] = oo["metallicity"].reindex(df.index)
        df["y"] = oo["y"].reindex(df.index)
        for t in texts:
            df[t] = (hh[t][m] if t in hh.columns
                     else oo[t].reindex(df.index)).fillna("-")
        if ff is not None:
            df["channel"] = ff["channel"].reindex(df.index)
        return df
    with vk.quiet():
        T = None
        for rep in range(int(rng.choice([1, 2]))):
            calls = []
            T = P.create_transient_population(func, "tr", oneline_cols=oc,
                                              hist_cols=hc)
    seen = []
    for hh, oo, ff in calls:
        c.expect(set(hh.index) == set(oo.index) and len(oo) <= ch,
                 "a chunk holds the histories of its systems",
                 hist=hh.index.unique().tolist(), one=oo.index.tolist(),
                 ids=ids, chunk=ch)
        if ff is not None:
            c.expect(set(ff.index) == set(oo.index),
                     "a chunk holds the channels of its systems")
        c.expect((ff is not None) == with_fc, "channels passed if known")
        c.expect(pf.same(hh[list(hc or h.columns)], h[h.index.isin(oo.index)][
            list(hc or h.columns)]), "complete histories in a chunk")
        c.expect(pf.same(oo[list(oc or o.columns)], o[o.index.isin(oo.index)][
            list(oc or o.columns)]), "oneline data in a chunk")
        seen += oo.index.tolist()
    c.expect(sorted(seen) == sorted(ids), "each system is in one chunk")
    want = h[h["x"] > 0]
    if len(want) == 0:
        c.expect(T is None, "no transient population without events")
        c.seen("none")
        return
    pop = T.population
    c.expect(len(pop) == len(want), "every event is stored once",
             got=len(pop), want=len(want))
    key = lambda d, t: sorted(zip(d.index.tolist(), d["x"].tolist(), t))
    g = key(pop, (pop["time"] * 1).tolist())
    w = key(want, (want["time"] * 1e-6).tolist())
    c.expect(g == w, "events with their time", got=g[:5], want=w[:5])
    c.expect(np.array_equal(pop["metallicity"], o["metallicity"].loc[
        pop.index]) and np.array_equal(pop["y"], o["y"].loc[pop.index]),
        "events keep the properties of their system")
    for t in texts:
        src = (zip(want.index, want["x"], want[t].fillna("-"))
               if t in h.columns else zip(want.index, want["x"], o[
                   t].reindex(want.index).fillna("-")))
        got = sorted(zip(pop.index.tolist(), pop["x"].tolist(), pop[t]))
        src = sorted((int(a), float(b), d) for a, b, d in src)
        c.expect([tuple(x) for x in got] == src, "events keep their text",
                 name=t, got=got[:4], want=src[:4])
    if with_fc:
        c.expect(np.array_equal(pop["channel"].to_numpy(), FC["channel"].loc[
            pop.index].to_numpy()), "events keep the channel of their system")
    s, e = sorted(int(x) for x in rng.integers(0, len(pop) + 1, 2))
    if s < e:
        c.expect(pf.same(T.select(start=s, stop=e), pop.iloc[s:e]),
                 "events by position")
    c.expect(pf.same(T.select(columns=["time"]), pop[["time"]]),
             "events, one column")
    c.expect(set(T.columns) == set(pop.columns), "event columns")
    c.raises(ValueError, lambda: SP.TransientPopulation(p, "other"),
             "unknown transient population refused")
    for lack in ("time", "metallicity"):
        c.raises(ValueError, lambda: P.create_transient_population(
            lambda a, b, f: func(a, b, f).drop(columns=lack), "bad"),
            "events without %s refused" % lack)
    c.raises(ValueError, lambda: P.create_transient_population(
        func, "bad", hist_cols=["event", "x"]), "history without time refused")
    c.seen("transients", pat, min(ch, 4), with_fc, sub)
    c.count("transients")


for k, m in (("views", 60), ("populations", 40), ("channels", 60),
             ("transients", 60)):
    C.require(k, m)

if __name__ == "__main__":
    sys.exit(C.main())
