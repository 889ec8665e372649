"""C32  Transients are selected and characterised from the right rows."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
import shutil
import tempfile
import numpy as np
import pandas as pd

PDET = {}
SENS = ["O3actual_H1L1V1", "O4low_H1L1V1", "O4high_H1L1V1", "design_H1L1V1"]


def build(data):
    g = np.random.default_rng(5)
    d = os.path.join(data, "selection_effects")
    os.makedirs(d)
    for k in SENS:
        n = 400
        t = pd.DataFrame({"m1": np.round(10 ** g.uniform(0, 2.5, n), 5),
                          "q": np.round(g.uniform(.01, 1, n), 5),
                          "z": np.round(10 ** g.uniform(-2, 1, n), 5),
                          "chieff": np.round(g.uniform(-1, 1, n), 5),
                          "pdet": g.random(n)})
        PDET[k] = t
        t.to_hdf(os.path.join(d, "pdet_grid.hdf5"), key=k)


vk.setup_env(build)
from scipy import stats
from posydon.popsyn import transient_select_funcs as T
from posydon.popsyn.GRB import get_GRB_properties
from posydon.popsyn.analysis import get_subsets
import phys as P

C = vk.Check(
    "C32",
    "random population tables (one or both stars collapsing to black holes "
    "with or without disk, in any order and with any indices) are given to "
    "the real selection functions; every value returned is compared with the "
    "row of the binary it has to come from, detection probabilities with an "
    "own nearest-neighbour search; signature = (function, star, options)")


def binaries(rng, n=None, bbh=False):
    """history and oneline tables, with the truth per binary"""
    n = int(rng.integers(1, 12)) if n is None else n
    idx = rng.choice(10000, n, replace=False)
    rows, one, truth = [], [], {}
    for i in idx:
        t = np.sort(rng.uniform(1e6, 1.3e10, 12))
        k = 0

        def row(step, s1, s2, state, event):
            nonlocal k
            r = dict(S1_state=s1, S2_state=s2, step_names=step, state=state,
                     event=event, time=float(t[k]),
                     orbital_period=float(rng.uniform(.1, 100)),
                     eccentricity=float(rng.random()),
                     S1_spin=float(rng.random()) if rng.random() < .9
                     else np.nan, S2_spin=float(rng.random())
                     if rng.random() < .9 else np.nan,
                     S1_mass=float(rng.uniform(3, 60)),
                     S2_mass=float(rng.uniform(3, 60)))
            k += 1
            rows.append(dict(r, binary_index=int(i)))
            return r
        H = "H-rich_Core_H_burning"
        He = "stripped_He_Core_C_depleted"
        s = [H, H]
        hist = [row("initial_cond", *s, "detached", "ZAMS")]
        order = [0, 1] if rng.random() < .6 else [1, 0]
        ends = ["BH", "BH"] if bbh or rng.random() < .5 else \
            [str(rng.choice(["BH", "NS", "WD"])) for _ in "12"]
        if not bbh and rng.random() < .15:
            order = order[:1]
        info = {"post": {}, "pre": {}}
        for j in order:
            s[j] = He
            if rng.random() < .5:
                hist.append(row("step_HMS_HMS", *s, "detached", "CC%d"
                                % (j + 1)))
            else:
                hist.append(row("step_detached", *s, "detached",
                                "CC%d" % (j + 1)))
            pre = hist[-1]
            s[j] = ends[j]
            hist.append(row("step_SN", *s, "detached", None))
            if ends[j] == "BH":
                info["pre"][j], info["post"][j] = pre, hist[-1]
            if len(order) == 2 and j == order[0] and rng.random() < .5:
                hist.append(row("step_detached", *s, "detached", "oRLO1"))
                hist.append(row("step_CO_HMS_RLO", *s, "detached", None))
        if len(order) == 2:
            info["dco"] = hist[-1]
        if rng.random() < .7 or bbh:
            hist.append(row("step_dco", *s, "contact" if bbh else "detached",
                            "CO_contact" if bbh else "maxtime"))
        info["end"] = row("step_end", *s, "contact" if bbh else "detached",
                          "END")
        truth[int(i)] = info
        o = dict(metallicity=float(rng.choice([1., .1, .01])),
                 weight=float(rng.random()))
        for j in (0, 1):
            o["S%d_m_disk_radiated" % (j + 1)] = float(rng.uniform(0, 2)) \
                if j in info["post"] and rng.random() < .6 else \
                float(rng.choice([0., np.nan]))
            o["S%d_spin_orbit_tilt_second_SN" % (j + 1)] = float(
                rng.uniform(0, np.pi)) if rng.random() < .8 else np.nan
        one.append(o)
        c1, c2 = "_CC%d" % (order[0] + 1), "_CC%d" % (order[-1] + 1)
        info["channel"] = "ZAMS_oRLO1" + c1 + "_oRLO2_" * int(
            rng.integers(0, 2)) + (c2 if len(order) == 2 else "") + "_END"
    h = pd.DataFrame(rows).set_index("binary_index")
    q = list(rng.permutation(len(idx))) if rng.random() < .5 else \
        list(range(len(idx)))
    o = pd.DataFrame([one[i] for i in q], index=[int(idx[i]) for i in q])
    f = pd.DataFrame({"channel": [truth[int(idx[i])]["channel"] for i in q]},
                     index=o.index)
    return h, o, f, truth


def eq(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return bool(a == b or (np.isnan(a) and np.isnan(b))
                or abs(a - b) <= 1e-10 * abs(b))


def frozen(*dfs):
    return [None if d is None else d.copy(deep=True) for d in dfs]


def unchanged(c, kept, *dfs):
    c.expect(all(a is None or a.equals(b) for a, b in zip(kept, dfs)),
             "the tables passed in stay as they were")


@C.family("gamma-ray bursts", quick=500, thorough=10000)
def grb(rng, c):
    h, o, f, truth = binaries(rng)
    j = int(rng.integers(0, 2))
    S, other = "S%d" % (j + 1), "S%d" % (2 - j)
    ch = f if rng.random() < .7 else None
    kept = frozen(h, o, ch)
    out = T.GRB_selection(h, o, ch, S1_S2=S)
    unchanged(c, kept, h, o, ch)
    want = [i for i in o.index if o[S + "_m_disk_radiated"][i] > 0]
    if not want:
        c.expect(len(out) == 0, "no burst without a disk")
        c.seen(S, "none")
        return
    c.expect(sorted(out.index) == sorted(want), "every star with a disk "
             "makes one burst", got=list(out.index), want=want)
    for i in want:
        t = truth[i]
        pre, post = t["pre"][j], t["post"][j]
        w = {"metallicity": o["metallicity"][i], "weight": o["weight"][i],
             S + "_m_disk_radiated": o[S + "_m_disk_radiated"][i],
             "time": post["time"] * 1e-6, other + "_mass":
             post[other + "_mass"]}
        for k in ("orbital_period", "eccentricity", "S1_spin", "S2_spin",
                  S + "_mass"):
            w[k + "_preSN"], w[k + "_postSN"] = pre[k], post[k]
        if ch is not None:
            x = t["channel"]
            mark = "_CC%d" % (j + 1)
            w["channel"] = x[:x.index(mark) + len(mark)]
        for k, v in w.items():
            c.expect(k in out and eq(out[k][i], v), "a burst has the values "
                     "around its own explosion", quantity=k, want=v,
                     got=out[k].get(i) if k in out else None, binary=i)
        c.expect(other + "_m_disk_radiated" not in out, "only the disk of "
                 "the exploding star is given")
        c.count("bursts")
    c.seen(S, ch is None, len(want) > 1)
    c.raises(ValueError, lambda: T.GRB_selection(h, o, ch, S1_S2="S3"),
             "another star is refused")


@C.family("burst energies", quick=300, thorough=6000)
def energies(rng, c):
    n = int(rng.integers(1, 30))
    df = pd.DataFrame({"S%d_m_disk_radiated" % i: np.where(
        rng.random(n) < .6, 10 ** rng.uniform(-3, 1, n),
        rng.choice([0., np.nan], n)) for i in (1, 2)},
        index=rng.choice(1000, n, replace=False))
    df["x"] = rng.random(n)
    eta = float(rng.choice([0., 1., rng.random()], p=[.1, .1, .8]))
    beam = [float(rng.uniform(.001, 1)), "Goldstein+15", "Pescalli+15"][
        int(rng.integers(0, 3))]
    emin = float(rng.choice([0., 10 ** rng.uniform(48, 55)]))
    np.random.seed(int(rng.integers(0, 2**31)))
    out = get_GRB_properties(df.copy(), eta, beam, emin)
    for i in (1, 2):
        m = df["S%d_m_disk_radiated" % i].to_numpy()
        sel = m > 0
        g = {k: out["S%d_%s" % (i, k)].to_numpy() for k in
             ("eta", "f_beaming", "E_GRB", "E_GRB_iso", "L_GRB_iso")}
        E = np.where(sel, eta * np.nan_to_num(m) * P.MSUN * P.C ** 2, 0.)
        c.close(g["eta"], np.where(sel, eta, np.nan), "efficiency only where "
                "there is a disk")
        c.close(g["E_GRB"], E, "energy of the disk", rtol=2e-3)
        fb = g["f_beaming"]
        c.expect(np.array_equal(np.isnan(fb), ~sel), "beaming only where "
                 "there is a disk")
        if isinstance(beam, float):
            c.close(fb[sel], np.full(sel.sum(), beam), "the given beaming")
        elif beam == "Goldstein+15":
            c.expect(np.all((fb[sel] >= 0) & (fb[sel] <= 2)), "solid angle")
        elif eta > 0:
            w = 7e46 / (eta * E[sel] / 25.)
            c.close(fb[sel], w, "beaming of Pescalli+15", rtol=3e-3)
        else:
            c.close(fb[sel], np.ones(sel.sum()), "no energy, no beaming")
        iso = np.where(sel, g["E_GRB"] / np.where(sel, fb, 1), 0)
        c.close(g["E_GRB_iso"], iso, "isotropic energy", rtol=1e-9)
        c.close(g["L_GRB_iso"], iso / 25., "isotropic luminosity", rtol=1e-9)
        c.expect(np.array_equal(out["GRB%d" % i].to_numpy().astype(bool),
                                sel & (iso >= emin)), "bursts above the "
                 "energy threshold are flagged", emin=emin)
        c.seen(i, str(beam)[:3], emin > 0, eta in (0., 1.))
        c.count("energies", sel.sum())
    c.expect(out["x"].equals(df["x"]) and list(out.index) == list(df.index),
             "nothing else is changed")
    for bad in (1, "a", -.1, 1.1):
        c.raises(ValueError, lambda: get_GRB_properties(df.copy(), bad, .5),
                 "unphysical efficiency refused")
    c.raises(ValueError, lambda: get_GRB_properties(df.copy(), .1, "none"),
             "unknown beaming refused")
    c.raises(ValueError, lambda: get_GRB_properties(
        df.drop(columns="S2_m_disk_radiated"), .1, .5),
        "tables without disks refused")


@C.family("opening angles", quick=4, thorough=40)
def angles(rng, c):
    n = 4000
    df = pd.DataFrame({"S1_m_disk_radiated": np.ones(n),
                       "S2_m_disk_radiated": np.ones(n)})
    np.random.seed(int(rng.integers(0, 2**31)))
    out = get_GRB_properties(df, .1, "Goldstein+15")
    x = np.concatenate((out["S1_f_beaming"], out["S2_f_beaming"]))
    th = np.log10(np.degrees(np.arccos(1 - x)))
    p = stats.kstest((th - .77) / .37, "norm").pvalue
    c.expect(p > 1e-7, "opening angles follow Goldstein+15", p=p)
    c.seen("angles")


@C.family("double black holes", quick=500, thorough=10000)
def bbh(rng, c):
    h, o, f, truth = binaries(rng, bbh=True)
    ch = f if rng.random() < .7 else None
    kept = frozen(h, o, ch)
    out = T.BBH_selection_function(h, o, ch)
    unchanged(c, kept, h, o, ch)
    c.expect(list(out.index) == list(o.index), "one entry per binary, in the "
             "order given", got=list(out.index))
    for i in o.index:
        t = truth[i]
        d, e = t["dco"], t["end"]
        tilt = [o["S%d_spin_orbit_tilt_second_SN" % k][i] for k in (1, 2)]
        a = [np.nan_to_num(d["S%d_spin" % k]) for k in (1, 2)]
        m = [d["S%d_mass" % k] for k in (1, 2)]
        w = {k: d[k] for k in ("S1_state", "S2_state", "S1_mass", "S2_mass",
                               "S1_spin", "S2_spin", "orbital_period",
                               "eccentricity")}
        w.update(time=e["time"] * 1e-6,
                 t_inspiral=(e["time"] - d["time"]) * 1e-6,
                 metallicity=o["metallicity"][i],
                 S1_spin_orbit_tilt_at_merger=tilt[0],
                 S2_spin_orbit_tilt_at_merger=tilt[1],
                 chirp_mass=(m[0] * m[1]) ** .6 / sum(m) ** .2,
                 mass_ratio=min(m) / max(m),
                 chi_eff=(m[0] * a[0] * np.cos(np.nan_to_num(tilt[0]))
                          + m[1] * a[1] * np.cos(np.nan_to_num(tilt[1])))
                 / sum(m))
        if ch is not None:
            w["channel"] = t["channel"]
        for k, v in w.items():
            if k == "t_inspiral":
                ok = abs(out[k][i] - v) < 1e-8 * e["time"] * 1e-6
            elif k == "chi_eff":
                ok = abs(out[k][i] - v) < 1e-12
            else:
                ok = k in out and eq(out[k][i], v)
            c.expect(ok, "a merger has the values after its second "
                     "explosion", quantity=k, want=v,
                     got=out[k][i] if k in out else None)
        c.count("mergers")
    c.seen(ch is None, len(o) > 1, list(o.index) == list(h.index.unique()))


@C.family("relations", quick=400, thorough=8000)
def relations(rng, c):
    n = int(rng.integers(1, 20))
    ser = rng.random() < .5
    mk = (lambda x: pd.Series(x)) if ser else np.asarray
    m1, m2 = [rng.uniform(1, 80, n) for _ in "12"]
    a1, a2 = [rng.uniform(0, 1, n) for _ in "12"]
    t1, t2 = [rng.uniform(0, np.pi, n) for _ in "12"]
    if rng.random() < .5:
        for v in (a1, a2, t1, t2):
            v[rng.random(n) < .2] = np.nan
    if rng.random() < .3:
        m2[0] = m1[0]
    z = np.nan_to_num
    args = [mk(x.copy()) for x in (m1, m2, a1, a2, t1, t2)]
    got = T.chi_eff(*args)
    c.close(np.asarray(got), (m1 * z(a1) * np.cos(z(t1)) + m2 * z(a2)
                              * np.cos(z(t2))) / (m1 + m2),
            "effective spin, unknown spins and tilts as 0", rtol=1e-12,
            atol=1e-14)
    c.expect(all(np.array_equal(np.asarray(x), y, equal_nan=True)
                 for x, y in zip(args, (m1, m2, a1, a2, t1, t2))),
             "arguments of the effective spin stay as they were")
    q = m2 / m1
    got = T.mass_ratio(mk(m1.copy()), mk(m2.copy()))
    c.close(np.asarray(got), np.minimum(q, 1 / q), "mass ratios are at most "
            "one", rtol=1e-12)
    c.close(np.asarray(T.m_chirp(mk(m1), mk(m2))),
            (m1 * m2) ** .6 * (m1 + m2) ** -.2, "chirp mass", rtol=1e-12)
    A, B = np.maximum(m1, m2), np.minimum(m1, m2)
    q = B / A
    w = np.maximum(z(a1) * np.sin(z(t1)), q * (4 * q + 3) / (4 + 3 * q)
                   * z(a2) * np.sin(z(t2)))
    c.close(np.asarray(T.effective_precession(
        mk(z(t1)), mk(z(t2)), mk(z(a1)), mk(z(a2)), mk(A), mk(B))), w,
        "effective precession", rtol=1e-12, atol=1e-15)
    c.seen(ser, bool(np.isnan(a1).any()), n == 1)
    c.count("relations")


def pdet(key, m1, q, z, chi):
    """mean of the 10 nearest grid points weighted by inverse distance"""
    t = PDET[key]

    def nrm(x, g, log):
        lo, hi = g.min(), g.max()
        f = np.log10 if log else (lambda y: y)
        return (f(x) - f(lo)) / (f(hi) - f(lo))
    X = np.array([nrm(t[k], t[k], k in ("m1", "z"))
                  for k in ("m1", "q", "z", "chieff")])
    x = np.array([nrm(v, t[k], k in ("m1", "z")) for k, v in
                  (("m1", m1), ("q", q), ("z", z), ("chieff", chi))])
    d = np.sqrt(((X - x[:, None]) ** 2).sum(0))
    k = np.argsort(d)[:10]
    if d[k[0]] == 0:
        return t["pdet"][k[0]]
    return np.average(t["pdet"].to_numpy()[k], weights=1 / d[k])


@C.family("detectability", quick=240, thorough=4000)
def detect(rng, c):
    n, e = int(rng.integers(1, 7)), int(rng.integers(1, 4))
    key = str(rng.choice(SENS))
    idx = rng.choice(100, n, replace=False)
    tr = pd.DataFrame({"S1_mass": 10 ** rng.uniform(.3, 2, n),
                       "S2_mass": 10 ** rng.uniform(.3, 2, n),
                       "S1_spin": rng.random(n), "S2_spin": rng.random(n),
                       "S1_spin_orbit_tilt_at_merger":
                       rng.uniform(0, np.pi, n),
                       "S2_spin_orbit_tilt_at_merger":
                       rng.uniform(0, np.pi, n)}, index=idx)
    m1 = np.maximum(tr.S1_mass, tr.S2_mass).to_numpy()
    q = (np.minimum(tr.S1_mass, tr.S2_mass) / m1).to_numpy()
    form = "computed"
    if rng.random() < .4:
        tr["chi_eff"] = chi = rng.uniform(-1, 1, n)
        form += " chi"
    if rng.random() < .4:           # a given ratio belongs to S1 as primary
        tr["S1_mass"], tr["S2_mass"] = m1, m1 * q
        tr["q"] = q
        form += " q"
    if rng.random() < .2:           # exactly on a point of the table
        g = PDET[key].iloc[int(rng.integers(0, 400))]
        tr = tr.drop(columns=[x for x in ("q",) if x in tr])
        tr.loc[idx[0], "S1_mass"], tr.loc[idx[0], "S2_mass"] = \
            g["m1"], g["m1"] * g["q"]
        m1[0], q[0] = g["m1"], g["q"]
    if "chi_eff" not in tr:
        chi = ((tr.S1_mass * tr.S1_spin
                * np.cos(tr.S1_spin_orbit_tilt_at_merger)
                + tr.S2_mass * tr.S2_spin
                * np.cos(tr.S2_spin_orbit_tilt_at_merger))
               / (tr.S1_mass + tr.S2_mass)).to_numpy()
    z = pd.DataFrame(10 ** rng.uniform(-2, 1, (n, e)), index=idx)
    z = z.mask(rng.random((n, e)) < .2)
    w = pd.DataFrame(np.where(z.isna(), 0., rng.random((n, e))), index=idx)
    kept = frozen(tr, z, w)
    out = T.DCO_detectability(key, tr, z, w)
    unchanged(c, kept, tr, z, w)
    want = np.array([[0. if np.isnan(z.iloc[i, j]) else w.iloc[i, j] * pdet(
        key, m1[i], q[i], z.iloc[i, j], chi[i]) for j in range(e)]
        for i in range(n)])
    c.close(out.to_numpy(), want, "each event is weighted by the detection "
            "probability of its own masses, spin and redshift", rtol=1e-6,
            atol=1e-9, sensitivity=key, form=form)
    c.expect(list(out.index) == list(idx), "events keep their binary")
    c.raises(ValueError, lambda: T.DCO_detectability("O9", tr, z, w),
             "unknown sensitivity refused")
    c.seen(key, form, bool(z.isna().any().any()))
    c.count("detections", n * e)


@C.family("subsets", quick=24, thorough=240)
def subsets(rng, c):
    d = tempfile.mkdtemp(dir=vk.scratch())
    try:
        n = int(rng.choice([3, 40, 1500, 2600]))
        idx = np.arange(n) + int(rng.integers(0, 50))
        rep = rng.integers(2, 7, n)
        o = pd.DataFrame({"S1_mass_i": rng.uniform(1, 50, n),
                          "S2_mass_i": rng.uniform(1, 50, n),
                          "metallicity": rng.choice([1., .1], n)}, index=idx)
        hi = np.repeat(idx, rep)
        h = pd.DataFrame({"time": rng.random(len(hi)),
                          "S1_mass": rng.uniform(1, 50, len(hi)),
                          "S1_spin": rng.random(len(hi))}, index=hi)
        path = os.path.join(d, "p.h5")
        o.to_hdf(path, key="oneline", format="table")
        h.to_hdf(path, key="history", format="table", append=True)
        lim = float(rng.choice([0., 10., 45., 49.9, 99.]))
        mode = str(rng.choice(["oneline", "history", "all"]))
        kw = {}
        if mode == "oneline":
            kw["select_oneline"] = lambda x: x["S1_mass_i"] > lim
            ok = set(o.index[o["S1_mass_i"] > lim])
        elif mode == "history":
            kw["select_history"] = lambda x: x["S1_mass"] > lim
            ok = set(h.index[h["S1_mass"] > lim])
        else:
            ok = set(idx)
        N = int(rng.choice([1, 5, 700, 10 ** 6])) if rng.random() < .6 \
            else None
        pat = [None, "S1", ["mass", "time"]][int(rng.integers(0, 3))]
        with vk.quiet():
            go, gh = get_subsets(path, find_n=N, select_columns=pat,
                                 verbose=bool(rng.random() < .3), **kw)
        got = set(go.index)
        if mode != "all" and N is not None and len(ok) >= N:
            c.expect(len(got) == N and got <= ok, "as many as asked for",
                     got=len(got), want=N)
        else:
            c.expect(got == ok, "exactly the binaries selected",
                     got=len(got), want=len(ok))
        if len(got):
            cols = [[k for k in t.columns if pat is None or any(
                p in k for p in ([pat] if isinstance(pat, str) else pat))]
                for t in (o, h)]
            c.expect(go.equals(o.loc[sorted(got), cols[0]]), "their complete "
                     "oneline data")
            c.expect(gh.equals(h[h.index.isin(got)][cols[1]]), "and their "
                     "complete history", rows=len(gh),
                     want=int(h.index.isin(got).sum()))
        c.raises(Exception, lambda: get_subsets(
            path, select_oneline=lambda x: x, select_history=lambda x: x),
            "two selectors are refused")
        c.seen(mode, N, n > 1000, pat is None, len(got) == 0)
        c.count("subsets")
    finally:
        shutil.rmtree(d, ignore_errors=True)


for k_, m_ in (("bursts", 200), ("energies", 1000), ("mergers", 500),
               ("relations", 200), ("detections", 300), ("subsets", 12)):
    C.require(k_, m_)
if __name__ == "__main__":
    sys.exit(C.main())
