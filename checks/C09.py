"""C09  Exported selections are faithful, correctly renumbered sub-populations."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import vk
vk.setup_env()
import hashlib
import numpy as np
import pandas as pd
import popfile as pf
from posydon.popsyn import synthetic_population as SP

C = vk.Check(
    "C09",
    "random sequences of exports (fresh, overwriting, appending; several "
    "source populations, chunk sizes from 1) are replayed against an "
    "in-memory model of the target file; signature = (operation, source "
    "pattern, chunks, metallicity layout)")


def digest(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def tables(p):
    with pd.HDFStore(p, "r") as s:
        return {k.strip("/"): s[k] for k in s.keys()}


def same_tables(a, b):
    return set(a) == set(b) and all(pf.same(a[k], b[k]) for k in a)


def renumber(df, sel, new):
    out = []
    for i in sel:
        r = df.loc[[i]].copy()
        r.index = [new[i]] * len(r)
        out.append(r)
    return pd.concat(out) if out else df.iloc[:0]


class Source:
    def __init__(self, rng, k, mets, fc, with_met=True):
        n = int(rng.integers(1, 11))
        self.ids, self.pat = pf.indices(rng, n)
        self.mets = mets
        self.h, self.o = pf.frames(rng, self.ids, mets, with_met=with_met)
        self.path = os.path.join(vk.scratch(), "src%d_%d.h5" % (k, os.getpid()))
        # the simulated mass need not be that of the systems in the file
        self.mass = pf.mass_table(self.o, mets)
        for col in self.mass.columns[:3]:
            self.mass[col] = self.mass[col] * rng.uniform(1, 9) + 1.
        pf.write(self.path, self.h, self.o, mets, mass=self.mass)
        self.chunk = int(rng.choice([1, 2, 3, n, 100000]))
        with vk.quiet():
            self.P = SP.Population(self.path, chunksize=self.chunk)
            if fc:
                self.P.calculate_formation_channels(mt_history=False)
        self.fc = self.P.formation_channels

    def select(self, rng):
        k = int(rng.integers(1, len(self.ids) + 1))
        s = [int(x) for x in rng.choice(self.ids, k, replace=False)]
        if rng.random() < .5:
            s.sort()
        return s


class Target:
    """what the exported file has to hold"""

    def __init__(self):
        self.h = self.o = self.f = self.l = self.m = None

    def add(self, src, sel):
        first = 0 if self.o is None else int(max(self.o.index)) + 1
        new = {i: first + k for k, i in enumerate(sel)}
        o = src.o.copy()
        if "metallicity" not in o.columns:
            o["metallicity"] = src.mets[0]
        parts = {"o": renumber(o, sel, new), "h": renumber(src.h, sel, new)}
        if src.fc is not None:
            parts["f"] = renumber(src.fc, sel, new)
        ln = src.h.groupby(src.h.index).size().to_frame("length")
        parts["l"] = renumber(ln, sel, new)
        m = src.mass.copy()
        zs = o.loc[sel, "metallicity"]
        m["number_of_systems"] = [int((zs == z).sum()) for z in m.index]
        if self.m is not None:
            m = pd.concat([self.m, m])
            m = m.groupby(level=0).sum()
        self.m = m
        for k, v in parts.items():
            old = getattr(self, k)
            setattr(self, k, v if old is None else pd.concat([old, v]))

    def compare(self, c, path, **kw):
        with vk.quiet():
            t = tables(path)
        c.expect(pf.same(t["oneline"], self.o), "exported oneline rows",
                 got=t["oneline"].index.tolist(), want=self.o.index.tolist(),
                 **kw)
        c.expect(pf.same(t["history"], self.h), "exported histories",
                 got=t["history"].index.tolist(), want=self.h.index.tolist(),
                 **kw)
        hl = t["history_lengths"]
        c.expect(hl.index.tolist() == self.l.index.tolist() and np.array_equal(
            hl.iloc[:, 0].to_numpy(), self.l.iloc[:, 0].to_numpy()),
            "exported history lengths", **kw)
        if self.f is None:
            c.expect("formation_channels" not in t, "no channels invented")
        else:
            c.expect(pf.same(t["formation_channels"], self.f),
                     "exported formation channels", **kw)
        g = t["mass_per_metallicity"].sort_index()
        w = self.m.sort_index()
        c.close(g.index.to_numpy(), w.index.to_numpy(), "metallicities of the "
                "exported file", rtol=0)
        for col in w.columns:
            c.close(g[col].to_numpy(), w[col].to_numpy(), "exported %s per "
                    "metallicity" % col, rtol=1e-12, **kw)


@C.family("export", quick=110, thorough=3000)
def export(rng, c):
    fc = bool(rng.random() < .5)
    layout = int(rng.integers(3))
    mets = [[[1.]] * 3, [[1.], [.1], [.1, 1., 2.]], [[.1, .45], [.45, 2.],
                                                    [1.]]][layout]
    srcs = [Source(rng, k, mets[k], fc, with_met=len(mets[k]) > 1
                   or rng.random() < .6) for k in range(3)]
    path = os.path.join(vk.scratch(), "out_%d.h5" % os.getpid())
    if os.path.exists(path):
        os.remove(path)
    tgt = Target()
    nops = int(rng.integers(1, 5))
    for op in range(nops):
        src = srcs[int(rng.integers(3))]
        sel = src.select(rng)
        hc = int(rng.choice([1, 2, 3, len(sel), 1000000]))
        before = (tables(src.path), src.P.mass_per_metallicity.copy(),
                  list(sel))
        kw = {}
        if op and rng.random() < .25:
            d = digest(path)
            c.raises(FileExistsError, lambda: src.P.export_selection(
                sel, path), "an existing file is not replaced silently")
            c.raises(ValueError, lambda: src.P.export_selection(
                sel, path, overwrite=True, append=True),
                "contradictory options refused")
            c.expect(digest(path) == d, "a refused export leaves the file "
                     "alone")
            c.count("refused")
        if op == 0:
            kind = "new" if rng.random() < .6 else str(
                rng.choice(["append", "overwrite"]))
        else:
            kind = "append" if rng.random() < .75 else "overwrite"
        if kind != "new":
            kw[kind] = True
        if kind != "append":
            tgt = Target()
        c.note(op=op, kind=kind, sel=sel, hc=hc, chunk=src.chunk)
        with vk.quiet():
            src.P.export_selection(sel, path, history_chunksize=hc, **kw)
        tgt.add(src, sel)
        tgt.compare(c, path, op=op, kind=kind, sel=sel, chunk=src.chunk,
                    history_chunksize=hc)
        c.expect(same_tables(tables(src.path), before[0]),
                 "exporting leaves the source file alone")
        c.expect(pf.same(src.P.mass_per_metallicity, before[1])
                 and len(src.P) == len(src.ids)
                 and sel == before[2],
                 "exporting leaves the population object alone")
        c.count(kind)
        c.seen(kind, src.pat, min(src.chunk, 4), min(hc, 4), layout, fc,
               len(sel) == len(src.ids), sel == sorted(sel))
    # the exported file is itself a population
    ch = int(rng.choice([1, 2, 5]))
    with vk.quiet():
        E = SP.Population(path, chunksize=ch)
    c.expect(len(E) == len(tgt.o) and sorted(E.indices.tolist())
             == sorted(tgt.o.index.tolist()), "systems of the exported file")
    i = int(rng.choice(tgt.o.index))
    c.expect(pf.same(E.history[i], tgt.h.loc[[i]])
             and pf.same(E.oneline[i], tgt.o.loc[[i]]),
             "one system of the exported file")
    c.expect(E.ini_params == srcs[0].P.ini_params and all(
        E.ini_params.get(k) == pf.INI[k] for k in (
            "binary_fraction_const", "primary_mass_min", "orbital_scheme")),
        "parameters of the exported file", got=E.ini_params)

    def func(hh, oo, ff):
        df = pd.DataFrame({"time": hh["time"] * 1e-6, "x": hh["x"],
                           "metallicity": oo["metallicity"].reindex(hh.index),
                           "y": oo["y"].reindex(hh.index)}, index=hh.index)
        return df
    with vk.quiet():
        T = E.create_transient_population(func, "all").population
    c.expect(sorted(zip(T.index, T["x"], T["y"])) == sorted(
        zip(tgt.h.index, tgt.h["x"], tgt.o["y"].loc[tgt.h.index])),
        "events from the exported file belong to their systems")
    # export of an export
    if rng.random() < .5:
        p2 = os.path.join(vk.scratch(), "out2_%d.h5" % os.getpid())
        if os.path.exists(p2):
            os.remove(p2)
        sel = [int(x) for x in tgt.o.index if x % 2 == 0]
        with vk.quiet():
            E.export_selection(sel, p2, history_chunksize=ch)
            Q = SP.Population(p2)
        new = {j: k for k, j in enumerate(sel)}
        c.expect(pf.same(Q.history[:], renumber(tgt.h, sel, new))
                 and pf.same(Q.oneline[:], renumber(tgt.o, sel, new)),
                 "export of an exported file", sel=sel)
        c.count("re-export")


@C.family("refusals", quick=12, thorough=60)
def refusals(rng, c):
    s = Source(rng, 7, [.1, 1.], False, with_met=False)
    path = os.path.join(vk.scratch(), "none_%d.h5" % os.getpid())
    if os.path.exists(path):
        os.remove(path)
    with vk.quiet():
        c.raises(ValueError, lambda: s.P.export_selection(s.ids[:1], path),
                 "several metallicities without a column refused")
        t = Source(rng, 8, [1.], False)
        c.raises(ValueError, lambda: t.P.export_selection(
            t.ids[:1], os.path.join(vk.scratch(), "name.hdf")),
            "file name without .h5 refused")
    c.expect(not os.path.exists(os.path.join(vk.scratch(), "name.hdf")),
             "refused export creates no file")
    c.seen("refusals")
    c.count("refusals")


for k, m in (("new", 40), ("append", 50), ("overwrite", 20), ("refused", 8),
             ("re-export", 20), ("refusals", 10)):
    C.require(k, m)

if __name__ == "__main__":
    sys.exit(C.main())
