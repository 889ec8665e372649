"""C29: data sets are installed verified; MESA output is compressed without
loss."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vk
vk.setup_env()
import argparse
import contextlib
import gzip
import hashlib
import io
import shutil
import tarfile
import numpy as np
import posydon.config
from posydon.utils import compress_mesa_files as cm
from posydon.utils import data_download as dd
from posydon.utils.datasets import COMPLETE_SETS, ZENODO_COLLECTION

ck = vk.Check("C29", "random archives offered by file:// addresses (right, "
              "damaged, undated or unpublished ones, sets of several layers) "
              "are downloaded and installed into scratch folders; random "
              "folders of MESA runs (core dumps, texts, odd names, other "
              "folders, links) are compressed; the file trees before and "
              "after are compared byte by byte; non-trivial by (outcome, "
              "layers, kinds of files)")


def tree(d):
    """Every file below a folder with its content; links by target."""
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            r = os.path.relpath(q, d)
            if os.path.islink(q):
                out[r] = ("link", os.readlink(q))
            else:
                with open(q, "rb") as h:
                    out[r] = h.read()
    return out


@contextlib.contextmanager
def silent():
    """Progress bars write to the error stream itself."""
    keep = os.dup(2)
    with open(os.devnull, "w") as f:
        os.dup2(f.fileno(), 2)
        try:
            yield
        finally:
            os.dup2(keep, 2)
            os.close(keep)


def archive(rng, path, names):
    files = {}
    with tarfile.open(path, "w:gz") as t:
        for n in names:
            data = rng.bytes(int(rng.integers(0, 4000)))
            i = tarfile.TarInfo("POSYDON_data/" + n)
            i.size = len(data)
            t.addfile(i, io.BytesIO(data))
            files["POSYDON_data/" + n] = data
    with open(path, "rb") as f:
        md5 = hashlib.md5(f.read()).hexdigest()
    return files, md5


NAMES = ["HMS-HMS/1e+00_Zsun.h5", "single_HMS/1e-01_Zsun.h5", "a/b/c.csv",
         "SFR/x y.txt", "readme", "deep/er/and/deeper.h5"]


@ck.family("download", quick=120, thorough=1500)
def download(rng, c):
    d = os.path.join(vk.scratch(), "c29_%d_%d" % (os.getpid(), c.index))
    web, home = os.path.join(d, "web"), os.path.join(d, "home")
    os.makedirs(web)
    os.makedirs(os.path.join(home, "POSYDON_data", "mine"))
    with open(os.path.join(home, "POSYDON_data", "mine", "notes"), "w") as f:
        f.write("keep")
    keep = dict(ZENODO_COLLECTION), dict(COMPLETE_SETS)
    old = dd.PATH_TO_POSYDON_DATA, sys.argv
    dd.PATH_TO_POSYDON_DATA = os.path.join(home, "POSYDON_data")
    before = tree(home)
    n = int(rng.integers(1, 4))
    layers = []
    try:
        for k in range(n):
            names = [x for x in NAMES if rng.uniform() < .6] or ["readme"]
            p = os.path.join(web, "POSYDON_data_%d.tar.gz" % k)
            files, md5 = archive(rng, p, names)
            kind = str(rng.choice(["ok", "ok", "ok", "damaged", "undefined",
                                   "unpublished"]))
            url = "file://" + p
            if kind == "damaged":
                how = int(rng.integers(3))
                with open(p, "rb") as f:
                    raw = f.read()
                if how == 0:        # cut off
                    raw = raw[:int(len(raw) * rng.uniform(.1, .95))]
                elif how == 1:      # another, valid archive
                    archive(rng, p, names + ["evil"])
                    raw = None
                else:               # one byte more
                    raw += b"x"
                if raw is not None:
                    with open(p, "wb") as f:
                        f.write(raw)
                kind += str(how)
            if kind == "undefined":
                md5 = None
            if kind == "unpublished":
                url = None
            key = "t%d_%d" % (c.index, k)
            ZENODO_COLLECTION[key] = dict(data=url, md5=md5, url="x",
                                          title="t", description="d")
            layers.append((key, kind, files, p))
        COMPLETE_SETS["s%d" % c.index] = [x[0] for x in layers]
        check = bool(rng.uniform() < .75)
        what = "s%d" % c.index if rng.uniform() < .6 or n > 1 \
            else layers[0][0]
        via = int(rng.integers(3))
        c.note(kinds=[x[1] for x in layers], check=check, via=via)
        err = None
        try:
            with vk.quiet(), silent():
                if via == 0:
                    sys.argv = ["get-posydon-data", what] + (
                        [] if check else ["-n"])
                    dd._get_posydon_data()
                elif via == 1 and check:
                    dd.data_download(what)
                else:
                    dd.data_download(set_name=what, MD5_check=check,
                                     verbose=bool(rng.integers(2)))
        except SystemExit as e:
            err = e
        except Exception as e:
            err = e
        want, fails, cut = dict(before), False, False
        for key, kind, files, p in layers:
            if kind == "unpublished" or (kind.startswith("damaged")
                                         and check):
                fails = True
                break
            if kind == "damaged0":  # unchecked and cut off: an error
                fails = cut = True
                break
            if kind == "damaged1":
                with tarfile.open(p) as t:
                    files = {m.name: t.extractfile(m).read()
                             for m in t.getmembers()}
            want.update(files)
        got = tree(home)
        c.expect((err is not None) == fails, "data which is damaged or not "
                 "published is refused, other data is not", error=repr(err),
                 kinds=[x[1] for x in layers])
        if not cut:
            c.expect(got == want, "the folder holds exactly what the verified "
                     "archives hold and what it held before",
                     extra=sorted(set(got) - set(want))[:5],
                     missing=sorted(set(want) - set(got))[:5],
                     other=[k for k in want if k in got
                            and got[k] != want[k]][:5])
        c.expect(all(os.path.isfile(x[3]) for x in layers), "sources kept")
        if not fails:
            # an archive in the way is not overwritten
            q = os.path.join(home, os.path.basename(layers[-1][3]))
            with open(q, "w") as f:
                f.write("mine")
            c.raises(FileExistsError, lambda: dd.download_one_dataset(
                layers[-1][0]), "an existing file is not overwritten")
            with open(q) as f:
                c.expect(f.read() == "mine", "an existing file is kept")
            dd.PATH_TO_POSYDON_DATA = os.path.join(home, "no", "data")
            c.raises(NotADirectoryError, lambda: dd.download_one_dataset(
                layers[-1][0]), "no such folder")
        c.raises(KeyError, lambda: dd.data_download("nonsense"), "unknown")
        c.raises(TypeError, lambda: dd.data_download(3), "no name")
    finally:
        dd.PATH_TO_POSYDON_DATA, sys.argv = old
        for x, y in zip((ZENODO_COLLECTION, COMPLETE_SETS), keep):
            x.clear()
            x.update(y)
        shutil.rmtree(d, ignore_errors=True)
    c.count("installed", len(layers))
    c.seen("download", tuple(x[1] for x in layers), check)


@ck.family("sets", quick=1, thorough=1)
def sets(rng, c):
    import re
    for s, ds in COMPLETE_SETS.items():
        c.expect(ds and all(x in ZENODO_COLLECTION for x in ds),
                 "sets consist of known data", name=s)
    for k, v in ZENODO_COLLECTION.items():
        c.expect(v["md5"] is None or re.fullmatch("[0-9a-f]{32}", v["md5"]),
                 "checksum", name=k)
    c.seen("sets", len(COMPLETE_SETS))


RUN = ["LOGS1/history.data", "LOGS1/final_profile.data", "LOGS2/history.data",
       "binary_history.data", "final_star1.mod", "final_star2.mod", "out.txt",
       "inlist_grid_points", "inlist1", "core", "core.1234", "core.txt",
       "LOGS1/core.99", "photos/x100", "out_star1.txt.gz", "binary",
       "tmp.data.bak", "initial_star1.mod", "score.dat", "hardcore",
       "LOGS1/profile index.data", "re'port.txt", "$HOME.txt", "a;b.data"]
OTHER = ["core", "history.data", "notes.txt", "x.mod", "plan.csv"]


def mesa(rng, root):
    """A folder of MESA runs and other files."""
    for r in range(int(rng.integers(0, 5))):
        f = os.path.join(root, ["", "grid_low", "my grid"][int(
            rng.integers(3))], "m1_%.4f_m2_%.4f_initial_period_in_days_%.4e"
            "_initial_z_1.42e-02_grid_index_%d" % (
                rng.uniform(1, 99), rng.uniform(1, 9), rng.uniform(1, 99), r))
        put(rng, f, [x for x in RUN if rng.uniform() < .5])
    put(rng, root, [x for x in OTHER if rng.uniform() < .5])
    put(rng, os.path.join(root, "plots"), [x for x in OTHER
                                           if rng.uniform() < .5])


def put(rng, f, names):
    for x in names:
        p = os.path.join(f, x)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h:
            h.write(rng.bytes(int(rng.integers(0, 600)))
                    * int(rng.integers(1, 4)))


@ck.family("compress", quick=40, thorough=400)
def compress(rng, c):
    d = os.path.join(vk.scratch(), "c29c_%d_%d" % (os.getpid(), c.index))
    root = os.path.join(d, ["grid", "a grid", "it's(1)"][c.index % 3])
    os.makedirs(root)
    old = sys.argv
    try:
        mesa(rng, root)
        before = tree(root)
        want, n = {}, 0
        for p, v in before.items():
            if "_grid_index_" not in os.path.dirname(p):
                want[p] = v
                continue
            stem, ext = os.path.splitext(os.path.basename(p))
            if stem == "core":
                continue
            if ext in (".data", ".mod", ".txt"):
                want[p + ".gz"] = v
                n += 1
            else:
                want[p] = v
        size = cm.get_size(root)
        c.expect(size[0] == sum(map(len, before.values())), "size of a "
                 "folder", got=size[0])
        c.expect(size[3] == len({p.split("_grid_index_")[1].split("/")[0]
                                 for p in before if "_grid_index_" in p}),
                 "number of runs", got=size[3])
        with vk.quiet():
            if c.index % 2:
                sys.argv = ["posydon-compress-mesa", root]
                cm._compress_MESA()
            else:
                cm.compress_dir(argparse.Namespace(
                    mesa_dir=root, verbose=True, debug=bool(c.index % 4)))
        got = {}
        for p, v in tree(root).items():
            if p in want and want[p] == v:
                got[p] = v
            elif p.endswith(".gz") and p[:-3] in before:
                try:
                    got[p] = gzip.decompress(v)
                except Exception as e:
                    got[p] = repr(e)
            else:
                got[p] = v
        c.expect(got == want, "texts of MESA runs compressed without loss, "
                 "core dumps removed, everything else untouched",
                 extra=sorted(set(got) - set(want))[:5],
                 missing=sorted(set(want) - set(got))[:5],
                 other=[k for k in want if k in got
                        and got[k] != want[k]][:5])
        again = tree(root)
        with vk.quiet():
            cm.compress_dir(argparse.Namespace(mesa_dir=root, verbose=False,
                                               debug=False))
        c.expect(tree(root) == again, "nothing left to do a second time")
        c.raises(NotADirectoryError, lambda: cm.compress_dir(
            argparse.Namespace(mesa_dir=root + "x", verbose=False,
                               debug=False)), "no such folder")
    finally:
        sys.argv = old
        shutil.rmtree(d, ignore_errors=True)
    c.count("compressed", n)
    c.seen("compress", c.index % 3, n > 0)


@ck.family("sample", quick=30, thorough=300)
def sample(rng, c):
    """A reduced copy for tests."""
    d = os.path.join(vk.scratch(), "c29s_%d_%d" % (os.getpid(), c.index))
    root, out = os.path.join(d, "grids"), os.path.join(d, "out")
    os.makedirs(root)
    os.makedirs(out)
    old = sys.argv
    try:
        num = {}
        for g in range(int(rng.integers(1, 4))):
            f = os.path.join(root, "grid_%d" % g)
            for r in range(int(rng.integers(1, 9))):
                put(rng, os.path.join(f, "m1_%d_grid_index_%d" % (r, r)),
                    [x for x in RUN if rng.uniform() < .5] + ["inlist"])
            if rng.uniform() < .5:
                put(rng, f, ["grid.csv"])
            num["grid_%d" % g] = len(os.listdir(f))
        put(rng, os.path.join(root, "plots"), ["x.png"])
        before = tree(root)
        dsr = float(rng.choice([.01, .3, .5, 1.]))
        sys.argv = ["posydon-compress-mesa", "-td", out, "-dsr", str(dsr),
                    root]
        with vk.quiet():
            cm._compress_MESA()
        c.expect(tree(root) == before, "the originals are not touched")
        got = tree(out)
        for g, k in num.items():
            have = os.listdir(os.path.join(out, g))
            c.expect(len(have) == int(k * dsr), "share of a grid copied",
                     got=len(have), total=k, dsr=dsr)
            pre = tuple(os.path.join(g, x) for x in have)
            want = {p: v for p, v in before.items()
                    if any(p == q or p.startswith(q + "/") for q in pre)}
            mine = {p: v for p, v in got.items() if p.startswith(g + "/")}
            c.expect(mine == want, "complete runs are copied")
        c.expect(sorted(os.listdir(out)) == sorted(num), "only grids")
    finally:
        sys.argv = old
        shutil.rmtree(d, ignore_errors=True)
    c.count("samples")
    c.seen("sample", len(num), dsr)


ck.require("installed", 150)
ck.require("compressed", 200)
ck.require("samples", 25)

if __name__ == "__main__":
    sys.exit(ck.main())
