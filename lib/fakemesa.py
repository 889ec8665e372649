"""A stand-in for MESA: executables which read inlists as MESA does, write down
what they would have run with, and leave the files MESA leaves."""
import os

EXE = r'''#!/usr/bin/python3 -IS
import json, os, sys, time

def strip(line):
    q = None
    for i, ch in enumerate(line):
        if q:
            if ch == q:
                q = None
        elif ch in "'\"":
            q = ch
        elif ch == "!":
            return line[:i]
    return line

def value(t):
    t = t.strip()
    if t[:1] in "'\"" and t[-1:] == t[:1]:
        return t[1:-1]
    if t.lower() in (".true.", "true", "t", ".t."):
        return True
    if t.lower() in (".false.", "false", "f", ".f."):
        return False
    try:
        return int(t)
    except ValueError:
        pass
    try:
        return float(t.lower().replace("d", "e"))
    except ValueError:
        raise SystemExit(fail("not a value: %r" % t))

def namelist(path, name):
    """assignments of a namelist of a file, in order"""
    try:
        lines = open(path).read().splitlines()
    except OSError as e:
        raise SystemExit(fail("cannot read %s: %s" % (path, e)))
    out, on, seen = [], False, False
    for raw in lines:
        t = strip(raw).strip()
        if not on:
            if t.lower() == "&" + name:
                on = seen = True
        elif t.startswith("/"):
            on = False
            break
        elif t.startswith("&"):
            raise SystemExit(fail("namelist %s of %s is not closed"
                                  % (name, path)))
        elif t:
            if "=" not in t:
                raise SystemExit(fail("bad line %r" % raw))
            k, v = t.split("=", 1)
            k = k.strip().lower()
            if k.endswith("(1:1)"):
                k = k[:-5] + "(1)"
            if ":" in k and not k.endswith("(:)"):
                raise SystemExit(fail("bad bounds %r" % raw))
            out.append((k, value(v)))
    if not seen or on:
        raise SystemExit(fail("no namelist %s in %s" % (name, path)))
    return out

def read(path, name, depth=0, into=None):
    into = {} if into is None else into
    if depth > 9:
        raise SystemExit(fail("inlists nested too deep"))
    here = {}
    for k, v in namelist(path, name):
        here[k] = v
    into.update({k: v for k, v in here.items() if "read_extra" not in k
                 and not k.startswith("extra_" + name)})
    for i in range(1, 6):
        if here.get("read_extra_%s_inlist%d" % (name, i)):
            read(here["extra_%s_inlist%d_name" % (name, i)], name,
                 depth + 1, into)
    return into

REC = {"exe": os.path.abspath(sys.argv[0]), "cwd": os.getcwd()}

def note():
    line = (json.dumps(REC) + "\n").encode()
    fd = os.open(os.environ["FAKE_MESA_LOG"], os.O_WRONLY | os.O_APPEND
                 | os.O_CREAT, 0o644)
    os.write(fd, line)
    os.close(fd)

def fail(msg):
    REC["error"] = msg
    note()
    print("MESA failed: " + msg)
    return 1

def put(path, text):
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)

def model(job):
    if not job.get("load_saved_model"):
        return None
    try:
        return json.load(open(job["saved_model_name"]))
    except OSError as e:
        raise SystemExit(fail("cannot load a model: %s" % e))

here = os.path.dirname(os.path.abspath(sys.argv[0]))
REC["src"] = {}
for n in sorted(os.listdir(os.path.join(here, "built"))):
    REC["src"][n] = open(os.path.join(here, "built", n)).read()
REC["columns"] = {n: open(n).read() for n in
                  ("history_columns.list", "binary_history_columns.list",
                   "profile_columns.list") if os.path.exists(n)}
kind = os.path.basename(sys.argv[0])
REC["kind"] = kind
REC["threads"] = os.environ.get("OMP_NUM_THREADS")
if kind == "binary":
    REC["binary_job"] = read("inlist", "binary_job")
    REC["binary_controls"] = read("inlist", "binary_controls")
    stars = [REC["binary_job"].get("inlist_names(%d)" % i,
                                   "inlist%d" % i) for i in (1, 2)]
else:
    stars = ["inlist"]
for i, p in enumerate(stars, 1):
    REC["star_job%d" % i] = read(p, "star_job")
    REC["controls%d" % i] = read(p, "controls")
    REC["model%d" % i] = model(REC["star_job%d" % i])
REC["t"] = time.time()
tag = os.environ.get("FAKE_MESA_TAG", "") + str(os.getpid())
REC["tag"] = tag
for i in range(1, len(stars) + 1):
    L = "LOGS%d" % i if kind == "binary" else "LOGS"
    put(L + "/history.data", "history %s\n" % tag)
    put(L + "/profile1.data", "profile %s\n" % tag)
    put(L + "/profiles.index", "index %s\n" % tag)
    put("photos%s/x001" % (i if kind == "binary" else ""), "photo\n")
    j = REC["star_job%d" % i]
    if j.get("save_model_when_terminate"):
        put(j["save_model_filename"], json.dumps(
            {"mass": REC["controls%d" % i].get("initial_mass"),
             "z": j.get("new_z"), "from": REC["model%d" % i]}))
    if j.get("write_profile_when_terminate"):
        put(j["filename_for_profile_when_terminate"], "final %s\n" % tag)
put("binary_history.data" if kind == "binary" else "LOGS/extra.data",
    "binary history %s\n" % tag)
put(".mesa_temp_cache/a", "cache\n")
print("MESA %s" % tag)
sys.stdout.flush()
note()
nap = float(os.environ.get("FAKE_MESA_SLEEP", "0"))
if nap and (kind == "binary" or os.environ.get("FAKE_MESA_SLEEP_STAR")):
    time.sleep(nap)
print("done")
sys.stdout.flush()
put("finished", tag + "\n")
'''

MAKE = """all:
\trm -rf ../built
\tmkdir ../built
\tcp ../src/* ../built/
\tcp %s ../%s
\tchmod 755 ../%s
"""


def install(d):
    """a MESA folder and SDK below d -> environment"""
    m = os.path.join(d, "mesa")
    os.makedirs(m)
    exe = os.path.join(m, "exe.py")
    with open(exe, "w") as f:
        f.write(EXE)
    for kind in ("binary", "star"):
        w = os.path.join(m, kind, "work")
        os.makedirs(os.path.join(w, "make"))
        os.makedirs(os.path.join(w, "src"))
        with open(os.path.join(w, "make", "makefile"), "w") as f:
            f.write(MAKE % (exe, kind, kind))
        for n in (["binary_run.f", "run_binary_extras.f", "run_star_extras.f"]
                  if kind == "binary" else ["run.f", "run_star_extras.f"]):
            with open(os.path.join(w, "src", n), "w") as f:
                f.write("mesa %s %s\n" % (kind, n))
    s = os.path.join(d, "sdk", "bin")
    os.makedirs(s)
    with open(os.path.join(s, "mesasdk_init.sh"), "w") as f:
        f.write("export SDK_SEEN=1\n")
    stub = os.path.join(d, "py", "mpi4py")
    os.makedirs(stub)
    with open(os.path.join(stub, "__init__.py"), "w") as f:
        f.write("")
    with open(os.path.join(stub, "MPI.py"), "w") as f:
        f.write("COMM_WORLD = None\nANY_SOURCE = ANY_TAG = -1\n")
    return {"MESA_DIR": m, "MESASDK_ROOT": os.path.join(d, "sdk"),
            "FAKE_MESA_LOG": os.path.join(d, "mesa.log")}
