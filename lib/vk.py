"""Shared harness: seeded workloads, monitors, verdicts, evidence.

A check is a set of *families*.  A family is a function `fam(rng, c)` that
drives the real POSYDON code with one generated workload (seeded by
(VERIF_SEED, family, index)) while its oracle records through `c`:

  c.expect(cond, msg, **details)  one monitor evaluation; False -> violation
  c.seen(sig)                     signature of the state/behaviour observed
  c.count(key)                    plain event counter

Verdicts: 0 held on everything observed, 1 violated (VIOLATION line with a
replay file naming the exact case), 2 inconclusive (a monitor that had to be
reached was not).  An exception escaping from the code under test on an input
on which the property promises an answer is a violation.
"""
import sys
import os
import json
import time
import zlib
import signal
import shutil
import tempfile
import traceback
import warnings
import contextlib
import io as _io

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

_SCRATCH = None
_CWD = os.getcwd()


def setup_env(data_builder=None):
    """Environment for importing posydon from /repo; scratch data directory."""
    global _SCRATCH
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["QT_QPA_PLATFORM"] = "offscreen"
    os.environ["TZ"] = "UTC"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    base = os.environ.get("VERIF_SCRATCH_BASE") or tempfile.gettempdir()
    _SCRATCH = tempfile.mkdtemp(prefix="vk_", dir=base)
    data = os.path.join(_SCRATCH, "data")
    os.makedirs(os.path.join(data, "POSYDON_data"))
    os.environ["PATH_TO_POSYDON"] = REPO + "/"
    os.environ["PATH_TO_POSYDON_DATA"] = data
    os.environ["MESA_DIR"] = REPO + "/"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if data_builder is not None:
        data_builder(os.path.join(data, "POSYDON_data"))
    # dotenv must not pick up anything else: run inside the scratch directory
    os.chdir(_SCRATCH)
    import numpy as np
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    return _SCRATCH


def scratch():
    return _SCRATCH


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout("case exceeded its (very generous) CPU time limit")


@contextlib.contextmanager
def quiet():
    """Silence stdout/stderr prints of the code under test."""
    with contextlib.redirect_stdout(_io.StringIO()), \
            contextlib.redirect_stderr(_io.StringIO()):
        yield


def jsonable(x, depth=0):
    import numpy as np
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, np.ndarray):
        return [jsonable(v, depth + 1) for v in x.ravel()[:40].tolist()]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:300]


class Stop(Exception):
    """Stop the current case (precondition not met)."""


class Case:
    def __init__(self, family, index):
        self.family, self.index = family, index
        self.evals = 0
        self.sigs = []
        self.counts = {}
        self.viols = []
        self.info = {}

    def note(self, **kw):
        self.info.update(kw)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + int(n)

    def seen(self, *sig):
        self.sigs.append(repr(sig))

    def expect(self, cond, msg, key=None, **details):
        self.evals += 1
        self.count("monitor:" + (key or msg))
        if not bool(cond):
            self.viols.append({"key": key or msg, "msg": msg,
                               "details": jsonable(details)})
            return False
        return True

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, key=None, **details):
        import numpy as np
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
            ok = g.shape == w.shape and bool(np.all(
                (np.isnan(g) & np.isnan(w)) | (g == w)
                | (np.abs(g - w) <= atol + rtol * np.abs(w))))
        except (TypeError, ValueError):
            ok = False
        return self.expect(ok, msg, key=key, got=got, want=want, **details)

    def raises(self, exc, fn, msg, key=None, **details):
        try:
            r = fn()
        except exc:
            return self.expect(True, msg, key=key)
        except Exception as e:          # wrong exception type
            return self.expect(False, msg, key=key,
                               raised=repr(e), **details)
        return self.expect(False, msg, key=key, returned=r, **details)

    def stop(self):
        raise Stop()


class Check:
    def __init__(self, pid, rule, level="exploration", case_timeout=150):
        self.pid, self.rule, self.level = pid, rule, level
        self.families = []
        self.case_timeout = case_timeout
        self.required = []
        self.jobs = None
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = zlib.crc32(os.environ["VERIF_SEED"].encode())

    def family(self, name, quick=1, thorough=None, exhaustive=False):
        """Register fam(rng, c).  exhaustive: index enumerates a fixed list."""
        def deco(fn):
            self.families.append((name, fn, quick,
                                  thorough if thorough is not None else quick))
            return fn
        return deco

    def require(self, counter, minimum):
        """Inconclusive unless the counter reaches the minimum."""
        self.required.append((counter, minimum))

    # ------------------------------------------------------------------
    def run_case(self, name, fn, index):
        import numpy as np
        c = Case(name, index)
        rng = np.random.default_rng(
            [self.seed, zlib.crc32(name.encode()), index])
        # CPU-time limit: independent of machine load, and not disturbed by
        # the SIGALRM the evolution loop uses itself
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.case_timeout)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn(rng, c)
        except Stop:
            c.count("stopped:" + name)
        except CaseTimeout:
            c.viols.append({"key": "no answer", "msg": "the operation gave no "
                            "answer within %d s" % self.case_timeout,
                            "details": {"traceback":
                                        traceback.format_exc()[-1500:]}})
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            c.evals += 1
            c.viols.append({"key": "unexpected exception " + type(e).__name__,
                            "msg": "unexpected %s: %s" % (type(e).__name__,
                                                          str(e)[:300]),
                            "details": {"traceback":
                                        traceback.format_exc()[-2500:]}})
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return c

    def _worker(self, tasks):
        out = {"evals": 0, "cases": 0, "counts": {}, "sigs": set(),
               "viols": [], "samples": []}
        per_family = {}
        fams = {f[0]: f[1] for f in self.families}
        known = load_known(self.pid)
        stop = os.environ.get("VERIF_STOP_FILE")
        for name, index in tasks:
            if per_family.get(name, 0) >= 4:
                continue
            if stop and os.path.exists(stop):
                break
            c = self.run_case(name, fams[name], index)
            out["cases"] += 1
            out["evals"] += c.evals
            out["counts"]["cases:" + name] = \
                out["counts"].get("cases:" + name, 0) + 1
            for k, v in c.counts.items():
                out["counts"][k] = out["counts"].get(k, 0) + v
            out["sigs"].update(name + ":" + s for s in c.sigs)
            if c.viols:
                if any(v["key"] not in known for v in c.viols):
                    per_family[name] = per_family.get(name, 0) + 1
                    if stop:        # development: one violation is enough
                        open(stop, "w").close()
                c.viols.sort(key=lambda v: v["key"] in known)
                for v in c.viols[:5]:
                    v.update(family=name, index=index, info=jsonable(c.info))
                    out["viols"].append(v)
            elif index == 0 or (c.info and len(out["samples"]) < 3):
                out["samples"].append({"family": name, "index": index,
                                       "info": jsonable(c.info),
                                       "observed": c.sigs[:6],
                                       "monitor_evaluations": c.evals})
        return out

    # ------------------------------------------------------------------
    def main(self, argv=None):
        argv = sys.argv[1:] if argv is None else argv
        t0 = time.time()
        try:
            if len(argv) >= 2 and argv[0] == "--replay":
                return self._replay(argv[1])
            only = argv[1] if len(argv) >= 2 and argv[0] == "--family" else None
            return self._run(t0, only)
        finally:
            os.chdir("/")
            if _SCRATCH and os.path.isdir(_SCRATCH):
                shutil.rmtree(_SCRATCH, ignore_errors=True)

    def _replay(self, path):
        rep = json.load(open(os.path.join(_CWD, path)))
        self.seed, self.tier = rep["seed"], rep["tier"]
        fams = {f[0]: f[1] for f in self.families}
        c = self.run_case(rep["family"], fams[rep["family"]], rep["index"])
        for v in c.viols:
            print(json.dumps(v, indent=1))
        print("replayed %s[%d]: %d violation(s)" % (rep["family"],
                                                    rep["index"],
                                                    len(c.viols)))
        return 1 if c.viols else 0

    def _run(self, t0, only=None):
        tasks = []
        for name, fn, q, t in self.families:
            if only and name != only:
                continue
            n = t if self.tier == "thorough" else q
            tasks += [(name, i) for i in range(n)]
        jobs = self.jobs or int(os.environ.get("VERIF_JOBS", "0")) \
            or min(8, os.cpu_count() or 1)
        jobs = max(1, min(jobs, len(tasks)))
        res = []
        if jobs == 1:
            res.append(self._worker(tasks))
        else:
            import multiprocessing as mp
            from concurrent.futures import (ProcessPoolExecutor, wait,
                                            FIRST_EXCEPTION)
            ctx = mp.get_context("fork")
            chunks = [tasks[k::jobs] for k in range(jobs)]
            limit = 850 if self.tier == "quick" else 6 * 3600
            pool = ProcessPoolExecutor(jobs, mp_context=ctx)
            futs = [pool.submit(self._worker, ch) for ch in chunks]
            done, rest = wait(futs, timeout=limit - (time.time() - t0),
                              return_when=FIRST_EXCEPTION)
            for f in done:
                e = f.exception()
                if e is None:
                    res.append(f.result())
                else:
                    res.append({"evals": 1, "cases": 0, "counts": {},
                                "sigs": set(), "samples": [], "viols": [{
                                    "key": "process ended", "family": "-",
                                    "index": 0, "info": {},
                                    "msg": "the process running the code "
                                    "under test was ended: %r" % (e,),
                                    "details": {}}]})
            if rest and not any(f.exception() for f in done):
                res.append({"evals": 0, "cases": 0, "sigs": set(),
                            "counts": {"unfinished workers": len(rest)},
                            "samples": [], "viols": []})
                self.required.append(("all workers finished in time", 1))
            for p in list((pool._processes or {}).values()):
                if rest:
                    p.kill()
            pool.shutdown(wait=not rest, cancel_futures=True)
        tot = {"evals": 0, "cases": 0, "counts": {}, "sigs": set(),
               "viols": [], "samples": []}
        for r in res:
            tot["evals"] += r["evals"]
            tot["cases"] += r["cases"]
            for k, v in r["counts"].items():
                tot["counts"][k] = tot["counts"].get(k, 0) + v
            tot["sigs"] |= r["sigs"]
            tot["viols"] += r["viols"]
            tot["samples"] += r["samples"]
        tot["viols"].sort(key=lambda v: (v["family"], v["index"]))
        known = load_known(self.pid)
        new, old = [], {}
        for v in tot["viols"]:
            k = known.get(v["key"])
            if k is not None:
                old[v["key"]] = k
            else:
                new.append(v)
        missing = [(k, m, tot["counts"].get(k, 0)) for k, m in self.required
                   if tot["counts"].get(k, 0) < m]
        verdict = "violated" if new else (
            "inconclusive" if missing or tot["evals"] == 0 else "held")
        wall = time.time() - t0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": self.level,
              "coverage": {
                  "evaluations": tot["evals"],
                  "executions": tot["cases"],
                  "distinct_nontrivial": len(tot["sigs"]),
                  "rule": self.rule,
                  "samples": tot["samples"][:8],
                  "observed_events": dict(sorted(tot["counts"].items())),
                  "distinct_states_sample": sorted(tot["sigs"])[:25]},
              "verdict": verdict,
              "violations": new[:20],
              "known_findings": sorted(old),
              "wall_s": round(wall, 2)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1)
        print("%s tier=%s seed=%d: %d executions, %d monitor evaluations, "
              "%d distinct observed states, %.1fs -> %s"
              % (self.pid, self.tier, self.seed, tot["cases"], tot["evals"],
                 len(tot["sigs"]), wall, verdict))
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, old[k]))
        if new:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            done = set()
            for v in new:
                if (v["family"], v["key"]) in done or len(done) >= 12:
                    continue
                done.add((v["family"], v["key"]))
                path = os.path.join(rdir, "%s-%s-%d.json" % (
                    self.pid, v["family"], v["index"]))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "seed": self.seed,
                               "tier": self.tier, "family": v["family"],
                               "index": v["index"], "violation": v}, f,
                              indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("   %s[%d]: %s  %s" % (
                    v["family"], v["index"], v["msg"],
                    json.dumps(v["details"])[:900]))
            return 1
        if verdict == "inconclusive":
            for k, m, got in missing:
                print("INCONCLUSIVE: %s observed %d < %d" % (k, got, m))
            return 2
        return 0


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    out = {}
    for k in json.load(open(path)):
        if k.get("property") == pid and k.get("status") == "known":
            out[k["key"]] = k["what"]
    return out
