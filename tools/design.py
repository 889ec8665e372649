#!/usr/bin/env python3
"""Regenerate DESIGN.md: text below, properties from props.py, workload
descriptions from the checks, findings and catches from their files."""
import ast
import json
import os
import re
import sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE

HEAD = """# Runtime monitoring of POSYDON

POSYDON is pure Python (no compiled extension of its own, no threads; its only
concurrency is between processes of a job array that share a folder), so
compiler sanitizers and race detectors have nothing to watch. What decides the
properties here are monitors: the real code of /repo is executed under random,
hostile and stress workloads, and an oracle that is independent of the code
under test judges what it observes.

## How a check works

* `run.sh ID` starts `checks/ID.py` with the interpreter of the sandbox. The
  package is imported from /repo's working tree (nothing is installed or
  cached, byte code is not written), so every change is seen at once. There is
  no hook in /repo: the monitors sit at public entry points, at step and hook
  objects the code calls back (a scripted step sees every intermediate state of
  a binary), at patched I/O primitives (fault injection), and at the files
  written.
* `lib/vk.py` is the harness. A check consists of *families*; each family runs
  N independent cases, each seeded by (VERIF_SEED, family, case number) and
  distributed over worker processes. Inside a case `c.expect`, `c.close`,
  `c.raises` are the monitors. An exception that escapes the code is a
  violation as well; a case that hangs is stopped and reported.
* A violation writes a replay file (`./run.sh ID --replay FILE` repeats that
  case alone) and prints `VIOLATION property=ID replay=...`; exit 1.
* Evidence (`evidence/ID.json`) records executions, monitor evaluations per
  kind, counters of events actually observed and the number of *distinct
  signatures* (classes of states seen: options, branches, faults, outcomes).
  `C.require(counter, minimum)` makes a run that observed too little fail as
  inconclusive (exit 2) rather than pass vacuously.
* Known findings are matched by their key (family and failing input class);
  nothing is added at run time.
* Oracles: closed formulas and published relations written anew from the
  papers, direct numerical integration, brute-force searches over the tables
  written by the generator, reference models (flow chart, job scheduler, file
  contents), and statistical tests with p < 1e-7 thresholds for random draws.
  Grids, tracks, profiles, SFR tables, ini files and job scripts are synthetic:
  the check builds them in a scratch folder (PATH_TO_POSYDON_DATA points
  there), because the sandbox has no POSYDON data. This is what makes an exact
  oracle possible: the truth of each table is known to the generator.
* Tolerances: POSYDON's constants differ from CODATA by up to 3e-4, so
  relations in physical units use 5e-4 where constants enter and near machine
  precision where they do not.

Levels: all checks are `exploration`: they decide on the executions observed,
not on all. Thorough runs 10 to 30 times the quick number of cases with another
seed stream; every check was run with several seeds and both tiers.

## Properties
"""
NOTES = {
    "C37": "Step 5 needs tensorflow, which is not installed: only the tables "
           "of its additions are judged. The template pipeline_quest.ini "
           "gives CONTROL_GRIDS=[''] for a step with additions; not claimed.",
    "C40": "matplotlib is run with the Agg backend and the figures are read "
           "back as artists, not as pixels: what a file viewer shows of them "
           "is not judged. The default tables of markers and labels are taken "
           "as given. Population plots (plot_pop), the VH diagram and the "
           "plots of interpolation errors are not claimed.",
    "C39": "Chains are judged by what they did: the target given to the sampler records every place asked for, so each trial, acceptance and swap is known and its frequency is compared with the probability it should have had (6.5 sigma over thousands of trials; certain and impossible moves exactly).",
    "C38": "MESA itself is not there: a stand-in reads the inlists by MESA's "
           "rules (nested inlists, later values win, missing namelist is an "
           "error). mpi4py is replaced by a stub, so dynamic grids are not "
           "covered.",

 "C03": "A suspicion that integer columns change type on the way was examined: not a defect, the values are equal.",
 "C05": "Write faults are injected into HDFStore and os.remove inside the process.",
 "C07": "Known finding: LogUniform.pdf is per dex where pdf of x is documented.",
 "C11": "False alarm corrected: rounding of the text tables by the generator itself.",
 "C15": "False alarm corrected: the oracle's own constants; tolerance 5e-4.",
 "C18": "Abundances of None cannot reach the merger (only NaN): not generated. Isolated-star matching is degenerate, so the tolerance of that comparison is wide (0.5).",
 "C20": "flip_stars with an empty history is not reachable: histories of length >= 1 only. Known finding: Eddington limit of a white dwarf.",
 "C21": "Not covered: corrupt rows in the middle of a MESA file, empty files with columns 'all'.",
 "C22": "keep_till_central_abundance drops the depleted row if it is the last: pinned by the unit tests, modelled as is.",
 "C23": "Maltsev+25 draws outcomes at random: its models are not compared. That repeating the post-processing recreates the SN group is by design.",
 "C24": "Constant columns need 'none' scaling (documented limit).",
 "C26": "Layers of zero thickness at radius zero and the boundary t = R/3 are not generated.",
 "C30": "Irregular cells with a negative initial spin are skipped.",
 "C31": "A NumericalError of the root finder counts as a refusal; the root method is only claimed on the main sequence. False alarm corrected twice in this respect.",
 "C32": "chi_p only for tilts in [0, pi] and m1 >= m2; the Pescalli+15 relation is taken as coded.",
 "C33": "Not claimed: HMS_HMS_RLO eccentric with m2 outside but q inside; mass_transfer_case and nearest_neighbour_distance after flipping stars; accretors of white-dwarf mass (C20 finding).",
 "C34": "Duplicate masses and tracks of one row are not generated; ties in the middle of two masses with different types are skipped.",
 "C35": "A job killed while writing its combined batch counts as present for the tool; what is claimed is that the population is then never reported complete.",
}
TAIL = """
## Where the family does not apply

Compiler sanitizers, race detectors and UB interpreters: no native code in this
repository. Plots (posydon/visualization apart from combine_TF), documentation
and tutorials have no property a monitor could decide and are not claimed.
"""


def desc(pid):
    t = ast.parse(open(os.path.join(root, "checks", pid + ".py")).read())
    fams = []
    text = ""
    for n in ast.walk(t):
        if isinstance(n, ast.Call):
            f = n.func
            if getattr(f, "attr", "") == "Check":
                text = ast.literal_eval(n.args[1])
            if getattr(f, "attr", "") == "family":
                kw = {k.arg: ast.unparse(k.value) for k in n.keywords}
                try:
                    nm = ast.literal_eval(n.args[0])
                except Exception:
                    nm = ast.unparse(n.args[0])
                fams.append("%s (%s/%s)" % (nm, kw.get("quick", "?"),
                                            kw.get("thorough", "?")))
    return text, fams


out = [HEAD]
for p in sorted(PROPS, key=lambda p: p["id"]):
    t, fams = desc(p["id"])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("Observed: %s. Over: %s. Oracle: %s.\n" % (
        "; ".join(p["observe"]), p["q"], p["technique"]))
    out.append("Workload: %s. Families (quick/thorough cases): %s.\n" % (
        t.rstrip("."), ", ".join(fams)))
    out.append("Beyond the tests: %s Cost: %s\n" % (p["why"], p["note"]))
    if p["id"] in NOTES:
        out.append("Notes: %s\n" % NOTES[p["id"]])
if NOT_APPLICABLE:
    out.append("## Not applicable\n")
    out += ["* %s: %s\n" % x for x in NOT_APPLICABLE]
out.append(TAIL)
k = json.load(open(os.path.join(root, "known_findings.json")))
out.append("\n## Known findings (recorded, not repaired)\n")
out += ["* %s: %s\n" % (e["property"], e["what"]) for e in k
        if e["status"] != "fixed"]
out.append("\n## Defects repaired in /repo (`fix:` commits)\n")
out += ["* %s\n" % re.sub("^fixed: property=", "", e["what"]) for e in k
        if e["status"] == "fixed"]
out.append("\n## Planted changes and the checks that catch them\n")
c = json.load(open(os.path.join(here, "catches.json")))
out += ["* %s: %s\n" % x for x in map(tuple, c)]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(
    x.rstrip("\n") + ("\n" if not x.startswith("* ") else "") for x in out)
    + "\n")
