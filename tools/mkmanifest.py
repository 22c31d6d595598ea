#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of ready property modules."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))}
T_NS = "deterministic simulation with fault injection: seeded whole runs of the sampler"
NOTES = {
    "P01": (T_NS + ", thread schedules and bent likelihoods, invariants at every exploration", "Every live point and recorded sample is checked at every exploration of every simulated run; sampled seeds, schedules and likelihood faults, no proof."),
    "P02": (T_NS + ", every stored likelihood recomputed by an independent reference", "Reference likelihoods are computed without the library; sampled runs."),
    "P03": (T_NS + ", prior domains and kept values checked on every stored point", "All live points, phantoms and samples; sampled runs."),
    "P04": (T_NS + ", refinement against a reference accounting of evidence and weights", "The sums are recomputed from the recorded log-likelihoods alone; sampled runs."),
    "P05": (T_NS + ", conservation and identity checks over the recorded history", "Counts, identities and left-out samples; sampled runs."),
    "P06": (T_NS + ", stopping rule replayed from the samples, progress bounds under plateau and vanishing likelihoods", "Bounded liveness by evaluation and line counts; sampled runs."),
}
EXTRA = os.path.join(HERE, "tools", "notes.json")
if os.path.exists(EXTRA):
    for k, v in json.load(open(EXTRA)).items():
        NOTES[k] = tuple(v)
PURE = "a pure function of its arguments: no schedule, clock, I/O, randomness, failure or history to simulate; %s"
NA = {
    "P40": PURE % "derivatives are a numerical identity",
    "P41": PURE % "prior transforms are numerical identities",
    "P42": PURE % "optimality of a linear solution is a numerical identity (its dependence on history is P14)",
    "P43": PURE % "normalisation is an integral identity",
    "P44": PURE % "weights as multiplicity is an algebraic identity",
    "P45": PURE % "model algebra is an algebraic identity (independence of copies is P21)",
    "P46": PURE % "an analytic formula",
    "P47": PURE % "continuity of splines is a numerical identity (validity of moving knots is P20)",
    "P48": PURE % "root of an equation",
    "P49": PURE % "index arithmetic",
    "P50": PURE % "string formatting",
    "P51": PURE % "linear algebra and kernel shapes",
}
checks, na = [], []
for pid in sorted(PROPS):
    if pid in NOTES and os.path.exists(os.path.join(HERE, "dst", "props", pid.lower() + ".py")):
        t, n = NOTES[pid]
        cmd = "/opt/venv/bin/python check.py %s --tier " % pid
        checks.append(dict(property=pid, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "not claimed yet: its simulation is still being built")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"from dst import boot; boot.load()\"",
         hooks=dict(guard="none", enable="no hooks in /repo: the simulator works through sys.monitoring, threading and numpy.random seams set up in /verif/dst", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="fix: commits in /repo repair genuine defects the checks found; they are listed in known_findings.json and DESIGN.md")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
