#!/usr/bin/env python3
"""Writes /verif/known_findings.json: recorded (unrepaired) findings and the repairs made in /repo."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXES = [  # (property, commit subject starts with, what failed)
    ("P03", "fix: keep with fixed hyperparameters", "NestedSampler with keep on a parameter and a fixed error scale raised IndexError"),
    ("P05", "fix: SampleList.weed", "weed removed the first sample of equal-or-lowest weight wrongly; not the lowest-weight one"),
    ("P04", "fix: final update of NestedSampler", "final walkers not in order of likelihood, information not that of the samples, samples.logZ not set, maxsize exceeded (also P01, P05)"),
    ("P03", "fix: StartEngine lost the fixed", "fixed hyperparameters of dynamic models were lost by StartEngine"),
    ("P02", "fix: best walker boost", "the best walker boost overwrote parameters of live walkers; ignored keep, priors, number of hyperparameters (also P03)"),
    ("P06", "fix: copymode from phantoms", "copymode from phantoms looped for ever; Fitter class in bestBoost ignored"),
    ("P05", "fix: WalkerList.insertWalker", "insertWalker on an empty list changed the identity of the walker"),
    ("P08", "fix: PhantomCollection is safe", "phantom lists corrupted by interleaved threads; range of an empty collection failed (also P07)"),
    ("P11", "fix: NestedSampler starts each run afresh", "a second run appended to the samples, phantoms, iteration and reports of the first"),
    ("P08", "fix: errors and counts of exploring threads", "errors of threads leaked to later runs, threads were left running, likelihood and engine counts lost or doubled (also P09, P28)"),
    ("P28", "fix: counts of likelihood calls", "counts of likelihood calls lost when threads interleave"),
]
ex = os.path.join(HERE, "tools", "fixes.json")
if os.path.exists(ex):
    FIXES += [tuple(x) for x in json.load(open(ex))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for prop, subj, what in FIXES:
    h = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith(subj)]
    assert len(h) == 1, (subj, h)
    fixed.append("fixed: property=%s %s %s" % (prop, h[0], what))
fnd = os.path.join(HERE, "tools", "findings.json")
findings = json.load(open(fnd)) if os.path.exists(fnd) else []
json.dump(dict(findings=findings, fixed=fixed), open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
left = [l for l in log if " fix:" in l and not any(l.split(" ", 1)[1].startswith(s) for _, s, _ in FIXES)]
print("unlisted:", left)
