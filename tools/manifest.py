"""Writes MANIFEST.json from properties.jsonl and props/meta.py."""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from props.meta import META

T = {
 "C01": "runtime monitor: every batch against the self-identifying rows of its dataset",
 "C02": "runtime monitor: snapshots of data and earlier batches, compared after drawing and training",
 "C03": "runtime monitor: replayed streams, interleaved with global random state; uniformity tests over recorded starts and orders",
 "C04": "runtime monitor: cross-process comparison of recorded seeded chains under different thread pools, hash seeds and injected delays",
 "C05": "runtime monitor: trace of every interaction with generator and schedule, reference step from the logged batch and stepsize",
 "C06": "runtime monitor: returned values against session state and an independently evaluated cost, with injected delays",
 "C07": "runtime monitor: reference recursion from the old values, with delays injected between gradients and updates",
 "C08": "runtime monitor: online reference recursion for every step, noise tests on the standardised residuals",
 "C09": "runtime monitor: online reference recursion for every step, noise tests on the standardised residuals",
 "C10": "runtime monitor: online reference recursion on momenta read off the displacements, speed limit on every step",
 "C11": "runtime monitor: online reference recursion for every particle and step",
 "C12": "runtime monitor: adaptation state recovered from observed steps, before and after burn-in",
 "C13": "runtime monitor: noise recovered from observed steps; variance, normality and independence tests",
 "C14": "runtime monitor: moments and distribution of thousands of parallel chains against known targets",
 "C15": "runtime monitor: session state of all variables before and after construction and each step",
 "C16": "fault injection at every kind of collaborator and phase, with state snapshots and comparison with the fault-free chain",
 "C17": "runtime monitor: chains built through get_sampler against direct construction; rejected argument sets",
 "C18": "runtime monitor: recorded chain against every view of the trace",
 "C19": "runtime monitor: recording samplers, graphs and sessions behind the extraction of several chains",
 "C20": "runtime monitor: values and gradients against independent formulas; directed search below the optimum",
 "C21": "runtime monitor: whole training chain observed through its schedule and batch generator, against the documented one",
 "C22": "runtime monitor: predictions against numpy evaluation of the recorded networks; state snapshots",
 "C23": "runtime monitor: every cost against the documented formula in numpy",
 "C24": "runtime monitor: reference statistics, inversion and affine images (metamorphic)",
 "C25": "runtime monitor: values against scipy and numpy over generated inputs",
 "C26": "runtime monitor: round trips and reference arithmetic over generated inputs",
 "C27": "runtime monitor: sweep of invalid and valid arguments, outcome of every construction",
 "C29": "runtime monitor: networks trained among other users of their graph against the same training alone; state of every bystander",
 "C30": "runtime monitor: operation counts, finalized graphs, weak references to everything handed out, live object counts",
 "C31": "runtime monitor: output against numpy evaluation of its variables; tests on recorded initial values",
 "C32": "runtime monitor: recording model class; every query against the recorded history",
 "C33": "runtime monitor: every log record against the state of the model at the time it is written; the same training unobserved",
 "C34": "runtime monitor: snapshots of all global settings, other graphs and arguments around every use, in generated settings",
 "C35": "runtime monitor: jobs run by concurrent threads with injected pauses against the same jobs alone; recorded interleavings",
 "C28": "runtime monitor: what every schedule handed out and to whom; reference step from it",
}
NOTE = ("Held on the executions observed (counts in the evidence file), not proved for others. "
        "Trusts TensorFlow's kernels, numpy and scipy, and the reference implementation in vlib/.")
EXTRA = {
 "C03": " Statistical clauses use p < 1e-10 per test.", "C13": " Statistical clauses use p < 1e-10 per test.",
 "C08": " Noise tests use p < 1e-10.", "C09": " Noise tests use p < 1e-10.",
 "C10": " Noise tests use p < 1e-10.",
 "C14": " Tolerances allow for the discretisation error of finite stepsizes; deviations within them stay unseen.",
 "C04": " Interleavings are those that eight processes with different thread pools and injected delays produced.",
 "C35": " Interleavings are those that eager thread switching and injected pauses produced (their number is in the evidence).",
 "C07": " Interleavings are those that injected delays and thread pools produced.",
 "C16": " Faults: missing and bad batches, failing generators, stepsizes and cost evaluations at first, last and inner steps of both phases.",
}
checks = []
for p in sorted(T):
    checks.append(dict(property=p, quick_cmd="python3 run.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % p,
                       evidence_file="evidence/%s.json" % p, technique=T[p], level=META[p]["level"], level_note=NOTE + EXTRA.get(p, "")))
doc = dict(version=1,
           setup_cmd="/opt/venv/bin/python -c \"import numpy, scipy, tensorflow; print('ok')\"",
           hooks=dict(guard="none", enable="the checks need no hooks in /repo: they observe through the public interfaces (schedules, batch generators, sessions, costs)", source_commits=[]),
           checks=checks, not_applicable=[],
           notes="Every check runs the code in /repo's working tree (pure Python, nothing to build). VERIF_SEED selects the generated cases. known_findings.json lists repaired defects; there are no open ones.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
