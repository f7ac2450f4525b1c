"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime monitoring: offline oracle (joint Gaussian conditioning, extended/exact arithmetic) over recorded filter runs",
    "C02": "runtime monitoring: offline oracle (joint Gaussian conditioning) over recorded smoother runs",
    "C03": "runtime monitoring: per-step trace checker over recorded runs and logged callback evaluations",
    "C04": "runtime monitoring: per-step backward trace checker over recorded smoother runs",
    "C05": "runtime monitoring: differential monitor of the two classes on the same workload",
    "C06": "runtime monitoring: step oracle on direct calls, online loops checked against recorded batch runs",
    "C07": "runtime monitoring: zero-control differential monitor and control log at the callbacks",
    "C08": "runtime monitoring: invariant monitors (symmetry, definiteness, Loewner order) on recorded runs",
    "C09": "runtime monitoring: probing the running estimator, exact second-moment oracle",
    "C10": "runtime monitoring: paired-execution (prefix, perturbation, resume) monitors",
    "C11": "runtime monitoring: paired-execution (affine combination, data swap) monitors",
    "C12": "runtime monitoring: paired-execution (change of coordinates) monitors",
    "C13": "runtime monitoring: trace checker of a gain-list specification over call histories",
    "C14": "runtime monitoring: snapshot monitors over call histories, re-entrancy and shared arrays",
    "C15": "runtime monitoring: stress with injected yields, per-call outcome against recorded sequential runs",
    "C16": "runtime monitoring: fault injection at every callback and step, post-failure differential monitor",
    "C17": "runtime monitoring: differential monitor over representations of the same numbers",
    "C18": "runtime monitoring: paired-execution (measurement fusion) monitors",
    "C19": "runtime monitoring: oracle over recorded utility calls",
    "C20": "runtime monitoring: model of the git history checked against the reported version",
    "C21": "runtime monitoring: end-to-end builds observed from the installed side",
    "C22": "runtime monitoring: convergence monitors against an independent Riccati solution",
    "C23": "runtime monitoring: duplicates of live objects (in-process and in another one) against fresh ones",
    "C24": "runtime monitoring: audit-hook event log and before/after state of fresh interpreters",
    "C25": "runtime monitoring: weak references and allocation tracing around calls",
    "C26": "runtime monitoring: online mirror of an edited model, oracle of the current model after every edit",
}
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(ROOT, "kk", i.lower() + ".py")):
        continue
    checks.append(dict(
        property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        technique=TECH[i], level="exploration",
        level_note="randomised executions of the real code under monitors; nothing is proved beyond what was observed"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
         not_applicable=[dict(property=p["id"], reason="check not built yet") for p in props
                         if p["id"] not in {c["property"] for c in checks}])
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
