#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
PY = {"C18", "C19", "C20", "C26"}
TECH = {
 "C01": "property-based testing: random problems, optimality conditions recomputed from scratch plus reference coordinate descent",
 "C02": "property-based testing: random multi-task problems, group optimality conditions plus reference block coordinate descent",
 "C03": "property-based testing: random problems, stationarity/fixed-point oracle, null-model bound",
 "C04": "property-based testing: random classification problems, optimality conditions of the log-loss objective",
 "C05": "metamorphic property-based testing: objective along budget prefixes of one solver history",
 "C06": "differential property-based testing across storage layouts",
 "C07": "property-based testing: definition oracle and null-boundary metamorphic relation",
 "C08": "property-based testing: proximal operators against numerical and closed-form minimisation",
 "C09": "property-based testing: formulas, numerical subdifferentials and fixed-point equivalence as oracle",
 "C10": "property-based testing: formula oracle, finite differences, Lipschitz bound",
 "C11": "metamorphic property-based testing: knobs versus solution, budget zero, first working set",
 "C12": "differential property-based testing between nested models and closed forms",
 "C13": "metamorphic property-based testing under the problem's symmetries",
 "C14": "property-based testing against a model of the validation rules; differential against the generic solver",
 "C15": "property-based testing: residual oracle for linear solves, reference extrapolation for the accelerated history",
 "C16": "robustness fuzzing with structured generators over degenerate valid inputs",
 "C17": "stateful property-based testing: operation histories (reuse, clone, interleave, threads) against fresh objects",
 "C18": "property-based testing (Hypothesis): Python estimators against the core library and NumPy optimality conditions",
 "C19": "property-based testing (Hypothesis) against a model of the acceptance rules",
 "C20": "property-based testing (Hypothesis): documented relations of the data helpers",
 "C21": "property-based testing with instrumented user-defined datafits and penalties: invariant over the solver's history",
 "C22": "differential property-based testing between single and double precision",
 "C24": "metamorphic property-based testing: budget prefixes of one history against the recomputed optimality violation",
 "C25": "property-based testing with instrumented objects: working set of any outer iteration against recomputed scores",
 "C27": "stateful property-based testing against a model of the parts, over storages and element types",
 "C28": "property-based testing of captured output against recomputed progress",
 "C29": "property-based testing against element-wise definitions",
 "C26": "stateful property-based testing (Hypothesis): estimator histories against a model and fresh estimators",
 "C23": "property-based testing with generated user-defined datafits and penalties: optimality oracle",
}
checks, na = [], []
for p in props:
    i = p["id"]
    built = os.path.exists(f"{ROOT}/py/{i.lower()}.py") if i in PY else os.path.exists(f"{ROOT}/harness/src/bin/{i.lower()}.rs")
    if built:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": TECH[i],
            "level": "exploration",
            "level_note": "Holds on every generated case of the run (counts and classes in the evidence file); generated-input search never establishes absence. Trusted: the oracle in /verif/harness/src/oracle.rs (or py/), rustc, ndarray.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds from /repo's working tree into /verif/build (git-ignored). Replay: ./check.sh ID --replay FILE."}
open(ROOT + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
