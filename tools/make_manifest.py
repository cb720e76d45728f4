"""Writes /verif/MANIFEST.json."""
import json

import jsonschema

NOTE = {
    "C01": "every trace of operations is compared to a reference that keeps all processes as explicit linear combinations of "
           "independent ones and computes moments with plain NumPy",
    "C02": "compared to plain conditioning of the reference's joint Gaussian, chained as the program chains it",
    "C03": "the library against itself: values and inputs captured before and after other clients' operations",
    "C04": "compared to the reference without the lost values; attributed by running the same trace with nothing lost",
    "C05": "compared to the textbook formulas for the three approximations, evaluated on the reference's prior",
    "C06": "the affine map from drawn numbers to samples is recovered from the real code and compared to the moments",
    "C07": "membership and order of measures against a small model, under simulated hash orders",
    "C08": "measure of every created process against a stack",
    "C09": "all look-ups after every operation against two dictionaries per measure",
    "C10": "every access against what follows from the dense moments",
    "C11": "every value is a token that names the rule that built it; compared to a model of the rule tables",
    "C12": "the library against itself: a run whose operations are hit by faults and then retried, against the same run without faults",
    "C13": "the library against itself: programs under a preemptive schedule against the same programs one after the other",
    "C14": "the library against itself: the same program under other memory layouts, collections, and unrelated activity",
    "C15": "multi-output and joint distributions against stacking of the parts in the reference",
    "C16": "calls of user functions counted; bounds from single accesses on fresh copies of the model",
    "C17": "the library against itself: the same history on NumPy arrays and on arrays of TensorFlow, PyTorch or AutoGrad",
    "C18": "histories on batched inputs and data; every result is compared to those of one reference model per batch element",
    "C19": "histories on TensorFlow arrays with differentiated processes, compared to the reference, which differentiates by "
           "central differences of fourth order",
    "C21": "derivatives of all results of a history with respect to one variable that moves everything the user gives, on TensorFlow, "
           "PyTorch or AutoGrad, compared to differences of the same history on NumPy arrays",
}
TECH = "deterministic simulation with fault injection (seeded search over histories, schedules and faults)"
checks = []
for k, v in NOTE.items():
    checks.append({
        "property": k,
        "quick_cmd": f"./check.py {k}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.py {k} --tier thorough",
        "evidence_file": f"evidence/{k}.json",
        "technique": TECH,
        "level": "exploration",
        "level_note": f"Seeded search, not exhaustive: {v}. Trusts the oracle in /verif/sim, NumPy, and the numerical libraries "
                      "below stheno. Exact limits of the generated space are in DESIGN.md.",
    })
NA = {
    "C20": "a pure function from expressions to strings: no schedule, history or fault for a simulator to decide; that printing "
           "changes nothing is part of C03 and C10",
}
M = {
    "version": 1,
    "setup_cmd": "./check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: all seams are installed at run time by /verif/sim/seams.py. Every check imports the working "
             "tree of /repo from source in a fresh interpreter, so there is nothing to build. See DESIGN.md.",
}
jsonschema.validate(M, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(M, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
