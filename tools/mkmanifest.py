#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = ("TLA+ specification of the modeler (Modeler.tla and its parts) executed by TLC on traces recorded from the "
         "real code (trace validation, directed and random scenarios)")
LIFE = ("TLA+ specification of the API (Lifecycle.tla): TLC enumerates all behaviours of bounded length and long random "
        "ones, each replayed into the real code")
NOTE_TRACE = ("Every recorded call is recomputed by the specification in four floating-point rounding disciplines (24 before "
              "anything is reported) and must agree within the spread these allow; complete for the recorded scenarios, which "
              "are sampled from families aimed at the property. The property is also stated a second time as an invariant of "
              "the specification and checked by TLC on all strokes over small alphabets (Grid.tla), replayed into the code. Trusts TLC, the Java overrides for IEEE arithmetic and the driver.")
NOTE_LIFE = ("Exhaustive over all call sequences of the listed lengths over an alphabet of input classes and eight parameter "
             "sets, plus long random behaviours; bit-exact comparison with the canonical history that the specification "
             "gives. Random walks with arbitrary numbers in several processes must embed in one deterministic tree "
             "(TraceTree.tla; C01: TraceModel.tla). Trusts TLC and the replay driver.")
CHECKS = {}
for i in range(1, 6):
    CHECKS[f"C{i:02}"] = (LIFE, NOTE_LIFE)
for i in range(6, 17):
    CHECKS[f"C{i:02}"] = (TRACE, NOTE_TRACE)
CHECKS["C17"] = (
    "TLA+ specification of the valid configurations (Params.tla) evaluated by TLC on recorded answers of Reset and the "
    "validation functions",
    "Every parameter is swept over zero, negative, neighbouring, extreme and non-finite values in six base configurations, all "
    "pairs of related bounds, and random combinations; every answer and a short stroke with each accepted configuration are "
    "checked. Trusts TLC and the driver.")
CHECKS["C18"] = (
    "TLA+ specification of changes of units and coordinates acting on parameters, inputs and results (TraceSymmetry.tla), "
    "evaluated by TLC on pairs of traces recorded from the real code",
    "Random strokes and parameters, each run twice: scaled by powers of two in space and time, turned, mirrored (exact), "
    "shifted (within rounding). Trusts TLC and the driver; the correspondence of the two runs' arguments is checked by the "
    "specification itself.")
CHECKS["C19"] = (
    "TLA+ specification of what every call must do whatever the numbers (TraceTotal.tla), evaluated by TLC on logs of extreme "
    "scenarios recorded from a build with address and undefined-behaviour sanitizers",
    "Sampled scenarios with extreme numbers and histories; sanitizers, time and memory limits observe the real run, the "
    "specification judges statuses, counts and finiteness; logs must not depend on uninitialised memory, on other instances or on other threads (thread sanitizer).")
CHECKS["C20"] = (
    "TLA+ specification of the value types (ValueTypes.tla) evaluated by TLC on recorded results of every operator, comparison "
    "and formatting function",
    "All pairs of a grid of special values (zeros, subnormals, neighbours, overflow, infinities, NaN) and random values. "
    "Arithmetic is judged up to a few units in the last place, comparisons and equality exactly.")
NA = {}


def main():
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f if line.strip()]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": [{"property": i, "quick_cmd": f"python3 tools/check.py {i} --tier quick",
                     "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
                     "evidence_file": f"evidence/{i}.json", "technique": CHECKS[i][0],
                     "level": "model_checking", "level_note": CHECKS[i][1]} for i in ids if i in CHECKS],
         "not_applicable": [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in CHECKS],
         "notes": "No hooks: the checks observe /repo only through its public headers. Commits in /repo are repairs "
                  "(fix:), listed in known_findings.txt."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
