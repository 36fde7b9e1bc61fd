"""Known findings (known_findings.txt): genuine defects of the code that were recorded, not repaired."""
import os
from vf import VERIF, Scenario

FILE = os.path.join(VERIF, "known_findings.txt")


def known(prop):
    out = []
    with open(FILE) as f:
        for line in f:
            if line.startswith(f"known: property={prop} "):
                out.append(line.split(" ", 2)[2].strip())
    return out


def scenarios(prop):
    return []


def report(prop):
    for k in known(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
