"""writes MANIFEST.json from properties.jsonl, the registry and the notes below"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mfcheck.checks import registry

NA = {
    "N01": "Idempotence of the whole formatter quantifies over the fixed point of a composition of twelve regex-driven rewrites; no sound static argument in reach bounds it (C11 decides that the API never returns an unverified text).",
    "N02": "Equality of rendered HTML needs the semantics of a full CommonMark parser on symbolic text; static analysis decides the per-section content preservation instead (C15, C19, C22-C24, C28, C29).",
    "N03": "Running time is a runtime quantity; regex backtracking and quadratic joins cannot be bounded by a sound static argument here.",
}
TECH = {
    "C12": "interprocedural effect analysis (call graph, shared state, environment sources)",
    "C13": "interprocedural effect analysis (call graph, external names)",
    "C14": "typestate analysis of process-wide state over all exits",
}


def main():
    checks, na = [], []
    for line in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8"):
        p = json.loads(line)
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
            continue
        if not registry.claimed(i):
            na.append({"property": i, "reason": "check under construction"})
            continue
        checks.append({
            "property": i,
            "quick_cmd": f"python3 -m mfcheck {i} quick",
            "thorough_cmd": f"python3 -m mfcheck {i} thorough",
            "technique": TECH.get(i, "abstract interpretation of the current source (dataflow over terms, affine facts and sequence coverage)"),
            "level": "other",
            "level_note": registry.note(i),
        })
    json.dump({"version": 1, "setup_cmd": "python3 -c \"import mfcheck.__main__\"", "checks": checks, "not_applicable": na,
               "notes": "Static analysis only; reads /repo/markflow source on every run. known-findings.txt lists findings and repairs."},
              open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
