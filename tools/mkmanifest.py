#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IT = "property-based testing with shrinking: generated sources and operations against a scalar model, guard pages and guard zones"
OP = "property-based testing with shrinking: generated and enumerated lane values against a per-lane scalar model"
T = {
    "C07": "stateful property-based testing: generated histories against a cursor model",
    "C08": "property-based testing: generated unrolled iterations against the list of vectors",
    "C12": "fuzzing of operation histories with guard pages, guard zones, poisoned heap (and address sanitizer in the thorough run)",
    "C27": "property-based testing with injected panics: logs of closure calls against a model of the traversal",
    "C28": "property-based testing of generated operation sequences: reports against a model of what is still unreported",
    "C29": "stateful property-based testing: generated histories, lengths and standard adaptors against a cursor model",
    "C30": "stateful property-based testing with a counting, double-free detecting allocator",
    "C31": "randomised concurrent runs against the sequential result",
    "C32": "stateful property-based testing on an instrumented collection that checks every access against its bounds",
    "C33": "property-based testing on an execution monitor: generated operations are single-stepped and every instruction judged by the target's instruction sets",
    "C25": "differential testing of generated programs across builds and against a scalar evaluator",
}
NOTE = {
    "C08": " One recorded finding (kept slices are overwritten) is tolerated by its own signature only.",
    "C12": " Reads are detected when they reach an inaccessible page, bring out poison, or (thorough) by the address sanitizer; writes by guard pages and guard zones.",
    "C28": " Runs on builds with and without the feature rather than on one per instruction set.",
    "C31": " Interleavings are those the scheduler gives; there is no control over them.",
    "C33": " Trusts an opcode table in the harness (compared with a disassembler). Instructions inside the C library are not judged.",
    "C25": " Rounding of ties and the approximate reciprocals are excluded from the comparison between builds.",
}
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the harness uses the public interface only. Every command builds the harness against /repo's working tree for several target CPUs. run.py replay FILE re-runs a stored violation."}
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    op = os.path.exists("%s/harness/src/bin/%s.rs" % (V, i.lower()))
    m["checks"].append({
        "property": i, "quick_cmd": "python3 run.py check %s quick" % i, "thorough_cmd": "python3 run.py check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": T.get(i, OP if op else IT), "level": "exploration",
        "level_note": ("Random search, deterministic per VERIF_SEED, over generated inputs on builds for several instruction sets, optimised and with debug and overflow checks; sampling, not proof"
                       + (" (8-bit operand spaces are enumerated in full and 16- and 32-bit ones swept where stated in DESIGN.md)" if i in ("C13", "C14", "C15", "C16", "C19", "C20") else "")
                       + ". Trusts the scalar model in the harness, the compiler and the CPU." + NOTE.get(i, "")),
    })
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
