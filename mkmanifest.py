#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
TECH = "symbolic execution of the crate's LLVM IR with symbolic coordinates; every branch and the property decided by an interval branch-and-prune solver (bit-blasting SAT behind it), counterexamples replayed natively"
NOTE = ("Within each exhausted scenario (stated in the evidence: number of points, symbolic coordinates and their integer ranges, power-of-two scale) "
        "the property holds for every input; scenarios cut by the time limit are explored in part and counted as such. "
        "Trusted: the sign contract of the robust crate's predicates, rustc's unoptimised LLVM IR, llc; every path is compared with a native run.")
TECHS = {"C18": "concolic execution of the LLVM IR of the loader and of the standard library below it with symbolic file bytes; z3 decides every branch and, per path, whether any of its files is malformed; panicking paths and counterexamples are replayed natively"}
NOTES = {"C18": "Within each exhausted family of files (stated in the evidence: every file of up to four bytes; two or three symbolic bytes at every position of a set of files with sections, notations and line ends; error numbers, piece sizes and size hints of the operating system) loading never panics and never accepts a malformed line. Families cut by the time limit are explored in part and counted as such. The operating system is a stand-in and memory allocation never fails; every path is compared with a native run."}
EXTRA = {
    "C17": "How numbers, white space and line ends are written is decided in addition on symbolic file bytes (the method of C18): no well-formed file is rejected.",
    "C01": "Also run natively with debug assertions and overflow checks on a model of every path.",
    "C06": "The agreement of points, data, indices and iterator is decided per path on the boxed symbolic coordinates, which must be passed through bit for bit.",
    "C14": "Inputs are unrestricted (repeated points, crossings, collinear outlines); the preconditions of the standard library's unsafe operations are branches of the executed code, and each path, whose memory accesses do not depend on the coordinates, is also run once under the address sanitizer. Unsafety that neither shows (aliasing, reads within an allocation) is outside.",
    "C11": "Ids are kept from the first and the latest event at which a node was met.",
    "C21": "Arguments of the accessors are all ids, corners and edges of the mesh and some that no triangle has.",
    "C24": "Translations are random integers up to 2^40 in units of the input; the second run is symbolic as well and follows the path of the first.",
    "C25": "One of the seven turns and mirrorings per scenario, by a fixed pseudo-random choice; the second run is symbolic as well and branches on its own.",
    "C19": "The self-check is asked after every event and at every third callback within legalizations.",
    "C16": "The f32 build is the one executed; coordinates are small integers times a power of two.",
}
checks, na = [], []
NA = json.load(open("na.json"))
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    checks.append({
        "property": p, "quick_cmd": "./check.py " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p,
        "technique": TECHS.get(p, TECH), "level": "model_checking", "level_note": (EXTRA.get(p, "") + " " + NOTES.get(p, NOTE)).strip(),
    })
json.dump({"version": 1, "setup_cmd": "engine/build.sh && engine/build.sh f32 && engine/build.sh load", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
