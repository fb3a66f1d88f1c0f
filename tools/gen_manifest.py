#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C22": "Pure conversion of numbers and strings: no I/O, schedule, clock, fault or interleaving for a simulator to decide. Feeding it generated values would be input generation dressed as simulation. (C01, C08 and C12 see conversions as part of reading and writing.)",
 "C23": "Pure comparison and conversion of values held in memory: no I/O, schedule, clock, fault or interleaving for a simulator to decide.",
}
SAMPLES = "Seeded sampling: a clean batch is evidence, not proof. Trusted: the harness's reference model, its file encoders and its strict XML parser, rustc and the libraries below the code under test. "
NOTE = {
 "C19": SAMPLES + "The tool runs as a process; file, clock and random calls go through an LD_PRELOAD shim; loss of power is reconstructed from the log of writes and syncs at sector granularity (SQLite's own assumptions on disks hold).",
 "C20": SAMPLES + "Interleavings are decided at every I/O operation and hand-over, not at single memory accesses (the library has no unsafe code or synchronisation of its own).",
 "C25": SAMPLES + "The tools run as processes; file, clock and random calls go through an LD_PRELOAD shim. What an object looks like when printed is taken from the library itself.",
 "C24": SAMPLES + "Memory is what the reading thread holds through the global allocator of the harness; bounds leave generous slack.",
 "C15": SAMPLES + "One known finding (K1, see known_findings.txt) is tolerated exactly where it shows.",
}
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"./check.sh {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection (seeded search over data, delivery, faults and schedules; reference model)",
        "level": "exploration",
        "level_note": NOTE.get(p, SAMPLES + "The library's byte sources and sinks are simulated; everything above them is the real code."),
    })
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "checks": checks,
 "not_applicable": na,
 "notes": "No hooks in /repo: every seam (Read, Write, files by name, system calls of the tool) is outside the library. check.sh rebuilds from /repo's working tree; './check.sh replay evidence/<id>.replay.json' replays a violation exactly.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
