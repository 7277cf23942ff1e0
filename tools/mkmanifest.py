#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = "deterministic simulation with fault injection: "
T = {
 "C01": "seeded search over reader deliveries (fragmentation, empty reads, scratch use, latencies), metamorphic comparison of complete outcomes",
 "C02": "read errors injected at seeded offsets of any file; no success, no tree, cause preserved",
 "C03": "end-of-input faults with readers that go on delivering; no further Read, outcome equal to that of the delivered bytes",
 "C04": "torn files: seeded cut points; error or an exact prefix of the full tree",
 "C05": "storage faults (flipped, lost, repeated, swapped, zeroed, inserted ranges); conservation oracle that accounts for every token",
 "C06": "arbitrary streams, floods and read-fault sequences under step, stack and read budgets; result-xor-error and panic-free use of the tree",
 "C07": "simulated concurrent callers under a seeded statement-level scheduler (random, PCT, bursts), stalls and faults; equality with solo runs; race-detector build of the same simulation",
 "C08": "simulated concurrent traversals and interpretations of one tree with hostile visitors; equality with solo runs, tree fingerprint, race-detector build",
 "C09": "seeded visitor answers and panics; visit history checked against a reference traversal computed from the tree by reflection",
 "C10": "seeded histories of calls with faults (panics, errors, stalls); last calls compared with a fresh process",
 "C11": "log destination faults (delay, short write, error, panic-free) and debug mode; metamorphic comparison of outcomes",
 "C12": "instrumented reader of several types with faults; protocol of Read calls and goroutine census checked",
 "C13": "seeded token-stream operations with inserted lookahead under seeded deliveries; comparison with the run without lookahead",
 "C14": "results overwritten completely, one by one and concurrently with other calls; fingerprints of the others, address overlap, race-detector build",
 "C15": "declaration-by-declaration client with seeded probes and deliveries; comparison with whole-file Parse",
 "C16": "storage faults and cuts on any file; every place the error names is looked up in the damaged content and compared with the first damaged token",
 "C17": "record faults (whole declarations lost, repeated up to thousands of times, exchanged) in every kind of body; comparison with each declaration parsed alone",
 "C18": "storage faults that leave the file acceptable; what stands in front of the damage compared with the undamaged file",
 "C19": "storage faults confined to comments, names, strings and white space; the tree is that of the undamaged file with these texts exchanged",
 "C21": "storage faults that leave the file acceptable, under seeded deliveries; every position looked up in the content by an independent token matcher",
 "C22": "storage faults and inserted comments that leave the file acceptable, under seeded deliveries; every comment's place computed from the content and compared with the tree",
 "C23": "storage faults that leave the file acceptable in strict mode, under seeded deliveries; comparison with the permissive run",
 "C25": "several tasks ask one result (of a damaged file) for what it derives, under seeded schedules; every answer compared with the content, race-detector build",
 "C26": "storage faults and ends of input under seeded deliveries; metamorphic comparison with the run without the options",
 "C27": "storage faults that make a file unacceptable, then seeded losses and replacements of all that stands behind the place of the error, under seeded deliveries; comparison of the errors",
 "C28": "record faults (parts repeated n, 2n and 4n times, in every kind of body, list and nesting); the simulator's step clock and the allocation counter compared",
 "C29": "seeded recognition modes and lookahead on the token stream under seeded deliveries, storage faults and ends; conservation of every character, positions recomputed",
 "C24": "storage faults that leave the file acceptable; every interpretation compared with its block, element by element",
}
race = {"C07", "C08", "C14", "C25"}
checks = []
for p in sorted(T):
    checks.append({
        "property": p,
        "quick_cmd": f"bash bin/check.sh {p} quick",
        "thorough_cmd": f"bash bin/check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": DST + T[p],
        "level": "exploration",
        "level_note": "No violation in the seeded runs counted in the evidence file, on the real code of /repo (instrumented copy built from the working tree by go build -overlay). "
            "Nothing is claimed beyond the explored runs. Trusted: the simulator, its oracles and the Go toolchain" + (", and the race detector for the race phase." if p in race else "."),
    })
NA = {
 "C20": "Acceptance of exactly the documented grammar is a relation between one input text and one answer: no schedule, time, I/O fault or second party takes part, so a simulator would only be an input fuzzer around a second grammar.",
}
m = {
 "version": 1,
 "setup_cmd": "bash bin/setup.sh",
 "hooks": {
  "guard": "go build -overlay (no guarded source in /repo)",
  "enable": "bin/build.sh instruments a copy of /repo's non-test files (a yield point before every statement, package sync replaced by a simulated one) into a scratch directory and passes it to go build -overlay; /repo itself has no hooks, so the shipped build is unchanged",
  "source_commits": [],
 },
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
 "notes": "bin/replay.sh FILE replays a violation. known_findings.txt lists the defects that were repaired in /repo. See DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
