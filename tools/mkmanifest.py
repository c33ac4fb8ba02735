#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
ORACLE = {
 "C01": "bytes of every file before and after each step",
 "C02": "entry-by-entry reading of the journal after the kill, and the undisturbed twin run",
 "C03": "journal bytes after the fault and after the retry, against the undisturbed twin run",
 "C04": "a read-only run at the same instant on what was recorded",
 "C05": "entry-by-entry reading of the journal after the failed import",
 "C06": "count of automatic movements per envelope and day over the history",
 "C07": "reference model of available money and of what each envelope asks for",
 "C08": "reference model of what each envelope asks for; liveness over simulated days once faults stop",
 "C09": "reference calendar and reference model of the now/next split",
 "C10": "reference model of balances",
 "C11": "reference model of envelopes; conservation between the balance and envelope views",
 "C12": "reference model of the register",
 "C13": "twin runs that differ in entropy only",
 "C14": "error reporting, empty output and unchanged disk under read faults; twin run for harmless ones",
 "C15": "exit status, signals, CPU limit",
 "C16": "twin runs that differ in path spelling, working directory and environment only",
 "C17": "journal and outputs after simulated interleavings, against the serial outcomes",
 "C18": "journal bytes against the twin run with working output",
 "C19": "expected entries derived from the rows and rules as they are generated",
 "C20": "twin runs whose files differ in layout only",
 "C21": "twin runs that differ in the spelling of the command line only; unchanged disk and a message for refused ones",
 "C22": "reference reader that names the mistake; a message, empty output and unchanged disk (no imported row for rules)",
}
NA = {
 "N01": "silverfox does not do this on the current tree, and says so (validate has it as a comment only): there is nothing to hold. It is a function of one entry's text, with no time, I/O, schedule or fault for a simulation to vary.",
 "N02": "assertions are parsed but the current tree does not enforce them (an unimplemented feature). A function of the journal text alone, so simulation would add nothing.",
 "N03": "the directive is stored but not used on the current tree (an unimplemented feature). A function of the journal text alone.",
 "N05": "a pure function of one number and symbol. What reaches the disk through it is covered by C04 and C19.",
}
checks = []
for i in ids:
    if i.startswith("C"):
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded search)",
            "level": "exploration",
            "level_note": f"Runs the real binary, built from /repo, in a simulated world (file system, locks, clock, zone, entropy, terminal, kills, scheduling); every choice comes from the seed, and a failure is minimised to a replay file that reproduces it exactly. Oracle: {ORACLE[i]}. A pass means no violation on the seeds explored, not a proof. Trusts the simulated libc, the generators' reach and the reference model; power loss (fsync) is not modelled.",
        })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i.startswith("N")],
     "notes": "No hooks in /repo: the seam is the C library, replaced by shim/shim.c with LD_PRELOAD. Known findings and fixes: known_findings.json."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
