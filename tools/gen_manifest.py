#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: one check per property whose monitor exists."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
READY = os.environ.get("READY", "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22").split()
T = {
 "P01": "online trace monitor against a reference model (order, exactly-once, end)",
 "P02": "online trace monitor of ancestor stacks against a reference model",
 "P03": "online trace monitor of contexts against a reference model, paths resolved back with at_path",
 "P04": "online trace monitor of leaves against a reference model",
 "P05": "conversion-point sweep with a trace monitor against a reference model",
 "P06": "conversion-point sweep with an ancestor-stack monitor against a reference model",
 "P07": "trace monitor over collections against per-tree reference models",
 "P08": "path-query monitor against a reference model and structural walk (valid, invalid and hostile paths)",
 "P09": "write-log monitor: recorded writes replayed on a model and compared with the tree afterwards",
 "P10": "edit-script monitor: scripted child edits replayed on a model tree, traversal compared step by step",
 "P11": "closure call-log monitor against a reference model",
 "P12": "closure call-log and result monitor against a reference model",
 "P13": "closure call-log monitor with order-sensitive accumulations against a reference model",
 "P14": "stage event-log monitor of random pipelines against stage-by-stage reference semantics",
 "P15": "stage event-log monitor of random collection pipelines against per-tree reference semantics",
 "P16": "value ledger (conservation monitor) with drop-point and panic injection at every step",
 "P17": "miri (Stacked Borrows), AddressSanitizer and heap-canary monitors over the same workloads",
 "P18": "panic monitor over conversion points",
 "P19": "stack-limited execution of very deep trees with result monitors",
 "P20": "node-opening log and live-value monitor over lazily generated and infinite trees",
 "P21": "round-trip and equality monitor against a reference encoding",
 "P22": "interleaving monitor: many traversals stepped under random and threaded schedules against solo runs",
}
N = "Held on the executions the run produced (counts in the evidence file), never a proof. Trusts the reference model and harness in /verif/harness, and the installed toolchain."
L = {"P16": "fault_enumeration"}
checks = [{"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
           "technique": "runtime monitoring: " + T[i], "level": L.get(i, "exploration"), "level_note": N} for i in ids if i in READY]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": "the monitor for this property is still being built"} for i in ids if i not in READY],
     "notes": "No hooks in /repo: every monitor observes at the public API. See DESIGN.md and known_findings.txt."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
