#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from registry.py (claimed) and properties.jsonl (all)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import registry
ALL = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
PURE = "a pure function of its input: no concurrency, clock, I/O, crash point or other party takes part, so a simulator has no schedule or fault to explore and would be input generation under another name"
NA = {
 'C40': "Claiming is " + PURE + ".",
 'C41': "Choosing among solutions is " + PURE + " (the part that depends on time and cancellation is claimed as C25).",
 'C42': "Applying limits is " + PURE + " (its independence of hash order is claimed as C23).",
 'C43': "GPA arithmetic is " + PURE + ".",
 'C44': "Applying exceptions is " + PURE + ".",
 'C45': "Rendering is " + PURE + ".",
 'C46': "The Rust programs are outside this build (no vendored crates to build them offline) and their rendering is " + PURE + ".",
 'C47': "Parsing a string or an environment file is " + PURE + ".",
}
KIND = {
 'queue': "seeded simulation of workers, producers and commands over a simulated PostgreSQL; scheduler decides every interleaving, crash, lost connection, statement error, delay and clock skew",
 'batch': "seeded simulation of the batch command: its fetching threads, HTTP server and PostgreSQL are under the scheduler with faults injected",
 'server': "seeded simulation of the server's processes, report program and virtual clock with process deaths and failures injected",
 'discover': "seeded simulation of discovery runs over a simulated PostgreSQL with crashes, statement errors and lost connections injected",
 'index': "seeded simulation of index runs over the real SQLite with crashes, disk errors and damaged files injected",
 'testbed': "seeded simulation of regression runs: worker pool, real SQLite, simulated server database, virtual clock; crashes, disk errors and worker deaths injected",
 'compare': "seeded simulation of the testbed's comparing and showing commands over the real SQLite while other processes replace results; crashes, disk errors, full disks and broken pipes injected",
 'local': "seeded simulation of command-line audits side by side while their files are being replaced; crashes, interrupts, file and pipe errors injected",
 'summary': "seeded simulation of the summary command over a simulated PostgreSQL while workers, batches and operators commit and roll back; crashes, lost connections, statement errors, stalls and broken pipes injected",
 'tools': "seeded simulation of the file tools side by side with replacements of their files; crashes, interrupts, file and pipe errors injected",
 'health': "seeded simulation of the server's workers, other clients and the database, asked by the real health-check script at random moments; worker deaths, lost connections, stalls and query failures injected",
 'expand': "seeded simulation of the expand command side by side with replacements of its files; crashes, interrupts, file and pipe errors injected",
 'stream': "seeded simulation interleaving several audit streams, consumers, abandonments and clock faults in one process",
 'hashes': "seeded simulation of several server processes (real interpreters with seeded hash randomisation, history and directory order) whose results are compared",
}
NOTE = "Real dp code runs unmodified under the simulator; each seed is one exactly repeatable execution. Assurance is that of a search: no violation in the runs reported in the evidence file. Trusts the simulated seams listed there (components_stubbed) and the oracle in worlds/%s.py."
checks = [dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
               evidence_file=f"evidence/{p}.json",
               technique="deterministic simulation with fault injection: " + KIND[registry.PROPS[p]],
               level="exploration", level_note=NOTE % registry.PROPS[p]) for p in ALL if p in registry.PROPS]
na = [dict(property=p, reason=NA.get(p, "simulation world for this property is still being built")) for p in ALL if p not in registry.PROPS]
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
         notes="No hooks were added to /repo: every seam is the module-level name the code already looks up (psycopg2, sqlite3, subprocess, multiprocessing, select, time, urllib, files), replaced inside the simulating process only. /repo carries only fix: commits, listed in known_findings.json.")
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), len(na))
