#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json
T="deterministic simulation with fault injection"
notes={
"C01":("seeded search over goroutine schedules of concurrent validations, each call compared with the sequential reference model and a fresh solo run; race detector on every schedule",""),
"C02":("seeded search over schedules and injected store/default failures; final inputs compared with a reference model of defaulting",""),
"C03":("seeded schedules of reference-map calls; recorded histories checked for linearizability against an atomic map; race detector",""),
"C04":("seeded schedules with failing, panicking and recovering resolvers; history checked against a resolve-once model",""),
"C05":("seeded schedules of rule additions against validations; histories checked against the interval model of completed additions; race detector",""),
"C06":("seeded permutation of every map iteration; verdict and final input compared with canonical order and the reference model",""),
"C07":("seeded permutation of every map iteration and heap layout over equal copies; outputs compared byte for byte",""),
"C08":("seeded schedules and histories of generations and validations; output and deep state compared with isolated runs; race detector",""),
"C09":("seeded write faults (error, short, late, torn) on the output writer; success compared with bytes accepted",""),
"C10":("commands run in-process on a simulated file system with seeded open/read/write/close/disk-full/crash faults",""),
"C11":("handlers run in-process over simulated connections with seeded stalls, breaks, damage and disconnects; answers compared with an idle server",""),
"C12":("seeded operation histories and damaged streams on optional values against a small presence/value model",""),
"C13":("seeded schedules of first-time inspection of freshly made struct types; verdicts compared with the equivalent property map; race detector",""),
"C14":("seeded panics, errors, Goexit and re-entrance in user callbacks; lock ledger and bounded-step progress checked",""),
"C21":("seeded histories of changes and uses under seeded schedules, user panics included; every use compared with the same use on fresh constraints given only the settings in force; race detector",""),
"C15":("seeded schedules and fault histories of builds; document dumps, verdicts and printed code compared with solo builds; race detector",""),
}
lvl="Seeded random search, not exhaustive: a violation it reports is real (confirmed by an exact replay), a quiet run means none was found in the runs counted in the evidence. Trusted: the source instrumenter and cooperative scheduler in instr/ and simkit/, the reference model in harness/, and the Go toolchain. Code of the repository runs for real; only files, connections, map order and the scheduler are simulated."
na={
"C16":"A pure function of one schema and one input: no schedule, clock, I/O, crash or other party can change the verdict, so there is nothing for a simulator to decide. (C01, C05 and C06 use a reference model of the keywords on a fragment as their oracle, which is not a decision of this property.)",
"C17":"A pure translation: deciding it needs translation validation of the printed source over all validators and inputs; no scheduling, time or fault takes part.",
"C18":"Totality of a pure single-threaded function over its inputs; no nondeterminism to schedule and no fault to inject (panics in user code and under concurrency are claimed in C14 and C01).",
"C19":"Pure function of the schema document: a reference resolves the same way in every schedule and no I/O takes part (references to files or URLs are not fetched). The concurrent and failing parts are claimed in C04 and C15.",
"C20":"Pure function of one schema; nothing to schedule or to inject.",
}
m={"version":1,"setup_cmd":"bash check.sh --warm","checks":[],"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
"notes":"No hooks in /repo: the seams (locks, goroutines, map ranges, reflection, files, HTTP server, standard streams) are put in by instr/, which rewrites a scratch copy of /repo's working tree when a check runs. Replay a violation with: bash check.sh --replay FILE. Known findings and repaired defects: known-findings.txt."}
for k,(t,_) in notes.items():
    m["checks"].append({"property":k,"quick_cmd":f"bash check.sh {k} --tier quick","thorough_cmd":f"bash check.sh {k} --tier thorough","evidence_file":f"evidence/{k}.json","technique":T+": "+t,"level":"exploration","level_note":lvl})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
