# writes MANIFEST.json; run: python3 mkmanifest.py
import json
SIM="deterministic simulation with fault injection: "
T={
"C01":"seeded schedules, late timers, stalls; virtual-time bound on halts",
"C02":"seeded schedules, late timers, stalls; virtual-time limits per piece of code",
"C03":"seeded schedules and map orders; begin/end marker history against a reference order",
"C04":"seeded schedules and map orders; result and console history against a sequential reference model",
"C05":"pairs of executions differing in schedule, map order and history must agree byte for byte",
"C06":"seeded interleavings of concurrent evaluations against solo executions, race detector in the simulated runs",
"C07":"seeded interleavings of concurrent readers against solo executions, race detector in the simulated runs",
"C08":"seeded schedules of finder goroutines; values and order against a reference selector",
"C09":"injected failures at seeded positions and schedules; error containment against a reference model",
"C10":"seeded schedules with halts and failures; live goroutines after quiescence in virtual time",
"C11":"faulty console writers at seeded calls; write history against the reference model",
"C12":"system call faults and crashes injected into simulated processes of the real tool",
"C13":"seeded histories of document operations against a sequential tree model, over schedules and map orders",
"C14":"healthy operations after and beside injected failures against the reference model",
"C15":"simulated processes of the real tool differing in schedule and map order must agree byte for byte",
}
NOTE="Seeded search: evidence from the explored schedules, faults and workloads, not proof. Real json-dom, gotils, hjson, otto and Go runtime; virtual clock, seeded scheduler and map order, stubbed writers. Trusts the reference model in dst/jdsim and the runtime overlay in dst/overlay."
NOTES={
"C01":"The three listed known findings are probed and kept out of the generated workloads.",
"C12":"Real tool, one process per simulated run; results of its system calls are scripted.",
}
NA={
"C16":"a pure function of the input document: no schedule, clock, fault or interleaving in it, so nothing for a simulator to decide (documents without scripts are still part of the workloads of C04)",
"C17":"a pure function of the path text: no schedule, clock, fault or interleaving in it (the parser's shared tables under concurrent use are decided by C06 and C07)",
"C18":"a pure function of a string: no schedule, clock, fault or interleaving in it",
"C19":"a pure function of the document: no schedule, clock, fault or interleaving in it (stripping inside histories of operations is part of C13)",
}
import sys
ids=[json.loads(l)["id"] for l in open("properties.jsonl")]
m={"version":1,"setup_cmd":"./build.sh sim race cli",
"hooks":{"guard":"none in /repo: the seams are put in at build time with go build -overlay (dst/mkoverlay)","enable":"./build.sh generates the overlay from /repo's working tree and builds with it; a plain build of /repo has no hooks","source_commits":[]},
"checks":[],"not_applicable":[]}
for i in ids:
    if i in T:
        m["checks"].append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",technique=SIM+T[i],level="exploration",level_note=NOTE+(" "+NOTES[i] if i in NOTES else "")))
    else:
        m["not_applicable"].append(dict(property=i,reason=NA[i]))
json.dump(m,open("MANIFEST.json","w"),indent=1)
