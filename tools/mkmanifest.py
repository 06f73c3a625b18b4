import json,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
titles={}
for l in open("properties.jsonl"):
    d=json.loads(l); titles[d["id"]]=d["title"]
note={
"C01":"reference model of each log (posts by real-time order) against full audits by fetch",
"C02":"every byte of every fetch reply decoded by an independent decoder and compared with the log",
"C03":"byte accounting of every fetch reply, and paging to the end of each log",
"C04":"virtual-time bounds on the answer of every waiting fetch",
"C05":"exactly one well-formed reply per request in order, under pipelining, splits, stalls and slow readers",
"C06":"crash, reset, half-close, time-out, unreachable and stall at arbitrary byte positions of victim connections, with healthy observers judged by all other oracles",
"C07":"linearizability of every committed-offset register against a forward-only register",
"C08":"answers about never-created names, and full listings afterwards",
"C09":"list-offsets replies against what the log held while the request was open",
"C10":"termination within a virtual-time bound after a stop under every client behaviour, then open sockets, port and goroutines counted",
"C11":"requests received in full before a stop must be answered in full",
"C12":"histories with restarts judged as if there had been none",
"C13":"random lifecycle call sequences from several goroutines",
"C14":"metadata, coordinator, join and sync replies against what was created before and meanwhile",
"C15":"unmodified kafka-go consumer groups run inside the simulator, with connection cuts and restarts",
"C16":"happens-before race detector under seeded schedules and faults of all other profiles",
"C17":"socket, descriptor and goroutine counts a bounded time after clients leave in any way",
"C18":"bounded latency of public calls and other clients while slow, stuck and stalled clients are connected",
"C19":"several servers in one process, each judged against its own model, from the first call on",
"C21":"seeded descriptor shortages (accept and dup fail) and socket errors of arbitrary number, with all other connections, posts and lifecycle calls judged by the other oracles meanwhile",
}
m=dict(version=1,setup_cmd="python3 build.py both",
 hooks=dict(guard="none: /repo carries no hooks",enable="checks compile an instrumented copy of /repo's working tree through go build -overlay (sim/cmd/instr), with package net replaced by sim/simnet and a runtime overlay for scheduler and clocks",source_commits=[]),
 checks=[],not_applicable=[dict(property="C20",reason="a pure function of its input: no schedule, clock, network, storage or fault can influence encode(decode(x)), so simulation adds nothing to it; what crosses the wire is judged by C02, C05, C07, C09 and C14 for the values the simulation produces")],
 notes="Deterministic simulation with fault injection; see DESIGN.md. Replay: python3 check.py replay FILE [-v].")
for p in sorted(note):
    m["checks"].append(dict(property=p,quick_cmd="python3 check.py "+p,thorough_cmd="VERIF_TIER=thorough python3 check.py "+p,evidence_file="evidence/%s.json"%p,
     technique="deterministic simulation: seeded schedules and faults, "+note[p],
     level="exploration",
     level_note="Every run is one repeatable execution of the real server code under a seeded scheduler and a simulated network; what the seeds did not reach is not covered. Trusts the simulator (scheduler, clock, TCP model), the oracle and the Go toolchain; simulated preemption happens at instrumented statements and shared accesses on one processor."))
json.dump(m,open("MANIFEST.json","w"),indent=1)
