#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl and the notes below.
import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
claimed=os.environ.get("CLAIMED","").split() or open(os.path.join(root,"tools","claimed.txt")).read().split()
BUB="real code in deterministic virtual time (testing/synctest) over a fault-injecting in-memory transport; online and offline monitors"
T={
"C13":"round-trip and layout oracle over generated packets (independent parser, segmenting readers/writers)",
"C14":"panic/accept oracle over truncated, mutated and random byte strings fed to both decoders",
"C20":"conservation monitor (distinctness, parity, held-set model) over concurrent draws",
"C23":"Go race detector and runtime map checks under concurrent API workloads, reports filtered to library accesses",
"C26":"progress monitor over bulk bidirectional workloads on slow and small-buffered transports in virtual time",
"C24":"goroutine and socket conservation monitor after every lifecycle, in virtual time",
"C17":"wire-trace and delegate monitor over long idle periods and silent peers in virtual time",
}
N="Every case of the generated, seed-fixed workload was run against the current tree and judged by the monitor; nothing is claimed about schedules or inputs not drawn. Trusts the Go runtime, testing/synctest, the harness's own transport and its independent wire parser."
checks=[]
for p in props:
    if p["id"] not in claimed: continue
    i=p["id"]
    checks.append({"property":i,"quick_cmd":"./run.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./run.sh "+i,
      "evidence_file":"evidence/%s.json"%i,
      "technique":"runtime monitoring: "+T.get(i,BUB),"level":"exploration","level_note":N})
na=[{"property":p["id"],"reason":"no check registered yet"} for p in props if p["id"] not in claimed]
m={"version":1,"setup_cmd":"./run.sh -setup","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: the monitors observe the public API, the delegates, the transport and the runtime. See DESIGN.md."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
print(len(checks),"checks",len(na),"not claimed")
