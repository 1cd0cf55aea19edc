#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harness files that exist."""
import json,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"C01":"monitor of request/response histories with unique payloads (wire tap + callers), stress with delays and split transports",
"C02":"trace monitor over handler entry/exit events and wire order of pipelined requests",
"C03":"bounded-progress monitor with deliberately stalled handlers and peers",
"C04":"frame-by-frame stream oracle (sequence derived from the stream's tag at both ends) under concurrency and raw peers",
"C05":"independent wire decoder on a tap vs log of successful writes; faulty transports (split writes, timeouts)",
"C06":"differential decoding over random segmentations, hostile byte streams, control connection oracle",
"C07":"wire conservation monitor: accepted writes vs bytes on the wire, refused writes leave none",
"C08":"targeting oracle for resets: contexts/channels/answers of the target vs everyone else",
"C09":"fault enumeration: cut at every byte offset in both directions plus close/reset/malformed variants, release oracle",
"C10":"panic injection at every handler position with healthy-traffic oracle",
"C11":"marker taint: every payload byte on the wire must belong to its own frame; abandoned/failed/refused frames poisoned",
"C12":"exactly-once/ordering monitor of pushes and responses with colliding ids",
"C13":"request/response monitor for server-initiated traffic in both directions",
"C14":"interval-rule checker over recorded bind/close/lookup histories",
"C15":"lifecycle-callback and registry monitor over connection histories",
"C16":"shutdown monitor: handler events, sockets and callbacks relative to Shutdown's return",
"C17":"limit monitors: per-connection concurrency and per-second counts at handlers",
"C18":"throttle monitor: dispatch/accept events relative to set/clear, conservation of requests",
"C19":"reconnect monitor with scripted outages at harness listeners",
"C20":"endpoint-tagged result monitor with scripted outages",
"C21":"typed-message sequence oracle on concurrent pipes",
"C22":"same program and oracle over four transports, byte-stream oracle for the overlay, cleartext tap",
"C23":"method/input/output oracle for service calls, outages, hostile envelopes",
"C24":"codec call and wire monitors with shrinking/growing/failing codecs",
"C25":"dispatch log oracle over all commands, middleware chains and registrations",
"C26":"Go race detector over concurrent use of the whole API",
"C27":"heap, goroutine and file-descriptor monitors at quiescent points",
"C28":"byte conservation and bounded release under slow or silent peers",
"C29":"conservation of counts between handled requests and harness-side metrics",
"C30":"generated packages are built and run against a call oracle",
"C32":"socket options read from the kernel compared with reference sockets, over transports and ways of connecting",
"C33":"online rate checker over close events seen by callbacks and peers; isolation probes during storms of closes",
"C34":"accept-fault injection, descriptor exhaustion and hostile connections with service and shutdown oracle",
"C31":"tool output and bytes received compared with an independent encoder",
}
N="Holds on the executions produced (seeded workloads, several processes, schedules perturbed by injected delays at the library's log points, GOMAXPROCS and faulty transports); nothing is claimed beyond them. Trusts the Go runtime, loopback TCP and the harness's own wire decoder."
ps=[json.loads(l) for l in open(V+"/properties.jsonl")]
checks,na=[],[]
for p in ps:
    i=p["id"]
    if os.path.exists(f"{V}/harness/p_{i.lower()}.go"):
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",
            technique="runtime monitoring: "+T[i],level="fault_enumeration" if i=="C09" else "exploration",level_note=N))
    else: na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="Black-box harness: no hooks in /repo. See DESIGN.md.")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(checks),len(na))
