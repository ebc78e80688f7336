#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules, timings and faults"
NOTE = {
  "X01": "Real cache crate on simulated threads, locks and randomness; per-key linearizability search plus an exact LRU model. Bounded by the runs made; sequentially consistent memory.",
  "X02": "Real ring under a simulated lock against an ordered map, every index compared after every call.",
  "X03": "Real token bucket on a simulated clock that jumps both ways; every grant is checked against all earlier ones, and refill as bounded progress.",
  "X04": "Real memory pool; datafusion's reservation type is re-implemented. Each decision is compared with what was surely and possibly held meanwhile.",
  "X05": "Real metrics crate; every reported value must lie between what had ended before and what had begun by the end of the report.",
  "S01": "As S03; the process is killed or a disk operation is its last one, at any point, also while it starts; a process crash keeps what was written. Reads afterwards must match the acknowledged writes.",
  "S04": "As S03, with deletes, drops, column changes and tag updates between flushes, compactions and restarts.",
  "S02": "As S01, with a synced log and power failures: data written and not synced is kept, lost or cut, after a file system model with ordered metadata. Judged once the raft groups have leaders.",
  "S08": "As S01, with deaths and power failures around the manifest, flushes and compactions; files the version names must exist.",
  "S07": "Real log, node and state storage of one vnode on a simulated disk, driven as the raft layer does: appends, truncations, purges, snapshots from beyond the log, kills and last disk operations; the whole log is compared with a map after every operation and restart. What entries do when applied is stubbed; power failures and bytes damaged in place are not part of it.",
  "S11": "As S03, with many series, tag listings and filters against the model, and either tag updates or process deaths (both together: known finding).",
  "S03": "Whole data node(s) on a simulated disk: real coordinator, tskv engine, replication and meta code; openraft, heed, datafusion, gRPC and HTTP layers are stubs. Every read is compared with a model of the rows, during and after flushes and compactions.",
  "S05": "As S03, with workloads that overwrite cells across caches, delta files, levels and restarts.",
    "S10": "As S03, with failing, short and stalled disk operations and full disks, and deaths. A failed operation may have done part of its work; an acknowledged one must stay.",
    "R01": "Three to five nodes with real replication, state machine, log store and coordinator code over a re-implementation of openraft; loss, delay, cuts, deaths and disk crashes. Reads while nodes come and go and at the end are compared with the acknowledged writes; progress once faults stop.",
    "R02": "As R01 and also one node, with a witness inside the openraft stub that records every vote, stored log entry and applied entry and judges what a member says after its restart.",
    "R03": "As R01, with members away long enough that the log they miss is purged: they must be given a snapshot and end with the rows the others have.",
  "M01": "Real metadata state machine; the same commands applied on several machines that differ in clock, randomness, schedule, restarts, and restore from a snapshot half-way: the answers and all keys must be equal. Differences that follow from local clocks and pings are recorded findings.",
  "M02": "Real state machine with data nodes that come and go, deaths of the server in the middle of a command and moves by snapshot; every bucket, placement and id is compared with a model.",
  "M04": "Real state machine against a model of the catalogue; every command's answer and all keys afterwards are compared; deaths in the middle of a command (half-done commands are recorded findings, per command).",
  "M03": "Real change log and watch protocol, and whole metadata clients of several nodes; the log wraps, the server dies or is restored from a snapshot. What a follower gets or believes is compared with the catalogue. A resync that was not needed is allowed.",
  "M05": "Real limiters of several nodes and the shared one in the metadata server; concurrent requests, deaths of the server, lost or slow answers, clock jumps. Sums over all intervals against the configured burst and refill; a bucket made anew (restart of the metadata server, change of the tenant) begins with its initial tokens.",
}
NA = {
  "S06": "no check of its own was built: that a member restored from a snapshot ends with the rows of the others is decided under R03",
  "S09": "no check of its own was built: torn tails are met in S01, S02 and S08, byte flips are not injected",
  "X06": "no check was built: the executor relies on a runtime type of tokio that the simulator's tokio does not re-implement",
}
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --tier thorough", "technique": TECH, "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its simulation is not built")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams (std::sync, std::thread, tokio, parking_lot, libc calls) are turned towards the simulator while the sources are laid out in .ws by stage.py."}
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1)
