#!/usr/bin/env python3
"""Writes MANIFEST.json. Run from /verif after changing the list of checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = {
 'C01': 'seeded search over arrival orders, batchings and interleavings with the real MemoryStore; oracle: exact assembly of every collected span and annotation, tree shape',
 'C02': 'seeded search over schedules; oracle: linearizability of the recorded history against a sequential map of traces, and unchanged snapshots',
 'C03': 'seeded search over schedules, truncation points and read errors; oracle: the image must fit the linearizable history, a restored store is driven in lockstep with the saved one',
 'C04': 'persist loop and collectors under process crashes, power losses (lost renames, torn and lost unsynced writes), full and failing disks; oracle: what a fresh store loads from the file at every instant and after every crash must be one recent state of the linearizable history',
 'C05': 'collectors, explicit flushes, timers and a failing, slow underlying collector under seeded schedules; oracle: exactly-once, per-span order and delivery deadlines in simulated time',
 'C06': 'as C05, with queue limits, flush timeouts and stuck collectors; oracle: exact size model for refusals, non-blocking Collect, no call after the timeout',
 'C07': 'Stop at every point of the C05 workload, repeated and concurrent; oracle: finality, promptness, end of background tasks, later explicit flush',
 'C08': 'several remote collectors and tasks over a simulated network with delay, fragmentation, resets, stalls, partitions and server crashes; oracle: what arrived is what was sent, in order, no oftener than attempts, losses only with excuse, recovery after the faults stop',
 'C09': 'hostile and well-behaved connections at once, accept errors, failing collectors, independently encoded packets; oracle: server alive and accepting, all well-formed collections of others delivered, excluded input never collected',
 'C10': 'age-limited store under simulated time with slow and failing deletions; oracle: per-trace lower and upper age bounds computed from the history',
 'C11': 'size-limited store under concurrent collectors and failing deletions; oracle: an N-newest reference model and an instantaneous size invariant at every deletion and return',
 'C12': 'ID generation by several tasks and successive processes with short random reads and extreme counters; oracle: global distinctness and parent links',
 'C13': 'clients and services on a simulated network with nested requests, failures and crashes; oracle: one record per side and request, with the fields of that request, linked across hops',
 'C14': 'as C13 with malformed headers and failing collectors; oracle: a differential replay of the same script without the middleware, unchanged requests, no state kept',
 'C15': 'as C13 with secrets planted in redacted headers and trailers in every position; oracle: no secret in anything collected, all other headers recorded',
 'C16': 'recorders with failing collectors, failing events, repeated Finish and concurrent Errors; oracle: exact content at Finish, every failure reported once',
 'C17': 'tracers sharing traces across injected contexts with sampling and failing collectors; oracle: exact content and identity of each span, one sampling decision per trace',
 'C18': 'combined stores and queries over slow and failing members under concurrent callers; oracle: per-member call history against the fan-out specification',
 'C19': 'applications with chunked and remote collectors, a server with persistence, all faults together; oracle: conservation of units end to end, losses only when reported or excused',
 'C20': 'concurrent uploads, exports, permalinks and pages over failing stores; oracle: byte-independent comparison of stored, exported and uploaded traces, error containment, no change of existing traces',
 'C21': 'the serve command run as successive processes with crashes, power loss and disk faults; oracle: recency bound of the restored content, later collections, age limit, authentication on every path',
 'C23': 'generated events of built-in and custom types recorded by concurrent tasks of processes that meet the types for the first time, by several routes; oracle: field-by-field equality, no alien or doubled events, time spans, no panic on hostile annotations',
 'C24': 'span IDs walking through sequences of forms and nodes with concurrent walkers, and garbled texts; oracle: identity, and an independent reference parser',
 'C26': 'views of the web UI requested by several clients while spans with several timespan events arrive in parts, over simulated HTTP; oracle: independent recomputation from the collected parts, exact for complete traces and with consistent bounds for growing ones',
 'C27': 'the send command against servers that are missing, refuse, crash, restart or stall, and the demo command with overlapping visitors, run from their command lines over a simulated network; oracle: the command result against what arrived, structure of the sample traces, the trace page of each visit against its requests',
 'C22': 'the workloads of all other properties and a dense mix in a build with the Go race detector, in which only the synchronisation of the code under test orders memory accesses; the simulator schedules, the detector judges each schedule by happens-before',
}
NA = {
 'C25': 'the Python clients need the Twisted and protobuf Python packages, which are not installed, and a simulated Python runtime; the server side of the format is covered by C09 (packets encoded independently of the Go client)',
}
DONE = [l.strip() for l in open(os.path.join(here, 'tools', 'claimed.txt')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif i in DONE:
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
            'technique': 'deterministic simulation with fault injection: seeded schedule and fault search' + (' under the race detector' if i == 'C22' else ''),
            'level': 'exploration',
            'level_note': NOTE.get(i, 'seeded schedule and fault search over the real code in one simulated process group') +
              '. A clean run is evidence, not proof: it samples the schedules and faults; trusted are the simulator runtime (scheduler, clock, sync, net, http, disk models in sim/rt) and the source instrumenter.'})
    else:
        na.append({'property': i, 'reason': 'no check has been built yet'})
m = {'version': 1, 'setup_cmd': './check.sh build && ./check.sh race-build',
 'hooks': {'guard': 'none in /repo: the simulator instruments a copy of the working tree at build time (sim/instr)', 'enable': './check.sh build copies /repo, instruments the copy and compiles it with the simulator runtime', 'source_commits': []},
 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
