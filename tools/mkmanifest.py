#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
how={
"C01":"seeded request histories, restarts and schedules; occupancy against the files really held (from the dump) and a reference model",
"C02":"seeded histories with ties against a reference model of every queue; order of the dumped files",
"C03":"seeded histories and periods; counters, statistics and result rows against a reference model",
"C04":"save / restart / continue in lock-step with the model at seeded points of seeded histories",
"C05":"truncation, bit flips, missing or zeroed bytes and read faults injected into stored dumps, then a restart",
"C06":"the same runs under two seeded schedules, map orders, clocks, read splits and disk speeds; outputs compared",
"C07":"record streams under seeded producer/consumer schedules, short reads, read faults and damaged inputs",
"C08":"whole program on the simulated disk against a model of the driver",
"C09":"event log against the model's events under adversarial schedules of the log writer",
"C10":"each storage operation of a run faulted in turn (seeded); exit status and outputs checked",
"C11":"seeded histories and watermark pairs against the model, with restarts",
"C12":"seeded histories, bandwidths and periods against the model",
"C13":"per-file history of the dumps against the model, with clean-ups and restarts",
"C14":"category books, decisions and action counts against the model under seeded interleavings with the category producer",
"C15":"value tables against the model's own application of the update rule",
"C16":"exploration rates against the model; bounded steps",
"C17":"admissions and mean weight against the model, with clean-ups, restarts and cold starts",
"C18":"sequences of runs over one simulated folder with crashes between and inside; earlier results compared byte for byte",
"C19":"crash, power loss and storage faults at operations of a save over an earlier dump; the file afterwards must be the old or the new dump",
"C20":"cold starts at seeded points of seeded histories against the model",
"C22":"seeded operation sequences on the study's cache and table, and its whole run, against models, under two schedules and map orders",
"C23":"the whole helper on the simulated disk and clock; storage faults and crashes at seeded operations, then a further run",
"C24":"seeded sessions of appends and reads over a simulated disk that splits, fails, fills up, crashes and damages; against a list of the records appended",
"C25":"stages and pipelines run with their processes, queues and pipes as tasks of a seeded scheduler, with kills, refused forks, lost Spark tasks and storage faults; against the records computed directly",
"C26":"seeded sequences of calls over a simulated network to server models, with requests refused, broken, answered wrongly, cut off, repeated or overtaken by other clients; against the server's own state and log",
"C27":"seeded runs and re-runs of the scripts over a simulated object storage, hdfs command and disk, with failures, cut-off transfers and crashes at seeded operations; against the source days and the records that pass the filter",
"C28":"seeded sessions of appends and reads in several ways at once over a simulated disk that splits, fails, fills up, crashes and cuts off, the container format being a stand-in; against a list of the records appended",
"C29":"seeded histories of runs of the converter over a simulated disk and pool, with crashes, storage faults and refused processes at seeded operations; numeric files decoded through the inspection against the inputs and all numbers seen before",
"C30":"seeded histories of insertions, indexings, reductions, savings and loadings over simulated processes with other hash seeds and a simulated disk with read faults; every look-up, conversion, train set and fold compared with a reference table",
"C31":"seeded runs and re-runs of the program over a simulated search engine and disk, with requests refused, broken, answered wrongly, half taken or killed at any point; against the records of the file",
"C32":"truncation, bit flips, missing or zeroed bytes, absence and read faults injected into the stored settings files, then a run compared with that over the intact ones",
"C21":"step budget and deadlock detection under adversarial schedules, stalled goroutines, clock jumps and storage faults",
}
note="Sampled executions of the real code (instrumented copy of the current tree, built with go build -overlay) in a simulator that owns scheduling, clock, map order and disk; a clean run is evidence for the executions explored, not a proof. Trusts the instrumenter, the simulated runtime and the reference model; interleaving at statement granularity of sequentially consistent memory."
pynote="Sampled executions of the real Python code of the current tree in a simulator that owns the disk, processes, queues, clock and network; a clean run is evidence for the executions explored, not a proof. Trusts the simulated environment, the Python library and the reference model."
checks=[]
for p in ids:
    i=p["id"]
    checks.append(dict(property=i,quick_cmd="bash check.sh %s quick"%i,thorough_cmd="bash check.sh %s thorough"%i,evidence_file="evidence/%s.json"%i,
        technique="deterministic simulation with fault injection: "+how[i],level="exploration",level_note=pynote if "C24"<=i<="C31" else note))
m=dict(version=1,setup_cmd="bash tools/setup.sh",checks=checks,not_applicable=[],
  notes="No hooks are committed in /repo: the seams (scheduler, channels, clock, map order, disk, exit) are put in by a build step that instruments a copy of the current tree through go build -overlay; the Python parts run unchanged with the library calls they make replaced by simulated ones. Findings and repairs: KNOWN_FINDINGS.txt and DESIGN.md. Replay: bash replay.sh FILE.")
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
