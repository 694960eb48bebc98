#!/usr/bin/env python3
# Writes /verif/MANIFEST.json (edited here; the output is committed).
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src=''.join(open(os.path.join(here,'sim/props',f)).read() for f in os.listdir(os.path.join(here,'sim/props')))
built=sorted(set(re.findall(r'ID: +"(C\d\d)"',src)))
T="deterministic simulation with fault injection: "
tech={
"C01":"simulated streams and disk, seeded deliveries, documents with known meaning",
"C02":"simulated read and open failures at every depth",
"C03":"simulated sources and kernel, protocol of open/read/close checked over the recorded history",
"C04":"simulated disk with missing and failing files against a merge model",
"C05":"histories of edits, reloads and failed reloads against a model",
"C06":"simulated media damage, accessor battery, save/reload",
"C07":"simulated writers that fail, run short or panic",
"C08":"simulated kernel with write faults, full disks and process crashes at every call",
"C09":"save, restart (and crash), load against the state before",
"C10":"random struct types written, saved, restarted and mapped back",
"C11":"seeded schedules, linearizability of the recorded history",
"C12":"seeded schedules, snapshots checked against the linearized history",
"C13":"seeded schedules of reload against readers",
"C14":"seeded schedules under Go's race detector",
"C15":"seeded schedules of lock-free readers under Go's race detector",
"C16":"seeded schedules of independent Files under Go's race detector, compared with solo runs",
"C17":"seeded schedules, failing and re-entrant callbacks, bounded progress",
"C18":"operation histories against a reference model, all views compared after every step",
}
note={}
base=("Seeded search over plans, schedules and faults, not exhaustive: a run that breaks the property is found only if "
"the search meets it. Trusts the simulator (kernel, scheduler, instrumenter in /verif) and the reference model. ")
checks=[]
for id in built:
    checks.append(dict(property=id,quick_cmd="bash check.sh "+id,thorough_cmd="VERIF_TIER=thorough bash check.sh "+id,
      technique=T+tech[id],level="exploration",level_note=base+note.get(id,"")))
na=[]
pure="a pure, sequential function of its arguments: no schedule, clock, I/O, fault or second party for a simulator to decide, so a run would be plain input generation"
props=[json.loads(l)["id"] for l in open(os.path.join(here,'properties.jsonl'))]
for id in props:
    if id in built: continue
    na.append(dict(property=id,reason=pure if id in("C19","C20","C21") else "check not built yet"))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
 notes="No hooks in /repo: the package is instrumented at build time through go build -overlay (see DESIGN.md).")
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
open(os.path.join(here,'MANIFEST.json'),'a').write('\n')
