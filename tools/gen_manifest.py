#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
ORC="reference-model oracle over recorded results (runtime monitoring)"
T={ # property: (technique, level_note)
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
DEF_T={
 'C24':"stress and schedule fuzzing under Miri's and TSan's race detectors, per-thread results compared with a sequential run",
 'C25':"live-byte accounting with a counting allocator plus Miri leak detection",
 'C28':"differential transcript monitoring across build profiles, plus Miri and AddressSanitizer on the real code",
}
import sys
claimed=[p for p in props if p['id'] not in set(sys.argv[1:])]
checks=[]
for p in claimed:
    i=p['id']
    t=DEF_T.get(i,"runtime monitoring: real library calls under enumerated, boundary and random workloads, each result checked online by an independent reference-model oracle")
    n={'C24':"Holds for the schedules observed: native barrier stress, Miri seeds and (thorough) ThreadSanitizer. Trusts Miri's and TSan's memory models and the operating system's scheduler for diversity.",
       'C25':"Holds for the histories run. Counts bytes at the global allocator at quiescent points; Miri's leak check covers one short history of each kind.",
       'C28':"Holds for the transcripts run in each profile. Profiles are compiled by the installed rustc only; x86-64 only."}.get(i,
       "Every execution explored agreed with the oracle. Exhaustive on the tiny fields and curves the check enumerates, sampled (seeded, boundary-biased) on larger ones. Trusts the reference arithmetic in harness/src/refm.rs, num-bigint's integer operations and the constants in harness/src/named.rs, which tools/gen_named.py rederives from independent sources.")
    checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":t,"level":"exploration","level_note":n})
m={"version":1,"setup_cmd":"./run.sh setup","checks":checks,
 "not_applicable":[{"property":p['id'],"reason":"check not built yet"} for p in props if p not in claimed],
 "notes":"No hooks: the monitors only use the public interface of the crate. known_findings.txt lists the defects repaired by fix: commits."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
