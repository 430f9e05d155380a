#!/usr/bin/env python3
"""Writes MANIFEST.json from the property table."""
import json, subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
 "C31":"Interval enclosure needs an interval number type, which the repository does not contain: the arithmetic that would be right or wrong is the caller's. Nothing in this code depends on scheduling, time, I/O or faults for it; exactness of the formula itself is C13/C14.",
}
NOTE={}
exec(open('/verif/tools/level_notes.py').read())
log=subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines()
hooks=[l.split()[0] for l in log if l.split(' ',1)[1].startswith('sim hooks')]
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
      evidence_file=f"evidence/{i}.json",
      technique="deterministic simulation with fault injection: seeded search over schedules and fault sequences, checked against an executable reference model",
      level="exploration",level_note=NOTE.get(i,DEFAULT)))
m=dict(version=1,setup_cmd="bash check.sh build",
 hooks=dict(guard="--cfg relib_sim",enable='RUSTFLAGS="--cfg relib_sim" cargo build (done by /verif/check.sh)',source_commits=hooks),
 checks=checks,
 not_applicable=[dict(property=p['id'],reason=NA[p['id']]) for p in props if p['id'] in NA],
 notes="One simulator binary (/verif/sim) decides all properties; ./check.sh replay <file> re-runs a recorded violation, ./check.sh digest <id> <base> <n> prints history digests for determinism checks. See DESIGN.md.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
