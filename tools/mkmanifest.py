#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. CLAIMED: property -> (technique, level_note).
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
AI="abstract interpretation of the type-checked SSA form (trace-partitioned value, shape and length dataflow, loops widened to a fixpoint; no solver, nothing executed)"
NOTE_DEC="Sound over all buffers of all lengths up to 2^31 for the modelled Go semantics; trusts the analyser's transfer functions and its models of the standard library (bytes, binary, utf8, regexp as uninterpreted deterministic predicates), and of the variable byte integer reader, which C31 checks separately. An obligation it cannot decide is reported."
exec(open(root+'/tools/claims.py').read())
checks=[]
na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        t,n=CLAIMED[i]
        checks.append(dict(property=i,quick_cmd="./check %s quick"%i,thorough_cmd="./check %s thorough"%i,technique=t,level="other",level_note=n))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check built yet")))
m=dict(version=1,setup_cmd="./check build",checks=checks,not_applicable=na,notes="All checks run one analyser (vlcheck/) on /repo's current source; see DESIGN.md.")
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
