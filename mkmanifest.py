import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have=set(open('/verif/claimed.txt').read().split())
checks=[]
for p in props:
    if p['id'] not in have: continue
    checks.append({"property":p['id'],"quick_cmd":f"bash check.sh {p['id']} quick","thorough_cmd":f"bash check.sh {p['id']} thorough","evidence_file":f"evidence/{p['id']}.json",
     "technique":"deterministic simulation of the real code under a seeded scheduler with fault injection"+(" and the race detector" if p['id']=='G01' else ""),
     "level":"exploration","level_note":"seeded sampling of schedules, timings and faults; see DESIGN.md for the oracle and its limits"})
na=[{"property":"N01","reason":"Pure function of its input: no schedule, clock, fault or interleaving for a simulation to vary."}]
for p in props:
    if p['id'] not in have and p['id']!='N01': na.append({"property":p['id'],"reason":"Check not built yet."})
json.dump({"version":1,"setup_cmd":"bash build.sh plain","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
