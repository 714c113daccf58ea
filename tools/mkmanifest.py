import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE + '/tools')
import plan
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in props:
    if p['id'] in plan.PLAN:
        P = plan.PLAN[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='python3 tools/check.py ' + p['id'], thorough_cmd='python3 tools/check.py %s thorough' % p['id'], technique='bounded symbolic execution of the LLVM IR of the real sources (symx), z3 decides every branch and assertion', level='model_checking',
            level_note=('exhaustive within: ' + P['bounds'] + ('. Outside: ' + P['outside'] if P['outside'] else ''))[:1500]))
    else: na.append(dict(property=p['id'], reason=plan.NA.get(p['id'], 'no check built yet')))
json.dump(dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na), open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
