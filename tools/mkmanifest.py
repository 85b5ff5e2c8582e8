import json, sys
sys.path.insert(0, '/verif')
from specs import SPECS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = [dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
               technique='symbolic execution of the real code (LLVM IR) with an SMT solver (z3), all paths within bounds', level='model_checking',
               level_note=SPECS[p].get('note', 'bounded: every path and every value within the bounds listed per harness in the evidence; nothing beyond them'))
          for p in props if p in SPECS]
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, 'no check yet')) for p in props if p not in SPECS]
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='', enable='no hooks: the harnesses use the public headers as they are', source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
