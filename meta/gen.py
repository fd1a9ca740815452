"""python3 meta/gen.py: writes properties.jsonl and MANIFEST.json from meta/props.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks = []; na = []
for p in PROPS:
    if 'na' in p: na.append({'property': p['id'], 'reason': p['na']}); continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                   'technique': p.get('technique', 'contract-based deductive verification of the LLVM IR extracted from /repo (function contracts, path-by-path symbolic execution, z3/cvc5 obligations)'),
                   'level': p.get('level', 'proof'), 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile /repo as it is', 'source_commits': []},
           'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. Property modules are contracts/pNN.py; the engine is engine/.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
