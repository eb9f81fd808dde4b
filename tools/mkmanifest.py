"""writes MANIFEST.json from properties.jsonl and the rules that exist"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from oilcheck.rules import RULES
from oilcheck.rules.notes import TECHNIQUE, NOTE, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in RULES:
        t, n = TECHNIQUE[i]
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'other', 'level_note': n + ' ' + NOTE})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no static rule for this property has been built')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.dont_write_bytecode=True; import oilcheck.rules"', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only; no code of /repo is run and nothing is installed. Findings and repairs: known-findings.txt. Design: DESIGN.md.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'claimed,', len(na), 'not applicable')
