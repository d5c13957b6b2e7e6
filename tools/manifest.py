"""Writes MANIFEST.json from the implemented checks (run: python3 tools/manifest.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import props
TECH = {}
NOTE = {}
exec(open(os.path.join(ROOT, 'tools', 'tech.py')).read())
checks, na = [], []
for p in props.P:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'vt', 'checks', i.lower() + '.py')) and i not in SKIP:
        checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                       'technique': TECH.get(i, 'runtime monitoring: generated workloads judged by an independent exact oracle'),
                       'level': 'exploration', 'level_note': NOTE.get(i, 'held on the executions observed; see coverage counters in the evidence file')})
    else:
        na.append({'property': i, 'reason': SKIP.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
