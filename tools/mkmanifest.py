"""Writes /verif/MANIFEST.json."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVELS = {}
exec(open(os.path.join(V, 'tools', 'levels.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p in LEVELS:
        tech, level, note = LEVELS[p]
        checks.append(dict(property=p, quick_cmd='python3-vt gover/check.py ' + p, thorough_cmd='python3-vt gover/check.py ' + p,
                           evidence_file='evidence/%s.json' % p, technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
         not_applicable=[dict(property=p, reason=NA.get(p, 'check under construction')) for p in props if p not in LEVELS])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
