"""Write MANIFEST.json from the check modules and tools/na.json."""
import glob
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = json.load(open(os.path.join(HERE, 'tools', 'na.json')))
have = {os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, 'qa', 'checks', '[A-Z]*.py'))}
checks, nas = [], []
for p in props:
    i = p['id']
    if i in have and i not in na:
        m = importlib.import_module('qa.checks.' + i)
        checks.append(dict(property=i, quick_cmd='python3 -m qa.run ' + i, thorough_cmd='python3 -m qa.run ' + i,
                           technique=m.TECHNIQUE, level='other', level_note=m.NOTE))
    else:
        nas.append(dict(property=i, reason=na.get(i, 'no sound static rule built yet')))
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q qa || true', checks=checks, not_applicable=nas),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(nas), 'not applicable')
