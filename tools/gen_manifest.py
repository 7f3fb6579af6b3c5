"""Writes /verif/MANIFEST.json from vlib/registry.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib.registry import REGISTRY

ids = [json.loads(line)['id'] for line in open(HERE + '/properties.jsonl')]
checks = []
missing = []
for prop in ids:
    if prop not in REGISTRY:
        missing.append(dict(property=prop, reason='The check is not built yet.'))
        continue
    info = REGISTRY[prop]
    checks.append(dict(
        property=prop,
        quick_cmd='python3 run.py %s --tier quick' % prop,
        thorough_cmd='python3 run.py %s --tier thorough' % prop,
        technique=info.technique, level=info.level,
        level_note=info.level_note))
manifest = dict(
    version=1, setup_cmd='python3 vlib/build.py', checks=checks,
    not_applicable=missing,
    notes='No hooks in /repo: everything is observed at interfaces (results, '
          'storage records, bytes, system calls). See DESIGN.md.')
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
