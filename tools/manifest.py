# -*- coding: utf-8 -*-
"""Generates MANIFEST.json from the properties and the plans."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'bin')); sys.path.insert(0, os.path.join(root, 'tools'))
import plans, props
NOTES = {}
exec(open(os.path.join(root, 'tools', 'notes.py'), encoding='utf-8').read())
checks, na = [], []
for p in props.P:
    i = p['id']
    if i not in plans.PLANS:
        na.append(dict(property=i, reason='not claimed yet: the check is being written'))
        continue
    t, n = NOTES[i]
    checks.append(dict(property=i, quick_cmd='python3 bin/check.py ' + i, thorough_cmd='python3 bin/check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=t, level='model_checking', level_note=n))
json.dump(dict(version=1, setup_cmd='python3 bin/setup.py', checks=checks, not_applicable=na,
               notes='TLA+ specifications in spec/, checked by TLC; traces of the implementation are validated by TLC. See DESIGN.md. No hook is needed in /repo: '
                     'only the public interface is used.'),
          open(os.path.join(root, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not claimed')
