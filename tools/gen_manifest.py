"""Write MANIFEST.json from the checks present in checks/"""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from gen_properties import ALL  # noqa: E402

checks, missing = [], []
for p in ALL:
    pid = p['id']
    if not os.path.exists(os.path.join(VERIF, 'checks', pid.lower() + '.py')):
        missing.append(pid)
        continue
    cls = importlib.import_module('checks.' + pid.lower()).Check
    assert cls.pid == pid
    checks.append({
        'property': pid,
        'quick_cmd': '/opt/venv/bin/python run.py %s --tier quick' % pid,
        'thorough_cmd': '/opt/venv/bin/python run.py %s --tier thorough' % pid,
        'technique': cls.technique,
        'level': cls.level,
        'level_note': 'Explored: %s. Assumes: %s.' % (cls.bounds, '; '.join(cls.assumptions) or 'nothing further'),
    })
data = {'version': 1, 'setup_cmd': '/opt/venv/bin/python run.py --selftest', 'checks': checks,
        'not_applicable': [{'property': pid, 'reason': 'the check is not built yet'} for pid in missing],
        'notes': 'No hooks are needed: the checks drive the public interface of the code in /repo.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fh:
    json.dump(data, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks; missing', missing)
