"""Writes MANIFEST.json from PROPS (run by hand when a property is added)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
T = {'exploration': 'exhaustive enumeration of a bounded input space on the real code, against a reference model',
     'model_checking': 'explicit-state exploration; every transition executed on the real code and on the model'}
N = {'exploration': 'Every input of the stated finite space is executed on the library built from the working tree and compared with an independent reference; nothing is sampled. Assumes IEEE-754 hardware and the installed compilers.',
     'model_checking': 'Every state reachable within the stated bounds is generated and every transition is executed on the real code and compared with the model. Assumes IEEE-754 hardware and the installed compilers.'}
checks, na = [], []
for i in ids:
    s = PROPS.get(i)
    if not s: na.append(dict(property=i, reason='check not built yet')); continue
    checks.append(dict(property=i, quick_cmd=f'python3 run.py {i} --tier quick', thorough_cmd=f'python3 run.py {i} --tier thorough', technique=s.get('technique', T[s['level']]), level=s['level'],
                       level_note=(s.get('note', '') + ' ' if s.get('note') else '') + N[s['level']] + ' Bounds: ' + s['bounds'] + '.'))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'lib\'); import common, props"', checks=checks, not_applicable=na,
  notes='No hooks in /repo: the checks compile /repo/src and /repo/include unmodified. ZCM_REPO=<dir> points run.py at another tree (development only).'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not yet')
