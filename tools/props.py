"""Writes properties.jsonl and MANIFEST.json from one table (tools/table.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import PROPS, NOT_APPLICABLE, NOTES   # noqa: E402

props, checks, na = [], [], []
for p in PROPS:
    pid = p['id']
    over = p.get('over', ['inputs'])
    props.append({
        'id': pid, 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': over, 'text': p['quant']},
        'why_tests_cant': p['why'],
        'anchors': {
            'files': p['files'],
            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
            'observe_at': p['observe'], 'hook_needed': None}})
    if pid in NOT_APPLICABLE:
        na.append({'property': pid, 'reason': NOT_APPLICABLE[pid]})
        continue
    if not os.path.exists(os.path.join(VERIF, 'checks', pid.lower() + '.py')):
        raise SystemExit('no check for ' + pid)
    checks.append({
        'property': pid,
        'quick_cmd': './run.sh %s quick' % pid,
        'thorough_cmd': './run.sh %s thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': 'runtime monitoring: ' + p['technique'],
        'level': 'exploration',
        'level_note': p['note']})
    for key in ('title',):
        assert len(p[key]) <= 80, (pid, len(p[key]))
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1,
               'setup_cmd': './setup.sh',
               'checks': checks, 'not_applicable': na, 'notes': NOTES},
              f, indent=1)
    f.write('\n')
print(len(props), 'properties', len(checks), 'checks')
