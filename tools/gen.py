"""writes properties.jsonl and MANIFEST.json from props.py and the registry"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.dirname(H)]
import props
from sa import registry
out = open(os.path.join(H, '..', 'properties.jsonl'), 'w')
ids = []
for p in props.PROPS + [n for n in props.NA if isinstance(n, dict)]:
    a = {'files': p['files'], 'mechanism': [{'name': n, 'where': props.SRC + w if '.py' in w else w} for n, w in p['mech']]}
    if p['state']:
        a['state'] = [{'name': n, 'meaning': m, 'where': props.SRC + w} for n, m, w in p['state']]
    assert len(p['title']) <= 80, p['title']
    out.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                          'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    ids.append(p['id'])
checks, na = [], []
for p in props.PROPS:
    e = registry.PROPS[p['id']]
    checks.append({'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']}", 'thorough_cmd': f"python3 check.py {p['id']} --tier thorough",
                   'technique': e.get('technique', props.TECH), 'level': 'other', 'level_note': e['explain'] + '. Rule: ' + e['rule']})
for n in props.NA:
    na.append({'property': n['id'], 'reason': n['reason']})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks read /repo/src/actuarialmath and execute nothing of it. Defects found and repaired are listed in known_findings.txt.'}
json.dump(m, open(os.path.join(H, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(ids), 'properties', len(checks), 'checks', len(na), 'not applicable')
