"""Writes properties.jsonl and MANIFEST.json, so that they stay in step."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/'
P = []


def prop(pid, title, statement, over, domain, why, files, mechanism,
        technique, note):
    P.append(dict(id=pid, title=title, statement=statement, over=over,
        domain=domain, why=why, files=files, mechanism=mechanism,
        technique=technique, note=note))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'],
            'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['domain']},
            'why_tests_cant': p['why'],
            'anchors': {'files': [S + x for x in p['files']],
                'mechanism': [{'name': a, 'where': b}
                for a, b in p['mechanism']]}}) + '\n')

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')):
        checks.append({'property': p['id'],
            'quick_cmd': './check %s' % p['id'],
            'thorough_cmd': './check %s --tier thorough' % p['id'],
            'technique': p['technique'], 'level': 'model_checking',
            'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p.get('na',
            'check under construction')})
for pid, title, reason in NOT_APPLICABLE:
    na.append({'property': pid, 'reason': reason})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks}
m['not_applicable'] = na
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')
