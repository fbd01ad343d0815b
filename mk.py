#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from propdefs.py and props.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import propdefs as T, props as P
with open(V + '/properties.jsonl', 'w') as f:
    for i, d in T.D.items():
        assert len(d['title']) <= 80, d['title']
        a = dict(files=d['files'], mechanism=d['mech'], **d['anch'])
        f.write(json.dumps(dict(id=i, title=d['title'], statement=d['statement'], quantifier=dict(over=d['over'], text=d['text']), why_tests_cant=d['why'], anchors=a)) + '\n')
checks = []; na = []
for i, d in T.D.items():
    if i in T.NA: na.append(dict(property=i, reason=T.NA[i])); continue
    p = P.PROPS[i]
    note = ('Bounds: ' + p['bounds'] + '. ' if p.get('bounds') else '') + d['note'] + (' Assumed: ' + '; '.join(p['assumptions']) + '.' if p.get('assumptions') else '')
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, technique=d['technique'], level=d['level'], level_note=note.strip()))
extra = set(P.PROPS) - set(T.D)
if extra: print('no text for', extra)
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
