#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os, glob, subprocess
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, level='proof', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=state, observe=observe, level=level, note=note, na=na))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.py')).read())

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + '/properties.jsonl', 'w') as f:
    for x in P:
        a = {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']]}
        if x['state']: a['state'] = x['state']
        if x['observe']: a['observe_at'] = x['observe']
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
            'quantifier': {'over': x['over'], 'text': x['qtext']},
            'why_tests_cant': x['why'], 'anchors': a}) + '\n')
checks, nas = [], []
fixes = []
try:
    out = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout
except Exception:
    out = ''
for x in P:
    has = glob.glob(root + '/contracts/**/' + x['id'] + '_*.go', recursive=True)
    if x['na'] or not has:
        nas.append({'property': x['id'], 'reason': x['na'] or 'no check built yet for this property'})
        continue
    checks.append({'property': x['id'],
        'quick_cmd': 'bash check.sh ' + x['id'],
        'thorough_cmd': 'bash check.sh ' + x['id'] + ' thorough',
        'technique': 'contract-based deductive verification of the Go source: contracts executed symbolically over the SSA of /repo by vcgen, obligations discharged by z3/cvc5' + ('; bounded stand-ins where labelled' if any('_bt' in h for h in has) else ''),
        'level': x['level'], 'level_note': x['note']})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: contracts are overlaid on the packages of /repo at check time (go build overlay), nothing is committed in /repo for them', 'source_commits': []},
     'checks': checks, 'not_applicable': nas}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(nas), 'n/a')
