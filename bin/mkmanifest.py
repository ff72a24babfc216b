#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the checks that exist in vp/props"""
import glob, json, os, sys, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{root}/properties.jsonl')]
have = {os.path.basename(f).split('_')[0].upper(): f for f in glob.glob(f'{root}/vp/props/c*_*.py')}
skip = json.load(open(f'{root}/bin/skip.json')) if os.path.exists(f'{root}/bin/skip.json') else {}
notes = json.load(open(f'{root}/bin/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in skip:
        src = open(have[i]).read()
        mods = sorted(set(re.findall(r"c\.model\('(\w+)'", src)) | set(re.findall(r"module = '(\w+)'", src)))
        checks.append(dict(
            property=i, quick_cmd=f'bin/check {i}', thorough_cmd=f'VERIF_TIER=thorough bin/check {i}',
            evidence_file=f'evidence/{i}.json',
            technique='TLA+ specification (%s) checked with TLC; every explored transition replayed into the real code, '
                      'state-graph walks, and recorded random executions validated against the specification with TLC'
                      % ', '.join('spec/' + m + '.tla' for m in mods),
            level='model_checking',
            level_note=notes.get(i, '')))
    else:
        na.append(dict(property=i, reason=skip.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(f'{root}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
