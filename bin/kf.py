"""bin/kf.py fixed PROP HASH TEXT | known PROP KEY TEXT"""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
if sys.argv[1] == 'fixed':
    d['fixed'].append(f'fixed: property={sys.argv[2]} {sys.argv[3]} {sys.argv[4]}')
else:
    d['findings'].append(dict(property=sys.argv[2], status='known', key=sys.argv[3], what=sys.argv[4]))
json.dump(d, open(p, 'w'), indent=1)
