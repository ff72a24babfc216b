#!/usr/bin/env python3
"""DESIGN.md from bin/design_head.md, the properties, the specifications, the evidence, the planted bugs and the findings"""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{root}/properties.jsonl')]
notes = json.load(open(f'{root}/bin/notes.json'))
kf = json.load(open(f'{root}/known_findings.json'))
costs = f'{root}/bin/costs.json'
cost = json.load(open(costs)) if os.path.exists(costs) else {}
for p in props:
    f = f"{root}/evidence/{p['id']}.json"
    if os.path.exists(f):
        e = json.load(open(f))
        if e['tier'] == 'quick' and not e['violations']:
            c = e['coverage']
            cost[p['id']] = dict(s=round(e['wall_s']), states=c['states'], transitions=c['transitions'], replays=c['replayed_executions'],
                                 walks=c['walk_steps'], events=c['recorded_events'], assumptions=e['assumptions'])
json.dump(cost, open(costs, 'w'), indent=1, sort_keys=True)


def meanings(mod, src):
    """what the specification is checked for: the operators named in the binding, with the comments above them"""
    lines = open(f'{root}/spec/{mod}.tla').read().split('\n')
    out = []
    for n, l in enumerate(lines):
        m = re.match(r'(\w+) ==', l)
        if not m or not re.search(rf"['\"]{m.group(1)}['\"]", src):
            continue
        c, k = [], n - 1
        while k >= 0 and lines[k].startswith('\\*'):
            c.insert(0, lines[k].strip('\\* '))
            k -= 1
        if not c and k >= 0 and lines[k].rstrip().endswith('*)'):
            while k >= 0:
                c.insert(0, lines[k].strip())
                if '(*' in lines[k]:
                    break
                k -= 1
            c = [' '.join(c).replace('(*', '').replace('*)', '').strip()]
        out.append((m.group(1), ' '.join(' '.join(c).split())))
    return out


def header(mod):
    s = open(f'{root}/spec/{mod}.tla').read()
    m = re.search(r'\(\*(.*?)\*\)', s, flags=re.S)
    return ' '.join(m.group(1).split())


out = []
for p in props:
    i = p['id']
    files = glob.glob(f'{root}/vp/props/{i.lower()}_*.py')
    out.append(f"### {i} {p['title']}\n")
    if not files:
        out.append('Not claimed.\n')
        continue
    src = open(files[0]).read()
    mods = list(dict.fromkeys(re.findall(r"c\.model\('(\w+)'", src)))
    for m in mods:
        out.append(f'`spec/{m}.tla`: {header(m)}\n')
        ms = meanings(m, src)
        if ms:
            out.append('TLC checks on it:\n')
            out += [f'* `{n}`' + (f': {t}' if t else '') for n, t in ms]
            out.append('')
    out.append(f'Covered (`vp/props/{os.path.basename(files[0])}`): {notes.get(i, "")}\n')
    out.append(f"What tests cannot settle: {p['why_tests_cant']}\n")
    if i in cost:
        c = cost[i]
        out.append(f"Cost of the quick check: about {c['s']} s; {c['states']} states and {c['transitions']} transitions model-checked, "
                   f"{c['replays']} transitions replayed, {c['walks']} walk steps, {c['events']} recorded events judged by TLC."
                   + (' Assumptions: ' + '; '.join(c['assumptions']) + '.' if c['assumptions'] else '') + '\n')
    seeds = sorted(glob.glob(f'{root}/seeded/{i.lower()}-*/meta.json'))
    if seeds:
        out.append('Planted bugs, all caught by this check:\n')
        for f in seeds:
            m = json.load(open(f))
            out.append(f"* `{os.path.basename(os.path.dirname(f))}`: {m['what_it_breaks']} (needs {m['needs']})")
        out.append('')
    fixed = [x for x in kf['fixed'] if f'property={i} ' in x]
    if fixed:
        out.append('Defects found in the original code and repaired:\n')
        for x in fixed:
            _, _, h, t = re.match(r'(fixed:) (property=\w+) (\w+) (.*)', x, flags=re.S).groups()
            out.append(f'* {h}: {t}')
        out.append('')
head = open(f'{root}/bin/design_head.md').read()
open(f'{root}/DESIGN.md', 'w').write(head.replace('@@PROPERTIES@@', '## The properties\n\n' + '\n'.join(out)))
