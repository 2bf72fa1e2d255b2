"""rewrites the table of seeded changes in DESIGN.md (between the markers) from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| seed | caught by | file | what it breaks | needs |', '|---|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded'), key=lambda d: int(re.sub(r'\D', '', d))):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    p = open(f'{V}/seeded/{d}/patch.diff').read()
    fs = sorted({l[6:].split('/')[-1] for l in p.splitlines() if l.startswith('+++ b/')})
    rows.append(f"| {d} | {m['property']} | {', '.join(fs)} | {m['what_it_breaks']} | {m['needs']} |".replace('\n', ' '))
s = open(V + '/DESIGN.md').read()
B, E = '<!-- seeds -->', '<!-- /seeds -->'
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', B + '\n' + E)
s = s[:s.index(B)] + B + '\n' + '\n'.join(rows) + '\n' + s[s.index(E):]
open(V + '/DESIGN.md', 'w').write(s)
