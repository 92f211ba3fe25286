"""DESIGN.md from design.in.md: fills in findings and planted bugs (caught.json is kept by hand / seed.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = json.load(open(f'{V}/known_findings.json'))
s = open(f'{V}/tools/design.in.md').read()
s = s.replace('@FIXED@', str(sum(x['status'] == 'fixed' for x in f)))
k = [x for x in f if x['status'] != 'fixed']
s = s.replace('@KNOWN@', '### Known findings\n\n' + ('\n'.join(f"* {x['property']}: {x['record']}" for x in k) if k else 'none'))
c = json.load(open(f'{V}/tools/caught.json'))
t = '| bug | property | needs | breaks | caught by its quick check |\n|---|---|---|---|---|\n'
for i in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    t += f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {c.get(i, '?')} |\n"
s = s.replace('@SEEDS@', t)
open(f'{V}/DESIGN.md', 'w').write(s)
