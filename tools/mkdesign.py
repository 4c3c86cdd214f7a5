"""fills the table of planted changes in DESIGN.md"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- table -->', '| change | caught by | what it breaks | needs |', '| --- | --- | --- | --- |']
ms = [(json.load(open(f'{here}/seeded/{d}/meta.json')), d) for d in os.listdir(here + '/seeded')]
for m, d in sorted(ms, key=lambda t: (t[0]['property'], t[1])):
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
rows.append('<!-- end -->')
p = here + '/DESIGN.md'
s = open(p).read()
t = '\n'.join(rows)
s = s.replace('@@TABLE@@', t) if '@@TABLE@@' in s else re.sub(r'<!-- table -->.*?<!-- end -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
