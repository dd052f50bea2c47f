"""regenerate the table of planted defects in DESIGN.md"""
import json, os, re
D = os.path.dirname(os.path.abspath(__file__))
B, E = '<!-- matrix -->', '<!-- /matrix -->'
rows = ['| planted | caught by | what it breaks |', '|---|---|---|']
S = os.path.join(D, 'seeded')
for n in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, n, 'meta.json')))
    rows.append(f"| {n} | {m.get('caught_by', m['property'])} | {' '.join(str(m['what_it_breaks']).split())} |")
p = os.path.join(D, 'DESIGN.md')
t = open(p).read()
t = t.replace('@@MATRIX@@', B + '\n' + E)
t = re.sub(re.escape(B) + '.*?' + re.escape(E), lambda _: B + '\n' + '\n'.join(rows) + '\n' + E, t, flags=re.S)
open(p, 'w').write(t)
