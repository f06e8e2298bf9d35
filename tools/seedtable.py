"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import re, json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); rows.append((d['property'], m.split('/')[-2], d['what_it_breaks'], d['needs']))
rows.sort()
s = open(V + '/DESIGN.md').read()
sec = s[s.index('## Planted changes'):s.index('## Mutation testing')]
lines = sec.split('\n'); at = [i for i, l in enumerate(lines) if re.match(r'\| C\d\d \|', l)]
new = lines[:at[0]] + ['| ' + ' | '.join(r) + ' |' for r in rows] + lines[at[-1] + 1:]
open(V + '/DESIGN.md', 'w').write(s.replace(sec, '\n'.join(new)))
