"""Writes the table of planted bugs into DESIGN.md (between the SEEDED markers)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    'disp-stop-locked': 'first missed: the lifecycle scenario of disp.cpp got handlers that use the dispatcher while it stops',
    'line-float-coordinate': 'first missed: segments with coordinates up to 23,000,000 added',
    'point-divide-reciprocal': 'first missed: points multiplied and divided by every k up to 1000 at multiples of k added',
}
more = os.path.join(HERE, 'tools', 'missed.json')
if os.path.exists(more):
    MISSED.update(json.load(open(more)))
rows = ['| planted bug | property / check | what it breaks | caught |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    note = MISSED.get(d)
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) | {'yes; ' + note if note else 'yes'} |")
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
block = '<!-- SEEDED -->\n' + '\n'.join(rows) + '\n<!-- /SEEDED -->'
if '<!-- SEEDED -->' in s:
    s = re.sub(r'<!-- SEEDED -->.*?<!-- /SEEDED -->', lambda _: block, s, flags=re.S)
else:
    s = s.replace('SEEDED_TABLE', block)
open(p, 'w').write(s)
