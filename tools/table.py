"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
rows = ['| bug | property | caught by | needs |', '|---|---|---|---|']
for m in sorted(V.glob('seeded/*/meta.json')):
    d = json.loads(m.read_text())
    caught = d.get('caught_by', d['property'])
    rows.append(f"| {m.parent.name} | {d['property']} | {caught} | {' '.join(str(d['needs']).split())[:160].replace('|', '/')} |")
t = (V / 'DESIGN.md').read_text()
a, rest = t.split('<!-- table -->')
_, b = rest.split('<!-- end -->')
(V / 'DESIGN.md').write_text(a + '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->' + b)
