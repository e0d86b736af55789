"""Rewrite the generated sections of DESIGN.md (findings and planted changes)."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
text = (root / 'DESIGN.md').read_text()
f = json.loads((root / 'known_findings.json').read_text())['findings']
fl = '\n'.join('- ' + x['what'].replace('fixed: property=', '').strip() for x in f)
rows = ['| change | property | what it breaks | needs | detected by |', '|---|---|---|---|---|']
res = {}
p = root / 'tools' / 'detected.json'
if p.exists():
    res = json.loads(p.read_text())
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(d.name, '?')} |")
def put(text, name, body):
    b, e = f'<!-- {name} -->', f'<!-- end {name} -->'
    if f'@{name}@' in text:
        text = text.replace(f'@{name}@', f'{b}\n{e}')
    i, j = text.index(b), text.index(e)
    return text[:i] + b + '\n' + body + '\n' + text[j:]
text = put(text, 'FINDINGS', fl)
text = put(text, 'TABLE', '\n'.join(rows))
(root / 'DESIGN.md').write_text(text)
