#!/usr/bin/env python3
"""Refresh the generated lists of DESIGN.md (defects, planted bugs) from known_findings.json and seeded/."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'; s = open(p).read()
def put(tag, text):
    global s
    a, b = f'<!-- {tag} -->\n', f'<!-- end {tag} -->'
    s = re.sub(re.escape(a) + '.*?' + re.escape(b), lambda m: a + text + b, s, flags=re.S)
F = json.load(open(V + '/known_findings.json'))['findings']
put('defects', ''.join(f"- {f['what']}\n" for f in F))
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append((d['property'], f"| {i} | {d['property']} | {d['needs'].replace('|','/')} |\n"))
put('planted', '| change | caught by | needs |\n|---|---|---|\n' + ''.join(r for _, r in sorted(rows)))
open(p, 'w').write(s)
