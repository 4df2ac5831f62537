#!/usr/bin/env python3
"""Regenerates the per-property table of DESIGN.md (between the markers) from the harness headers, the findings file and seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = json.load(open(os.path.join(V, 'known_findings.json')))
seeded = {}
for m in glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')) or glob.glob('/verif/seeded/*/meta.json'):
    seeded.setdefault(json.load(open(m))['property'], []).append(os.path.basename(os.path.dirname(m)))
out = []
ORACLE = {
 'totality': 'the executor itself: a reachable panic, arithmetic overflow (checks are compiled in), out-of-bounds or misaligned access, or a path longer than the step limit is the violation',
}
O = json.load(open(os.path.join(V, 'tools', 'oracles.json')))
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    f = os.path.join(V, 'h', 'src', i.lower() + '.rs')
    src = open(f).read()
    b = [x.strip() for x in re.findall(r'^//! bound:(.*)$', src, re.M)]
    a = [x.strip() for x in re.findall(r'^//! assume:(.*)$', src, re.M)]
    n = re.findall(r'fn (h_\w+)', src)
    fx = [x.split(' ', 3) for x in known['fixed'] if x.split(' ', 3)[1] == 'property=' + i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Decided by* {len(n)} harnesses (`h/src/{i.lower()}.rs`). *Oracle:* {O[i].replace('TOTAL', ORACLE['totality'])}.\n")
    out.append('*Bounds:* ' + '; '.join(b) + '.')
    if a: out.append('*Assumed / outside:* ' + '; '.join(a) + '.')
    if fx: out.append('*Defects found and repaired:* ' + '; '.join(f"{x[3]} ({x[2]})" for x in fx) + '.')
    if i in seeded: out.append('*Planted bugs:* ' + ', '.join(sorted(seeded[i])) + '.')
    out.append('')
d = os.path.join(V, 'DESIGN.md')
s = open(d).read()
a, z = '<!-- table -->\n', '<!-- end -->\n'
s = s[:s.index(a) + len(a)] + '\n'.join(out) + '\n' + s[s.index(z):]
open(d, 'w').write(s)
