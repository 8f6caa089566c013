#!/usr/bin/env python3
"""Writes the per-property part and the table of planted changes of DESIGN.md (between the markers)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
ANALYSIS = {
 'P01': 'Region and effect analysis: no store, copy, map update, sort or append into possible spare capacity reaches memory that existed before the call. Oracle: the write set itself. No bounds.',
 'P02': 'Region and effect analysis: storage of list and map arguments never becomes part of a result; storage of the receiver is never returned. No bounds.',
 'P03': 'Region and effect analysis: no reads of changing package variables, no calls of time, randomness, environment or input/output, no goroutines, no result depending on the order of a map. No bounds.',
}
def laws(pid):
    f = f'{V}/checker/probes/{pid}.go.txt'
    if not os.path.exists(f): return []
    out = []; doc = []; shapes = ''
    for l in open(f):
        l = l.rstrip('\n')
        if l.startswith('//shapes'): shapes = l.split(None, 1)[1] if ' ' in l else ''
        elif l.startswith(('//maypanic','//valuerfails')): pass
        elif re.match(r'//\s?long ', l): shapes += (' ' if shapes else '') + 'and long ' + l.split(None, 1)[1]
        elif l.startswith('//'): doc.append(l[2:].strip())
        elif l.startswith('func Law_'):
            n = re.match(r'func Law_(\w+)', l).group(1)
            out.append((n, ' '.join(doc), shapes)); doc = []; shapes = ''
        else: doc = []; shapes = ''
    return out
body = ''
for p in props:
    pid = p['id']
    if pid not in {c['property'] for c in man['checks']}: continue
    body += f"### {pid} {p['title']}\n\n"
    if pid in ANALYSIS: body += ANALYSIS[pid] + '\n\n'
    ls = laws(pid)
    for n, d, s in ls:
        body += f"- `{n}`" + (f" (lengths {s})" if s else '') + (f": {d}" if d else '') + '\n'
    if ls: body += '\n'
seeds = ''
rows = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m)); rows.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(m)), j['needs']))
for pid in sorted(rows):
    for n, needs in rows[pid]:
        seeds += f"| {n} | {pid} | {re.sub(chr(10), ' ', needs)[:160]} |\n"
s = open(V + '/DESIGN.md').read()
def put(s, mark, txt):
    a, b = f'<!-- {mark} -->', f'<!-- /{mark} -->'
    i, k = s.index(a) + len(a), s.index(b)
    return s[:i] + '\n' + txt + s[k:]
s = put(s, 'properties', body)
s = put(s, 'planted', '| change | property | needs |\n|---|---|---|\n' + seeds)
open(V + '/DESIGN.md', 'w').write(s)
