#!/usr/bin/env python3
# design.py: writes DESIGN.md from the text below, `mc list` and the seeded bugs with the checks that catch them.
import json, subprocess, collections, os, glob
os.chdir('/verif')
props = [json.loads(l) for l in open('properties.jsonl')]
rules = collections.OrderedDict()
for l in subprocess.run(['.build/mc', 'list'], capture_output=True, text=True).stdout.splitlines():
    head, rule = l.split(' -- ', 1)
    p, n = head.split(' ')
    rules.setdefault(p, []).append((n, rule))
seeds = collections.defaultdict(list)
for m in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(m)); seeds[d['property']].append((os.path.basename(os.path.dirname(m)), d))
caught = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
text = open('tools/design.in.md').read()
oracle = {}
for block in text.split('\n### ')[1:]:
    pid = block.split('\n', 1)[0].split()[0]
head, tail = text.split('<<PROPERTIES>>')
notes, tail = tail.split('<<END>>')
note = {}
for b in notes.split('\n@')[1:]:
    k, v = b.split('\n', 1)
    note[k.strip()] = v.strip()
out = [head]
for p in props:
    i = p['id']
    out.append(f"### {i} {p['title']}\n")
    out.append(note.get(i, '') + '\n')
    out.append('Enumerated (each completely, within the bound given; quick bound first):\n')
    for n, r in rules.get(i, []):
        if n.endswith('-repeating'):
            continue
        rep = any(m == n + '-repeating' for m, _ in rules[i])
        out.append(f"- `{n}`{' (and once more in the repeating worlds)' if rep else ''}: {r}")
    try:
        e = json.load(open(f'evidence/{i}.json'))
    except Exception:
        e = None
    if seeds[i]:
        out.append('\nPlanted bugs: ' + '; '.join(f"`{n}` ({d['needs']}) - {caught.get(n, 'not tried')}" for n, d in seeds[i]) + '.')
    out.append('')
out.append(tail)
open('DESIGN.md', 'w').write('\n'.join(out))
