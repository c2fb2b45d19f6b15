#!/usr/bin/env python3
"""Write dst/corpus.json: the models of the repository's own tests that are small enough to simulate, without their time steps."""
import json, os, sys
T = sys.argv[1] if len(sys.argv) > 1 else '/repo/tests'
out, seen = [], set()
for t in sorted(os.listdir(T)):
    f = '%s/%s/%s.mesh' % (T, t, t)
    if not os.path.exists(f):
        continue
    lines = [l.rstrip('\n') for l in open(f)]
    dm = [int(x) for l in lines if l.startswith('DM') for x in l.split()[1:4]]
    if dm[0] * dm[1] * dm[2] > 30000:
        continue
    lines = [l for l in lines if l.strip() and not l.startswith('#') and not l.startswith('CE')]
    aux = {}
    for l in lines:
        if '"' in l:
            n = l.split('"')[1]
            p = '%s/%s/%s' % (T, t, n)
            if os.path.exists(p):
                d = open(p).read()
                if len(d) > 20000:
                    d = '\n'.join(d.split('\n')[:200]) + '\n'
                aux[n] = d
    k = '\n'.join(lines)
    if k in seen:
        continue
    seen.add(k)
    out.append(dict(name=t, mesh=lines, aux=aux, dims=dm))
json.dump(out, open(os.path.dirname(os.path.abspath(__file__)) + '/../dst/corpus.json', 'w'), indent=0)
print(len(out))
