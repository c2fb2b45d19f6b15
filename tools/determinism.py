#!/usr/bin/env python3
"""Runs the same cases with other numbers of workers, orders and hash seeds of Python, in fresh processes, and compares every execution.
   tools/determinism.py [CASES per property] [SEED ...]"""
import hashlib, multiprocessing, os, random, subprocess, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def one(a):
    prop, seed, idx = a
    from dst import engine
    rnd = random.Random('%s %d %d' % (prop, seed, idx))
    ctx = engine.Ctx()
    h, n = hashlib.sha256(), 0
    run = ctx.R

    def R(w):
        nonlocal n
        r = run(w)
        h.update(('%s %s\n' % (r.hash, r.statehash())).encode())
        n += 1
        return r
    ctx.R = R
    mod = engine.module(prop)
    for c in mod.claims(idx, rnd, ctx, 'quick'):
        if c is None:
            continue
        c['prop'] = prop
        v = mod.judge(c, ctx)
        h.update(repr(v).encode())
    return '%s %d %d' % a, h.hexdigest(), n


if __name__ == '__main__':
    if sys.argv[1] == '--part':
        cases, seeds, workers, order = int(sys.argv[2]), list(map(int, sys.argv[3].split(','))), int(sys.argv[4]), sys.argv[5]
        l = [('C%02d' % p, s, i) for p in range(1, 15) for s in seeds for i in range(cases)]
        if order == 'down':
            l.reverse()
        elif order == 'mixed':
            random.Random(5).shuffle(l)
        with multiprocessing.Pool(workers) as pool:
            out = {k: (h, n) for k, h, n in pool.imap_unordered(one, l, chunksize=3)}
        print(json.dumps(out))
        sys.exit(0)
    cases = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    seeds = sys.argv[2:] or ['1', '2']
    from dst import engine, build
    for p in range(1, 15):
        for prog in engine.module('C%02d' % p).PROGS:
            build.build(prog)
    res = []
    for workers, order, hs in ((8, 'up', '0'), (3, 'down', '17'), (12, 'mixed', '4242')):
        o = subprocess.run([sys.executable, __file__, '--part', str(cases), ','.join(seeds), str(workers), order], stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=hs))
        res.append(json.loads(o.stdout))
    bad = [k for k in res[0] if any(r.get(k) != res[0][k] for r in res)]
    print('%d cases, %d executions each in 3 campaigns; different: %d %s' % (len(res[0]), sum(n for _, n in res[0].values()), len(bad), bad[:20]))
    sys.exit(1 if bad else 0)
