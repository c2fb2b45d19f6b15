"""C10: the renderer delivers a complete rendering or fails."""
from .. import gen, mesh
from ..oracle import *
from . import c02, c03

PROGS = ['gvulture']
LEVEL = 'fault_enumeration'
PLAN = {'quick': dict(cases=4000, wall=240), 'thorough': dict(cases=12000, wall=2400)}
RULE = ('As C02 for the rendering tool, with both formats and all options; in addition the mesh is cut at sampled bytes (every byte in the thorough '
        'tier for small meshes), its tail is lost as zero bytes, and its open and each read fail. Non-trivial: something fired or the input was cut.')
ASSUMPTIONS = c02.ASSUMPTIONS
OPTSETS = [[], ['-m'], ['-g'], ['-p'], ['-e'], ['-m', '-p'], ['-m', '-e'], ['-p', '-e'], ['-m', '-p', '-e'], ['-v'], ['-v', '-m']]


def claims(idx, rnd, ctx, tier):
    if idx % 2 == 0:
        yield from c02.out_claims(idx // 2, rnd, ctx, tier, 'gvulture', OPTSETS, feat=dict(full=False))
    else:
        yield from in_claims(idx, rnd, ctx, tier)


def in_claims(idx, rnd, ctx, tier):
    m, f = c02.base_files(rnd, small=True)
    w = mk('gvulture', f, rnd.choice(OPTSETS), readChunk=rnd.choice([0, 1, 7, 50, 512]), **io_knobs(rnd))
    w['set']['seed'] = rnd.randrange(1 << 30)
    base = ctx.R(quiet(w))
    if not good(base):
        yield None
        return
    base = ctx.R(bounded(w, base))
    n = len(f['/w/model.mesh'])
    cuts = set(range(n + 1)) if tier != 'quick' and idx % 8 == 1 else {rnd.randrange(n + 1) for _ in range(18)} | {0, 1, n - 1, n - 2, n - 3, n - 4}
    for k in sorted(cuts):
        if k >= 0:
            yield dict(w=dict(w, tag='cut'), kind='cut', cut=k, zeros=int(rnd.random() < .2))
    for _ in range(4 if tier == 'quick' else 16):
        x = rnd.randrange(n)
        yield dict(w=dict(w, tag='hole'), kind='hole', at=x, to=min(n, x + rnd.choice([1, 5, 30, 512, 4096])))
        yield dict(w=dict(w, tag='long'), kind='long', line=rnd.random(), gap=rnd.randrange(12), fill=rnd.choice([rnd.randint(900, 1100), rnd.randint(1000, 1040), rnd.randint(1, 6000)]),
                   other=rnd.random() if rnd.random() < .6 else None)
    i = base.names['/w/model.mesh']
    nread = sum(1 for e in base.events if e[0] == 2 and e[2] == i)
    for k in {0, nread - 1, nread // 2, rnd.randrange(nread)}:
        yield dict(w=swap(w, faults=[dict(op='read', path='/w/model.mesh', nth=k, action='err', err='EIO', sticky=rnd.randint(0, 1))]), kind='fault')
    yield dict(w=swap(w, faults=[dict(op='open', path='/w/model.mesh', nth=0, action='err', err=rnd.choice(c02.ERRO), sticky=1)]), kind='fault')
    g = {p: d for p, d in f.items() if p != '/w/model.mesh'}
    yield dict(w=dict(w, tag='missing'), kind='missing')
    yield dict(w=dict(w, tag='missing'), kind='directory')


def judge(c, ctx):
    if c['kind'] not in ('cut', 'missing', 'directory', 'hole', 'long'):
        return c02.judge_output(c, ctx)
    w = c['w']
    base = ctx.R(quiet(w))
    if not good(base):
        return None
    d = w['files']['/w/model.mesh']
    if c['kind'] == 'cut':
        if c['cut'] >= len(d):
            return None
        x = d[:c['cut']] + (b'\0' * (len(d) - c['cut']) if c['zeros'] else b'')
        must = not mesh.ended(d[:c['cut']])
        fs = dict(w['files'], **{'/w/model.mesh': x})
    elif c['kind'] in ('hole', 'long'):
        must = False
        x = c03.lengthen(d, c) if c['kind'] == 'long' else d[:c['at']] + b'\0' * (min(c['to'], len(d)) - c['at']) + d[c['to']:]
        fs = dict(w['files'], **{'/w/model.mesh': x})
    else:
        must = True
        fs = dict(w['files'])
        del fs['/w/model.mesh']
        if c['kind'] == 'directory':
            fs['/w/model.mesh'] = (b'', 2)
    r = ctx.R(bounded(swap(w, files=fs), base))
    q = r.p
    bad = ended_badly(q)
    if bad:
        return ('ends-badly', bad)
    if q.code == 0:
        if must:
            return ('partial-input-accepted', 'exit status 0 although the mesh was %s' % ('cut after %d of %d bytes' % (c['cut'], len(d)) if c['kind'] == 'cut' else c['kind']))
        d = diff(results(base), results(r))
        if d:
            return ('success-incomplete', 'exit status 0, but ' + d)
    elif not r.std(0, 'stderr').strip():
        return ('no-diagnostic', 'exit status %d without a word on standard error' % q.code)
    return None


def edits(c):
    if c['kind'] == 'cut' and c.get('zeros'):
        yield dict(c, zeros=0)
