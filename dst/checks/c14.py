"""C14: earlier runs in a directory never show in the results of a later one."""
from .. import gen, mesh
from ..oracle import *
from . import c02, c08, c10

PROGS = ['vulture', 'gvulture', 'scaled', 'omp']
LEVEL = 'exploration'
PLAN = {'quick': dict(cases=14000, wall=300), 'thorough': dict(cases=60000, wall=2400)}
RULE = ('A case is a history of 2 to 6 invocations in one directory: solver (full, preprocessing, reading) and renderer, two or three models or edits of one, some runs crashed, '
        'out of memory, out of disk or refused; every successful run of it is compared with the same invocation in a fresh directory. '
        'Non-trivial: a run found files of earlier ones; distinct by traces and files.')
ASSUMPTIONS = ['Each run sees the files the previous one left, with what sat in its buffers lost if it crashed.']
VO = [[], [], [], ['-g'], ['-v'], ['-p'], ['-m'], ['-p', '-g']]


def claims(idx, rnd, ctx, tier):
    models = []
    for _ in range(rnd.randint(1, 3)):
        m, f = c02.base_files(rnd, small=True, maxdim=rnd.choice([2, 4, 6]), feat=dict(full=False))
        models.append(f)
    if rnd.random() < .5:                       # a later edit of the first
        f = dict(models[0])
        t = f['/w/model.mesh'].split(b'\n')
        for _ in range(rnd.randint(1, 2)):
            k = [i for i, l in enumerate(t) if l.strip()[:2] in (b'OP', b'OT', b'OF', b'MB', b'TB', b'EX', b'CE')]
            if k:
                del t[rnd.choice(k)]
        f['/w/model.mesh'] = b'\n'.join(t)
        models.append(f)
    hist = []
    for k in range(rnd.randint(2, 4 if tier == 'quick' else 7)):
        f = rnd.choice(models)
        prog = rnd.choice(['vulture'] * 5 + ['gvulture'] * 2 + ['scaled'] + ['omp'] * (idx % 10 == 0))
        w = mk(prog, f, rnd.choice(c10.OPTSETS if prog == 'gvulture' else VO), **(io_knobs(rnd) if rnd.random() < .5 else {}))
        if prog == 'omp':
            w['set'].update(teamMax=2)
        b = ctx.R(quiet(w) if prog != 'omp' else dict(w, set=dict(w['set'], fuel=4000000000)))
        if b.p.kind != 'exit':
            continue
        x = rnd.random()
        if prog == 'omp':
            pass
        elif x < .3:
            w['faults'] = [dict(op='edge', nth=rnd.randrange(b.p.edges), action='crash')]
        elif x < .4:
            w['faults'] = [dict(op='alloc', nth=rnd.randrange(max(1, b.p.nalloc)), action='err', err='ENOMEM', sticky=1)]
        elif x < .5:
            s = outfaults(b, w, rnd)
            if s:
                p, op, n, tot = rnd.choice(s)
                w['faults'] = [dict(op=op, path=p, nth=n, action=rnd.choice(['err', 'crash'] + ['torncrash'] * (op == 'write')), err='ENOSPC', arg=5, sticky=1)]
                if w['faults'][0]['action'] != 'err':
                    w['faults'][0].update(err=0, sticky=0)
        elif x < .56:
            w = dict(w, files=c08.damage(rnd, w['files']))
        hist.append(w)
    if not hist:
        yield None
        return
    f = rnd.choice(models)
    prog = rnd.choice(['vulture'] * 5 + ['gvulture'] * 2 + ['scaled'])
    hist.append(mk(prog, f, rnd.choice(c10.OPTSETS if prog == 'gvulture' else VO), **(io_knobs(rnd) if rnd.random() < .5 else {})))
    yield dict(ws=hist, kind='history')


def judge(c, ctx):
    old = {}
    for k, w in enumerate(c['ws']):
        fresh = ctx.R(quiet(w) if w['prog'] != 'omp' else dict(w, faults=[], set=dict(w['set'], fuel=4000000000)))
        if fresh.p.kind != 'exit':
            return None
        here = dict(old)
        here.update(w['files'])
        v = dict(w, files=here, set=dict(w['set'], fuel=fresh.p.edges * 40 + 100000000))
        r = ctx.R(v)
        bad = ended_badly(r.p)
        if bad:
            return ('ends-badly', 'run %d of the history: %s' % (k, bad))
        if not w.get('faults') and r.p.ended != fresh.p.ended:
            return ('status', 'run %d of the history ends with %s, in a fresh directory %s' % (k, r.p.ended, fresh.p.ended))
        if r.p.kind == 'exit' and (r.p.code == 0 or not w.get('faults')) and fresh.p.ended == r.p.ended:
            get = results if w.get('faults') else (lambda q: q.written())
            d = diff(get(fresh), get(r), 'the run in a fresh directory')
            if d:
                return ('results', 'run %d of the history (%s): %s' % (k, ' '.join(w['procs'][0]['argv']), d))
            if old:
                ctx.probe('runs judged in a used directory')
        for p, i in r.names.items():
            n = r.inodes[i]
            if not p.startswith('<') and not n['isdir'] and p not in w['files'] and n['data'] is not None:
                old[p] = n['data']
        for p in list(old):
            if p not in r.names:
                del old[p]
    return None
