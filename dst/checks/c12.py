"""C12: runs going on at the same time do not disturb one another."""
from .. import gen
from ..oracle import *
from . import c02, c08, c10

PROGS = ['vulture', 'gvulture', 'scaled', 'both']
LEVEL = 'exploration'
PLAN = {'quick': dict(cases=3500, wall=300), 'thorough': dict(cases=80000, wall=2400)}
RULE = ('A case is 2 to 4 processes, of one program or solvers and renderers mixed, in directories of their own (or a solver and a renderer in the same one), on one model shared read-only by all of them or on models of their own with shared '
        'auxiliary files, switching at random instructions and at every file operation; some crash, run out of memory, meet failing operations on their own files or '
        'damaged models. Each is compared with the same process alone. Non-trivial: at least one switch; distinct by trace and files.')
ASSUMPTIONS = ['Processes share only the file system.']
VO = [[], [], [], ['-g'], ['-v'], ['-p'], ['-m']]


def claims(idx, rnd, ctx, tier):
    prog = ('vulture', 'both', 'gvulture', 'both', 'scaled')[idx % 5]
    n = rnd.randint(2, 4)
    shared = rnd.random() < .6
    files, procs, faults = {}, [], []
    m, f = c02.base_files(rnd, small=True, maxdim=rnd.choice([2, 4, 5]), feat=dict(full=False))
    if shared:
        t = f['/w/model.mesh'].decode('latin-1')
        for p in f:
            b = p.rsplit('/', 1)[1]
            if not p.endswith('.mesh'):
                t = t.replace('"%s"' % b, '"../in/%s"' % b)
            files['/in/' + b] = f[p]
        files['/in/model.mesh'] = t.encode('latin-1')
        if rnd.random() < .5:
            files = {p: (d, 1) for p, d in files.items()}
    beside = prog == 'both' and rnd.random() < .3
    if beside:
        n, shared = 2, False
    for k in range(n):
        cwd = '/p%d' % (0 if beside else k)
        one = ('gvulture', 'vulture')[k % 2] if beside else rnd.choice(['vulture', 'gvulture']) if prog == 'both' else 'gvulture' if prog == 'gvulture' else 'vulture'
        opts = rnd.choice(c10.OPTSETS if one == 'gvulture' else VO)
        if beside and k:
            name = 'model.mesh'
        elif shared and rnd.random() < .8:
            name = '../in/model.mesh'
        else:
            m, f = c02.base_files(rnd, small=True, maxdim=4, feat=dict(full=False))
            if rnd.random() < .2:
                f = c08.damage(rnd, f)
            for p, d in f.items():
                files[cwd + p[2:]] = d
            name = 'model.mesh'
        procs.append(dict(cwd=cwd, argv=[one] + opts + [name]))
    w = dict(prog=prog, procs=procs, files=files, set=dict(DEFAULT_SET, seed=rnd.randrange(1 << 30)), faults=[], clock=[])
    if rnd.random() < .6:
        w['set'].update(io_knobs(rnd))
    if rnd.random() < .2:
        w['set']['readChunk'] = rnd.choice([1, 7, 100])
    # faults, each of one process
    for k in range(n):
        b = ctx.R(quiet(solo(w, k)))
        if b.p.kind != 'exit':
            yield None
            return
        x = rnd.random()
        own = [s for s in outfaults(b, w, rnd)]
        if x < .15:
            faults.append(dict(proc=k, op='edge', nth=rnd.randrange(b.p.edges), action='crash'))
        elif x < .25:
            faults.append(dict(proc=k, op='alloc', nth=rnd.randrange(max(1, b.p.nalloc)), action='err', err='ENOMEM', sticky=rnd.randint(0, 1)))
        elif x < .35 and own:
            p, op, q, tot = rnd.choice(own)
            faults.append(dict(proc=k, op=op, path=p, nth=q, action='err', err=rnd.choice(c02.ERRO if op == 'open' else c02.ERRW), sticky=1))
        elif x < .4:
            faults.append(dict(proc=k, op='read', path=procs[k]['cwd'] + '/model.mesh' if name == 'model.mesh' else '/in/model.mesh', nth=0, action='err', err='EIO', sticky=1))
    w['faults'] = faults
    for _ in range(2 if tier == 'quick' else 8):
        yield dict(w=dict(w, set=dict(w['set'], seed=rnd.randrange(1 << 30), yieldEdges=rnd.choice([5, 50, 500, 5000, 50000]))), kind='together')


def solo(w, k):
    """Process k alone."""
    cwd = w['procs'][k]['cwd']
    fs = {p: d for p, d in w['files'].items() if p.startswith(cwd + '/') or not p.startswith('/p')}
    return dict(w, procs=[w['procs'][k]], files=fs, faults=[dict(f, proc=0) for f in w.get('faults', ()) if f.get('proc', 0) == k])


def judge(c, ctx):
    w = c['w']
    base, tot = [], 0
    for k in range(len(w['procs'])):
        s = solo(w, k)
        q = ctx.R(quiet(s))
        if q.p.kind != 'exit':
            return None
        tot += q.p.edges
        s['set'] = {x: y for x, y in w['set'].items() if x not in ('yieldEdges',)}
        s['set']['fuel'] = q.p.edges * 20 + 20000000
        base.append(ctx.R(s))
    r = ctx.R(dict(w, set=dict(w['set'], fuel=tot * 20 + 20000000 * len(base))))
    bad = memory_fault(r)
    if bad:
        return ('memory', bad)
    for k, (b, q) in enumerate(zip(base, r.procs)):
        if q.ended != b.p.ended:
            return ('status', 'process %d ends with %s, alone with %s' % (k, q.ended, b.p.ended))
        cwd = w['procs'][k]['cwd'] + '/'
        x = {p: d for p, d in b.written().items()}
        other = {p for j, o in enumerate(base) if j != k for p in o.written()}
        both = [p for p in x if p in other]
        if both:
            return ('results', 'process %d and another both write %s' % (k, both[0]))
        y = {p: d for p, d in r.written().items() if p.startswith(cwd) and p not in other}
        d = diff(x, y, 'the process alone')
        if d:
            return ('results', 'process %d: %s' % (k, d))
        for s in ('stdout', 'stderr'):
            if r.std(k, s) != b.std(0, s):
                return ('streams', 'process %d: %s differs: %r / %r' % (k, s, r.std(k, s)[-200:], b.std(0, s)[-200:]))
    cw = tuple(p['cwd'] + '/' for p in w['procs'])
    for p in r.written():
        if not p.startswith(cw):
            return ('touched', '%s was written' % p)
    ctx.probe('switches between processes', r.nyield)
    return None


def edits(c):
    w = c['w']
    n = len(w['procs'])
    if n > 2:
        for k in range(n):
            fl = [dict(f, proc=f.get('proc', 0) - (f.get('proc', 0) > k)) for f in w['faults'] if f.get('proc', 0) != k]
            yield dict(c, w=dict(w, procs=w['procs'][:k] + w['procs'][k + 1:], faults=fl))
    if 0 < w['set'].get('yieldEdges', 0) < 500000:
        yield dict(c, w=dict(w, set=dict(w['set'], yieldEdges=w['set']['yieldEdges'] * 10)))
