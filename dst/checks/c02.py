"""C02: success means complete results, whatever happens to the output files."""
import random
from .. import gen, world
from ..oracle import *

PROGS = ['vulture', 'scaled', 'indexed', 'omp']
LEVEL = 'fault_enumeration'
PLAN = {'quick': dict(cases=1200, wall=240), 'thorough': dict(cases=12000, wall=2400)}
RULE = ('A case is a random model, option set and buffering; its undisturbed run gives every open, write and close of every output file, and each '
        'chosen one is made to fail (once, or from then on; no space, I/O error, quota, access, too many files, short write followed by an error, '
        'error reported only at close), or the disk is given a capacity below what the run needs, or a name is taken by a directory or a read-only '
        'file. Non-trivial: the fault fired; distinct by the trace and final state of the run.')
ASSUMPTIONS = ['The host C library is modelled by its own stdio over a simulated descriptor layer: a failed write sets the error flag of the stream and fclose reports a failed flush.']
PROG = 'vulture'
OPTSETS = OPTS
ERRW = ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG']
ERRO = ['ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'EIO', 'ENFILE']


def base_files(rnd, **kw):
    if not kw.get('nt'):
        kw.setdefault('corpus', .06)
    g = gen.Gen(rnd, **kw)
    m = g.model()
    return m, gen.files(m)


def out_claims(idx, rnd, ctx, tier, prog, optsets, **gkw):
    opts = rnd.choice(optsets)
    if idx % 3 == 0 or prog == 'omp':
        gkw['small'] = True
    if prog == 'omp':
        gkw.update(long=0, stretch=0, maxdim=4)
    m, f = base_files(rnd, **gkw)
    w = team(mk(prog, f, opts, **io_knobs(rnd)), rnd)
    w['set']['seed'] = rnd.randrange(1 << 30)
    qb = ctx.R(quiet(w))
    if not good(qb):
        yield dict(w=w, kind='undisturbed')
        yield None
        return
    yield dict(w=w, kind='undisturbed')
    base = ctx.R(bounded(w, qb))
    sites = {}
    for p, op, n, k in outfaults(base, w, rnd):
        sites.setdefault((p, op), []).append((n, k))
    faults = []
    budget = 40 if tier == 'quick' else 120
    for (p, op), l in sorted(sites.items()):
        k = l[0][1]
        if op == 'open':
            faults.append([dict(op='open', path=p, nth=0, action='err', err=rnd.choice(ERRO), sticky=rnd.randint(0, 1))])
        elif op == 'close':
            faults.append([dict(op='close', path=p, nth=0, action='err', err=rnd.choice(['EIO', 'ENOSPC', 'EDQUOT']))])
            faults.append([dict(op='close', path=p, nth=0, action='droperr', err='EIO', arg=rnd.choice([1, 10, 1000]))])
        else:
            picks = {0, k - 1, k // 2, rnd.randrange(k), rnd.randrange(k), max(0, k - 2)}
            for n in sorted(picks):
                sticky = rnd.randint(0, 1)
                faults.append([dict(op='write', path=p, nth=n, action='err', err=rnd.choice(ERRW), sticky=sticky)])
            n = rnd.randrange(k)
            faults.append([dict(op='write', path=p, nth=n, action='short', arg=rnd.choice([1, 2, 5])),
                           dict(op='write', path=p, nth=n + 1, action='err', err='ENOSPC', sticky=rnd.randint(0, 1))])
            faults.append([dict(op='write', path=p, nth=n, action='err', err='EINTR', sticky=0)])
    rnd.shuffle(faults)
    for fl in faults[:budget]:
        yield dict(w=swap(w, faults=fl), kind='fault')
    # several faults at once, and faults on any file
    for _ in range(6 if tier == 'quick' else 20):
        fl = []
        for _ in range(rnd.randint(1, 3)):
            op = rnd.choice(['open', 'write', 'write', 'close'])
            tot = sum(l[0][1] for (p, o), l in sites.items() if o == op)
            if tot:
                fl.append(dict(op=op, path='*', nth=rnd.randrange(tot), action='err', err=rnd.choice(ERRW), sticky=int(rnd.random() < .4)))
        yield dict(w=swap(w, faults=fl), kind='multi')
    used = base.used
    infiles = sum(len(d) for d in f.values())
    caps = {0, infiles, infiles + 1, used - 1, used - 2} | {rnd.randrange(infiles, used + 1) for _ in range(4 if tier == 'quick' else 30)}
    for c in sorted(caps):
        if c >= 0:
            yield dict(w=swap(w, set=dict(w['set'], diskCap=c)), kind='capacity')
    outs = [p for p in base.names if not p.startswith('<') and p not in f]
    for p in rnd.sample(sorted(outs), min(2, len(outs))):
        fl = rnd.choice([1, 2])
        taken = {p: (b'old' if fl == 1 else b'', fl)}
        if fl == 2:
            taken[p + '/kept'] = (b'old', 0)
        yield dict(w=swap(w, files=dict(w['files'], **taken)), kind='name taken')
    # moving and removing names, where the program does that
    for op in ('rename', 'unlink'):
        n = sum(1 for e in base.events if world.EV.get(e[0]) == op)
        for k in sorted({0, n - 1, rnd.randrange(n)} if n else ()):
            yield dict(w=swap(w, faults=[dict(op=op, path='*', nth=k, action='err', err=rnd.choice(['EIO', 'ENOSPC', 'EACCES', 'EBUSY']),
                                              sticky=rnd.randint(0, 1))]), kind='fault')


def claims(idx, rnd, ctx, tier):
    yield from out_claims(idx, rnd, ctx, tier, ('scaled', 'indexed', 'omp')[idx // 12 % 3] if idx % 12 == 7 else PROG, OPTSETS)


def only_log(w):
    fl = w.get('faults') or []
    return bool(fl) and all(is_log(f['path']) for f in fl) and w['set'].get('diskCap', -1) < 0 and not any(isinstance(d, tuple) for d in w['files'].values())


def judge(c, ctx):
    return judge_output(c, ctx)


def judge_output(c, ctx):
    w = c['w']
    qw = quiet(w)
    qw['files'] = {p: d for p, d in w['files'].items() if not isinstance(d, tuple)}
    base = ctx.R(qw)
    q = base.p
    bad = ended_badly(q)
    if c['kind'] == 'undisturbed':
        if bad:
            return ('undisturbed-bad', 'an undisturbed run ' + bad)
        if q.kind == 'exit' and q.code == 0:
            mesh = [p for p in w['files'] if p.endswith('.mesh')][0]
            if w['prog'] != 'gvulture':
                res = results(base)
                for n in expected_files(w['files'][mesh], w['procs'][0]['argv']):
                    if w['procs'][0]['cwd'] + '/' + n not in res:
                        return ('result-missing', 'exit status 0, but the result file %s was not created' % n)
            r = ctx.R(bounded(w, base))
            d = diff(results(base), results(r), 'the run with other buffering') if good(r) else 'ended with %s' % r.p.ended
            if d:
                return ('result-differs', d)
        return None
    if not good(base):
        return None
    r = ctx.R(bounded(w, base))
    q = r.p
    bad = ended_badly(q)
    if bad:
        return ('ends-badly', bad)
    d = diff(results(base), {p: x for p, x in results(r).items()})
    ctx.probe('%s: exit %s, results %s' % (c['kind'], 'zero' if q.code == 0 else 'non-zero', 'complete' if d is None else 'incomplete'))
    if q.code == 0:
        if d:
            return ('success-incomplete', 'exit status 0, but ' + d)
        return None
    if only_log(w) and all(f['op'] != 'open' for f in w['faults']):
        if d:
            return ('log-failure-changes-results', 'only the log failed (exit status %d), but %s' % (q.code, d))
    if not r.std(0, 'stderr').strip():
        return ('no-diagnostic', 'exit status %d without a word on standard error' % q.code)
    return None
