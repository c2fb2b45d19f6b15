"""C01: results do not depend on threads or on how they are scheduled."""
from .. import gen, world
from ..oracle import *
from . import c02

PROGS = ['omp', 'omp_idx', 'omp_sca']
LEVEL = 'exploration'
PLAN = {'quick': dict(cases=2500, wall=300), 'thorough': dict(cases=9000, wall=3000)}
RULE = ('A case is a random model run with one thread, and then with 2 to 64 threads requested by -n or by the environment, granted in full or in part, under '
        'random pre-emption at any memory access, priority schedules with few change points, and schedules that switch where two threads touch the same word. '
        'Non-trivial: at least one switch between threads; distinct by the hash over every scheduling decision and the final files.')
ASSUMPTIONS = ['Interleavings are sequentially consistent at the granularity of single memory accesses of code compiled without optimisation; effects of weak memory or of optimisation are not simulated.',
               'Threads exist only in parallel regions, as in OpenMP with static scheduling of the regions the source has.']


def claims(idx, rnd, ctx, tier):
    prog = ('omp', 'omp', 'omp_idx', 'omp_sca')[idx % 4]
    if rnd.random() < .25:
        big = True
        m, f = c02.base_files(rnd, small=True, long=0, stretch=0, corpus=0, wide=rnd.choice([1, 1, 2, 2, 3]), nt=rnd.randint(1, 8),
                              feat=dict(full=True, pw=rnd.random() < .7, pwedge=True))
    else:
        big = False
        m, f = c02.base_files(rnd, small=True, long=0, maxdim=rnd.choice([3, 5, 8]), feat=dict(full=rnd.random() < .7))
    w = mk(prog, f, ['-n', '1'])
    w['set'].update(teamMax=1)
    b = ctx.R(dict(w, set=dict(w['set'], fuel=4000000000)))
    yield dict(w=w, kind='one')
    if not good(b):
        yield None
        return
    for _ in range(6 if tier == 'quick' else 25):
        T = rnd.choice([2, 2, 3, 4, 5, 7, 8, 12]) if rnd.random() < (.15 if big else .85) else rnd.choice([16, 17, 24, 31, 33, 48, 64])
        s = dict(seed=rnd.randrange(1 << 30), clockRate=0, teamMax=rnd.choice([T, T, T, 2, 16]))
        s['schedMode'] = rnd.choice([0, 0, 2])
        s['schedInterval'] = rnd.choice([50, 300, 1000, 5000, 20000])
        s['hotProb'] = rnd.choice([0, 20, 50, 100])
        if rnd.random() < .3:
            s['teamMode'] = 1
        if rnd.random() < .3:
            s['fillMode'] = rnd.choice([1, 3, 4])
        v = mk(prog, f, rnd.choice([['-n', str(T)], ['-n', str(T)], []]), **s)
        yield dict(w=v, kind='many')


def one_thread(w):
    p = w['procs'][0]
    a = list(p['argv'])
    if '-n' in a:
        i = a.index('-n')
        del a[i:i + 2]
    b = quiet(w)
    b['set'] = dict(DEFAULT_SET, fuel=4000000000, teamMax=1)
    b['procs'] = [dict(p, argv=[a[0], '-n', '1'] + a[1:])]
    return b


def judge(c, ctx):
    w = c['w']
    base = ctx.R(one_thread(w))
    if c['kind'] == 'one':
        bad = ended_badly(base.p) or memory_fault(base)
        return ('ends-badly', 'with one thread: ' + bad) if bad else None
    if not good(base):
        return None
    w = dict(w, set=dict(w['set'], fuel=base.p.edges * 40 + 100000000))
    r = ctx.R(w)
    bad = ended_badly(r.p)
    if bad:
        return ('ends-badly', bad)
    if r.p.ended != base.p.ended:
        return ('status', 'ends with %s, with one thread %s' % (r.p.ended, base.p.ended))
    bad = memory_fault(r)
    if bad:
        return ('memory', bad)
    d = diff(results(base), results(r), 'the run with one thread')
    if d:
        return ('results', d)
    ctx.probe('parallel regions', r.p.regions)
    ctx.probe('accesses to words another thread touched in the same region', r.p.conflicts)
    ctx.probe('largest team %d' % r.p.maxteam)
    return None


def edits(c):
    """Replace the random scheduler by the list of switches it made, then thin that list."""
    w = c['w']
    if c['kind'] != 'many' or w.get('sched') is not None:
        return
    r = world.run(dict(w, want=dict(sw=1, cov=0, ev=0)))
    if r.trunc or len(r.sw) > 100000:
        return
    yield dict(c, w=dict(w, sched=[list(x) for x in r.sw], set=dict(w['set'], replaySched=1)))
