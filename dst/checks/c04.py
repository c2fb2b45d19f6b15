"""C04: running out of memory is an orderly, diagnosed failure."""
from .. import gen
from ..oracle import *
from . import c02

PROGS = ['vulture', 'gvulture', 'indexed', 'scaled', 'omp']
LEVEL = 'fault_enumeration'
PLAN = {'quick': dict(cases=2400, wall=260), 'thorough': dict(cases=6000, wall=2400)}
RULE = ('A case is a random model, program and option set; the undisturbed run counts its allocations and each one (in large models a sample, first by place in the program and size) is '
        'refused, once or from then on; the heap is also capped at amounts below what the run needs, and opening a file fails for want of memory. '
        'Non-trivial: a request was refused.')
ASSUMPTIONS = ['Allocations made inside libc on behalf of stdio are modelled by failing the open with ENOMEM; libm allocates nothing.']


def claims(idx, rnd, ctx, tier):
    prog = rnd.choice(['vulture'] * 6 + ['gvulture'] * 3 + ['indexed', 'scaled', 'omp'])
    if prog == 'gvulture':
        opts = rnd.choice([[], ['-m'], ['-p'], ['-m', '-p'], ['-e']])
    elif prog == 'omp':
        opts = ['-n', rnd.choice('234')]
    else:
        opts = rnd.choice([[], [], [], ['-g'], ['-v'], ['-p'], ['-m']])
    m, f = c02.base_files(rnd, small=True, stretch=.2)
    w = mk(prog, f, opts)
    if prog == 'omp':
        w['set']['teamMax'] = 4
    w['set']['seed'] = rnd.randrange(1 << 30)
    w['set']['fillMode'] = rnd.choice([0, 1, 2, 3])
    base = ctx.R(dict(quiet(w), want=dict(groups=1)))
    if not good(base):
        yield dict(w=w, kind='undisturbed')
        yield None
        return
    yield dict(w=w, kind='undisturbed')
    n = base.p.nalloc
    lim = 90 if tier == 'quick' else 100000
    if prog == 'omp':
        lim = 25
    ks = range(n)
    if n > lim:                          # every place and size of request first, then any
        one = [rnd.choice(g[1:4]) for g in base.groups]
        one = rnd.sample(one, min(len(one), lim * 2 // 3))
        ctx.probe('requests chosen by place and size', len(one))
        ks = sorted(set(one) | set(rnd.sample(range(n), lim - len(one))))
    for k in ks:
        yield dict(w=swap(w, faults=[dict(op='alloc', nth=k, action='err', err='ENOMEM', sticky=rnd.randint(0, 1))]), kind='alloc')
        if rnd.random() < .03 and k + 1 < n:
            yield dict(w=swap(w, faults=[dict(op='alloc', nth=k, action='err', err='ENOMEM'), dict(op='alloc', nth=rnd.randrange(k + 1, n), action='err', err='ENOMEM', sticky=1)]), kind='alloc')
    for c in sorted({0, base.p.peakBytes - 1, base.p.peakBytes // 2} | {rnd.randrange(base.p.peakBytes) for _ in range(8)}):
        yield dict(w=swap(w, set=dict(w['set'], memCap=c)), kind='cap')
    opens = sum(1 for e in base.events if e[0] == 1 and not base.path_of(e[2]).startswith('<'))
    for k in sorted({rnd.randrange(max(1, opens)) for _ in range(4)}):
        yield dict(w=swap(w, faults=[dict(op='open', path='*', nth=k, action='err', err='ENOMEM', sticky=rnd.randint(0, 1))]), kind='open')


def judge(c, ctx):
    w = c['w']
    base = ctx.R(quiet(w))
    bad = ended_badly(base.p)
    if c['kind'] == 'undisturbed':
        if bad:
            return ('undisturbed-bad', 'an undisturbed run ' + bad)
        return None
    if not good(base):
        return None
    r = ctx.R(bounded(w, base))
    q = r.p
    bad = ended_badly(q)
    if bad:
        return ('ends-badly', bad)
    mf = memory_fault(r)
    if mf:
        return ('memory', mf)
    ctx.probe('%s: exit %s' % (c['kind'], 'zero' if q.code == 0 else 'non-zero'))
    if q.code == 0:
        d = diff(results(base), results(r))
        if d:
            return ('success-differs', 'exit status 0, but ' + d)
        return None
    if not r.std(0, 'stderr').strip():
        return ('no-diagnostic', 'exit status %d without a word on standard error' % q.code)
    return None
