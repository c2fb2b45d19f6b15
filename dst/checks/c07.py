"""C07: results are a function of the inputs alone."""
import os
from .. import gen
from ..oracle import *
from . import c02, c08, c10

PROGS = ['vulture', 'gvulture', 'vult_zero', 'vult_pat', 'gvult_pat', 'scaled', 'indexed', 'asan', 'gasan', 'omp']
LEVEL = 'exploration'
PLAN = {'quick': dict(cases=2600, wall=240), 'thorough': dict(cases=60000, wall=2400)}
RULE = ('A case is a random model and option set, run undisturbed and then many times with other contents of fresh and freed memory and of the stack '
        '(zero, bit patterns, plausible numbers, text, random), other placement and recycling of blocks, other buffer sizes and splits of reads and writes, '
        'another time zone, environment, clock and directory, and in builds that start every automatic variable from zero or a pattern, or watch every access to memory; damaged models and failing calls in the latter. '
        'Non-trivial: a setting differs from the undisturbed run; distinct by trace and files.')
ASSUMPTIONS = ['Guard zones of 64 bytes around each block detect writes outside it in every build; the instrumented builds (AddressSanitizer under the simulator) also see reads, and the stack and static data.']
BUILDS = {'vulture': ['vulture'] * 3 + ['vult_zero', 'vult_pat', 'asan'], 'gvulture': ['gvulture'] * 2 + ['gvult_pat', 'gasan'], 'scaled': ['scaled'], 'indexed': ['indexed'], 'omp': ['omp']}
VO = [[], [], [], ['-g'], ['-v'], ['-p'], ['-m'], ['-p', '-g', '-v']]


def knobs(rnd):
    s = dict(seed=rnd.randrange(1 << 30))
    if rnd.random() < .7:
        s['fillMode'] = rnd.choice([1, 2, 3, 4, 5, 6, 7])
    if rnd.random() < .7:
        s['stackFill'] = rnd.choice([1, 2, 3, 4, 5, 6, 7])
    if rnd.random() < .5:
        s['addrJitter'] = rnd.choice([2, 16, 300])
    if rnd.random() < .4:
        s['addrOrder'] = rnd.choice([1, 2])
    if rnd.random() < .5:
        s['recycle'] = rnd.choice([1, 2])
    if rnd.random() < .5:
        s['bufSize'] = rnd.choice([1, 2, 7, 64, 100, 1000, 65536])
    if rnd.random() < .4:
        s['readChunk'] = rnd.choice([1, 2, 3, 10, 100, 511])
    if rnd.random() < .4:
        s['writeChunk'] = rnd.choice([1, 3, 17, 100, 1000])
    if rnd.random() < .3:
        s['tzMode'] = 1
    if rnd.random() < .3:
        s['envMode'] = rnd.randint(1, 3)
    if rnd.random() < .3:
        s['stdoutMode'] = 1
    if rnd.random() < .3:
        s['clockRate'] = rnd.choice([10., 1000., 1e5])
        s['clockBase'] = rnd.choice([0.0, 1e9, 4e9])
    return s


def claims(idx, rnd, ctx, tier):
    prog = ('vulture', 'vulture', 'gvulture', 'vulture', 'scaled', 'vulture', 'indexed', 'vulture')[idx % 8]
    if idx % 40 == 15:
        prog = 'omp'
    opts = rnd.choice(c10.OPTSETS if prog == 'gvulture' else VO)
    m, f = c02.base_files(rnd, small=True, long=0, stretch=0, maxdim=4) if prog == 'omp' else c02.base_files(rnd, small=rnd.random() < .6)
    if rnd.random() < .12:                       # a damaged model must be refused alike
        t = f['/w/model.mesh']
        k = rnd.randrange(len(t))
        f['/w/model.mesh'] = t[:k] + (b'' if rnd.random() < .4 else bytes([rnd.choice(b'0x- \n9')])) + t[k + 1:]
    w = team(mk(prog, f, opts), rnd)
    yield dict(w=w, kind='undisturbed')
    for _ in range(12 if tier == 'quick' else 40):
        v = dict(w, set=dict(w['set'], **knobs(rnd)), prog=rnd.choice(BUILDS[prog]))
        k = 'knobs'
        if rnd.random() < .15 and all(p.startswith('/w/') for p in f):
            d = rnd.choice(['/another/place', '/x', '/w/w/w'])
            v['files'] = {d + p[2:]: x for p, x in f.items()}
            v['procs'] = [dict(v['procs'][0], cwd=d)]
            k = 'place'
        if rnd.random() < .15:                   # called by another name, the mesh by another path
            p = dict(v['procs'][0])
            a = list(p['argv'])
            a[0] = rnd.choice(['./', '/usr/local/bin/', '/' + 'long/' * rnd.choice([12, 50, 250]), '']) + a[0] + rnd.choice(['', '', '-2.0', 'x' * 70])
            if a[-1] == 'model.mesh':
                a[-1] = rnd.choice(['model.mesh', './model.mesh', p['cwd'] + '/model.mesh', '../' + p['cwd'].split('/')[-1] + '/model.mesh', './' * rnd.choice([20, 100, 200]) + 'model.mesh'])
            v['procs'] = [dict(p, argv=a)]
            k = 'name'
        if rnd.random() < .1:                    # what a look at the machine would show
            n = rnd.choice([1, 2, 8, 64])
            v['files'] = dict(v['files'], **{'/proc/' + q: (x, 1) for q, x in {
                'meminfo': b'MemTotal: %d kB\nMemFree: %d kB\nMemAvailable: %d kB\n' % ((n << 20,) * 3),
                'cpuinfo': b''.join(b'processor\t: %d\ncpu MHz\t\t: 2000.000\ncache size\t: %d KB\n' % (i, n * 512) for i in range(n)),
                'loadavg': b'%d.00 1.00 1.00 1/100 1000\n' % n, 'uptime': b'%d.0 1.0\n' % n}.items()})
        yield dict(w=v, kind=k, build=v['prog'], ref=prog)
    # any input and any trouble, in a build that watches every access to memory
    if prog in ('vulture', 'gvulture'):
        for _ in range(3 if tier == 'quick' else 12):
            g = c08.damage(rnd, dict(f)) if rnd.random() < .7 else None
            if rnd.random() < .5:
                g = c08.wrong_number(rnd, g or f)
            v = dict(w, files=g or f, prog={'vulture': 'asan', 'gvulture': 'gasan'}[prog], set=dict(w['set'], **knobs(rnd)))
            v['set'].update(fuel=3000000, memCap=rnd.choice([1 << 22, 1 << 25, 1 << 27]))
            v['procs'] = [dict(w['procs'][0], argv=[w['procs'][0]['argv'][0]] + rnd.choice(c10.OPTSETS if prog == 'gvulture' else VO) + w['procs'][0]['argv'][-1:])]
            if rnd.random() < .5:
                v['faults'] = [dict(op=rnd.choice(['read', 'write', 'open', 'alloc', 'alloc', 'alloc', 'close']), path='*', nth=int(10 ** rnd.uniform(0, 2.3)),
                                    action='err', err=rnd.choice(['EIO', 'ENOSPC']), sticky=rnd.randint(0, 1))]
            yield dict(w=v, kind='watched')


def rel(w, d):
    n = len(w['procs'][0]['cwd'])
    c = w['procs'][0]['cwd']
    return {(p[n + 1:] if p.startswith(c + '/') else p): x for p, x in d.items()}


def nans(files, same):
    """The sign of a result that is not a number is left to the compiler, and so may differ between two builds."""
    if same:
        return files
    return {p: x and x.replace(b'-nan', b' nan').replace(b'\0\0\xc0\xff', b'\0\0\xc0\x7f') for p, x in files.items()}


def home(w):
    """The same invocation in the usual place, under the usual names, on a machine that shows nothing of itself."""
    c = w['procs'][0]['cwd']
    a = list(w['procs'][0]['argv'])
    a[0] = {'g': 'gvulture'}.get(os.path.basename(a[0])[0], 'vulture')
    if a[-1].endswith('/model.mesh'):
        a[-1] = 'model.mesh'
    f = {'/w' + p[len(c):] if p.startswith(c + '/') else p: x for p, x in w['files'].items() if not p.startswith('/proc/')}
    return dict(w, files=f, procs=[dict(w['procs'][0], cwd='/w', argv=a)])


def judge(c, ctx):
    w = c['w']
    if c['kind'] == 'watched':
        r = ctx.R(w)
        bad = memory_fault(r)
        ctx.probe('watched: ' + r.p.ended)
        return ('memory', bad) if bad else None
    q0 = quiet(home(w))
    q0['prog'] = c.get('ref', w['prog'])
    base = ctx.R(q0)
    if c['kind'] == 'undisturbed':
        r = base
    else:
        r = ctx.R(bounded(w, base))
    bad = memory_fault(r)
    if bad:
        return ('memory', bad)
    bad = ended_badly(r.p)
    if bad:
        return ('ends-badly', bad)
    if c['kind'] == 'undisturbed':
        return None
    if r.p.ended != base.p.ended:
        return ('status', 'ends with %s, undisturbed %s' % (r.p.ended, base.p.ended))
    if base.p.kind != 'exit' or base.p.code != 0:
        ctx.probe('refused alike')
        return None
    same = w['prog'] == q0['prog']
    d = diff(rel(q0, nans(results(base), same)), rel(w, nans(results(r), same)))
    if d:
        return ('results', d)
    # what it reports, too, is a function of the inputs (and the clock)
    if not w['set'].get('clockRate') and not w['set'].get('tzMode') and not w['set'].get('clockBase'):
        d = diff(rel(q0, nans(logs(base), same)), rel(w, nans(logs(r), same)))
        if d and c['kind'] != 'name':
            return ('log', d)
        ctx.probe('logs compared')
    return None
