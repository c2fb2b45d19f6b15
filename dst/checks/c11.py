"""C11: nothing is touched but the documented output files."""
import re
from .. import gen, mesh
from ..oracle import *
from . import c02, c08, c10

PROGS = ['vulture', 'gvulture', 'omp']
LEVEL = 'exploration'
PLAN = {'quick': dict(cases=12000, wall=300), 'thorough': dict(cases=100000, wall=2400)}
RULE = ('A case is a random model and option set in a directory full of other files (results of other models, files with names like those of results, copies, hidden '
        'and read-only files, inputs in another directory), run undisturbed and with refused memory, failed or short operations on any file, a full disk, damaged '
        'inputs and crashes at chosen instructions. Every operation on the simulated file system is recorded and every file compared. '
        'Non-trivial: a fault fired or the process died; distinct by trace and files.')
ASSUMPTIONS = ['Calls that could reach outside the simulated file system (processes, sockets, directories, links, permissions) are refused and recorded; any such call is a violation.']
VO = [[], [], ['-g'], ['-v'], ['-p'], ['-m'], ['-m', '-g'], ['-p', '-g'], ['-m', '-p', '-v']]
FOREIGN = ['notes.txt', 'model.mesh~', 'model.mesh.bak', '.hidden', 'vulture.log.1', 'vulture.log~', 'eh_old_td.asc', 'eh_td0_td.asc.bak', 'wf_other_td.asc', 'wf_wf1_td.dat',
           'frequency.dat', 'impulse.dat.gz', 'impulse.bak', 'process.out', 'excite.txt', 'core', 'xlines', 'xlines.dat.orig', 'mediaEx.asc', 'tmp', 'temp.dat', 'mesh.vtk',
           'rcs_0.asc', 'time.dat', 'results', 'a.out', 'fort.1', 'eh_td0_td', 'bin0', 'bin0.dat', 'src0', 'wave.asc.orig', 'pole.dat', '0', 'mesh']
STALE = ['impulse.dat', 'excite.dat', 'process.dat', 'mediaEx.dat', 'mediaHz.dat', 'xlines.dat', 'mesh.msh', 'mesh.gnp', 'gnuplot-block.dat', 'eh_td0_td.asc', 'vulture.log', 'gvulture.log']

HARMLESS = (1, 4, 30, 31, 32, 33, 203)          # fsync, the environment, locks, space of an open file, names of files, mapped memory


def allowed(w):
    """Names (in the current directory) this invocation may write."""
    a = w['procs'][0]['argv']
    opts = a[1:-1]
    cwd = w['procs'][0]['cwd'] + '/'
    out = set()
    if w['prog'] == 'gvulture':
        out.add('gvulture.log')
        f = [o for o in opts if o in ('-m', '-g')]
        out |= {'mesh.msh'} if f and f[-1] == '-m' else {'mesh.gnp'} | {'gnuplot-%s.dat' % x for x in (
            'lines', 'external', 'surface', 'surfaces', 'block', 'blocks', 'wires', 'line', 'source', 'sources', 'planewave', 'planewaves', 'observer', 'observers')}
    else:
        out.add('vulture.log')
        if '-m' not in opts:
            out |= {'xlines.dat', 'ylines.dat', 'zlines.dat', 'impulse.dat', 'excite.dat', 'process.dat'}
            if '-g' in opts:
                out |= {'media%s.dat' % f for f in ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')}
            for p, d in w['files'].items():
                if p.endswith('.mesh'):
                    t = (d[0] if isinstance(d, tuple) else d).decode('latin-1')
                    out |= {'wf_%s_%s.asc' % (n, x) for n in re.findall(r'(?m)^\s*WF\s+(\S+)', t) for x in ('td', 'fd')}
                    for n, k in re.findall(r'(?m)^\s*OP\s+(?:\S+\s+){6}(\S+)\s+([TF])DOM_ASCII', t):
                        out.add('eh_%s_%sd.asc' % (n, k.lower()))
    return {cwd + x for x in out}


def claims(idx, rnd, ctx, tier):
    prog = ('vulture', 'gvulture', 'vulture', 'vulture', 'gvulture', 'vulture', 'vulture', 'omp')[idx % 8]
    opts = rnd.choice(c10.OPTSETS if prog == 'gvulture' else VO)
    m, f = c02.base_files(rnd, small=True, maxdim=rnd.choice([2, 4, 6]), feat=dict(full=False))
    if rnd.random() < .25:
        f = c08.damage(rnd, f)
    name = 'model.mesh'
    if rnd.random() < .4:                        # inputs elsewhere
        d = rnd.choice(['/in', '/w/sub', '/data/models'])
        g = {}
        for p, x in f.items():
            b = p.rsplit('/', 1)[1]
            g[d + '/' + b] = x
        t = g[d + '/model.mesh'].decode('latin-1')
        for b in [p.rsplit('/', 1)[1] for p in f if not p.endswith('.mesh')]:
            t = t.replace('"%s"' % b, '"%s/%s"' % (d, b))
        g[d + '/model.mesh'] = t.encode('latin-1')
        f = g
        name = rnd.choice([d + '/model.mesh', '../' * 1 + d.lstrip('/') + '/model.mesh' if d != '/w/sub' else 'sub/model.mesh'])
    inputs = list(f)
    f = dict(f)
    if rnd.random() < .3:
        for p in inputs:
            f[p] = (f[p], 1)                      # read-only
    for n in rnd.sample(FOREIGN, rnd.randint(1, 8)):
        p = '/w/' + n
        if p not in f:
            f[p] = b'precious %d\n' % rnd.randrange(10 ** 9) * rnd.randint(0, 3)
    for n in rnd.sample(STALE, rnd.randint(0, 6)):
        f['/w/' + n] = b'stale\n' * rnd.randint(0, 400)
    f['/other/impulse.dat'] = b'elsewhere'
    f['/vulture.log'] = b'elsewhere'
    if prog == 'omp':
        T = rnd.randint(1, 4)
        w = mk(prog, f, opts + ['-n', str(T)], mesh=name, teamMax=T)
    else:
        w = mk(prog, f, opts, mesh=name, **io_knobs(rnd))
    w['set']['seed'] = rnd.randrange(1 << 30)
    b = ctx.R(quiet(w) if prog != 'omp' else dict(w, set=dict(w['set'], fuel=4000000000)))
    yield dict(w=w, kind='plain')
    if b.p.kind != 'exit':
        yield None
        return
    E = b.p.edges
    for _ in range(5 if tier == 'quick' else 20):
        k = rnd.random()
        if k < .4:
            fl = [dict(op='edge', nth=rnd.randrange(E), action='crash')] if prog != 'omp' else []
        elif k < .6:
            fl = [dict(op='alloc', nth=rnd.randrange(max(1, b.p.nalloc)), action='err', err='ENOMEM', sticky=rnd.randint(0, 1))]
        elif k < .9:
            s = outfaults(b, w, rnd)
            s += [(p, 'read', rnd.randrange(2), 1) for p in inputs]
            p, op, n, tot = rnd.choice(s)
            fl = [dict(op=op, path=p, nth=n, action='err', err=rnd.choice(c02.ERRO if op == 'open' else c02.ERRW), sticky=rnd.randint(0, 1))]
        else:
            fl = []
        v = dict(w, faults=fl)
        if k >= .9:
            v['set'] = dict(w['set'], diskCap=sum(len(d[0] if isinstance(d, tuple) else d) for d in f.values()) + rnd.randrange(4000))
        yield dict(w=v, kind='fault')


def judge(c, ctx):
    w = c['w']
    if not any(p.endswith('.mesh') for p in w['files']):
        return None
    base = ctx.R(quiet(w) if w['prog'] != 'omp' else dict(w, faults=[], set=dict(w['set'], diskCap=-1, fuel=4000000000)))
    if c['kind'] == 'plain':
        r = base
    else:
        r = ctx.R(dict(w, set=dict(w['set'], fuel=base.p.edges * 40 + 100000000)))
    bad = ended_badly(r.p)
    if bad and c['kind'] != 'plain':
        return ('ends-badly', bad)
    ok = allowed(w)
    if r.evtotal > len(r.events):
        return None
    for t, p, ino, res, a, e in r.events:
        if t == 15 and res not in HARMLESS:
            return ('outside', 'a call that reaches outside (%d %d)' % (res, a))
        if t in (8, 9):
            return ('unlink-or-rename', 'removes or renames %s' % r.path_of(ino))
    fs = {p: (d[0] if isinstance(d, tuple) else d) for p, d in w['files'].items()}
    for p, i in r.names.items():
        if p.startswith('<') or r.inodes[i]['isdir']:
            continue
        n = r.inodes[i]
        if (n['written'] or n['created']) and p not in ok:
            return ('touched', '%s was %s' % (p, 'written' if p in fs else 'created'))
        if p in fs and p not in ok and n['data'] is not None and n['data'] != fs[p]:
            return ('changed', '%s was changed' % p)
    for p in fs:
        if p not in r.names:
            return ('removed', '%s is gone' % p)
    # whoever opens a file for writing must be allowed to: even when the open fails
    for t, p, ino, res, a, e in r.events:
        if t == 1 and a and res >= 0 and r.path_of(ino) not in ok and not r.path_of(ino).startswith('<'):
            return ('opened', '%s was opened for writing' % r.path_of(ino))
    if r.p.kind == 'exit' and r.p.code == 0:
        made = {p for p in r.written()}
        opts = w['procs'][0]['argv'][1:-1]
        if w['prog'] != 'gvulture' and '-m' in opts and made - {w['procs'][0]['cwd'] + '/vulture.log'}:
            return ('read-only-mode', 'reading the mesh only produced %s' % sorted(made))
    ctx.probe('runs judged')
    return None
