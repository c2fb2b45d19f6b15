"""C13: every run ends, in bounded work, memory and open files."""
import math
import re
from .. import gen, mesh
from ..oracle import *
from . import c02, c08, c10

PROGS = ['vulture', 'gvulture', 'scaled', 'indexed', 'omp']
LEVEL = 'exploration'
PLAN = {'quick': dict(cases=3000, wall=300), 'thorough': dict(cases=50000, wall=2400)}
RULE = ('A case is a random model run for n, 2n and 4n steps, with the work (edges of the control flow graph, bytes moved by libc and the system), memory, allocations and open files of the three compared (models of one cell for up to 40400 steps); '
        'and the model damaged by cuts, edits of single bytes and lines, or met with refused memory, failing or endlessly short and interrupted reads and writes, a full disk: '
        'each such run must end within a bound computed from the undisturbed run and the sizes in the damaged model. Non-trivial: damaged or disturbed; distinct by trace.')
ASSUMPTIONS = ['Work is counted in edges of the control flow graph of the program and in bytes moved, compared or searched inside libc and read or written, not in time.',
               'The number of output frequencies is fixed by the model; without an OF card it grows with the number of steps by design.']
VO = [[], [], [], ['-g'], ['-v'], ['-p'], ['-m']]


def claims(idx, rnd, ctx, tier):
    prog = ('vulture', 'vulture', 'gvulture', 'vulture', 'scaled', 'vulture', 'indexed', 'vulture')[idx % 8]
    if idx % 40 == 39:
        prog = 'omp'
    opts = rnd.choice(c10.OPTSETS if prog == 'gvulture' else VO)
    m, f = c02.base_files(rnd, small=True, maxdim=rnd.choice([2, 4, 6]), feat=dict(of=True))
    w = mk(prog, f, opts, **(dict(teamMax=2) if prog == 'omp' else {}))
    if rnd.random() < .3:
        w['set']['clockRate'] = 10 ** rnd.uniform(1, 6)
    b = ctx.R(big(w))
    if b.p.kind != 'exit':
        yield dict(w=w, kind='plain')
        yield None
        return
    yield dict(w=w, kind='plain')
    if prog != 'gvulture':
        room = (3e8 if prog != 'omp' else 2e7) / 7 / (b.p.edges / float(m['nt']) + 1)
        n = rnd.choice([8, 20, 50])
        yield dict(w=w, kind='steps', n=n if n < room else 8)
        n = rnd.choice([300, 1000])
        if idx % 7 == 0 and n < room:
            yield dict(w=w, kind='steps', n=n)
    if prog == 'omp':
        return
    if idx % 4 == 1:
        yield sizes(rnd, prog)
    if idx % 12 == 7 and prog != 'gvulture':
        yield long_run(rnd, prog, ctx)
    for _ in range(8 if tier == 'quick' else 30):
        x = rnd.random()
        v = dict(w, set=dict(w['set'], **io_knobs(rnd)))
        kind = 'fault'
        if x < .45:
            v['files'] = c08.damage(rnd, f) if rnd.random() < .5 else noise(rnd, f)
            kind = 'damaged'
        elif x < .55:
            v['faults'] = [dict(op='alloc', nth=rnd.randrange(max(1, b.p.nalloc)), action='err', err='ENOMEM', sticky=rnd.randint(0, 1))]
        elif x < .75:
            p = rnd.choice(sorted(f))
            a = rnd.choice(['err', 'short'])
            v['faults'] = [dict(op='read', path=p, nth=rnd.randrange(3), action=a, err=rnd.choice(['EIO', 'EINTR', 'EAGAIN', 'EISDIR']) if a == 'err' else 0, arg=1, sticky=1)]
        elif x < .95:
            s = outfaults(b, w, rnd)
            if not s:
                continue
            p, op, n, tot = rnd.choice(s)
            a = rnd.choice(['err', 'short']) if op == 'write' else 'err'
            v['faults'] = [dict(op=op, path=p, nth=n, action=a, err=rnd.choice(['ENOSPC', 'EINTR', 'EAGAIN', 'EIO']) if a == 'err' else 0, arg=1, sticky=1)]
        else:
            v['set']['diskCap'] = sum(len(d) for d in f.values()) + rnd.randrange(4000)
        yield dict(w=v, kind=kind)


def long_run(rnd, prog, ctx):
    """A model of a cell or two run for thousands of steps: what grows once in a thousand steps shows."""
    m, f = c02.base_files(rnd, small=True, maxdim=1, mindim=1, stretch=0, nt=50, feat=dict(of=True, ot=False, full=False, fdom=rnd.random() < .2))
    w = mk(prog, f, rnd.choice(VO))
    b = ctx.R(big(w))
    if not good(b):
        return None
    for n in rnd.sample([1100, 2100, 4100, 10100], 4):
        if 7 * n * (b.p.edges / 50. + 1) < 4e8:
            return dict(w=w, kind='steps', n=n)
    return None


def template(q, a=1, n=1, nt=2):
    """A model whose size along one axis q is n times that of a small one."""
    d = 0.01
    dt = d / 3e8 * 0.5
    dims = [3, 3, 3]
    k = 4 * n if q == 'cards' else 1
    if q == 'dims':
        dims[a] *= n
    L = ['VM 1.0.0', 'CE size', 'DM %d %d %d' % tuple(dims), 'GS']
    if q == 'dims' and a % 2:
        L.append('BT ZLO PML 2')
    aux = {}
    for i in range(k):
        L.append('MT m%d SIMPLE 2 0.1' % i)
        L.append('BT b%d PEC' % i)
    for i in range(k):
        L += ['# a comment', 'MB 1 2 1 2 1 2 m%d' % (i // 2), 'TB 1 1 1 2 1 2 b%d' % (i // 2)]
    L.append('WT w1 PEC')
    for i in range(k):
        L.append('TW 1 2 1 1 1 1 w1')
    if q == 'wave':
        np_ = 40 * n
        T = 80 * dt
        aux['wave.asc'] = ''.join('%.6e %.6e\n' % (i * T / np_, math.sin(i * .1)) for i in range(np_))
        L.append('WF wf0 EXTERNAL "wave.asc"')
    for i in range(k):
        if q != 'wave':
            L.append('WF wf%d GAUSSIAN_PULSE' % i)
    for i in range(k):
        L.append('EX 1 1 1 1 1 2 s%d EZ wf%d' % (i, i // 2))
    if a == 2:
        L.append('PW 1 2 1 2 1 2 pw wf0 90 0 90')
    for i in range(k):
        L.append('OP 1 1 1 1 1 1 o%d %s wf%d' % (i, 'FDOM_ASCII' if i % 2 else 'TDOM_ASCII', i // 2))
    L.append('OP 1 1 1 1 1 1 b0 TDOM_BINARY')
    L += ['GE', 'NT %d' % nt, 'OF 0 1e9 2']
    if q == 'dims' and a == 1:
        for x, c in zip('XYZ', dims):
            L += [x + 'L'] + ['%g' % (i * d) for i in range(c + 1)]
    else:
        L.append('MS %g' % d)
    L.append('EN')
    return gen.files(dict(mesh=L, aux=aux))


def sizes(rnd, prog):
    q = rnd.choice(['wave', 'dims', 'cards', 'cards'] if prog != 'gvulture' else ['dims', 'cards'])
    a = rnd.randrange(3)
    n = rnd.choice([1, 2, 3]) if q != 'cards' else rnd.choice([3, 5, 10])
    opts = [] if q == 'wave' else rnd.choice(c10.OPTSETS if prog == 'gvulture' else [[], [], ['-p'], ['-m'], ['-v']] if q == 'dims' else [['-m'], ['-p'], ['-p', '-v']])
    w = mk(prog, template(q, a, n, 20), opts)
    return dict(w=w, kind='sizes', q=q, a=a, n=n, nt=rnd.choice([2, 10, 20]))


def judge_sizes(c, ctx):
    q, a, n, nt = c['q'], c['a'], c['n'], c['nt']
    def work(m, t):
        r = ctx.R(big(dict(c['w'], files=template(q, a, m, t))))
        return (r.p.edges, r.p.peakBytes, r.p.work) if good(r) else None
    if q == 'wave':
        v = [work(m, t) for m, t in ((n, 20), (n, 80), (n * 64, 20), (n * 64, 80))]
        if None in v:
            return None
        u = [x[2] for x in v]
        v = [x[0] for x in v]
        if u[3] - u[2] > 1.6 * (u[1] - u[0]) + 30000:
            return ('bytes-steps-times-input', '60 more steps move %d bytes with %d points of the waveform and %d with %d' % (u[1] - u[0], 40 * n, u[3] - u[2], 40 * 64 * n))
        if v[3] - v[2] > 1.6 * (v[1] - v[0]) + 3000:
            return ('work-steps-times-input', '60 more steps cost %d edges with %d points of the waveform and %d with %d' % (v[1] - v[0], 40 * n, v[3] - v[2], 40 * 64 * n))
    else:
        v = [work(m, nt) for m in (2 * n, 4 * n, 8 * n)]
        if None in v:
            return None
        x, y, z = v
        if z[0] - y[0] > 2.6 * (y[0] - x[0]) + 5000:
            return ('work-not-linear-in-size', 'work for %s of %d, %d and %d times the size: %d, %d, %d edges' % (q, 2 * n, 4 * n, 8 * n, x[0], y[0], z[0]))
        if z[2] - y[2] > 2.6 * (y[2] - x[2]) + 50000:
            return ('bytes-not-linear-in-size', 'bytes moved or searched for %s of %d, %d and %d times the size: %d, %d, %d' % (q, 2 * n, 4 * n, 8 * n, x[2], y[2], z[2]))
        if z[1] - y[1] > 2.6 * (y[1] - x[1]) + 5000:
            return ('memory-not-linear-in-size', 'memory for %s of %d, %d and %d times the size: %d, %d, %d bytes' % (q, 2 * n, 4 * n, 8 * n, x[1], y[1], z[1]))
    ctx.probe('size scalings judged (%s)' % q)
    return None


def noise(rnd, f):
    f = dict(f)
    p = rnd.choice(sorted(f))
    t = f[p]
    k = rnd.randrange(6)
    if k == 0:
        i = rnd.randrange(len(t))
        t = t[:i] + bytes([rnd.randrange(256)]) + t[i + 1:]
    elif k == 1:
        i, j = sorted((rnd.randrange(len(t)), rnd.randrange(len(t))))
        t = t[:i] + t[j:]
    elif k == 2:
        i = rnd.randrange(len(t))
        t = t[:i] + b'\0' * rnd.randint(1, 40) + t[i:]
    elif k == 3:
        i, j = sorted((rnd.randrange(len(t)), rnd.randrange(len(t))))
        t = t[:j] + t[i:j] + t[j:]
    elif k == 4:
        i = rnd.randrange(len(t))
        t = t[:i] + bytes(rnd.choice(b' x#"1-.e') for _ in range(rnd.choice([10, 300, 2000]))) + t[i:]
    else:
        t = bytes(rnd.randrange(256) for _ in range(rnd.randint(0, 400)))
    f[p] = t
    return f


def big(w):
    b = quiet(w)
    b['set'].update(fuel=4000000000)
    for k in ('clockRate', 'teamMax'):
        if k in w['set']:
            b['set'][k] = w['set'][k]
    return b


def steps_of(w, n):
    p = [x for x in w['files'] if x.endswith('.mesh')][0]
    t = w['files'][p]
    s = t.decode('latin-1') if isinstance(t, bytes) else t
    if not re.search(r'(?m)^\s*OF ', s) or not re.search(r'(?m)^\s*NT \d', s):
        return None
    s = re.sub(r'(?m)^\s*OT .*\n', '', s)
    s = re.sub(r'(?m)^(\s*)NT \d+', r'\1NT %d' % n, s)
    return dict(w, files=dict(w['files'], **{p: s.encode('latin-1')}))


def size_bound(w):
    """Work allowed for a model that may be damaged: from the sizes it names."""
    tot = sum(len(d) for d in w['files'].values())
    cells, nt, layers = 1, 1, 0
    for p, d in w['files'].items():
        if not p.endswith('.mesh'):
            continue
        t = d.decode('latin-1') if isinstance(d, bytes) else d
        dims = [1, 1, 1]
        for q in re.findall(r'DM([^A-Z#]*)', t):
            v = [abs(int(float(x))) for x in re.findall(r'-?\d{1,9}', q)[:3]]
            dims = [max(a, b) for a, b in zip(dims, v + [0] * (3 - len(v)))]
        for q in re.findall(r'NT\s*[-+]?(\d{1,12})', t):
            nt = max(nt, int(q))
        for q in re.findall(r'PML\s*[-+]?(\d{1,6})', t):
            layers = max(layers, int(q))
        for q in re.findall(r'OF([^A-Z#]*)', t):
            v = re.findall(r'[-+\d.eE]+', q)
            if len(v) > 2:
                try:
                    tot += min(10 ** 7, abs(int(float(v[2])))) * 10
                except ValueError:
                    pass
        cells = 1
        for x in dims:
            cells *= x + 2 * max(layers, 4) + 12
    return (cells * 40 + tot * 4) * (nt + 40) * 6 + 20000000, cells, nt


def judge(c, ctx):
    w = c['w']
    if not any(p.endswith('.mesh') for p in w['files']):
        return None
    if c['kind'] == 'steps':
        return scaling(c, ctx)
    if c['kind'] == 'sizes':
        return judge_sizes(c, ctx)
    if c['kind'] == 'damaged':
        bound, cells, nt = size_bound(w)
        if bound > 3e9 or cells > 200000:
            ctx.probe('damaged models of huge size skipped')
            return None
    else:
        base = ctx.R(big(w))
        if c['kind'] == 'plain':
            bad = ended_badly(base.p)
            if bad:
                return ('ends-badly', bad)
            if good(base) and base.p.openLeft and not any(o in w['procs'][0]['argv'] for o in (['-m'] if w['prog'] != 'gvulture' else [])):
                return ('left-open', '%d files are open at a normal end' % base.p.openLeft)
            bound, cells, nt = size_bound(w)
            if w['prog'] != 'omp' and base.p.edges > bound:
                return ('work', '%d edges for about %d cells and %d steps' % (base.p.edges, cells, nt))
            return None
        if base.p.kind != 'exit':
            return None
        bound = base.p.edges * 20 + 20000000
    r = ctx.R(dict(w, set=dict(w['set'], fuel=bound)))
    if r.p.kind == 'fuel':
        return ('does-not-end', 'more than %d edges executed' % bound)
    bad = ended_badly(r.p)
    if bad:
        return ('ends-badly', bad)
    bad = memory_fault(r)
    if bad:
        return ('memory', bad)
    if r.p.kind == 'exit' and r.p.code == 0 and r.p.openLeft and not (w['prog'] != 'gvulture' and '-m' in w['procs'][0]['argv']):
        return ('left-open', '%d files are open at a normal end' % r.p.openLeft)
    ctx.probe('%s runs judged' % c['kind'])
    return None


def scaling(c, ctx):
    w, n = c['w'], c['n']
    rs = []
    for k in (1, 2, 4):
        v = steps_of(w, n * k)
        if v is None:
            return None
        r = ctx.R(big(v))
        if not good(r):
            return ('ends-badly', 'with %d steps: %s' % (n * k, r.p.ended)) if ended_badly(r.p) else None
        rs.append(r)
    for name, kind, of, slack in (('work', 'edges', lambda r: r.p.edges, 3000), ('bytes', 'bytes moved or searched', lambda r: r.p.work, 30000)):
        v = [of(r) for r in rs]
        # clock-driven progress lines and branches on values vary a little; what changes only once, such as
        # fields that overflow at some step, is told from growth by going on doubling
        k = 4
        while v[-1] - v[-2] > 2.25 * (v[-2] - v[-3]) + slack:
            if len(v) == 6:
                return (name + '-not-linear', '%s for %s times %d steps: %s' % (kind, '1, 2, 4, 8, 16, 32', n, ', '.join(map(str, v))))
            k *= 2
            r = ctx.R(big(steps_of(w, n * k)))
            if not good(r):
                break
            v.append(of(r))
    a, b, d = [r.p.peakBytes for r in rs]
    if d - a > 64 or d - b > 64:
        return ('memory-grows', 'largest memory in use for %d, %d and %d steps: %d, %d, %d bytes' % (n, 2 * n, 4 * n, a, b, d))
    a, b, d = [r.p.liveBytes for r in rs]
    if d - a > 64 or d - b > 64:
        return ('memory-grows', 'memory in use at the end of %d, %d and %d steps: %d, %d, %d bytes' % (n, 2 * n, 4 * n, a, b, d))
    o = [sum(1 for e in r.events if e[0] == 1) for r in rs if r.evtotal <= len(r.events)]
    if len(o) > 1 and o[-1] > o[0] + 2:
        return ('opens-grow', 'files opened: %s for %d, %d, %d steps' % (o, n, 2 * n, 4 * n))
    most = []
    for r in rs:
        if r.evtotal <= len(r.events):
            cur = top = 0
            for e in r.events:
                if e[0] == 1 and e[3] >= 0:
                    cur += 1
                elif e[0] == 4:
                    cur -= 1
                top = max(top, cur)
            most.append(top)
    if len(most) > 1 and most[-1] > most[0]:
        return ('open-files-grow', 'files open at once: %s for %d, %d, %d steps' % (most, n, 2 * n, 4 * n))
    if any(r.p.openLeft for r in rs) and not (w['prog'] != 'gvulture' and '-m' in w['procs'][0]['argv']):
        return ('left-open', '%s files are open at a normal end' % [r.p.openLeft for r in rs])
    ctx.probe('step scalings judged')
    return None
