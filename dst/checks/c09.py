"""C09: every output step is recorded once, in order, and all records agree."""
import math, re, struct
from .. import gen, mesh
from ..oracle import *
from . import c02

PROGS = ['vulture', 'scaled', 'indexed', 'omp']
LEVEL = 'exploration'
PLAN = {'quick': dict(cases=8000, wall=300), 'thorough': dict(cases=120000, wall=2400)}
RULE = ('A case is a random model with several observers of one node in different forms, boxes with strides, and output windows inside, at and beyond the ends of '
        'the run; a second run of the model with one observer of the whole mesh and no window is the reference for the fields. The run completes, or the process '
        'dies at a chosen instruction or file operation, or the disk is full, with random buffering; threads in some. '
        'Non-trivial: the run was cut or buffered differently; distinct by trace and files.')
ASSUMPTIONS = ['Sums of the discrete Fourier transforms are compared within the rounding of single precision.',
               'Fields start at zero; the record of a step holds the fields before the update of that step.']
C0 = 299792458.0


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def claims(idx, rnd, ctx, tier):
    prog = ('vulture', 'vulture', 'scaled', 'vulture', 'indexed', 'vulture', 'omp', 'vulture')[idx % 8]
    long = prog != 'omp' and idx % 23 == 11                        # runs of many steps, of a tiny model
    vast = prog != 'omp' and idx % 500 == 263                      # beyond 16 bits
    if vast:
        long = True
        m, f = c02.base_files(rnd, small=True, maxdim=1, mindim=1, stretch=0, corpus=0, feat=dict(full=False, ff=False, of=True, ext=False), nt=rnd.randint(65530, 66500))
    elif long:
        m, f = c02.base_files(rnd, small=True, maxdim=2, stretch=0, corpus=0, feat=dict(full=False, ff=False), nt=rnd.choice([101, 128, 256, 257, 300, 500, 600, 1000, 1001, 1024, 1100]))
    else:
        m, f = c02.base_files(rnd, small=rnd.random() < .8, maxdim=rnd.choice([3, 5, 7]), feat=dict(full=False, ff=False), nt=rnd.choice([1, 2, 3, 5, 9, 11, 14, 20, 25, 40]))
    if '/w/model.mesh' not in f:
        yield None
        return
    t = f['/w/model.mesh'].decode('latin-1')
    nt = m['nt']
    dims = m['dims']
    wfs = re.findall(r'(?m)^\s*WF (\S+)', t)
    ops = []
    nodes = [[rnd.randint(0, d) for d in dims] for _ in range(rnd.randint(1, 2))]
    for k, n in enumerate(nodes):
        b = '%d %d %d %d %d %d' % (n[0], n[0], n[1], n[1], n[2], n[2])
        for j in range(rnd.randint(1, 3)):
            kind = rnd.choice(['TDOM_ASCII', 'FDOM_ASCII', 'TDOM_BINARY', 'TDOM_ASCII'])
            x = ''
            if kind == 'FDOM_ASCII' and rnd.random() < .6:
                x = ' ' + rnd.choice(wfs)
            elif kind == 'TDOM_BINARY' and rnd.random() < .8:
                x = ' %d %d %d' % tuple(rnd.randint(1, 9) for _ in range(3))
            ops.append('OP %s same%d%s %s%s' % (b, k, 'abc'[j], kind, x))
    if rnd.random() < .4:
        g = gen.Gen(rnd)
        ops.append('OP %d %d %d %d %d %d stride TDOM_BINARY %d %d %d' % (*g.box(dims, 'vol'), *[rnd.randint(1, 4) for _ in range(3)]))
    rnd.shuffle(ops)
    t = re.sub(r'(?m)^(\s*GE\b)', lambda q: '\n'.join(ops) + '\n' + q.group(1), t, count=1)
    if rnd.random() < .5:
        a = rnd.randint(0, nt - 1)
        b = rnd.choice([a, nt - 1, nt, nt + rnd.randint(0, 50), rnd.randint(a, nt + 3)])
        t = re.sub(r'(?m)^\s*OT .*\n', '', t)
        t = re.sub(r'(?m)^(\s*NT \d+.*\n)', lambda q: q.group(1) + 'OT %d %d\n' % (a, b), t, count=1)
    if rnd.random() < .3:
        t = re.sub(r'(?m)^\s*OF .*\n', rnd.choice(['' if not vast else 'OF 1e9 2e9 2\n', 'OF 1e8 1e8 1\n', 'OF 0 2e9 3\n']), t)
    f['/w/model.mesh'] = t.encode('latin-1')
    st = dict(io_knobs(rnd), seed=rnd.randrange(1 << 30))
    opts = rnd.choice([[], [], ['-v'], ['-g']])
    if prog == 'omp':
        T = rnd.randint(1, 4)
        opts = ['-n', str(T)]
        st.update(teamMax=T, schedInterval=rnd.choice([100, 2000]), hotProb=rnd.choice([0, 50]))
    if vast:
        opts = []
        st.update(bufSize=rnd.choice([1000, 4096]))
    w = mk(prog, f, opts, **st)
    base = ctx.R(dict(quiet(w), set=dict(quiet(w)['set'], teamMax=1)))
    if not good(base):
        yield None
        return
    yield dict(w=w, kind='whole')
    if idx % 6 == 0:
        yield dict(w=dict(w, procs=[dict(w['procs'][0], argv=[w['procs'][0]['argv'][0], '-p'] + w['procs'][0]['argv'][1:])]), kind='prepare')
    if nt > 1 and idx % 2 == 0:
        yield dict(w=w, kind='shorter', nt=rnd.randint(1, nt - 1))
    if prog == 'omp':
        return
    E = base.p.edges
    n = 6 if tier == 'quick' else 24
    if long:
        n = 3 if not vast else 1
    for _ in range(n):
        w2 = dict(w, set=dict(w['set'], bufSize=rnd.choice([1, 1, 7, 64, 1000, 4096] if not vast else [1000, 4096])))
        k = rnd.random()
        if k < .6:
            fl = [dict(op='edge', nth=rnd.randrange(E), action='crash')]
        elif k < .85:
            s = [x for x in outfaults(base, w, rnd) if x[1] == 'write' and not is_log(x[0])]
            if not s:
                continue
            p, op, q, tot = rnd.choice(s)
            fl = [dict(op='write', path=p, nth=q, action=rnd.choice(['crash', 'crashafter', 'torncrash']), arg=rnd.choice([1, 3, 20, 200]))]
        else:
            fl = []
            w2['set']['diskCap'] = sum(len(d) for d in f.values()) + rnd.randrange(max(1, sum(len(d) for d in base.written().values())))
        yield dict(w=dict(w2, faults=fl), kind='cut')


def reference(w, nt=None):
    """The model with every node observed at every step and nothing else."""
    p = [x for x in w['files'] if x.endswith('.mesh')][0]
    t = w['files'][p]
    t = t.decode('latin-1') if isinstance(t, bytes) else t
    d = mesh.parse(t).dm
    vast = int((re.findall(r'(?m)^\s*NT (\d+)', t) or ['0'])[0]) > 5000      # without OF the number of frequencies grows with the steps
    t = re.sub(r'(?m)^\s*(OP|OT%s) .*\n' % ('' if vast else '|OF'), '', t)
    t = re.sub(r'(?m)^(\s*GE\b)', lambda q: 'OP 0 %d 0 %d 0 %d everything TDOM_BINARY 1 1 1\n' % tuple(d) + q.group(1), t, count=1)
    if nt:
        t = re.sub(r'(?m)^\s*NT \d+', 'NT %d' % nt, t)
    r = quiet(w)
    r['set']['teamMax'] = 1
    r['files'] = dict(w['files'], **{p: t.encode('latin-1')})
    r['procs'] = [dict(w['procs'][0], argv=['vulture', p.rsplit('/', 1)[1]])]
    return r


class Fields:
    """Fields at every node and step, out of impulse.dat of the reference run."""
    def __init__(self, data, dims, nt):
        self.n, self.dt = struct.unpack_from('<if', data)
        self.dims, self.data = dims, data
        nn = (dims[0] + 1) * (dims[1] + 1) * (dims[2] + 1)
        self.block = 36 * nn
        self.ok = self.n == nt and len(data) == 8 + self.block * nt

    def at(self, step, i, j, k):
        d = self.dims
        o = 8 + step * self.block + 36 * ((k * (d[1] + 1) + j) * (d[0] + 1) + i)
        v = struct.unpack_from('<iii', self.data, o)
        assert v == (i, j, k)
        return struct.unpack_from('<6f', self.data, o + 12)

    def raw(self, step, i, j, k):
        d = self.dims
        o = 8 + step * self.block + 36 * ((k * (d[1] + 1) + j) * (d[0] + 1) + i)
        return self.data[o:o + 36]


def num(s):
    try:
        return float(s)
    except ValueError:
        return None


def same(a, b):
    """Texts or numbers of one value; nan equals nan."""
    return a == b or (a != a and b != b)


def coord(m, a, n):
    if m.lines.get(a):
        return m.lines[a][n]
    return n * m.ms[a]


def time_step(m):
    s = 0.0
    for a in range(3):
        if m.lines.get(a):
            l = m.lines[a]
            d = min(l[i + 1] - l[i] for i in range(len(l) - 1))
        else:
            d = m.ms[a]
        s += 1.0 / d ** 2
    cn = math.sqrt(3.0) / 2
    for n, c, a in m.cards:
        if c == 'CN':
            cn = float(a.split()[0])
    return cn / C0 / math.sqrt(s)


def lines_of(d, cut):
    """Complete lines, and whether text follows the last of them."""
    l = d.split(b'\n')
    return l[:-1], bool(l[-1])


def near(a, b, rel):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-300


def judge(c, ctx):
    try:
        return judge_(c, ctx)
    except (AssertionError, struct.error, IndexError, ValueError) as e:
        return ('unreadable', 'a result file cannot be read as the manual describes it: %s %s' % (type(e).__name__, str(e)[:150]))


def judge_(c, ctx):
    w = c['w']
    if 'nt' in c:
        w0 = w
        p = [x for x in w['files'] if x.endswith('.mesh')][0]
        full = mesh.parse(w['files'][p]).nt
        if c['nt'] >= full:
            return None
    mp = [x for x in w['files'] if x.endswith('.mesh')]
    if not mp:
        return None
    try:
        m = mesh.parse(w['files'][mp[0]])
        if not m.nt or not m.wf or not m.dm or not m.op or any(len(m.lines[a]) != m.dm[a] + 1 for a in m.lines) or (len(m.lines) < 3 and not m.ms):
            return None
        len({o['name'] for o in m.op}) == len(m.op) or 1 / 0
    except Exception:
        return None
    base = ctx.R(dict(quiet(w), set=dict(quiet(w)['set'], teamMax=1)))
    ref = ctx.R(reference(w))
    if not good(base) or not good(ref):
        return None
    imp = ref.file('/w/impulse.dat')
    F = Fields(imp, m.dm, m.nt)
    if not F.ok:
        return ('reference', 'impulse.dat of a run observing everything: header says %d steps, %d bytes; asked for %d steps of %d bytes' % (F.n, len(imp), m.nt, F.block))
    if c['kind'] == 'shorter':
        r2 = ctx.R(reference(w, c['nt']))
        if not good(r2):
            return ('shorter', 'the model with NT %d ends with %s' % (c['nt'], r2.p.ended))
        d2 = r2.file('/w/impulse.dat')
        if d2[4:] != imp[4:8 + F.block * c['nt']]:
            return ('shorter', 'the first %d steps of a run of %d steps and a run of %d steps differ' % (c['nt'], m.nt, c['nt']))
        if ref.file('/w/excite.dat')[:len(r2.file('/w/excite.dat'))] != r2.file('/w/excite.dat'):
            return ('shorter', 'excite.dat of a run of %d steps is no prefix of that of %d steps' % (c['nt'], m.nt))
        ctx.probe('shorter runs judged')
        return None
    s = dict(w['set'], fuel=base.p.edges * (40 if w['prog'].startswith('omp') else 20) + 100000000)
    r = ctx.R(dict(w, set=s))
    bad = ended_badly(r.p)
    if bad:
        return ('ends-badly', bad)
    whole = c['kind'] == 'whole'
    if whole and not good(r):
        return ('status', 'ends with %s' % r.p.ended)
    steps = 0 if c['kind'] == 'prepare' else m.nt
    if not whole:
        ctx.probe('cut runs judged')
    return check(ctx, w, m, F, ref, r, steps, cut=c['kind'] == 'cut')


def check(ctx, w, m, F, ref, r, nt, cut):
    a, b = m.ot if m.ot else (0, m.nt - 1)
    b = min(b, m.nt - 1)
    dt = F.dt
    if not near(dt, time_step(m), 1e-5):
        return ('time-step', 'the time step is %g, the mesh and the Courant number give %g' % (dt, time_step(m)))
    v0 = [v for n in ((0, 0, 0), tuple(m.dm), tuple(x // 2 for x in m.dm)) for v in F.at(0, *n)]
    if any(v0):
        return ('start', 'fields are not zero at step 0: %r' % v0[:6])
    wfs = [x['name'] for x in m.wf]
    now = {p: r.inodes[i]['data'] for p, i in r.names.items() if not p.startswith('<') and not r.inodes[i]['isdir']}
    progress = {}                        # file -> last complete step
    # waveform values: the reference run writes those of the first waveform and of all of them
    series = {}
    for n, name in enumerate(wfs):
        l, _ = lines_of(ref.file('/w/wf_%s_td.asc' % name), False)
        v = [x.split() for x in l if not x.startswith(b'#')]
        if [int(x[0]) for x in v] != list(range(m.nt)):
            return ('steps', 'wf_%s_td.asc holds steps %s of %d' % (name, [x[0].decode() for x in v][:40], m.nt))
        series[name] = [x[2] for x in v]

    def asc(path, rows, head):
        """rows: expected [(step, time, texts)]; the file holds them in order up to a cut."""
        d = now.get('/w/' + path)
        if d is None:
            return None if cut else ('missing', '%s is missing' % path)
        L, part = lines_of(d, cut)
        h = [x for x in L if x.startswith(b'#')]
        if L[:len(h)] != h:
            return ('header', '%s has header lines between its records' % path)
        x = head(h)
        if x and not (cut and len(h) < 2):
            return ('header', '%s: %s (%r)' % (path, x, h))
        if part and not cut:
            return ('incomplete', '%s ends inside a line' % path)
        R = L[len(h):]
        if len(R) > len(rows):
            return ('extra', '%s holds %d records, %d steps were to be recorded' % (path, len(R), len(rows)))
        if len(R) < len(rows) and not cut:
            return ('records', '%s holds %d records of %d' % (path, len(R), len(rows)))
        for got, (n, t, vals) in zip(R, rows):
            g = got.split()
            if len(g) != 2 + len(vals) or not g[0].isdigit():
                return ('record', '%s: malformed record %r' % (path, got))
            if int(g[0]) != n:
                return ('step-number', '%s: step %s where step %d belongs' % (path, g[0].decode(), n))
            if not near(float(g[1]), t, 2e-6):
                return ('time', '%s: step %d is at %s, not %.8e' % (path, n, g[1].decode(), t))
            for x, y in zip(g[2:], vals):
                if not same(float(x), float(y)):
                    return ('value', '%s: step %d: recorded %s, the field there is %s' % (path, n, [q.decode() for q in g[2:]], [q.decode() if isinstance(q, bytes) else q for q in vals]))
        if part and len(h) < 2:
            pass
        elif part and len(R) < len(rows):
            n, t, vals = rows[len(R)]
            want = b'%8d ' % n
            tail = d[d.rfind(b'\n') + 1:]
            k = min(len(want), len(tail))
            if tail[:k] != want[:k]:
                return ('torn', '%s: the record being written is %r, step %d comes next' % (path, tail, n))
        elif part:
            return ('extra', '%s: text after the last record' % path)
        progress[path] = R and rows[len(R) - 1][0] if R else -1
        return None

    rng = range(a, b + 1) if nt else range(0)
    for n, name in enumerate(wfs):
        def head(h, n=n):
            if len(h) != 2:
                return '%d header lines' % len(h)
            q = re.match(rb'# Waveform# (\d+)$', h[0])
            if not q or int(q.group(1)) != n:
                return 'does not announce waveform %d' % n
        v = asc('wf_%s_td.asc' % name, [(k, k * dt, [series[name][k]]) for k in range(nt)], head)
        if v:
            return v
    d = now.get('/w/excite.dat')
    bins = [o for o in m.op if o['type'] == 'TDOM_BINARY']
    if bins and (d is not None or not cut):
        if d is None:
            return ('missing', 'excite.dat is missing')
        L, part = lines_of(d, cut)
        if part and not cut:
            return ('incomplete', 'excite.dat ends inside a line')
        R = L[1:]
        if len(R) > nt or (len(R) < nt and not cut):
            return ('records', 'excite.dat holds %d values, %d steps were performed' % (len(R), nt))
        for k, x in enumerate(R):
            if not same(num(x), num(series[wfs[0]][k])):
                return ('value', 'excite.dat: value %d is %r, waveform %s has %r' % (k, x, wfs[0], series[wfs[0]][k]))
        progress['excite.dat'] = len(R) - 1
    for o in m.op:
        x, y, z = o['box'][0], o['box'][2], o['box'][4]
        if o['type'] == 'TDOM_ASCII':
            def head(h):
                if len(h) != 2:
                    return '%d header lines' % len(h)
                return place(h[0], m, x, y, z)
            rows = [(n, n * dt, list(F.at(n, x, y, z))) for n in rng]
            rows = [(n, t, [float('%.8e' % q) for q in v]) for n, t, v in rows]
            v = asc('eh_%s_td.asc' % o['name'], rows, head)
            if v:
                return v
    if bins:
        v = impulse(now.get('/w/impulse.dat'), m, F, bins, rng, b - a + 1, cut, progress)
        if v:
            return v
        v = process(now.get('/w/process.dat'), m, bins, a, b, dt, cut)
        if v:
            return v
    if cut:
        if w['set'].get('bufSize') == 1 and not w['set'].get('diskCap') and r.p.kind == 'crashed':
            # nothing is held back: the files are within one step of each other
            win = {p: n for p, n in progress.items()}
            lo = min([n for p, n in win.items() if p.startswith('wf_') or p == 'excite.dat'] or [-1])
            hi = max([n for p, n in win.items()] or [-1])
            if lo >= 0 and hi - lo > 2:             # a line is counted when its last byte, which stdio holds back, is there
                return ('progress', 'unbuffered output, yet the files have reached different steps: %s' % win)
            ctx.probe('unbuffered crashes compared')
        return None
    if nt:
        return fdom(now, m, F, series, wfs, dt, a, b)
    return None


def place(h, m, x, y, z):
    q = re.match(rb'# \((-?\d+),(-?\d+),(-?\d+)\)->\(([^,]+),([^,]+),([^,)]+)\)$', h)
    if not q:
        return 'does not announce a position'
    if tuple(int(v) for v in q.groups()[:3]) != (x, y, z):
        return 'does not announce node (%d,%d,%d)' % (x, y, z)
    for a, (v, n) in enumerate(zip(q.groups()[3:], (x, y, z))):
        t = coord(m, a, n)
        if abs(float(v) - t) > 2e-5 * abs(t) + 1e-9:
            return 'announces the wrong place, not %g' % t
    return None


def impulse(d, m, F, bins, rng, count, cut, progress):
    if d is None:
        return None if cut else ('missing', 'impulse.dat is missing')
    if len(d) < 8:
        return None if cut else ('incomplete', 'impulse.dat has no header')
    n, dt = struct.unpack_from('<if', d)
    if n != count:
        return ('header', 'impulse.dat announces %d steps, %d are to be recorded' % (n, count))
    if dt != F.dt:
        return ('header', 'impulse.dat announces time step %g, not %g' % (dt, F.dt))
    out = [d[:8]]
    for s in rng:
        for o in bins:
            bx, st = o['box'], o['step']
            for k in range(bx[4], bx[5] + 1, st[2]):
                for j in range(bx[2], bx[3] + 1, st[1]):
                    for i in range(bx[0], bx[1] + 1, st[0]):
                        out.append(F.raw(s, i, j, k))
    want = b''.join(out)
    if d == want or (cut and want.startswith(d)):
        per = (len(want) - 8) // max(1, len(rng)) if len(rng) else 1
        progress['impulse.dat'] = rng[0] + (len(d) - 8) // per - 1 if len(rng) and per and len(d) - 8 >= per else -1
        return None
    k = next((i for i in range(min(len(d), len(want))) if d[i] != want[i]), min(len(d), len(want)))
    e = (k - 8) // 36
    if len(d) != len(want) and not cut:
        return ('records', 'impulse.dat has %d records of %d; first difference in record %d' % ((len(d) - 8) // 36, (len(want) - 8) // 36, e))
    g = struct.unpack('<3i6f', (d[8 + 36 * e:44 + 36 * e] + bytes(36))[:36])
    x = struct.unpack('<3i6f', (want[8 + 36 * e:44 + 36 * e] + bytes(36))[:36])
    return ('value', 'impulse.dat: record %d is %r, the field there is %r' % (e, g, x))


def process(d, m, bins, a, b, dt, cut):
    if d is None or (cut and not d.endswith(b'\n')):
        return None if cut else ('missing', 'process.dat is missing')
    L = d.split(b'\n')[:-1]
    n = len(bins)
    if len(L) != 6 + n:
        return None if cut else ('header', 'process.dat has %d lines for %d observers' % (len(L), n))
    if L[0][:3] != b'CE ' or not m.ce.encode('latin-1').startswith(L[0][3:].strip()):
        return ('header', 'process.dat: comment %r, the mesh has %r' % (L[0], m.ce))
    if L[1].strip() != b'%d' % n:
        return ('header', 'process.dat announces %r observers of %d' % (L[1], n))
    for o, l in zip(bins, L[2:2 + n]):
        bx, st = o['box'], o['step']
        want = [bx[0], bx[1], st[0], bx[2], bx[3], st[1], bx[4], bx[5], st[2]]
        if [int(x) for x in l.split()] != want:
            return ('header', 'process.dat: observer %s is %r, not %r' % (o['name'], l, want))
    if [int(x) for x in L[2 + n].split()] != [a + 1, b + 1]:
        return ('header', 'process.dat announces steps %r, not %d to %d' % (L[2 + n], a + 1, b + 1))
    q = [float(x) for x in L[3 + n].split()]
    df = 1.0 / (m.nt * dt)
    if len(q) != 3 or q[0] != 0 or not near(q[1], df * m.nt, 1e-4) or not near(q[2], df, 1e-4):
        return ('header', 'process.dat announces frequencies %r, not step %g' % (L[3 + n], df))
    if L[4 + n].split() == [] or not near(float(L[4 + n]), 2 * C0 * dt, 1e-5):
        return ('header', 'process.dat announces mesh size %r of time step %g' % (L[4 + n], dt))
    if [int(x) for x in L[5 + n].split()] != bins[0]['box'] + [1]:
        return ('header', 'process.dat: box %r' % L[5 + n])
    return None


def fdom(now, m, F, series, wfs, dt, a, b):
    N = m.nt
    if m.of:
        f0, f1, nf = m.of
        df = (f1 - f0) / (nf - 1) if nf > 1 else 0.0
    else:
        f0, nf = 0.0, max(N // 10, 1)
        df = 1.0 / (N * dt)
    ws = {}

    def dft(vals, first):
        """[(re, im, scale)] per frequency."""
        out = []
        for q in range(nf):
            om = 2 * math.pi * (f0 + q * df)
            re_ = im = sc = 0.0
            for n, v in enumerate(vals):
                t = (first + n) * dt
                re_ += v * math.cos(om * t)
                im -= v * math.sin(om * t)
                sc += abs(v)
            tol = (6e-8 * (4 * om * (first + len(vals)) * dt + 3 * len(vals)) + 1e-6) * sc + 1e-37
            out.append((re_, im, tol))
        return out

    def rows(path, ncol, n):
        d = now.get('/w/' + path)
        if d is None:
            return ('missing', '%s is missing' % path), None, None
        if not d.endswith(b'\n'):
            return ('incomplete', '%s ends inside a line' % path), None, None
        L = d.split(b'\n')[:-1]
        h = [x for x in L if x.startswith(b'#')]
        R = [x.split() for x in L[len(h):]]
        if len(h) != 2 or len(R) != n:
            return ('records', '%s holds %d frequencies of %d' % (path, len(R), n)), None, None
        for q, x in enumerate(R):
            if len(x) != ncol:
                return ('record', '%s: malformed record %r' % (path, b' '.join(x))), None, None
            f = f0 + q * df
            if abs(float(x[0]) - f) > 3e-6 * (abs(f0) + abs(f)) + 1e-12:
                return ('frequency', '%s: frequency %s where %g belongs' % (path, x[0].decode(), f)), None, None
        return None, h, [[float(y) for y in x[1:]] for x in R]

    for name in wfs:
        e, h, R = rows('wf_%s_fd.asc' % name, 3, nf)
        if e:
            return e
        ws[name] = dft([float(x) for x in series[name]], 0)
        for q, (x, (re_, im, tol)) in enumerate(zip(R, ws[name])):
            if abs(x[0] - re_) > tol or abs(x[1] - im) > tol:
                return ('transform', 'wf_%s_fd.asc: frequency %d: %g %g, the transform of the time series is %g %g' % (name, q, x[0], x[1], re_, im))
    for o in m.op:
        if o['type'] != 'FDOM_ASCII':
            continue
        p = 'eh_%s_fd.asc' % o['name']
        e, h, R = rows(p, 13, nf)
        if e:
            return e
        x, y, z = o['box'][0], o['box'][2], o['box'][4]
        e = place(h[0], m, x, y, z)
        if e:
            return ('header', '%s: %s (%r)' % (p, e, h[0]))
        v = [F.at(n, x, y, z) for n in range(a, b + 1)]
        W = ws.get(o['wf'] or wfs[0])
        if W is None:
            continue
        for comp in range(6):
            D = dft([q[comp] for q in v], a)
            for q in range(nf):
                (cr, ci, ct), (wr, wi, wt) = D[q], W[q]
                den = wr * wr + wi * wi
                aw = math.sqrt(den)
                gr, gi = R[q][2 * comp], R[q][2 * comp + 1]
                if not aw > 20 * wt or not den > 1e-30 or not all(map(math.isfinite, (gr, gi))):
                    continue                     # normalised by next to nothing
                er, ei = (cr * wr + ci * wi) / den, (ci * wr - cr * wi) / den
                tol = 3 * (ct / aw + math.hypot(cr, ci) * wt / den) + 2e-6 * math.hypot(er, ei)
                if math.hypot(cr, ci) * aw < 1e-30:
                    continue                     # below the range of single precision
                if abs(gr - er) > tol or abs(gi - ei) > tol:
                    return ('transform', '%s: frequency %d component %d: %g %g, the transform of the series is %g %g (tolerance %g)' % (p, q, comp, gr, gi, er, ei, tol))
    return None
