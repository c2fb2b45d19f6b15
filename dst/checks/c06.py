"""C06: the clock steers nothing but the progress report, which stays sane."""
import os, re, time
from .. import gen, mesh
from ..oracle import *
from . import c02

PROGS = ['vulture', 'scaled']
LEVEL = 'exploration'
PLAN = {'quick': dict(cases=2500, wall=240), 'thorough': dict(cases=20000, wall=2400)}
RULE = ('A case is a random small model with 1 to 20001 steps; the simulated clock runs at a steady pace from a thousandth of a second to days per step, or '
        'stands still, or changes speed and jumps forward and backward at random moments, from different dates (1970, the 2038 limit) and zones, also where clocks are put forward or back. '
        'Non-trivial: the clock moved; distinct by trace.')
ASSUMPTIONS = ['The clock has the resolution of a second, so a steady pace is known to the program only within one second per ten.']

LINE = re.compile(rb'\n  (\S+) spi, (\d+)/(\d+) iterations, Est\. end: ([^\n]*)\n')
START = re.compile(rb'\n  (\d+) Iterations - Start time: ([^\n]*)\n')
END = re.compile(rb'\n  (\d+)/(\d+) Iterations - Completed: ([^\n]*)\n')
AVG = re.compile(rb'\n  Average spi (\S+), average spi/cell (\S+) ns\n')


def claims(idx, rnd, ctx, tier):
    nt = rnd.choice([1, 2, 10, 11, 12, 30, 60, 100, 200, 400, 800, 1500])
    long = idx % 50 == 49
    if long:
        nt = rnd.choice([2000, 4097, 5001, 10001, 12000, 20001])
    m, f = c02.base_files(rnd, small=True, maxdim=1 if long else 3, mindim=1 if long else 2, stretch=0 if long else .08, nt=nt, feat=dict(full=False, binary=rnd.random() < .15, ot=False, fdom=rnd.random() < .2, ext=False))
    mf = f['/w/model.mesh']
    f['/w/model.mesh'] = re.sub(rb'(?m)^(\s*)NT \d+', rb'\1NT %d' % nt, mf)
    prog = 'scaled' if idx % 9 == 8 else 'vulture'
    w = mk(prog, f, rnd.choice([[], [], [], ['-v']]))
    base = ctx.R(quiet(w))
    if base.p.kind in ('hung', 'fuel'):      # without a clock that moves it does not end: does it with one?
        yield dict(w=dict(w, set=dict(w['set'], clockRate=1000.0)), kind='moving')
        return
    if not good(base):
        yield None
        return
    E = base.p.edges
    per = max(1.0, E / (nt + 5.0))
    n = 8 if tier == 'quick' else 24
    if long:
        n = 3
    for k in range(n):
        s = dict(w['set'], seed=1)
        p = 10 ** rnd.uniform(-3, 5.3)
        if k % 4 == 0:
            p = rnd.choice([.1, .3, 1, 2, 3, 5, 7, 9, 10, 11, 12.5, 25, 60])
        s['clockRate'] = p * 1e6 / per
        s['clockBase'] = rnd.choice([1700000000.0, 1700000000.5, 0.0, 86399.0, 2147483647.0 - rnd.choice([5, 100, 10000]), 4e9])
        s['tzMode'] = rnd.choice([0, 0, 0, 1, 2, 3])
        if s['tzMode'] > 1:                          # not long before the clocks are put forward or back
            s['clockBase'] = rnd.choice([1699164000.0, 1678604400.0, 1696087800.0, 1680361200.0]) - rnd.choice([1, 100, 2000, 3600, 7000])
        clock = []
        kind = 'steady'
        if rnd.random() < .55:
            kind = 'jumpy'
            for _ in range(rnd.randint(1, 8)):
                e = rnd.randrange(E)
                if rnd.random() < .5:
                    clock.append([e, 'jump', rnd.choice([-1, 1]) * 10 ** rnd.uniform(-1, 6)])
                else:
                    clock.append([e, 'rate', rnd.choice([0.0, s['clockRate'] * 10 ** rnd.uniform(-3, 3)])])
            clock.sort(key=lambda c: c[0])
        if long and k == 0:                      # far too fast for a progress line, but not for other signs of time
            kind, clock = 'steady', []
            s['clockRate'] = rnd.choice([1e-5, .5, 3, 9.9]) / E * 1e6
        yield dict(w=dict(w, set=s, clock=clock), kind=kind)
    yield dict(w=dict(w, set=dict(w['set'], clockRate=0.0, clockBase=rnd.choice([0.0, 1e9]))), kind='stopped')


ZONES = ['UTC0', 'NZST-12', 'EST5EDT,M3.2.0,M11.1.0', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0']     # as in sim/host.c


def zone(tz):
    if os.environ.get('TZ') != ZONES[tz]:
        os.environ['TZ'] = ZONES[tz]
        time.tzset()


def stamp(t, tz):
    zone(tz)
    return time.asctime(time.localtime(t)).encode()


def unstamp(b, tz, near):
    """The moment a text means; where the clocks are put back, the nearer one of two."""
    zone(tz)
    l = list(time.strptime(b.decode('latin-1'), '%a %b %d %H:%M:%S %Y'))
    c = []
    for dst in (0, 1):
        try:
            t = time.mktime(tuple(l[:8] + [dst]))
        except OverflowError:
            continue
        if stamp(t, tz) == b:
            c.append(t)
    if not c:
        raise ValueError
    return min(c, key=lambda t: abs(t - near))


def judge(c, ctx):
    w = c['w']
    base = ctx.R(quiet(w))
    if c['kind'] == 'moving':
        if base.p.kind in ('hung', 'fuel') and good(ctx.R(dict(quiet(w), set=dict(w['set'], fuel=FUEL0 // 4)))):
            return ('status', 'with the clock stopped the run does not end; it ends with success when the clock moves')
        return None
    if not good(base):
        return None
    r = ctx.R(bounded(w, base))
    q = r.p
    bad = ended_badly(q)
    if bad:
        return ('ends-badly', bad)
    if q.ended != base.p.ended:
        return ('status', 'exit status %s, with the clock stopped %s' % (q.ended, base.p.ended))
    d = diff(results(base), results(r), 'the run with the clock stopped')
    if d:
        return ('clock-changes-results', d)
    cwd = w['procs'][0]['cwd']
    lp = cwd + '/vulture.log'
    log = r.file(lp)
    if log is None or r.evtotal > len(r.events):
        return None
    mt = [p for p in w['files'] if p.endswith('.mesh')][0]
    nt = mesh.parse(w['files'][mt]).nt
    tz = w['set'].get('tzMode', 0)
    # what the clock showed when each byte of the log was written
    ino = r.names[lp]
    last = []                            # the latest readings since the previous message, newest first
    shown = []
    edges = []                           # when the clock was read
    for typ, proc, i, res, a, e in r.events:
        if typ == 10 and res == 0:
            last = ([a] + last)[:3]
            edges.append(e)
        elif typ == 3 and i == ino and res > 0:
            shown.append((a, last))
            last = last[:1]
    def readings(off):
        v = []
        for a, t in shown:
            if a > off:
                break
            v = t
        return v
    def at(off):
        return (readings(off) or [None])[0]
    def read_as(off, text):
        """The reading that the message reports, if it is one of them; else the newest."""
        l = readings(off)
        return next((t for t in l if 0 <= t < 2.4e11 and stamp(t, tz) == text), l[0] if l else None)
    if not shown:
        return None
    ms, me, ma = START.search(log), END.search(log), AVG.search(log)
    if not ms or not me:
        return ('no-report', 'the log does not report the start and the end of time stepping')
    t0, t1 = read_as(ms.start(), ms.group(2)), read_as(me.start(), me.group(3))
    if t0 is None or t1 is None or not (0 <= min(t0, t1) and max(t0, t1) < 2.4e11):
        return None
    if int(ms.group(1)) != nt:
        return ('steps', 'the log announces %s steps, the model asks for %d' % (ms.group(1).decode(), nt))
    if int(me.group(1)) != nt or int(me.group(2)) != nt:
        return ('steps', 'the log reports %s/%s steps completed of %d' % (me.group(1).decode(), me.group(2).decode(), nt))
    if ms.group(2) != stamp(t0, tz):
        return ('start-time', 'reported start %r, the clock showed %r' % (ms.group(2), stamp(t0, tz)))
    if me.group(3) != stamp(t1, tz):
        return ('end-time', 'reported end %r, the clock showed %r' % (me.group(3), stamp(t1, tz)))
    if ma:
        want = (t1 - t0) / float(nt)
        if abs(float(ma.group(1)) - want) > 1e-5 * abs(want) + 1e-12:
            return ('average', 'reported average %s s per step, the clock says %g' % (ma.group(1).decode(), want))
        x = float(ma.group(1))
        if x:
            # the size of the grid is the same at any speed
            s2 = dict(quiet(w)['set'], clockRate=1e12 / base.p.edges)
            r2 = ctx.R(dict(quiet(w), set=s2))
            m2 = AVG.search(r2.file(lp) or b'')
            if m2 and float(m2.group(1)) and float(ma.group(2)):
                n1, n2 = x / float(ma.group(2)), float(m2.group(1)) / float(m2.group(2))
                if abs(n1 - n2) > 1e-4 * abs(n1):
                    return ('average-cell', 'average per cell implies %g cells, in a run at another speed %g' % (n1 * 1e9, n2 * 1e9))
    # how far the true pace, which depends on the work of each step, varies along the run
    k, spread = min(10, len(edges) - 1), 0.0
    if k > 1:
        p = [edges[(j + 1) * (len(edges) - 1) // k] - edges[j * (len(edges) - 1) // k] for j in range(k)]
        p = [x / max(1, (j + 1) * (len(edges) - 1) // k - j * (len(edges) - 1) // k) for j, x in enumerate(p)]
        spread = (max(p) - min(p)) * (len(edges) - 1) / nt * w['set'].get('clockRate', 0) * 1e-6
    prev, ps = t0, 0
    for l in LINE.finditer(log):
        spi, s, n, est = float(l.group(1)), int(l.group(2)), int(l.group(3)), l.group(4)
        now = at(l.start())
        ctx.probe('progress lines')
        if n != nt or not 0 < s < nt:
            return ('step-out-of-run', 'a progress line names step %d/%d of %d' % (s, n, nt))
        if s <= ps:
            return ('step-order', 'a progress line names step %d after step %d' % (s, ps))
        if now - prev < 10:
            return ('too-soon', 'a progress line %d s after the one before (or the start)' % (now - prev))
        prev, ps = now, s
        try:
            te = unstamp(est, tz, now + spi * (nt - s))
        except ValueError:
            continue
        left = spi * (nt - s)
        if abs(te - (now + left)) > 1.5 + 2e-5 * abs(left):
            return ('prediction-inconsistent', 'at %d with %g s per step and %d steps to go the end is predicted for %d' % (now, spi, nt - s, te))
        if c['kind'] == 'steady' and not w.get('clock'):
            pace = (t1 - t0) / float(nt)
            if abs(te - t1) > .16 * (t1 - now) + 3 + .02 * pace * nt ** .5 + spread * (nt - s):
                return ('prediction-wrong', 'steady pace: at step %d (%d s before the end) the end was predicted %d s off' % (s, t1 - now, te - t1))
            ctx.probe('steady predictions judged' if spread < .1 * pace else 'predictions at a varying pace judged')
    return None
