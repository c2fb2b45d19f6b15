"""C05: a crash leaves only true prefixes of the results, and the log tells how far."""
from .. import gen
from ..oracle import *
from . import c02

PROGS = ['vulture', 'gvulture', 'scaled', 'indexed', 'omp']
LEVEL = 'exploration'
PLAN = {'quick': dict(cases=1500, wall=240), 'thorough': dict(cases=12000, wall=2400)}
RULE = ('A case is a random model, option set and buffering, in a fresh directory or one with the results of a finished or crashed earlier run (of the same or '
        'another model); the process dies before, after or in the middle of a file operation, or at an instruction in between, chosen over the whole run. '
        'Non-trivial: the process died there; distinct by trace and surviving files.')
ASSUMPTIONS = ['A write that returned survives the death of the process; what sits in the buffers of the process is lost.']
OPTSETS = [[], [], [], ['-g'], ['-v'], ['-p'], ['-m']]


def claims(idx, rnd, ctx, tier):
    prog = 'gvulture' if idx % 6 == 5 else ('scaled', 'indexed', 'omp')[idx // 12 % 3] if idx % 12 == 7 else 'vulture'
    opts = rnd.choice([[], ['-m'], ['-p']]) if prog == 'gvulture' else rnd.choice(OPTSETS)
    m, f = c02.base_files(rnd, small=True, long=0, stretch=0, maxdim=4) if prog == 'omp' else c02.base_files(rnd, small=rnd.random() < .7, long=.06)
    w = team(mk(prog, f, opts, **io_knobs(rnd)), rnd)
    w['set']['seed'] = rnd.randrange(1 << 30)
    if idx % 3 == 1:                        # results of an earlier run lie in the directory
        m2, f2 = (m, f) if rnd.random() < .4 else c02.base_files(rnd, small=True)
        w2 = mk(prog if prog != 'omp' else 'vulture', f2, rnd.choice([[], ['-g'], ['-v']]) if prog != 'gvulture' else [])
        b2 = ctx.R(quiet(w2))
        if good(b2):
            if rnd.random() < .5:
                w2['faults'] = [dict(op='edge', nth=rnd.randrange(b2.p.edges), action='crash')]
                w2['set']['bufSize'] = rnd.choice([1, 50, 4096])
                b2 = ctx.R(bounded(w2, b2))
            old = {p: d for p, d in b2.written().items()}
            w['files'] = dict(old, **f)
    qb = ctx.R(quiet(w))
    if not good(qb):
        yield None
        return
    base = ctx.R(bounded(w, qb))
    E = base.p.edges
    n = 30 if tier == 'quick' else 120
    for _ in range(n):
        yield dict(w=swap(w, faults=[dict(op='edge', nth=rnd.randrange(E), action='crash')]), kind='edge')
    sites = outfaults(base, w, rnd)
    for p, op, k, tot in rnd.sample(sites, min(n, len(sites))):
        if op == 'write':
            a = rnd.choice(['crash', 'crashafter', 'torncrash'])
            yield dict(w=swap(w, faults=[dict(op='write', path=p, nth=k, action=a, arg=rnd.choice([1, 3, 20, 200]))]), kind='write')
        else:
            yield dict(w=swap(w, faults=[dict(op=op, path=p, nth=k, action='crashafter' if op == 'open' and rnd.random() < .5 else 'crash')]), kind=op)


def judge(c, ctx):
    w = c['w']
    base = ctx.R(quiet(w))
    if not good(base):
        return None
    r = ctx.R(bounded(w, base))
    q = r.p
    bad = ended_badly(q)
    if bad:
        return ('ends-badly', bad)
    if q.kind != 'crashed':
        return None
    done = base.written()
    now = {p: r.inodes[i]['data'] for p, i in r.names.items() if not p.startswith('<') and not r.inodes[i]['isdir'] and r.inodes[i]['data'] is not None}
    for p, d in sorted(now.items()):
        if p in w['files']:
            d0 = w['files'][p]
            if isinstance(d0, str):
                d0 = d0.encode('latin-1')
            if d == d0:
                continue                       # not reopened yet, or an input
        if p not in done:
            return ('foreign-file', 'after a crash %s holds %d bytes; the completed run does not write it' % (p, len(d)))
        if not done[p].startswith(d):
            n = next((i for i in range(min(len(d), len(done[p]))) if d[i] != done[p][i]), min(len(d), len(done[p])))
            return ('log-not-prefix' if is_log(p) else 'not-prefix', 'after a crash %s (%d bytes) is not a prefix of the file of the completed run: byte %d, %r / %r' % (
                p, len(d), n, d[max(0, n - 20):n + 20], done[p][max(0, n - 20):n + 20]))
    for p, d in now.items():
        if is_log(p) and d != (w['files'].get(p)) and b'Completed' in d and not is_log_old(w, p, d):
            ctx.probe('crash after the report of completion')
            if w['set'].get('bufSize') == 1:
                for t in sorted(done):
                    if t.endswith('_td.asc') or t.endswith('impulse.dat') or t.endswith('excite.dat'):
                        if len(now.get(t, b'')) < len(done[t]) - 2:        # stdio may hold back one byte
                            return ('completed-too-early', 'the log reports the end of time stepping, but %s has %d of %d bytes' % (t, len(now.get(t, b'')), len(done[t])))
    ctx.probe('crashes judged')
    return None


def is_log_old(w, p, d):
    return w['files'].get(p) == d
