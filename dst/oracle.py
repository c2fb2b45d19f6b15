"""Shared pieces of the oracles: building worlds, baselines, comparing results."""
import copy, re

DEFAULT_SET = {'clockRate': 0, 'seed': 1}
FUEL0 = 400000000           # first bound, for undisturbed runs (edges of the control flow graph)


def mk(prog, files, opts=(), cwd='/w', mesh='model.mesh', **st):
    argv = [('gvulture' if prog == 'gvulture' else 'vulture')] + list(opts) + [mesh]
    s = dict(DEFAULT_SET)
    s.update(st)
    return dict(prog=prog, procs=[dict(cwd=cwd, argv=argv)], files=dict(files), set=s, faults=[], clock=[])


def team(w, rnd):
    """Let a multi-threaded build run with several threads."""
    if w['prog'].startswith('omp'):
        p = w['procs'][0]
        w['procs'] = [dict(p, argv=p['argv'][:1] + ['-n', rnd.choice('234')] + p['argv'][1:])]
        w['set'].update(teamMax=rnd.choice([2, 4]), schedMode=rnd.choice([0, 0, 2]), schedInterval=rnd.choice([300, 5000, 20000]))
    return w


def quiet(w):
    """The same invocation with nothing disturbing it."""
    b = dict(w)
    b['set'] = dict(DEFAULT_SET, fuel=FUEL0 * (10 if w['prog'].startswith('omp') else 1))
    b['faults'] = []
    b['clock'] = []
    b.pop('sched', None)
    b.pop('want', None)
    b.pop('tag', None)
    return b


def bounded(w, base):
    """w with a bound on its work taken from the undisturbed run."""
    w = dict(w)
    w['set'] = dict(w['set'])
    w['set']['fuel'] = sum(q.edges for q in base.procs) * 20 + 20000000
    return w


def is_log(p):
    return p.endswith('.log')


def results(r):
    return {p: d for p, d in r.written().items() if not is_log(p)}


def logs(r):
    return {p: d for p, d in r.written().items() if is_log(p)}


def diff(a, b, what='the undisturbed run'):
    """First difference of two result sets, or None."""
    for p in sorted(set(a) | set(b)):
        if p not in a:
            return '%s exists (not in %s)' % (p, what)
        if p not in b:
            return '%s is missing (%s has it)' % (p, what)
        if a[p] != b[p]:
            x, y = a[p], b[p]
            if x is None or y is None:
                return '%s differs' % p
            n = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return '%s differs from %s at byte %d (%d and %d bytes): %r / %r' % (
                p, what, n, len(x), len(y), x[max(0, n - 20):n + 30], y[max(0, n - 20):n + 30])
    return None


def ended_badly(q):
    """A message if the process did not end by its own decision."""
    if q.kind == 'signal':
        return 'killed by signal %d' % q.code
    if q.kind == 'fuel':
        return 'does not end (work bound reached)'
    if q.kind == 'hung':
        return 'hangs (code %d)' % q.code
    return None


def memory_fault(r):
    if r.report:
        return 'touched memory it may not: ' + r.report
    for q in r.procs:
        if q.canary:
            return 'wrote outside a block of memory it had allocated (%d)' % q.canary
        if q.badfree:
            return 'freed memory wrongly (%d)' % q.badfree
    return None


def good(r):
    return all(q.kind == 'exit' and q.code == 0 for q in r.procs)


def steps_taken(r, cwd='/w'):
    """Evidence that time stepping began: message or records."""
    for p, d in r.written().items():
        d = d or b''
        if p.endswith('.log') and b'time stepping loop' in d:
            return '%s says that time stepping started' % p
        if p.endswith('_td.asc') and any(l and not l.startswith(b'#') for l in d.split(b'\n')):
            return '%s holds records' % p
        if p.endswith('impulse.dat') and len(d) > 8:
            return '%s holds records' % p
        if p.endswith('excite.dat') and d.count(b'\n') > 1:
            return '%s holds records' % p
    return None


def swap(w, **kw):
    w = dict(w)
    w.update(kw)
    return w


def outfaults(base, w, rnd, log=None):
    """All places of the undisturbed run at which output can be disturbed: [(path, op, nth, n)]."""
    from . import world
    ops = {}
    for typ, proc, ino, res, a, edge in base.events:
        n = world.EV.get(typ)
        if n in ('open', 'write', 'close', 'read'):
            ops.setdefault((n, ino), []).append(edge)
    out = []
    for p, i in base.names.items():
        if p.startswith('<'):
            continue
        for op in ('open', 'write', 'close'):
            k = len(ops.get((op, i), ()))
            if base.inodes[i]['written'] or base.inodes[i]['created']:
                if log is None or is_log(p) == log:
                    for n in range(k):
                        out.append((p, op, n, k))
    return out


OPTS = [[], [], [], [], ['-g'], ['-v'], ['-p'], ['-p', '-g'], ['-v', '-g']]


def expected_files(mesh_text, opts):
    """Result files a finished run must have, by the cards of the model: [] for a reading run."""
    from . import mesh
    m = mesh.parse(mesh_text)
    return mesh.files_of(m, opts)


def io_knobs(rnd):
    """Settings of the simulated system that decide how output reaches the disk."""
    s = {}
    if rnd.random() < .7:
        s['bufSize'] = rnd.choice([1, 2, 7, 64, 100, 512, 1000, 65536])
    if rnd.random() < .3:
        s['writeChunk'] = rnd.choice([1, 3, 17, 100, 1000])
    return s
