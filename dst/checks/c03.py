"""C03: a damaged or unreadable input is refused, never half used."""
import re
from .. import gen, mesh
from ..oracle import *
from . import c02

PROGS = ['vulture', 'scaled', 'indexed', 'omp']
LEVEL = 'fault_enumeration'
PLAN = {'quick': dict(cases=1500, wall=240), 'thorough': dict(cases=12000, wall=2400)}
RULE = ('A case is a random model with auxiliary files (external waveform, Debye parameters, surface pole-residue matrix) and options; each input file is cut '
        'at sampled bytes (all bytes in part of the thorough tier) or loses its tail or a part to zero bytes, is missing, is a directory, cannot be opened, or '
        'fails at a read (once or for good, with small and large pieces); lines of the mesh are made longer than any buffer. Non-trivial: the fault fired or the file was changed.')
ASSUMPTIONS = ['An external waveform announces no length: it is incomplete when cut within a record or when fewer than two records are left.',
               'A cut inside the last number of a file leaves a complete file with another number, which no reader can notice.']
OPTSETS = [[], [], [], [], ['-m'], ['-p'], ['-g'], ['-v']]


def claims(idx, rnd, ctx, tier):
    feat = {}
    for k in ('ext', 'sibc', 'sibcfile', 'debye', 'debyefile'):
        feat[k] = rnd.random() < .6
    opts = rnd.choice(OPTSETS)
    prog = ('scaled', 'indexed', 'omp')[idx // 12 % 3] if idx % 12 == 7 else 'vulture'
    m, f = c02.base_files(rnd, small=True, long=0, mindim=3, feat=feat, **(dict(stretch=0, maxdim=4) if prog == 'omp' else {}))
    w = mk(prog, f, opts, readChunk=rnd.choice([0, 0, 1, 7, 50, 512]), bufSize=rnd.choice([0, 0, 1, 16, 300]))
    team(w, rnd)
    if not w['set']['bufSize']:
        del w['set']['bufSize']
    w['set']['seed'] = rnd.randrange(1 << 30)
    qb = ctx.R(quiet(w))
    if not good(qb):
        yield None
        return
    base = ctx.R(bounded(w, qb))
    for path in sorted(f):
        d = f[path]
        n = len(d)
        if path not in base.names:
            continue
        i = base.names[path]
        nread = sum(1 for e in base.events if e[0] == 2 and e[2] == i)
        nopen = sum(1 for e in base.events if e[0] == 1 and e[2] == i)
        if not nopen:
            continue
        ctx.probe('inputs: ' + ('mesh' if path.endswith('.mesh') else path.split('/')[-1]))
        if tier != 'quick' and idx % 10 == 0:
            cuts = range(n)
        else:
            cuts = {rnd.randrange(n) for _ in range(14)} | {0, 1, 2, n - 1, n - 2, n - 3, n - 4, n - 5, n - 10, n // 2}
            # after whole records and just inside the next
            nl = [x.start() for x in re.finditer(b'\n', d)]
            for x in rnd.sample(nl, min(6, len(nl))):
                cuts |= {x, x + 1, x + 2}
        for k in sorted(cuts):
            if 0 <= k < n:
                yield dict(w=dict(w, tag='cut'), kind='cut', path=path, cut=k, zeros=int(rnd.random() < .15))
        if not path.endswith('.mesh'):           # something unreadable within the data
            tok = [x.span() for x in re.finditer(rb'\S+', d)]
            for _ in range(5 if tier == 'quick' else 20):
                x, y = rnd.choice(tok)
                yield dict(w=dict(w, tag='hole'), kind='hole', path=path, at=x, to=rnd.choice([y, y, y, min(n, y + rnd.randint(1, 200))]), by=rnd.choice([0, 64, 63, 255, 120]))
        if path.endswith('.mesh'):
            # zero bytes within the text, as in a file whose middle never reached the disk
            for _ in range(4 if tier == 'quick' else 16):
                x = rnd.randrange(n)
                yield dict(w=dict(w, tag='hole'), kind='hole', path=path, at=x, to=min(n, x + rnd.choice([1, 5, 30, 512, 4096])), by=0)
            for _ in range(4 if tier == 'quick' else 16):
                yield dict(w=dict(w, tag='long'), kind='long', path=path, line=rnd.random(), gap=rnd.randrange(12), fill=rnd.choice([rnd.randint(900, 1100), rnd.randint(1000, 1040), rnd.randint(1, 6000)]),
                           other=rnd.random() if rnd.random() < .6 else None)
            # a list of mesh lines with fewer numbers than the model needs, and the rest of the mesh after it
            nl = [k for k in range(len(listed(d)))]
            for _ in range(min(3 if tier == 'quick' else 12, 3 * len(nl))):
                yield dict(w=dict(w, tag='short'), kind='short', path=path, list=rnd.choice(nl), drop=[rnd.choice([1, 1, 1, 2, 0]) for _ in range(rnd.choice([1, 1, 1, 2, 5]))])
        reads = {0, nread - 1, nread // 2} | {rnd.randrange(max(1, nread)) for _ in range(6 if tier == 'quick' else 25)}
        for k in sorted(reads):
            yield dict(w=swap(w, faults=[dict(op='read', path=path, nth=k, action='err', err='EIO', sticky=rnd.randint(0, 1))]), kind='read', path=path)
        if not path.endswith('.mesh'):           # an error within a number, most of all the last
            tok = [x.span() for x in re.finditer(rb'\S+', d)]
            v = swap(w, set=dict(w['set'], readChunk=1))
            for _ in range(6 if tier == 'quick' else 30):
                x, y = rnd.choice(tok[-4:] if rnd.random() < .7 else tok)
                k = rnd.choice([0, 0, 1, 2]) * (n + 1) + rnd.randint(x, y)
                yield dict(w=swap(v, faults=[dict(op='read', path=path, nth=k, action='err', err='EIO', sticky=rnd.randint(0, 1))]), kind='read', path=path)
        for k in range(min(nopen, 3)):
            yield dict(w=swap(w, faults=[dict(op='open', path=path, nth=k, action='err', err=rnd.choice(c02.ERRO), sticky=rnd.randint(0, 1))]), kind='open', path=path)
        yield dict(w=dict(w, tag='missing'), kind='missing', path=path)
        yield dict(w=dict(w, tag='missing'), kind='directory', path=path)


def lengthen(d, c):
    """The same mesh with one very long line: blanks between its words, or a comment (that ends in the words of another card)."""
    L = d.split(b'\n')
    i = int(c['line'] * len(L))
    k = L[i].find(b'#')
    body = L[i] if k < 0 else L[i][:k]
    if c['other'] is not None:
        o = L[int(c['other'] * len(L))]
        L[i] = body + b' #' + b'x' * max(0, c['fill'] - len(o)) + b' ' * (c['gap'] % 3) + o
    else:
        gaps = [m.start() for m in re.finditer(rb'(?<=\S)[ \t]+(?=\S)', body)][1:]      # a title is kept as it is
        if not gaps or body.lstrip().startswith(b'CE'):
            L[i] = body + b' ' * c['fill']
        else:
            x = gaps[c['gap'] % len(gaps)]
            L[i] = body[:x] + b' ' * c['fill'] + body[x:]
    return b'\n'.join(L)


def listed(d):
    """Where the numbers of each list of mesh lines are."""
    out, cur, pos = [], None, 0
    for l in d.split(b'\n'):
        t = l.split(b'#')[0]
        if re.match(rb'\s*[XYZ]L\b', t):
            cur = []
            out.append(cur)
            t = b''
        elif t.strip() and not re.match(rb'[\s\d.+-]', t):
            cur = None
        elif re.match(rb'\s*[A-Za-z]', t):
            cur = None
        if cur is not None and b'#' not in l:
            cur += [(pos + m.start(), pos + m.end()) for m in re.finditer(rb'\S+', t)]
        pos += len(l) + 1
    return [x for x in out if len(x) > 1]


def shorten(d, c):
    """The same mesh without some numbers of a list of lines: each the last but so many of those left."""
    L = listed(d)
    if c['list'] >= len(L):
        return None
    t = L[c['list']]
    for k in c['drop']:
        if len(t) > k + 1:
            x, y = t.pop(len(t) - 1 - k)
            d = d[:x] + b' ' * (y - x) + d[y:]
    return d


NUM = re.compile(rb'^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$')


def complete(path, d, whole):
    """True, False, or None where it cannot be said from the outside."""
    if path.endswith('.mesh'):
        return mesh.ended(d)
    t = d.split(b'\0')[0].split()
    if t == whole.split():                        # nothing but white space is missing
        return True
    if path.endswith('wave.asc'):
        if len(t) % 2 or len(t) < 4:
            return False
        return None if d != whole else True
    if len(t) < len(whole.split()):
        return False
    return None


def judge(c, ctx):
    w = c['w']
    base = ctx.R(quiet(w))
    if not good(base):
        return None
    path = c['path']
    if path not in w['files']:
        return None
    must = False
    free = False
    what = ''
    if c['kind'] == 'cut':
        d = w['files'][path]
        k = c['cut']
        if k >= len(d):
            return None
        x = d[:k] + (b'\0' * (len(d) - k) if c['zeros'] else b'')
        comp = complete(path, d[:k], d)
        must = comp is False
        free = comp is None
        what = '%s was cut after %d of %d bytes%s' % (path, k, len(d), ' (the rest zero bytes)' if c['zeros'] else '')
        r = ctx.R(bounded(swap(w, files=dict(w['files'], **{path: x})), base))
    elif c['kind'] == 'hole':
        d = w['files'][path]
        x, y = c['at'], min(c['to'], len(d))
        what = '%s has bytes %d to %d replaced by %r' % (path, x, y, bytes([c['by']]))
        r = ctx.R(bounded(swap(w, files=dict(w['files'], **{path: d[:x] + bytes([c['by']]) * (y - x) + d[y:]})), base))
    elif c['kind'] == 'long':
        d = w['files'][path]
        what = '%s has a line made longer by %d characters that mean nothing' % (path, c['fill'])
        r = ctx.R(bounded(swap(w, files=dict(w['files'], **{path: lengthen(d, c)})), base))
    elif c['kind'] == 'short':
        d = w['files'][path]
        x = shorten(d, c)
        if x is None or x == d:
            return None
        must = True
        what = '%s has %d numbers less in its list %d of mesh lines' % (path, len(d.split()) - len(x.split()), c['list'])
        r = ctx.R(bounded(swap(w, files=dict(w['files'], **{path: x})), base))
    elif c['kind'] in ('missing', 'directory'):
        fs = dict(w['files'])
        del fs[path]
        if c['kind'] == 'directory':
            fs[path] = (b'', 2)
        must = True
        what = '%s is %s' % (path, {'missing': 'missing', 'directory': 'a directory'}[c['kind']])
        r = ctx.R(bounded(swap(w, files=fs), base))
    else:
        r = ctx.R(bounded(w, base))
        what = '%s %s' % (c['kind'], path)
        if not r.faults[0][1]:
            return None
        what += ' failed'
        must = c['kind'] == 'open'
    q = r.p
    bad = ended_badly(q)
    if bad:
        return ('ends-badly', '%s: %s' % (what, bad))
    ctx.probe('%s: %s' % (c['kind'], 'accepted' if q.code == 0 else 'refused'))
    if must and not opened(base, path):
        return None
    d = diff(results(base), results(r))
    if q.code == 0:
        if c['kind'] == 'open' and d is None:
            return None
        if must:
            return ('partial-input-accepted', 'exit status 0 although %s' % what)
        if d and not free:
            return ('success-differs', 'exit status 0 although %s, and %s' % (what, d))
        return None
    if not r.std(0, 'stderr').strip():
        return ('no-diagnostic', '%s: exit status %d without a word on standard error' % (what, q.code))
    s = steps_taken(r)
    if s:
        return ('stepped', '%s: refused with status %d, but only after %s' % (what, q.code, s))
    return None


def opened(base, path):
    i = base.names.get(path)
    return any(e[0] == 1 and e[2] == i and e[3] >= 0 for e in base.events)


def edits(c):
    if c['kind'] == 'cut':
        if c.get('zeros'):
            yield dict(c, zeros=0)
        # keep the distance from the end while lines go
        w = c['w']
        p = c['path']
        if p in w['files']:
            d = w['files'][p]
            ls = d.split(b'\n')
            pos = 0
            for i, l in enumerate(ls):
                if pos + len(l) + 1 <= c['cut'] and i < len(ls) - 1:
                    yield dict(c, w=dict(w, files=dict(w['files'], **{p: b'\n'.join(ls[:i] + ls[i + 1:])})), cut=c['cut'] - len(l) - 1)
                pos += len(l) + 1
