"""C08: the log is durable, ordered, and carries every diagnostic."""
import re
from .. import gen
from ..oracle import *
from . import c02, c03

PROGS = ['vulture', 'gvulture', 'omp']
LEVEL = 'exploration'
PLAN = {'quick': dict(cases=6000, wall=240), 'thorough': dict(cases=30000, wall=2400)}
RULE = ('A case is a random model, option set, clock and buffering. The run with unbuffered output tells at which instruction every byte of the log was issued; in runs '
        'with buffers of other sizes every byte must have reached the disk at most a message later, and after a crash at a chosen instruction everything issued '
        'before it is there. Runs that end with an error (refused memory, damaged input, failed output) must show the same last message on both the error stream '
        'and the log, and faults of the log itself may cut a hole into it and nothing else. Non-trivial: the buffering differs or a fault fired; distinct by trace.')
ASSUMPTIONS = ['A message counts as late if the program executes more than %d further control flow edges before it is written.' % 150]
SLACK = 150
VO = [[], [], ['-v'], ['-v'], ['-p'], ['-m'], ['-g', '-v']]


def logname(w):
    return w['procs'][0]['cwd'] + ('/gvulture.log' if w['prog'] == 'gvulture' else '/vulture.log')


def issue(r, path):
    """[(end offset, edge)] of the writes of a file in order."""
    i = r.names.get(path)
    if i is None or r.evtotal > len(r.events):
        return None
    v = [(a + res, e, res) for t, p, ino, res, a, e in r.events if t == 3 and ino == i and res > 0]
    # a message put out a few characters at a time is issued when its last one is
    return [(o, e) for k, (o, e, n) in enumerate(v) if not (n <= 8 and k + 1 < len(v) and v[k + 1][2] <= 8 and v[k + 1][1] - e <= 15)]


def claims(idx, rnd, ctx, tier):
    prog = 'gvulture' if idx % 5 == 4 else 'omp' if idx % 25 == 7 else 'vulture'
    opts = rnd.choice([[], ['-v'], ['-m'], ['-p', '-v']]) if prog == 'gvulture' else rnd.choice(VO)
    m, f = c02.base_files(rnd, small=True, long=0, stretch=0, maxdim=4) if prog == 'omp' else c02.base_files(rnd, small=rnd.random() < .8, feat=dict(full=False))
    damaged = False
    if rnd.random() < .3:
        f = damage(rnd, f)
        damaged = True
    w = team(mk(prog, f, opts), rnd)
    if rnd.random() < .5:
        w['set']['clockRate'] = 10 ** rnd.uniform(2, 6)
    b = ctx.R(quiet(w))
    if b.p.kind != 'exit':
        yield None
        return
    E = b.p.edges
    sz = [64, 100, 1000, 4096, 65536]
    if b.p.code != 0:
        yield dict(w=dict(w, set=dict(w['set'], bufSize=rnd.choice(sz))), kind='diagnostic')
    yield dict(w=dict(w, set=dict(w['set'], bufSize=rnd.choice(sz))), kind='delay')
    n = 6 if tier == 'quick' else 20
    for _ in range(n):
        yield dict(w=dict(w, set=dict(w['set'], bufSize=rnd.choice(sz)), faults=[dict(op='edge', nth=rnd.randrange(E), action='crash')]), kind='crash')
    # errors met on the way
    for _ in range(n):
        k = rnd.random()
        if k < .4:
            fl = dict(op='alloc', nth=rnd.randrange(max(1, b.p.nalloc)), action='err', err='ENOMEM', sticky=rnd.randint(0, 1))
        elif k < .6:
            fl = dict(op='read', path=rnd.choice(sorted(f)), nth=rnd.randrange(2), action='err', err='EIO', sticky=1)
        elif k < .7:
            fl = dict(op='open', path=rnd.choice(sorted(f)), nth=0, action='err', err=rnd.choice(['EACCES', 'EMFILE', 'EIO']), sticky=1)
        else:
            s = [x for x in outfaults(b, w, rnd) if not is_log(x[0])]
            if not s:
                continue
            p, op, k, tot = rnd.choice(s)
            fl = dict(op=op, path=p, nth=k, action='err', err=rnd.choice(c02.ERRO if op == 'open' else c02.ERRW), sticky=1)
        yield dict(w=dict(w, set=dict(w['set'], bufSize=rnd.choice(sz)), faults=[fl]), kind='diagnostic')
    # faults of the log
    lp = logname(w)
    i = b.names.get(lp)
    if i is not None:
        k = sum(1 for e in b.events if e[0] == 3 and e[2] == i)
        for _ in range(n // 2):
            st = rnd.randint(0, 1)
            if rnd.random() < .8 and k:
                fl = dict(op='write', path=lp, nth=rnd.randrange(k), action=rnd.choice(['err', 'err', 'short']), err=rnd.choice(['ENOSPC', 'EIO']), arg=rnd.choice([1, 5]), sticky=st)
            else:
                fl = dict(op=rnd.choice(['open', 'close']), path=lp, nth=0, action='err', err='EIO', sticky=st)
            if fl['action'] == 'short':
                fl['err'] = 0
            yield dict(w=dict(w, set=dict(w['set']), faults=[fl]), kind='log')


    # a log of many messages
    if idx % 12 == 3:
        yield many(rnd, m, f, prog)
    # messages that quote the input quote all of it
    if rnd.random() < .5:
        for _ in range(2 if tier == 'quick' else 4):
            q = quoting(rnd, m, f, prog)
            if q:
                yield q


def many(rnd, m, f, prog):
    """A world whose log is long: by the cards of the model, or by the progress of many steps."""
    f = dict(f)
    mp = next((p for p in sorted(f) if p.endswith('.mesh')), None)
    if mp is None:
        return None
    n = int(10 ** rnd.uniform(2.5, 4))
    w = None
    if prog != 'gvulture' and rnd.random() < .4:
        f[mp] = re.sub(rb'(?m)^NT .*$', b'NT %d' % n, re.sub(rb'(?m)^(OT|OF) .*\n', b'', f[mp]))
        w = mk(prog, f, [], clockRate=10 ** rnd.uniform(4, 7), bufSize=4096)
        if min(m['dims']) > 4 or max(m['dims']) > 6:
            w = None
    if w is None:
        card = rnd.choice([b'MB 0 1 0 1 0 1 PEC', b'MB 1 1 0 1 0 1 PEC', b'MB 0 1 0 0 0 0 PEC'])
        f[mp] = re.sub(rb'(?m)^GE', (card + b'\n') * (n // (2 if prog == 'gvulture' else 1)) + b'GE', f[mp], count=1)
        f[mp] = re.sub(rb'(?m)^NT .*$', b'NT 2', re.sub(rb'(?m)^(OT|OF) .*\n', b'', f[mp]))
        w = mk(prog, f, rnd.choice([['-v'], ['-v'], []]), bufSize=4096)
    return dict(w=w, kind='many')


def appended(r, lp):
    """The log is written from its beginning to its end, and nothing in it is ever written again or taken away."""
    i = r.names.get(lp)
    if i is None or r.evtotal > len(r.events):
        return None
    end = 0
    for t, p, ino, res, a, e in r.events:
        if t == 3 and ino == i and res > 0:
            if a != end:
                return ('message-overwritten', 'the log has %d bytes when bytes %d to %d of it are written' % (end, a, a + res))
            end += res
    if r.inodes[i]['size'] != end:
        return ('message-overwritten', '%d bytes were written to the log and it ends with %d' % (end, r.inodes[i]['size']))
    return None


def longtext(rnd, tag, room):
    n = min(room, rnd.choice([20, 60, 120, 230, 260, 500, 520, 760, 900, 1000, 1030, 2100]))
    a = rnd.choice(['abc xyz ', 'x', '0123456789', '%d %s %% ', '"<>|\\', '\xe9\xfc '])
    return (tag + (a * (n // len(a) + 1))[:max(0, n - len(tag) - 4)].rstrip() + 'end.').encode('latin-1')


def quoting(rnd, m, f, prog):
    """A world with long lines or names in its input, one of them possibly at fault, and what messages may quote."""
    f = dict(f)
    k = rnd.random()
    tag = 'q%06x' % rnd.getrandbits(24)
    opts = rnd.choice([[], ['-v'], ['-v']])
    if k < .2:
        name = longtext(rnd, tag, 4000).replace(b' ', b'_').replace(b'"', b'_').decode('ascii', 'ignore').replace('\\', '_')
        return dict(w=mk(prog, f, opts, mesh=name), kind='quote', tag=tag, quotes=[name], fails=True)
    try:
        mp = next(p for p in sorted(f) if p.endswith('.mesh'))
    except StopIteration:
        return None
    L = f[mp].split(b'\n')
    at = [i for i, l in enumerate(L) if l[:2].isalpha() and l[:2].isupper() and l[:2] not in (b'XL', b'YL', b'ZL', b'CE') and b'#' not in l and len(l) < 900]
    if len(at) < 4:
        return None
    quotes = []
    for i in rnd.sample(at, min(len(at), rnd.randint(1, 3))):
        t = longtext(rnd, tag, 1015 - len(L[i]))
        quotes.append(t)
        L[i] = L[i] + b' # ' + t
    fails = k < .7
    if fails:
        i = next(i for i in range(len(L)) if tag.encode() in L[i])
        c = L[i][:2]
        L[i] = rnd.choice([b'ZZ', c.lower(), c + b' x y', b'EN 1'] if c not in (b'GS', b'GE', b'EN') else [b'ZZ', c.lower()]) + L[i][L[i].index(b' # '):]
    f[mp] = b'\n'.join(L)
    return dict(w=mk(prog, f, opts), kind='quote', tag=tag, quotes=[q.decode('latin-1') for q in quotes], fails=fails)


def damage(rnd, f):
    f = dict(f)
    p = rnd.choice(sorted(f))
    t = f[p]
    L = t.split(b'\n')
    k = rnd.randrange(4)
    if k == 0:
        f[p] = t[:rnd.randrange(len(t))]
    elif k == 1:
        i = rnd.randrange(len(L))
        f[p] = b'\n'.join(L[:i] + L[i + 1:])
    elif k == 2:
        i = rnd.randrange(len(L))
        v = L[i].split(b' ')
        v[rnd.randrange(len(v))] = rnd.choice([b'x', b'-7', b'99', b''])
        L[i] = b' '.join(v)
        f[p] = b'\n'.join(L)
    else:
        i, j = rnd.randrange(len(L)), rnd.randrange(len(L))
        L[i], L[j] = L[j], L[i]
        f[p] = b'\n'.join(L)
    return f


NUMBERS = [b'0', b'-0', b'1', b'-1', b'2', b'3', b'5', b'7', b'12', b'99', b'100', b'1000', b'65535', b'65536', b'1000000', b'2147483647', b'2147483648', b'-2147483648', b'4294967295', b'4294967297',
           b'9223372036854775807', b'18446744073709551615', b'-9223372036854775808', b'1e9', b'1e-9', b'1e38', b'1e39', b'1e300', b'-1e300', b'1e-320', b'nan', b'inf', b'-inf', b'0x10', b'007', b'.5', b'1' * 60, b'9' * 400]


def wrong_number(rnd, f):
    """One or two numbers of one line of an input are other ones: from the same line, or of a list of awkward ones."""
    f = dict(f)
    p = rnd.choice(sorted(f)) if rnd.random() < .3 else next(x for x in sorted(f) if x.endswith('.mesh'))
    L = f[p].split(b'\n')
    c = [i for i, l in enumerate(L) if re.search(rb'(?<!\S)[-+.]?\d', l) and not l.lstrip().startswith(b'#')]
    if not c:
        return f
    i = rnd.choice(c)
    if rnd.random() < .6:                        # lines of few kinds are as likely as those of many
        k = rnd.choice(sorted({L[j].split()[0] for j in c}))
        i = rnd.choice([j for j in c if L[j].split()[0] == k])
    v = re.split(rb'([ \t]+)', L[i])
    n = [j for j, x in enumerate(v) if re.match(rb'[-+.]?\d', x)]
    for _ in range(rnd.choice([1, 1, 2])):
        j = rnd.choice(n)
        x = rnd.random()
        if x < .3:
            q = rnd.choice(n)
            v[j], v[q] = v[q], v[j]
        elif x < .5 and re.match(rb'-?\d+$', v[j]):
            v[j] = b'%d' % (int(v[j]) + rnd.choice([-2, -1, 1, 2]))
        elif x < .55:
            v[j] = b'-' + v[j]
        else:
            v[j] = rnd.choice(NUMBERS)
    L[i] = b''.join(v)
    f[p] = b'\n'.join(L)
    return f


def unbuffered(w):
    b = quiet(w)
    b['set'].update(bufSize=1)
    for k in ('clockRate', 'clockBase', 'tzMode', 'teamMax', 'schedMode', 'schedInterval', 'seed'):
        if k in w['set']:
            b['set'][k] = w['set'][k]
    return b


def tail_message(err, prog):
    k = err.rfind(prog + b': ')
    return err[k + len(prog) + 2:] if k >= 0 else None


def judge_quote(c, ctx):
    r = ctx.R(bounded(c['w'], ctx.R(quiet(c['w']))))
    bad = ended_badly(r.p)
    if bad:
        return ('ends-badly', bad)
    tag = c['tag'].encode()
    log, err = r.file(logname(c['w'])) or b'', r.std(0, 'stderr')
    for name, text in (('log', log), ('error stream', err)):
        k = -1
        while True:
            k = text.find(tag, k + 1)
            if k < 0:
                break
            if not any(text.startswith(q.encode('latin-1'), k) for q in c['quotes']):
                return ('message-cut', 'a message on the %s quotes the input and is cut: %r' % (name, text[max(0, k - 60):k + 20] + b' ... ' + text[k + 20:k + 1100][-60:]))
            ctx.probe('quotations judged')
    return None


def judge(c, ctx):
    if c['kind'] == 'quote':
        return judge_quote(c, ctx)
    w = c['w']
    lp = logname(w)
    if c['kind'] == 'many':
        r = ctx.R(dict(w, set=dict(w['set'], fuel=1 << 31)))
        bad = ended_badly(r.p)
        if bad:
            return ('ends-badly', bad)
        if r.names.get(lp) is not None and r.evtotal <= len(r.events):
            ctx.probe('log of more than %d kB judged' % (1 << max(0, (r.inodes[r.names[lp]]['size'] // 1000).bit_length() - 1)))
        return appended(r, lp)
    base = ctx.R(unbuffered(w))
    if base.p.kind != 'exit':
        return None
    full = base.file(lp)
    r = ctx.R(bounded(w, base))
    bad = ended_badly(r.p)
    if bad:
        return ('ends-badly', bad)
    x = appended(r, lp) if c['kind'] != 'log' else None
    if x:
        return x
    log = r.file(lp)
    kind = c['kind']
    if log is None or full is None:
        if kind == 'log' or r.p.kind == 'crashed':
            return None
        if r.p.kind == 'exit' and r.p.code != 0 and not r.std(0, 'stderr').strip() and not (full is None and base.p.code):
            return ('silent', 'ends with %s without a log and without a word on the error stream' % r.p.ended)
        return None
    if kind == 'delay':
        if log != full:
            return ('log-depends-on-buffering', diff({lp: full}, {lp: log}, 'the log of the unbuffered run'))
        return late(ctx, base, r, lp, full)
    if kind == 'crash':
        if r.p.kind != 'crashed':
            return None
        if not full.startswith(log):
            return ('log-not-prefix', 'after a crash %s' % diff({lp: full}, {lp: log}, 'the log of the completed run'))
        iss = issue(base, lp)
        if iss is None:
            return None
        e = r.p.edges
        need = 0
        for off, at in iss:
            if at <= e - SLACK:
                need = off
        if len(log) < need:
            return ('message-lost', 'crash after %d edges: the log has %d bytes, %d had been issued more than %d edges before: lost %r' % (
                e, len(log), need, SLACK, full[len(log):need][:120]))
        ctx.probe('crashes judged')
        return None
    err = r.std(0, 'stderr')
    prog = w['procs'][0]['argv'][0].encode()
    if kind == 'log':
        if r.p.ended != base.p.ended:
            if any(f['op'] == 'open' for f in w['faults']) and r.p.kind == 'exit' and r.p.code and err.strip():
                return None
            return ('log-fault-status', 'a fault of the log: ends with %s, undisturbed %s' % (r.p.ended, base.p.ended))
        if not hole(full, log):
            return ('log-fault-content', 'a fault of the log left something else than the log with a hole: %s' % diff({lp: full}, {lp: log}, 'the undisturbed log'))
        if base.p.code and err != base.std(0, 'stderr'):
            return ('log-fault-diagnostic', 'a fault of the log changed what is on the error stream: %r / %r' % (err[-200:], base.std(0, 'stderr')[-200:]))
        d = diff(results(base), results(r))
        if d:
            return ('log-fault-results', d)
        ctx.probe('log faults judged')
        return None
    # diagnostics
    if r.p.kind != 'exit':
        return None
    low = [x[x.rfind(b'*** Error'):] for x in log.split(b'\n') if b'*** Error' in x]
    if r.p.code == 0:
        if low:
            return ('error-but-success', 'the log says %r and the exit status is zero' % low[-1][:200])
    else:
        if not err.strip():
            return ('silent', 'ends with %s and nothing on the error stream' % r.p.ended)
        m = tail_message(err, b'Vulture' if b'Vulture: ' in err else b'gvulture' if prog == b'gvulture' else b'vulture')
        if m is None:
            ctx.probe('unlabelled last words: %s' % err[-60:].decode('latin-1').strip())
        elif not log.endswith(m):
            return ('diagnostic-not-in-log', 'the last message %r is not at the end of the log, which ends %r' % (m[-160:], log[-160:]))
        else:
            ctx.probe('errors judged')
    # whatever was said on the error stream is in the log, in that order
    pos = 0
    for part in re.split(rb'(?:^|(?<=\n))(?:g?[vV]ulture): ', err):
        part = part.strip()
        if not part:
            continue
        k = log.find(part, pos)
        if k < 0:
            if b'openMP' in part or b'ERROR' in part:
                continue
            return ('diagnostic-not-in-log', '%r on the error stream is not in the log (or not in this order)' % part[:200])
        pos = k + len(part)
    for x in low:
        if x.strip() not in err:
            return ('diagnostic-not-on-stderr', 'the log says %r and the error stream does not' % x[:200])
    return None


def hole(full, part):
    """part is full without one interval."""
    i = 0
    n = min(len(full), len(part))
    while i < n and full[i] == part[i]:
        i += 1
    return full.endswith(part[i:]) if i < len(part) else True


def late(ctx, base, r, lp, full):
    a, b = issue(base, lp), issue(r, lp)
    if a is None or b is None:
        return None
    j = 0
    worst = 0
    for off, at in a:
        while j < len(b) and b[j][0] < off:
            j += 1
        if j == len(b):
            break
        d = b[j][1] - at
        if d > worst:
            worst = d
        if d > SLACK:
            return ('message-late', 'byte %d of the log was issued at edge %d and written %d edges later: %r' % (off, at, d, full[max(0, off - 60):off + 20]))
    ctx.probe('largest delay of a message below %d edges' % (10 * (worst // 10 + 1)))
    return None
