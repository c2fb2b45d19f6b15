"""Client of the simulator host: describe one simulated world, run it, read the outcome.

A world is a plain dict (so it can be stored as a replay file):
  prog   'vulture' | 'gvulture' | 'omp' ...
  procs  [{'cwd': '/w', 'argv': ['vulture', 'x.mesh']}, ...]
  files  {'/w/x.mesh': bytes}
  set    {key: int or float}
  faults [{'proc':0,'op':'write','path':'*','nth':0,'action':'err','err':'ENOSPC','arg':0,'sticky':1}, ...]
  clock  [[edge, 'jump'|'rate', value], ...]
  sched  [[at, from, to], ...] or None
"""
import base64, errno, hashlib, json, os, struct, subprocess, sys
from . import build

OPS = {'open': 1, 'read': 2, 'write': 3, 'close': 4, 'alloc': 5, 'seek': 6, 'edge': 7, 'unlink': 8, 'rename': 9}
EV = {1: 'open', 2: 'read', 3: 'write', 4: 'close', 5: 'alloc-refused', 6: 'seek', 7: 'edge', 8: 'unlink', 9: 'rename',
      10: 'time', 11: 'exit', 12: 'fault', 13: 'msg', 14: 'free', 15: 'misc'}
ACT = {'err': 1, 'short': 2, 'crash': 4, 'crashafter': 5, 'torncrash': 6, 'droperr': 7}
KIND = {0: 'none', 1: 'exit', 2: 'signal', 3: 'crashed', 4: 'fuel', 5: 'hung', 6: 'simerr'}


class HostError(Exception):
    pass


class Proc:
    FIELDS = ['kind', 'code', 'edges', 'nalloc', 'nfree', 'nio', 'bytesAlloc', 'liveBytes', 'peakBytes', 'badfree',
              'openLeft', 'canary', 'ntime', 'regions', 'switches', 'conflicts', 'maxteam', 'work']
    __slots__ = FIELDS + ['simtime']

    @property
    def ended(self):
        if self.kind == 'exit':
            return 'exit %d' % self.code
        if self.kind == 'signal':
            return 'signal %d' % self.code
        return self.kind


class Result:
    __slots__ = ['hash', 'procs', 'events', 'evtotal', 'nyield', 'faults', 'clockdone', 'inodes', 'names', 'cov', 'sw', 'nsw',
                 'trunc', 'used', 'report', 'groups']

    def file(self, path):
        i = self.names.get(path)
        return None if i is None else self.inodes[i]['data']

    def written(self):
        """{path: bytes} of every file (not std streams) this world wrote or created and did not delete."""
        return {p: self.inodes[i]['data'] for p, i in self.names.items()
                if not p.startswith('<') and (self.inodes[i]['written'] or self.inodes[i]['created']) and not self.inodes[i]['isdir']}

    def hashes(self):
        return {p: (self.inodes[i]['hash'], self.inodes[i]['size']) for p, i in self.names.items()
                if not p.startswith('<') and (self.inodes[i]['written'] or self.inodes[i]['created']) and not self.inodes[i]['isdir']}

    def std(self, proc, which):
        return self.file('<%d:%s>' % (proc, which)) or b''

    def path_of(self, ino):
        for p, i in self.names.items():
            if i == ino:
                return p
        return '?%d' % ino

    @property
    def p(self):
        return self.procs[0]

    def statehash(self):
        h = hashlib.sha256()
        h.update(b'%d' % self.hash)
        for p in sorted(self.names):
            i = self.inodes[self.names[p]]
            h.update(p.encode() + b'%d %d' % (i['hash'], i['size']))
        for q in self.procs:
            h.update(('%s %d' % (q.kind, q.code)).encode())
        return h.hexdigest()


def encode(w):
    out = []
    for p in w['procs']:
        out.append(b'proc %s\n' % p['cwd'].encode())
        for a in p['argv']:
            a = a.encode()
            out.append(b'arg %d\n%s\n' % (len(a), a))
    for name in sorted(w['files']):
        d = w['files'][name]
        fl = 0
        if isinstance(d, (tuple, list)):
            d, fl = d
        if isinstance(d, str):
            d = d.encode('latin-1')
        n = name.encode()
        out.append(b'file %d %d %d\n%s\n%s\n' % (len(n), len(d), fl, n, d))
    for k, v in sorted(w.get('set', {}).items()):
        out.append(b'set %s %s\n' % (k.encode(), repr(v).encode()))
    for f in w.get('faults', []):
        e = f.get('err', 0)
        if isinstance(e, str):
            e = getattr(errno, e)
        p = f.get('path', '*').encode()
        out.append(b'fault %d %d %d %d %d %d %d %d\n%s\n' % (
            f.get('proc', 0), OPS[f['op']], f.get('nth', 0), ACT[f['action']], e, f.get('arg', 0), f.get('sticky', 0), len(p), p))
    for e, k, v in w.get('clock', []):
        out.append(b'clock %d %d %s\n' % (e, 1 if k == 'jump' else 2, repr(float(v)).encode()))
    if w.get('sched') is not None:
        b = b''.join(struct.pack('<QII', *s) for s in w['sched'])
        out.append(b'sched %d\n%s\n' % (len(w['sched']), b))
    want = w.get('want', {})
    out.append(b'want %d %d %d %d %d\n' % (want.get('cov', 0), want.get('sw', 0), want.get('ev', 1), want.get("maxfile", 48 << 20), want.get("groups", 0)))
    out.append(b'go\n')
    return b''.join(out)


class Host:
    def __init__(self, prog):
        self.prog = prog
        self.exe = build.build(prog)
        self.start()

    def start(self):
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME')}
        env['LOCPATH'] = os.path.join(build.BUILD, 'locale')
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, bufsize=1 << 20)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.stdout.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()

    def rd(self, n):
        b = self.p.stdout.read(n) if n else b''
        if len(b) != n:
            raise HostError('host ended early (status %s)' % self.p.poll())
        return b

    def u(self, n=1):
        v = struct.unpack('<%dQ' % n, self.rd(8 * n))
        return v if n > 1 else v[0]

    def run(self, w):
        self.p.stdin.write(encode(w))
        self.p.stdin.flush()
        if self.u() != 0x314d4953:
            raise HostError('bad magic')
        r = Result()
        r.hash, nproc, r.evtotal, r.nyield, r.trunc, r.used = self.u(6)
        r.procs = []
        for _ in range(nproc):
            q = Proc()
            v = self.u(len(Proc.FIELDS))
            for k, x in zip(Proc.FIELDS, v):
                setattr(q, k, x)
            q.kind = KIND[q.kind]
            q.simtime = struct.unpack('<d', self.rd(8))[0]
            r.procs.append(q)
        n = self.u()
        r.faults = [self.u(2) for _ in range(n)]
        n = self.u()
        r.clockdone = [self.u() for _ in range(n)]
        n = self.u()
        r.inodes = []
        for _ in range(n):
            size, wr, cr, isdir, h, send = self.u(6)
            r.inodes.append(dict(size=size, written=wr, created=cr, isdir=isdir, hash=h, data=self.rd(size) if send else None))
        n = self.u()
        r.names = {}
        for _ in range(n):
            i, l = self.u(2)
            r.names[self.rd(l).decode('latin-1')] = i
        n = self.u()
        b = self.rd(24 * n)
        r.events = [struct.unpack_from('<BBHiqQ', b, 24 * i) for i in range(n)]
        n = self.u()
        b = self.rd(24 * n)
        r.groups = [struct.unpack_from('<QIIII', b, 24 * i) for i in range(n)]
        n = self.u()
        r.cov = self.rd(n) if n else None
        r.report = self.rd(self.u()).decode('latin-1')
        r.nsw, n = self.u(2)
        b = self.rd(16 * n)
        r.sw = [struct.unpack_from('<QII', b, 16 * i) for i in range(n)]
        for q in r.procs:
            if q.kind in ('simerr', 'none') or (q.kind == 'hung' and q.code not in (77, 78)):
                raise HostError('simulator limit reached: %s %d' % (q.kind, q.code))
        return r


_hosts = {}


def host(prog):
    h = _hosts.get((os.getpid(), prog))
    if h is None or h.p.poll() is not None:
        h = _hosts[(os.getpid(), prog)] = Host(prog)
    return h


def run(w):
    h = host(w['prog'])
    try:
        return h.run(w)
    except (HostError, OSError):
        h.close()
        del _hosts[(os.getpid(), w['prog'])]
        raise


def run_fresh(w):
    """Run in a host process of its own."""
    h = Host(w['prog'])
    try:
        return h.run(w)
    finally:
        h.close()


def to_json(w):
    o = dict(w)
    o['files'] = {}
    for k, d in w['files'].items():
        fl = 0
        if isinstance(d, (tuple, list)):
            d, fl = d
        if isinstance(d, str):
            d = d.encode('latin-1')
        try:
            t = d.decode('ascii')
            ok = all(c == '\n' or c == '\t' or 32 <= ord(c) < 127 for c in t)
        except UnicodeDecodeError:
            ok = False
        o['files'][k] = {'flags': fl, **({'text': t.split('\n')} if ok else {'b64': base64.b64encode(d).decode()})}
    return o


def from_json(o):
    w = dict(o)
    w['files'] = {}
    for k, v in o['files'].items():
        d = '\n'.join(v['text']).encode() if 'text' in v else base64.b64decode(v['b64'])
        w['files'][k] = (d, v.get('flags', 0)) if v.get('flags') else d
    return w
