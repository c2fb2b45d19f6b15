"""Random valid simulation models (mesh files and the files they refer to).

A model is {'mesh': [card line, ...], 'aux': {name: text}, 'nt', 'dims'}.
Everything is drawn from the random.Random given.
"""
import json
import math
import os

SRC_TAGS = []
for b in ('E', 'H', '=E', '=H', 'J', 'JM', '=J', '=JM'):
    SRC_TAGS += [b + a for a in 'XYZ']
for b in ('JS', 'JMS', '=JS', '=JMS'):
    SRC_TAGS += [b + a for a in ('XY', 'YZ', 'ZX', 'XZ', 'YX', 'ZY')]
for b in ('I', 'IM', '=I', '=IM', 'ID', 'IMD', '=ID', '=IMD', 'V', '=V', 'VR', 'IG'):
    SRC_TAGS += [b + a for a in 'XYZ']

WF_TYPES = ['GAUSSIAN_PULSE', 'NARROW_GAUSSIAN_PULSE', 'DIFF_GAUSSIAN_PULSE', 'RICKER_WAVELET', 'MOD_GAUSSIAN_PULSE',
            'COMPACT_PULSE', 'DIFF_COMPACT_PULSE', 'MOD_COMPACT_PULSE', 'RAMPED_SINUSOID']
FACES = ['XLO', 'XHI', 'YLO', 'YHI', 'ZLO', 'ZHI']


def g(x):
    return '%g' % x


class Gen:
    def __init__(self, rnd, **kw):
        self.r = rnd
        self.kw = kw

    def box(self, dims, kind, lo=0, margin=0):
        """Random bounding box: 'point', 'lineX', 'surf', 'vol', 'any' within the mesh."""
        r = self.r
        if kind == 'any':
            kind = r.choice(['point', 'line', 'surf', 'vol'])
        ext = {'point': 0, 'line': 1, 'surf': 2, 'vol': 3}[kind[:4] if kind.startswith('line') else kind]
        axes = set(r.sample(range(3), ext))
        if kind.startswith('line') and len(kind) == 5:
            axes = {'XYZ'.index(kind[4])}
        b = []
        for a in range(3):
            lo_, hi_ = margin, dims[a] - margin
            if a in axes and hi_ - lo_ >= 1:
                x = r.randint(lo_, hi_ - 1)
                y = r.randint(x + 1, hi_)
            else:
                x = y = r.randint(lo_, hi_)
            b += [x, y]
        return b

    def model(self):
        r, kw = self.r, self.kw
        if 'corpus' in kw and r.random() < kw['corpus']:
            self.feat = dict(corpus=True)
            return corpus_model(r, kw.get('maxcells', 3000))
        small = kw.get('small', False)
        maxd = kw.get('maxdim', 6 if small else 9)
        dims = [r.randint(kw.get('mindim', 2), maxd) for _ in range(3)]
        if r.random() < 0.15:
            dims[r.randrange(3)] = 1
        self.unit = False
        # now and then one size of the model goes far beyond the others
        far = None
        if r.random() < kw.get('stretch', .08):
            far = r.choice(['steps', 'thin', 'waves', 'obs', 'media', 'blocks', 'freqs', 'names', 'pml', 'points', 'poles', 'lines'])
            if far in ('steps', 'obs', 'freqs', 'media', 'waves', 'pml'):
                dims = [min(d_, r.choice([1, 2, 3])) for d_ in dims]
            elif far == 'blocks' and r.random() < .7:
                dims = [r.randint(min(3, maxd), max(maxd, 3)) for _ in range(3)]
                self.unit = True
            elif far == 'thin':
                a = r.randrange(3)
                dims = [r.randint(20, 70) if x == a else r.choice([1, 2]) for x in range(3)]
        if kw.get('wide'):
            # as long as large teams need to all have work
            dims = [r.randint(18, 66) if x == kw['wide'] - 1 else r.randint(3, 4) for x in range(3)]
        # now and then a long run of a tiny model
        long = not kw.get('nt') and far is None and r.random() < kw.get('long', .025)
        if long:
            dims = [min(d_, r.choice([1, 1, 2])) for d_ in dims]
        self.far = far
        nt = kw.get('nt') or (r.choice([1, 2, 3, 5, 8, 12, 16, 20, 25, 30]) if not small else r.randint(1, 12))
        if far == 'steps' and not kw.get('nt'):
            nt = r.choice([60, 100, 101, 128, 150, 200, 256, 300])
        if far == 'blocks' and not kw.get('nt'):
            nt = r.choice([8, 15, 25])
        if long:
            nt = r.choice([330, 520, 520, 600, 1001, 1030, 1100])
        d = r.choice([1.0, 0.01, 0.1, 1e-3])
        feat = {f: r.random() < p for f, p in dict(debye=.35, debyefile=.3, simple=.6, sibc=.25, sibcfile=.15, wire=.3, tb=.4, ext=.25,
                                                    pw=.45, ex=.85, xl=.3, binary=.6, fdom=.6, tdom=.85, ot=.4, of=.5, cn=.15,
                                                    br=.06, comments=.5, ff=.08, full=.3, ws=.3, pwedge=.25).items()}
        for f in dict(media=['simple'], points=['ext'], poles=['debye'], freqs=['fdom', 'of']).get(far, []):
            feat[f] = True
        if far == 'poles':
            feat['debyefile'] = True
        feat.update(kw.get('feat', {}))
        if long:
            feat.update(debye=False, sibc=False, full=False, pw=feat['pw'] and r.random() < .3)
        self.feat = feat
        nm = (lambda x: x + '_' * r.choice([31 - len(x), 30 - len(x), 20])) if far == 'names' else (lambda x: x)
        aux = {}
        L1, L2, L3 = [], [], []
        L1.append('VM 1.0.0')
        if r.random() < .8:
            L1.append('CE Simulated model %d' % r.randrange(10 ** 6) + (' and more' * r.choice([4, 6, 7, 8, 40, 100]) if far == 'lines' else ''))
        L1.append('DM %d %d %d' % tuple(dims))
        # external boundaries
        pmlmax = 0
        bt = []
        if feat['br']:
            L1.append('BR ' + ' '.join(r.choice(['-1', '0', '1']) for _ in range(6)))
            if r.random() < .5:
                L1.append('BE ' + ' '.join(r.choice('00123') for _ in range(6)))
        else:
            if r.random() < .01:
                L1.append('BE ' + ' '.join(r.choice('00123') for _ in range(6)))
            style = r.choice(['mixed', 'mixed', 'mixed', 'pml', 'mur', 'pec', 'periodic'])
            style = kw.get('boundary', style if not long else r.choice(['pec', 'pec', 'pec', 'mixed']))
            for ax in range(3):
                for f in FACES[2 * ax:2 * ax + 2]:
                    s = style if style != 'mixed' else r.choice(['pml', 'mur', 'pec', 'pmc', 'default', 'pml'])
                    if style == 'periodic' or (style == 'mixed' and getattr(self, '_per', None) == ax):
                        s = 'periodic'
                    if s == 'pml':
                        v = ['PML']
                        n = r.randint(1, 4) if far != 'pml' else r.randint(5, 20)
                        v.append(str(n))
                        if r.random() < .4:
                            v += ['%d' % r.randint(2, 4)]
                            if r.random() < .5:
                                v += ['1.0', '-1e-5'] if r.random() < .5 else ['1.0']
                        bt.append('BT %s %s' % (f, ' '.join(v)))
                    elif s == 'default':
                        pass
                    else:
                        bt.append('BT %s %s' % (f, s.upper()))
            if style == 'mixed' and r.random() < .3:
                ax = r.randrange(3)
                bt = [b for b in bt if b.split()[1] not in FACES[2 * ax:2 * ax + 2]]
                bt += ['BT %s PERIODIC' % f for f in FACES[2 * ax:2 * ax + 2]]
            if style != 'mixed' and r.random() < .3 and style != 'periodic':
                bt.pop()
        L1.append('GS')
        L2 += bt
        med = []
        if feat['simple']:
            for k in range(r.choice([12, 13, 30, 120, 260, 300]) if far == 'media' else r.randint(1, 2)):
                n = 'med%d' % k
                med.append(n)
                v = [g(r.uniform(1, 6))]
                if r.random() < .7:
                    v.append(g(r.choice([0, 0.01, 1.0, 0.2])))
                    if r.random() < .6:
                        v.append(g(r.uniform(1, 3)))
                L2.append('MT %s SIMPLE %s' % (n, ' '.join(v)))
        if feat['debye']:
            if feat['debyefile']:
                np_ = r.randint(1, 3) if far != 'poles' else r.choice([4, 7, 12, 13, 30])
                rows = ['%s %s %s %s' % (g(r.uniform(.1, 3) * 1e9), r.choice(['0', '0', g(r.uniform(-1, 1) * 1e8)]), g(-r.uniform(.2, 3) * 1e9), r.choice(['0', '0', g(r.uniform(-1, 1) * 1e8)])) for _ in range(np_)]
                aux['debye.dat'] = '%d\n%s %s %s\n%s\n' % (np_, g(r.uniform(1, 4)), g(r.choice([0, .01])), '1.0', '\n'.join(rows))
                L2.append('MT deb DEBYE "debye.dat"')
            else:
                v = [g(r.uniform(1, 4)), g(r.choice([0, .01])), '1.0']
                for _ in range(r.randint(1, 3)):
                    v += [g(r.uniform(.1, 3) * 1e9), g(-r.uniform(.2, 3) * 1e9)]
                L2.append('MT deb DEBYE %s' % ' '.join(v))
            med.append('deb')
        if r.random() < .2:
            L2.append('MT mypec PEC')
            med.append('mypec')
        if r.random() < .15:
            L2.append('MT myfs FREE_SPACE')
            med.append('myfs')
        for m in med + (['PEC'] if r.random() < .4 else []) + (['FREE_SPACE'] if r.random() < .1 else []):
            for _ in range(r.choice([12, 13, 25, 40, 80, 150]) if far == 'blocks' else r.randint(1, 2)):
                kind = 'vol'
                b = self.box(dims, kind)
                if self.unit:                    # one cell, so that most of them show
                    b = [x for n in dims for q in [r.randrange(n)] for x in (q, q + 1)]
                l = 'MB %d %d %d %d %d %d %s' % (*b, m)
                if r.random() < .25:
                    l += ' ' + ''.join(r.choice('01') for _ in range(6))
                L2.append(l)
        bnds = ['PEC', 'FREE_SPACE', 'PMC'] if r.random() < .3 else ['PEC']
        sib = []
        if feat['sibc']:
            if feat['sibcfile']:
                ent = []
                for k in range(4):
                    np_ = r.randint(0, 2)
                    ent.append('%d %s' % (np_, g(140.0 if k in (0, 3) else 86.0)))
                    for _ in range(np_):
                        ent.append('%s %s %s %s' % (g(r.uniform(.1, 1) * 1e9), r.choice(['0', '0', g(r.uniform(-1, 1) * 1e8)]), g(-r.uniform(.5, 2) * 1e9), r.choice(['0', '0', g(r.uniform(-1, 1) * 1e8)])))
                aux['spar.prm'] = '2 2\n' + '\n'.join(ent) + '\n'
                L2.append('BT sib SIBC "spar.prm"')
            else:
                a = r.uniform(-.6, -.3)
                b = r.uniform(.1, .3)
                L2.append('BT sib SIBC %s %s %s %s' % (g(a), g(b), g(b), g(a)))
            for _ in range(r.randint(1, 2)):
                bx = self.box(dims, 'surf', margin=1 if min(dims) >= 3 and r.random() < .5 else 0)
                if r.random() < .3:              # a sheet across the whole model
                    a = r.randrange(3)
                    bx = [v for x in range(3) for v in ([bx[2 * x]] * 2 if x == a else [0, dims[x]])]
                l = 'TB %d %d %d %d %d %d sib' % tuple(bx)
                if r.random() < .4:
                    l += ' %d' % r.choice([1, -1])
                    if r.random() < .5:
                        l += ' %s' % g(r.choice([0.0, 45.0, 90.0]))
                sib.append(l)
        if feat['tb']:
            for _ in range(r.randint(1, 2)):
                L2.append('TB %d %d %d %d %d %d %s' % (*self.box(dims, 'surf'), r.choice(bnds)))
        L2 += sib
        if feat['wire']:
            L2.append('WT wire PEC')
            for _ in range(r.randint(1, 2)):
                l = 'TW %d %d %d %d %d %d wire' % tuple(self.box(dims, 'line'))
                if r.random() < .3:
                    l += ' %s %s' % (r.choice(['THRU', 'END', 'CORNER']), r.choice(['THRU', 'END', 'CORNER']))
                L2.append(l)
        # waveforms
        wfs = []
        dt = d / 3e8 * 0.5
        for k in range(r.choice([1, 1, 2, 3]) if far != 'waves' else r.choice([4, 8, 11, 12, 13, 20])):
            n = nm('wf%d' % (k + 1))
            wfs.append(n)
            if feat['ext'] and k == 0:
                npt = r.randint(3, 40) if far != 'points' else r.choice([100, 500, 1024, 3000])
                aux['wave.asc'] = ''.join('%.6e %.6e\n' % (i * dt * r.choice([1, 1]) * 2, math.sin(i * .7) * math.exp(-((i - 8) / 6.) ** 2)) for i in range(npt))
                L2.append('WF %s EXTERNAL "wave.asc"%s' % (n, r.choice(['', ' 1.0', ' 2.0', ' 1.5 0.0'])))
            else:
                t = r.choice(WF_TYPES)
                v = []
                if r.random() < .7:
                    v.append(g(r.choice([1.0, 2.0, 0.5, 10.0])))
                    if r.random() < .6:
                        v.append(g(dt * r.uniform(1, 6)))
                        if r.random() < .6:
                            v.append(g(dt * r.uniform(1, 8)))
                            if r.random() < .6:
                                v.append(g(.1 / dt))
                L2.append(('WF %s %s %s' % (n, t, ' '.join(v))).strip())
        nex = r.randint(1, 3) if feat['ex'] else 0
        if not nex:
            feat['pw'] = True
        for k in range(nex):
            t = r.choice(SRC_TAGS)
            w = r.choice(wfs)
            if t[:2] in ('VR', 'IG'):
                bx = self.box(dims, 'line' + t[-1])
                l = 'EX %d %d %d %d %d %d src%d %s %s' % (*bx, k, t, w)
                if r.random() < .8:
                    l += ' 1.0'
                    if r.random() < .6:
                        l += ' 0.0'
                        if r.random() < .8:
                            l += ' %s' % g(r.choice([50, 0.0, 75]))
                L2.append(l)
                continue
            bare = t.lstrip('=')
            ax = bare.rstrip('XYZ')
            pol = bare[len(ax)]
            if bare[0] in 'JIV':
                kind = r.choice(['line' + pol, 'vol', 'surf'])
            else:
                kind = r.choice(['line' + pol, 'vol', 'surf', 'point', 'line'])
            l = 'EX %d %d %d %d %d %d src%d %s %s' % (*self.box(dims, kind), k, t, w)
            if r.random() < .6:
                l += ' ' + g(r.choice([1.0, 3.0, .2]))
                if r.random() < .4:
                    l += ' ' + g(dt * r.randint(0, 3))
            L2.append(l)
        if feat['pw']:
            for k in range(r.choice([1, 1, 2])):
                # total-field box inside the mesh
                bx = []
                ok = True
                for a in range(3):
                    if dims[a] < 3:
                        bx += [0, dims[a]] if dims[a] == 1 else [0, dims[a]]
                        continue
                    m = 0 if feat['pwedge'] else 1
                    x = r.randint(m, dims[a] - 2)
                    y = r.randint(x + 1, dims[a] - m)
                    bx += [x, y]
                if r.random() < .5:
                    th, ph, et = r.choice([(90, 0, 90), (90, 0, 180), (90, 90, 0), (90, 90, 90), (0, 0, 180), (0, 0, 270), (180, 0, 0), (90, 180, 180), (90, 270, 90)])
                else:
                    th, ph, et = r.choice([30, 45, 60, 120, 135]), r.choice([0, 30, 45, 60, 120, 225, 300, 350]), r.choice([0, 30, 45, 90, 180, 300])
                l = 'PW %d %d %d %d %d %d pw%d %s %g %g %g' % (*bx, k, r.choice(wfs), th, ph, et)
                if r.random() < .6:
                    l += ' ' + (r.choice(['111111', ''.join(r.choice('01') for _ in range(6))]))
                    if r.random() < .7:
                        l += ' 1.0'
                        if r.random() < .5:
                            l += ' ' + g(dt * r.randint(0, 3))
                L2.append(l)
        nobs = 0
        if feat['tdom']:
            for k in range(r.randint(1, 3) if far != 'obs' else r.choice([8, 12, 20, 25])):
                kind = 'TDOM_ASCII'
                b = self.box(dims, r.choice(['point', 'point', 'line', 'vol', 'surf']))
                if kw.get('pointobs', True):
                    b = self.box(dims, 'point')
                w = ' ' + r.choice(wfs) if r.random() < .3 else ''
                L2.append('OP %d %d %d %d %d %d %s %s%s' % (*b, nm('td%d' % k), kind, w))
                nobs += 1
        if feat['fdom']:
            for k in range(r.randint(1, 2) if far != 'obs' else r.choice([8, 12, 13, 20])):
                b = self.box(dims, 'point')
                w = ' ' + r.choice(wfs) if r.random() < .3 else ''
                L2.append('OP %d %d %d %d %d %d %s FDOM_ASCII%s' % (*b, nm('fd%d' % k), w))
                nobs += 1
        if feat['binary'] or not nobs:
            for k in range(r.choice([1, 1, 2, 3]) if far != 'obs' else r.choice([5, 12, 15])):
                b = self.box(dims, r.choice(['vol', 'surf', 'line', 'point']))
                L2.append('OP %d %d %d %d %d %d bin%d TDOM_BINARY %d %d %d' % (*b, k, *[r.randint(1, 3) for _ in range(3)]))
        if feat['full']:
            L2.append('OP 0 %d 0 %d 0 %d binall TDOM_BINARY 1 1 1' % tuple(dims))
        if feat['ff']:
            L2.append('FF 1 1 1 1 1 1')
        L2.append('GE')
        L3.append('NT %d' % nt)
        if feat['ot']:
            a = r.randint(0, max(0, nt - 1))
            b = r.randint(a, max(a, nt - 1))
            L3.append('OT %d %d' % (a, b if r.random() < .8 else r.choice([nt, nt + 1, nt + 50, 2 ** 31, 2 ** 33])))
        if not feat['of'] and r.random() < .2:
            pass                            # the frequencies that the program chooses
        elif feat['of']:
            f0 = r.choice([0, 1e6, 1e8])
            L3.append('OF %g %g %d' % (f0, f0 + r.choice([1e8, 1e9, 3e10]), r.randint(2, 12) if far != 'freqs' else r.choice([1, 40, 100, 250])))
        elif feat['fdom'] or True:
            L3.append('OF 0 %g %d' % (1e9, r.randint(2, 6)))
        if feat['cn']:
            L3.append('CN %g' % r.choice([.5, .7, .9]))
        if feat['xl']:
            for a, n in zip('XYZ', dims):
                x, xs = 0.0, []
                uni = r.random() < .4
                for i in range(n + 1):
                    xs.append(x)
                    x += d * (1.0 if uni else r.uniform(.6, 1.4))
                L3.append('%sL' % a)
                L3 += ['%.6g' % v for v in xs] if r.random() < .5 else [' '.join('%.6g' % v for v in xs)]
        elif r.random() < .3:
            L3.append('MS %g %g %g' % (d, d * r.choice([1, .8, 1.2]), d * r.choice([1, .9])))
        else:
            L3.append('MS %g' % d)
        L3.append('EN')
        lines = L1 + L2 + L3
        if feat['comments']:
            o = []
            for l in lines:
                if l[:1].isalpha() and r.random() < .15:
                    o.append('# ' + 'a comment line ' * (r.randint(1, 4) if far != 'lines' else r.randint(5, 60)))
                o.append(l)
            lines = o
        if feat['ws']:
            o = []
            for l in lines:
                if r.random() < .15:
                    o.append(r.choice(['', ' ', '\t ', '    '] + ([' # indented', '#'] if l.strip()[:1].isalpha() else [])))
                if l[:1] != '#' and r.random() < .2:
                    l = r.choice([' ', '\t', '   ']) + l
                if r.random() < .2 and l.strip()[:1].isalpha():
                    l += r.choice([' ', '\t', '  # trailing', '\r'])
                o.append(l)
            lines = o
        return dict(mesh=lines, aux=aux, nt=nt, dims=dims)


def mesh_text(m):
    return '\n'.join(m['mesh']) + '\n'


_CORPUS = None


def corpus_model(r, maxcells=30000):
    """One of the repository's own test models, run for a few steps."""
    global _CORPUS
    if _CORPUS is None:
        _CORPUS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'corpus.json')))
    c = [m for m in _CORPUS if m['dims'][0] * m['dims'][1] * m['dims'][2] <= maxcells]
    c = r.choice(c)
    n = c['dims'][0] * c['dims'][1] * c['dims'][2]
    nt = r.randint(1, 6 if n > 3000 else 40)
    out = []
    for l in c['mesh']:
        k = l.split()[0]
        if k == 'NT':
            l = 'NT %d' % nt
        elif k == 'OT':
            if r.random() < .5:
                continue
            a = r.randrange(nt)
            l = 'OT %d %d' % (a, r.randint(a, nt - 1))
        elif k == 'OF':
            l = 'OF 0 1e9 %d' % r.randint(2, 6)
        out.append(l)
    if not any(l.startswith('OF') for l in out):
        out.insert(-1, 'OF 0 1e9 3')
    return dict(mesh=out, aux=dict(c['aux']), nt=nt, dims=list(c['dims']), name=c['name'])


def files(m, cwd='/w', name='model.mesh'):
    f = {cwd + '/' + name: mesh_text(m).encode()}
    for k, v in m['aux'].items():
        f[cwd + '/' + k] = v.encode() if isinstance(v, str) else v
    return f
