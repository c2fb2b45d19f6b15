"""A small reader of mesh files, independent of the program under test: what output a model asks for."""

FACES = ['XLO', 'XHI', 'YLO', 'YHI', 'ZLO', 'ZHI']


class Model:
    pass


def cards(text):
    """[(line number, card, rest)], value lines joined to XL, YL and ZL."""
    if isinstance(text, bytes):
        text = text.decode('latin-1')
    out = []
    for n, raw in enumerate(text.split('\n')):
        l = raw.split('#')[0].strip(' \t\r\n\v\f')
        if not l:
            continue
        if l[:2].isalpha() and l[:2].isupper():
            out.append([n, l[:2], l[2:].strip()])
        elif out and out[-1][1] in ('XL', 'YL', 'ZL'):
            out[-1][2] += ' ' + l
    return out


def ended(text):
    return any(c[1] == 'EN' for c in cards(text))


def parse(text):
    m = Model()
    m.cards = cards(text)
    m.nt = None
    m.ot = m.of = None
    m.wf, m.op, m.lines = [], [], {}
    m.ms = None
    m.ce = ''
    m.dm = None
    m.files = []
    for n, c, a in m.cards:
        t = a.split()
        if c == 'DM':
            m.dm = [int(x) for x in t[:3]]
        elif c == 'CE':
            m.ce = a
        elif c == 'NT':
            m.nt = int(t[0])
        elif c == 'OT':
            m.ot = (int(t[0]), int(t[1]))
        elif c == 'OF':
            m.of = (float(t[0]), float(t[1]), int(t[2]))
        elif c == 'WF':
            m.wf.append(dict(name=t[0], type=t[1], args=t[2:]))
            if t[1] == 'EXTERNAL':
                m.files.append(a.split('"')[1])
        elif c in ('MT', 'BT') and '"' in a:
            m.files.append(a.split('"')[1])
        elif c == 'OP':
            o = dict(box=[int(x) for x in t[:6]], name=t[6], type=t[7], step=[1, 1, 1], wf=None)
            if t[7] == 'TDOM_BINARY':
                for i, x in enumerate(t[8:11]):
                    o['step'][i] = int(x)
            elif len(t) > 8:
                o['wf'] = t[8]
            m.op.append(o)
        elif c == 'MS':
            v = [float(x) for x in t]
            m.ms = v + [v[0]] * (3 - len(v)) if len(v) == 1 else v + ([v[1]] * (3 - len(v)) if len(v) == 2 else [])
        elif c in ('XL', 'YL', 'ZL'):
            m.lines['XYZ'.index(c[0])] = [float(x) for x in t]
    return m


def files_of(m, opts):
    if '-m' in opts or '--read-mesh' in opts:
        return []
    out = []
    for w in m.wf:
        out += ['wf_%s_td.asc' % w['name'], 'wf_%s_fd.asc' % w['name']]
    for o in m.op:
        if o['type'] == 'TDOM_ASCII':
            out.append('eh_%s_td.asc' % o['name'])
        elif o['type'] == 'FDOM_ASCII':
            out.append('eh_%s_fd.asc' % o['name'])
    if any(o['type'] == 'TDOM_BINARY' for o in m.op):
        out += ['impulse.dat', 'excite.dat', 'process.dat']
    if '-g' in opts or '--dump-grid' in opts:
        out += ['media%s.dat' % f for f in ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')]
    return out
