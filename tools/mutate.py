"""Random small changes of the sources, to look for what the checks miss.

usage: mutate.py SEED COUNT LIST.jsonl   (works in /tmp/mg, a scratch copy of the repository)

Every mutant is first put to the checks with few cases; one that none of them
reports is put to the repository's own tests.  The list says for each which
check reported it, or that nothing did.
"""
import json, os, random, re, shutil, subprocess, sys, time

SEED, COUNT, LIST = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/tmp/mg/repo'
ORDER = 'C02 C10 C03 C09 C07 C14 C11 C13 C06 C05 C08 C04 C12 C01'.split()
CONF = ('cmake -Wno-dev -S . -B _build -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DWITH_SIBC=ON '
        '-DWITH_TESTS=ON -DBIG_TESTS=ON -DGNUPLOT_TESTS=ON -DOCTAVE_TESTS=ON -DPYTHON_TESTS=ON -DPYTHON_EXECUTABLE=/opt/vp/pydiff-python && ninja -C _build')
rnd = random.Random(SEED)


def sh(c, t=600, **kw):
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **kw)
        return r.returncode, r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, ''


def mutants(path):
    L = open(path).read().split('\n')
    out = []
    for i, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(('*', '/', '#', 'static ', 'extern', 'typedef', 'message( MSG_LOG')):
            continue
        def add(n):
            if n != l:
                out.append((i, l, n))
        if re.match(r'^[A-Za-z_(*][^;]*;$', s) and not re.match(r'^(int|real|char|bool|FILE|unsigned|double|float|return|break|case|else|const|struct|[A-Z]\w+ \*?\w+( =|;|,))', s):
            add(re.sub(r'\S.*', ';', l))
        for a, b in (('<=', '<'), ('<', '<='), ('>=', '>'), ('>', '>='), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), ('++', '--')):
            for m in re.finditer(r'(?<![<>=!&|+\-])' + re.escape(a) + r'(?![<>=&|])', l):
                if a in '<>' and ('#' in l or '->' in l[max(0, m.start() - 1):m.end()]):
                    continue
                add(l[:m.start()] + b + l[m.end():])
        for m in re.finditer(r'\+ 1\b', l):
            add(l[:m.start()] + '+ 0' + l[m.end():])
            add(l[:m.start()] + '+ 2' + l[m.end():])
        for m in re.finditer(r'- 1\b', l):
            add(l[:m.start()] + '- 0' + l[m.end():])
        m = re.match(r'^(\s*(?:else )?if\()(.*)(\).*)$', l)
        if m:
            add(m.group(1) + ' 0 && (' + m.group(2) + ') ' + m.group(3))
        for m in re.finditer(r'\b(XLO|YLO|ZLO|XHI|YHI|ZHI|EX|EY|EZ|HX|HY|HZ)\b', l):
            for b in {'XLO': 'XHI', 'YLO': 'XLO', 'ZLO': 'ZHI', 'XHI': 'XLO', 'YHI': 'ZHI', 'ZHI': 'ZLO', 'EX': 'EY', 'EY': 'EX', 'EZ': 'EX', 'HX': 'HY', 'HY': 'HZ', 'HZ': 'HY'}[m.group(1)],:
                add(l[:m.start()] + b + l[m.end():])
    return L, out


def main():
    if not os.path.isdir(REPO):
        os.makedirs("/tmp/mg", exist_ok=True)
        sh('cp -a /repo ' + REPO)
        sh('rm -rf /tmp/mg/repo/_build; ' + CONF, cwd=REPO)
    shutil.rmtree('/tmp/mg/verif', ignore_errors=True)
    sh('mkdir -p /tmp/mg/verif && cd %s && cp -a sim dst check MANIFEST.json KNOWN_FINDINGS tools properties.jsonl /tmp/mg/verif/' % VERIF)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    fs = sorted(f for f in os.listdir(REPO + '/src') if f.endswith('.c'))
    weights = {f: 1 for f in fs}
    for f in fs:
        if re.search(r'observ|planar|simul|vulture|gvult|mesh|util|log|message|binary|ascii|output|memory|alloc|clock|timer|waveform|source|physical|gnuplot|gmsh', f):
            weights[f] = 3
    done = 0
    while done < COUNT:
        f = rnd.choices(fs, [weights[x] for x in fs])[0]
        p = REPO + '/src/' + f
        L, ms = mutants(p)
        if not ms:
            continue
        i, a, b = rnd.choice(ms)
        L2 = list(L)
        L2[i] = b
        rec = dict(file=f, line=i + 1, old=a.strip(), new=b.strip())
        open(p, 'w').write('\n'.join(L2))
        t0 = time.time()
        try:
            rc, o = sh('ninja -C _build', cwd=REPO)
            if rc:
                continue
            env = dict(os.environ, VULTURE_REPO=REPO, VERIF_CASES='60', VERIF_SEED='3', VERIF_MINIMISE='0', VERIF_WALL='60')
            rec['by'] = None
            for c in ORDER:
                rc, o = sh('python3 -m dst.engine %s quick' % c, cwd='/tmp/mg/verif', env=env)
                if rc == 1:
                    m = re.search(r'^(.*)\ncase \d+ of', o, re.M)
                    rec['by'] = c
                    rec['what'] = m.group(1)[:200] if m else ''
                    break
                if rc not in (0, 1):
                    rec.setdefault('noanswer', []).append([c, o[-300:]])
            if rec['by'] is None:
                sh('rm -rf _build/tests; ' + CONF, cwd=REPO)
                bad = set()
                for sel in ("-R '_vulture$'", "-R '_gvulture$'", "-E '_g?vulture$'"):
                    rc, o = sh('ctest --test-dir _build -j8 --timeout 100 %s 2>&1' % sel, cwd=REPO, t=900)
                    bad |= set(x + '::' + x for x in re.findall(r'^\s*\d+ - (\S+) \(', o, re.M))
                rec['stable_failed'] = len(bad & stable)
            rec['s'] = round(time.time() - t0, 1)
            done += 1
            with open(LIST, 'a') as fh:
                fh.write(json.dumps(rec) + '\n')
        finally:
            open(p, 'w').write('\n'.join(L))


main()
