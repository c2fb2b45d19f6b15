"""Build simulator hosts from the working tree of the repository.

The list of sources and their flags come from the repository's own CMake files
(compile_commands.json), so a source file added by a change is picked up.
Object files of one program are joined, main() and the libc seams are renamed,
and the result is linked with the simulator.
"""
import hashlib, json, os, re, shlex, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VULTURE_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
SIM = os.path.join(VERIF, 'sim')

# Extra -O0 for the threaded build: every access of the source is then a real
# access, so a schedule can separate any two of them.
VARIANTS = {
    # name: (cmake options, extra flags, program, threaded)
    'vulture':   ([], ['-fsanitize-coverage=trace-pc'], 'vulture', False),
    'gvulture':  ([], ['-fsanitize-coverage=trace-pc'], 'gvulture', False),
    'both':      ([], ['-fsanitize-coverage=trace-pc'], 'vulture+gvulture', False),   # picked by argv[0]
    'omp':       (['-DWITH_OPENMP=ON'], ['-O0', '-fsanitize=thread', '-fopenmp', '-Wno-tsan'], 'vulture', True),
    'omp_idx':   (['-DWITH_OPENMP=ON', '-DUSE_INDEXED_MEDIA=ON'], ['-O0', '-fsanitize=thread', '-fopenmp', '-Wno-tsan'], 'vulture', True),
    'omp_sca':   (['-DWITH_OPENMP=ON', '-DUSE_SCALED_FIELDS=ON'], ['-O0', '-fsanitize=thread', '-fopenmp', '-Wno-tsan'], 'vulture', True),
    'vult_zero': ([], ['-fsanitize-coverage=trace-pc', '-ftrivial-auto-var-init=zero'], 'vulture', False),
    'vult_pat':  ([], ['-fsanitize-coverage=trace-pc', '-ftrivial-auto-var-init=pattern'], 'vulture', False),
    'gvult_pat': ([], ['-fsanitize-coverage=trace-pc', '-ftrivial-auto-var-init=pattern'], 'gvulture', False),
    'asan':      ([], ['-fsanitize-coverage=trace-pc', '-fsanitize=address'], 'vulture', False),
    'gasan':     ([], ['-fsanitize-coverage=trace-pc', '-fsanitize=address'], 'gvulture', False),
    'scaled':    (['-DUSE_SCALED_FIELDS=ON'], ['-fsanitize-coverage=trace-pc'], 'vulture', False),
    'indexed':   (['-DUSE_INDEXED_MEDIA=ON'], ['-fsanitize-coverage=trace-pc'], 'vulture', False),
}
COMMON = ['-fno-pie', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fno-stack-protector', '-w', '-g1']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode('utf-8', 'replace')[-4000:]))
    return r.stdout


def tree_hash(variant):
    h = hashlib.sha256()
    h.update(json.dumps(VARIANTS[variant], default=str).encode() + json.dumps(COMMON).encode())
    files = []
    for top in ('src', 'uthash', 'cmake'):
        for d, sub, fs in os.walk(os.path.join(REPO, top)):
            sub.sort()
            for f in fs:
                files.append(os.path.join(d, f))
    files.append(os.path.join(REPO, 'CMakeLists.txt'))
    for f in sorted(os.listdir(SIM)):
        files.append(os.path.join(SIM, f))
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build(variant):
    """Path of the host executable for this variant, building it if needed."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(variant)
    out = os.path.join(BUILD, '%s-%s' % (variant, key))
    exe = os.path.join(out, 'host')
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, variant + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in os.listdir(BUILD):          # one build per variant is kept
            if old.startswith(variant + '-') and os.path.isdir(os.path.join(BUILD, old)):
                p = os.path.join(BUILD, old)
                if time.time() - os.path.getmtime(p) > 7200:
                    shutil.rmtree(p, ignore_errors=True)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        loc = os.path.join(BUILD, 'locale')       # a language that writes numbers with a comma, if the system can make one
        if not os.path.exists(loc):
            os.makedirs(out + '.loc', exist_ok=True)
            subprocess.run('localedef -c -i de_DE -f UTF-8 %s/de_DE.UTF-8' % (out + '.loc'), shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try:
                os.rename(out + '.loc', loc)
            except OSError:
                shutil.rmtree(out + '.loc', ignore_errors=True)
        os.makedirs(tmp)
        _build(variant, tmp)
        os.rename(tmp, out)
    return exe


def _build(variant, out):
    opts, extra, prog, threaded = VARIANTS[variant]
    cm = os.path.join(out, 'cm')
    run(['cmake', '-Wno-dev', '-S', REPO, '-B', cm, '-G', 'Ninja', '-DCMAKE_C_COMPILER=gcc',
         '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5',
         '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-DWITH_SIBC=ON', '-DWITH_TESTS=OFF'] + opts)
    with open(os.path.join(cm, 'compile_commands.json')) as f:
        cc = json.load(f)
    jobs, objs = [], []
    for e in cc:
        args = shlex.split(e['command']) if 'command' in e else e['arguments']
        target = re.search(r'CMakeFiles/([^/]+)\.dir', ' '.join(args)).group(1)
        if target not in ['vult'] + prog.split('+'):
            continue
        a = []
        skip = False
        for x in args:
            if skip:
                skip = False
                continue
            if x in ('-o', '-c', '-MF', '-MT'):
                skip = True
                continue
            if x == '-MD':
                continue
            a.append(x)
        obj = os.path.join(out, '%s_%s.o' % (target, re.sub(r'\W', '_', os.path.basename(e['file']))))
        objs.append(obj)
        jobs.append(a + COMMON + extra + ['-c', e['file'], '-o', obj])
    simflags = ['gcc', '-O2', '-g1', '-std=gnu11', '-fno-pie', '-Wall', '-Wno-unused-result', '-fno-stack-protector', '-D_GNU_SOURCE',
                '-fno-builtin-malloc']
    sobj = [os.path.join(out, 'host.o')]
    jobs.append(simflags + ['-c', os.path.join(SIM, 'host.c'), '-o', sobj[0]])
    if threaded:
        sobj.append(os.path.join(out, 'omp.o'))
        jobs.append(simflags + ['-c', os.path.join(SIM, 'omp.c'), '-o', sobj[1]])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: run(c), jobs))
    syms = ['--redefine-syms=' + os.path.join(SIM, 'redirect.syms')]
    if '-fsanitize=address' not in extra:        # there the sanitizer watches these calls
        syms.append('--redefine-syms=' + os.path.join(SIM, 'redirect_str.syms'))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda o: run(['objcopy'] + syms + [o]), objs))
    lib = os.path.join(out, 'libtarget.a')
    mains = [o for o in objs if not os.path.basename(o).startswith('vult_')]
    run(['ar', 'rcs', lib] + [o for o in objs if o not in mains])
    if '+' in prog:              # each program's own objects keep to themselves, but for its main()
        two = []
        for q in prog.split('+'):
            one = os.path.join(out, 'main-%s.o' % q)
            run(['ld', '-r', '-o', one] + [o for o in mains if os.path.basename(o).startswith(q + '_')])
            run(['objcopy', '--redefine-sym', 'target_main=%s_main' % q, one])
            run(['objcopy', '--keep-global-symbol', '%s_main' % q, one])
            two.append(one)
        mains = two
    san = ['-fsanitize=address', '-static-libasan'] if '-fsanitize=address' in extra else []
    run(['gcc', '-no-pie', '-o', os.path.join(out, 'host')] + san + mains + sobj + [lib, '-lm'])
    und = set(x for x in run(['nm', '-u', '-A'] + objs).decode().split() if ':' not in x and x not in ('U', 'w'))
    dfn = set(x.split()[-1] for x in run(['nm', '--defined-only'] + objs + sobj).decode().splitlines() if len(x.split()) == 3)
    with open(os.path.join(out, 'undefined.txt'), 'w') as f:
        f.write('\n'.join(sorted(und - dfn)))
    shutil.rmtree(cm, ignore_errors=True)
    for o in objs + sobj + [lib] + mains:
        if os.path.exists(o):
            os.unlink(o)


if __name__ == '__main__':
    with ThreadPoolExecutor(4) as ex:
        for v, p in zip(sys.argv[1:] or ['vulture', 'gvulture', 'omp'],
                        ex.map(build, sys.argv[1:] or ['vulture', 'gvulture', 'omp'])):
            print(v, p)
