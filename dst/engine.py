"""The campaign engine: cases from a seed, runs, verdicts, confirmation, minimisation, replay files, evidence."""
import base64, collections, copy, hashlib, importlib, json, multiprocessing, os, random, re, subprocess, sys, time, traceback
from . import world, build

VERIF = build.VERIF
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')


class Stats:
    def __init__(self):
        self.c = collections.Counter()
        self.faults = {}                 # kind -> [configured, fired]
        self.states = set()
        self.cov = {}
        self.simtime = 0.0
        self.probes = collections.Counter()

    def note(self, w, r):
        c = self.c
        c['runs'] += 1
        c['runs ' + w['prog']] += 1
        c['edges'] += sum(q.edges for q in r.procs)
        c['allocations'] += sum(q.nalloc for q in r.procs)
        c['switches'] += r.nsw + r.nyield
        self.simtime += sum(q.simtime for q in r.procs)
        non = bool(w.get('tag'))
        for f, (seen, fired) in zip(w.get('faults', ()), r.faults):
            k = '%s %s %s%s' % (f['op'], f['action'], f.get('err', '') if f['action'] in ('err', 'short', 'droperr') else '', ' sticky' if f.get('sticky') else '')
            e = self.faults.setdefault(k.replace('  ', ' ').strip(), [0, 0])
            e[0] += 1
            if fired:
                e[1] += fired
                non = True
        for cs, done in zip(w.get('clock', ()), r.clockdone):
            e = self.faults.setdefault('clock ' + cs[1], [0, 0])
            e[0] += 1
            if done:
                e[1] += 1
                non = True
        for key, name, types in (('diskCap', 'disk capacity', (1, 3)), ('memCap', 'memory capacity', (5,))):
            if w['set'].get(key, -1) >= 0:
                e = self.faults.setdefault(name, [0, 0])
                e[0] += 1
                n = sum(1 for x in r.events if x[0] in types and (x[3] < 0 or key == 'memCap'))
                e[1] += n
                non = non or n > 0
        for k, v in w['set'].items():
            if k not in ('fuel', 'seed', 'clockRate', 'clockBase', 'teamMax', 'diskCap', 'memCap') and v:
                non = True
                c['set ' + k] += 1
        if r.nsw or r.nyield or w['set'].get('clockRate'):
            non = True
        for q in r.procs:
            c['end ' + q.ended] += 1
        if non:
            self.states.add(r.statehash()[:16])
        if r.cov:
            x = int.from_bytes(r.cov, 'little')
            self.cov[w['prog']] = self.cov.get(w['prog'], 0) | x

    def merge(self, o):
        self.c.update(o.c)
        self.probes.update(o.probes)
        for k, (a, b) in o.faults.items():
            e = self.faults.setdefault(k, [0, 0])
            e[0] += a
            e[1] += b
        self.states |= o.states
        for k, v in o.cov.items():
            self.cov[k] = self.cov.get(k, 0) | v
        self.simtime += o.simtime


class Ctx:
    """Runs worlds, remembering the recent ones; judges ask it for every execution they need."""
    def __init__(self, memo=48):
        self.memo = collections.OrderedDict()
        self.size = memo
        self.stats = Stats()
        self.trace = []

    def R(self, w):
        w = dict(w, want=dict(w.get('want') or {}, cov=1))
        k = hashlib.sha1(w['prog'].encode() + world.encode(w)).digest()
        r = self.memo.get(k)
        if r is None:
            r = world.run(w)
            self.stats.note(w, r)
            self.memo[k] = r
            if len(self.memo) > self.size:
                self.memo.popitem(last=False)
        else:
            self.memo.move_to_end(k)
        self.trace.append(r.statehash()[:16])
        return r

    def probe(self, name, n=1):
        self.stats.probes[name] += n


def module(prop):
    return importlib.import_module('dst.checks.' + prop.lower())


# ---------------------------------------------------------------- claims as files

def claim_to_json(c):
    o = dict(c)
    if 'w' in c:
        o['w'] = world.to_json(c['w'])
    if 'ws' in c:
        o['ws'] = [world.to_json(w) for w in c['ws']]
    return o


def claim_from_json(o):
    c = dict(o)
    if 'w' in o:
        c['w'] = world.from_json(o['w'])
    if 'ws' in o:
        c['ws'] = [world.from_json(w) for w in o['ws']]
    return c


def evaluate(claim, ctx=None):
    """(verdict, hash of everything that was executed)."""
    ctx = ctx or Ctx()
    ctx.trace = []
    v = module(claim['prop']).judge(claim, ctx)
    return v, hashlib.sha256(''.join(ctx.trace).encode()).hexdigest()


# ---------------------------------------------------------------- minimisation

def _mesh_edits(text):
    lines = text.split('\n')
    n = len(lines)
    size = max(1, n // 2)
    while True:
        for i in range(0, n, size):
            yield '\n'.join(lines[:i] + lines[i + size:])
        if size == 1:
            break
        size = max(1, size // 2)


def _world_edits(w):
    for key in ('faults', 'clock'):
        l = w.get(key) or []
        if len(l) > 1:
            for i in range(len(l)):
                yield dict(w, **{key: l[:i] + l[i + 1:]})
    if w.get('sched'):
        l = w['sched']
        size = max(1, len(l) // 2)
        while True:
            for i in range(0, len(l), size):
                yield dict(w, sched=l[:i] + l[i + size:])
            if size == 1 or len(l) > 400 and size <= len(l) // 16:
                break
            size //= 2
    for k, v in sorted(w['set'].items()):
        if k in ('fuel', 'clockRate', 'seed', 'clockBase', 'teamMax', 'replaySched'):
            continue
        if v:
            s = dict(w['set'])
            del s[k]
            yield dict(w, set=s)
    if w['set'].get('seed', 1) != 1 and not w.get('sched'):
        yield dict(w, set=dict(w['set'], seed=1))
    for pi, p in enumerate(w['procs']):
        a = p['argv']
        for i in range(1, len(a) - 1):
            for k in (1, 2):
                if i + k < len(a) and a[i].startswith('-'):
                    ps = list(w['procs'])
                    ps[pi] = dict(p, argv=a[:i] + a[i + k:])
                    yield dict(w, procs=ps)
    for path, d in sorted(w['files'].items()):
        if isinstance(d, tuple) or not path.endswith('.mesh'):
            continue
        t = d.decode('latin-1') if isinstance(d, bytes) else d
        m = re.search(r'^NT (\d+)$', t, re.M)
        if m and int(m.group(1)) > 1:
            n = int(m.group(1))
            for k in sorted({1, 2, n // 2, n - 1}):
                if 0 < k < n:
                    yield dict(w, files=dict(w['files'], **{path: (t[:m.start()] + 'NT %d' % k + t[m.end():]).encode('latin-1')}))
        for e in _mesh_edits(t):
            yield dict(w, files=dict(w['files'], **{path: e.encode('latin-1')}))
    for path in sorted(w['files']):
        if len(w['files']) > 1:
            f = dict(w['files'])
            del f[path]
            yield dict(w, files=f)
    for i, f in enumerate(w.get('faults') or []):
        n = f.get('nth', 0)
        for k in sorted({0, n // 2, n - n // 10 if n > 10 else n - 1}):
            if 0 <= k < n:
                l = list(w['faults'])
                l[i] = dict(f, nth=k)
                yield dict(w, faults=l)
        if f.get('sticky'):
            l = list(w['faults'])
            l[i] = dict(f, sticky=0)
            yield dict(w, faults=l)


def _claim_edits(c):
    m = module(c['prop'])
    if hasattr(m, 'edits'):
        yield from m.edits(c)
    if 'ws' in c:
        for i in range(len(c['ws']) - 1):
            yield dict(c, ws=c['ws'][:i] + c['ws'][i + 1:])
        for i, w in enumerate(c['ws']):
            for e in _world_edits(w):
                yield dict(c, ws=c['ws'][:i] + [e] + c['ws'][i + 1:])
    if 'w' in c:
        for e in _world_edits(c['w']):
            yield dict(c, w=e)


def minimise(claim, verdict, limit):
    ctx = Ctx()
    end = time.time() + limit
    tried = kept = 0
    progress = True
    seen = set()
    while progress and time.time() < end:
        progress = False
        for e in _claim_edits(claim):
            if time.time() > end:
                break
            k = hashlib.sha1(json.dumps(claim_to_json(e), sort_keys=True).encode()).digest()
            if k in seen:
                continue
            seen.add(k)
            tried += 1
            try:
                v, _ = evaluate(e, ctx)
            except Exception:
                continue
            if v and v[0] == verdict[0]:
                claim, verdict = e, v
                kept += 1
                progress = True
                break
    return claim, verdict, tried, kept


# ---------------------------------------------------------------- running a campaign

_W = {}


def _init(prop, seed, tier, deadline):
    _W.update(prop=prop, seed=seed, tier=tier, deadline=deadline, mod=module(prop))


def _case(idx):
    """One case: every claim it makes is judged; the first that fails is returned."""
    if time.time() > _W['deadline']:
        return idx, None
    rnd = random.Random('%s %d %d' % (_W['prop'], _W['seed'], idx))
    ctx = Ctx()
    out = dict(viol=None, claims=0, skip=0, err=None, sample=None)
    mod = _W['mod']
    try:
        for claim in mod.claims(idx, rnd, ctx, _W['tier']):
            if claim is None:
                out['skip'] += 1
                continue
            claim['prop'] = _W['prop']
            out['claims'] += 1
            ctx.trace = []
            v = mod.judge(claim, ctx)
            if out['sample'] is None and rnd.random() < .3:
                out['sample'] = describe(claim)
            if v and not known(_W['prop'], v):
                out['viol'] = (claim_to_json(claim), v)
                break
            if v:
                out.setdefault('known', {})[v[0]] = v
            if time.time() > _W['deadline']:
                break
    except (world.HostError, build.BuildError) as e:
        out['err'] = '%s: %s' % (type(e).__name__, str(e)[-1500:])
    except Exception:
        out['err'] = traceback.format_exc()[-2500:]
    out['stats'] = ctx.stats
    return idx, out


def describe(c):
    """A short form of a claim for the evidence file."""
    o = {k: v for k, v in c.items() if k not in ('w', 'ws', 'prop')}
    def short(w):
        return dict(prog=w['prog'], argv=[p['argv'][1:] for p in w['procs']], files={k: len(d[0] if isinstance(d, tuple) else d) for k, d in w['files'].items()},
                    set={k: v for k, v in w['set'].items() if k != 'fuel'}, faults=w.get('faults', [])[:4], clock=w.get('clock', [])[:6])
    if 'w' in c:
        o['w'] = short(c['w'])
    if 'ws' in c:
        o['ws'] = [short(w) for w in c['ws'][:4]]
    return o


def known_entries(prop):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*)/ (.*)$', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def known(prop, v):
    for cls, rx, text in known_entries(prop):
        if v[0] == cls and rx.search(v[1]):
            return text
    return None


def fresh_replay(path):
    r = subprocess.run([sys.executable, '-m', 'dst.replay', path], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def write_replay(prop, claim, verdict, h, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    o = dict(property=prop, violation=verdict, trace=h, claim=claim_to_json(claim))
    o.update(extra)
    s = json.dumps(o, indent=1, sort_keys=True)
    p = os.path.join(REPLAYS, '%s-%s.json' % (prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        f.write(s + '\n')
    return p


def campaign(prop, tier, seed, workers=None):
    mod = module(prop)
    plan = mod.PLAN[tier]
    t0 = time.time()
    try:
        for p in mod.PROGS:
            build.build(p)
    except build.BuildError as e:
        print('cannot build the simulator host from the working tree:\n' + str(e)[-3000:])
        return 2
    tb = time.time() - t0
    wall = float(os.environ.get('VERIF_WALL', plan['wall']))
    ncase = int(os.environ.get('VERIF_CASES', plan['cases']))
    deadline = t0 + tb + wall
    workers = workers or int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    print('%s %s: seed %d, %d cases, %d workers' % (prop, tier, seed, ncase, workers), flush=True)
    stats = Stats()
    tot = collections.Counter()
    samples, errs, viol, kn, flaky = [], [], None, {}, []
    pool = multiprocessing.get_context('fork').Pool(workers, _init, (prop, seed, tier, deadline))
    try:
        for idx, o in pool.imap(_case, range(ncase), chunksize=1):
            if o is None:
                tot['cases cut off by the wall limit'] += 1
                continue
            tot['cases'] += 1
            tot['claims'] += o['claims']
            tot['skipped'] += o['skip']
            stats.merge(o['stats'])
            if o['sample'] and len(samples) < 4:
                samples.append(dict(case=idx, **o['sample']))
            kn.update(o.get('known') or {})
            if o['err']:
                errs.append((idx, o['err']))
            if o['viol']:
                cj, v = o['viol']
                claim = claim_from_json(cj)
                try:
                    va, ha = evaluate(claim)
                    vb, hb = evaluate(claim)
                except Exception as e:
                    va = ha = hb = None
                    vb = repr(e)
                if va and ha == hb and va == vb:
                    path = write_replay(prop, claim, va, ha, dict(case=idx, seed=seed, tier=tier, minimised=dict(tried=0, kept=0)))
                    code, out = fresh_replay(path)
                    if code == 1:
                        viol = (idx, claim, va, path)
                        break
                    os.unlink(path)
                flaky.append((idx, v))
                print('case %d: a suspected violation did not repeat exactly and is not reported: %s | %s %s | %s %s' % (idx, v, va, ha, vb, hb))
                if len(flaky) > 10:
                    break
            if len(errs) > 200:
                break
    finally:
        pool.terminate()
        pool.join()
    took = time.time() - t0
    rc = 0
    vrep = []
    if viol:
        idx, claim, v, path = viol
        try:
            small, sv, tried, kept = minimise(claim, v, float(os.environ.get('VERIF_MINIMISE', plan.get('minimise', 45))))
        except Exception:                        # the unminimised replay stands
            print(traceback.format_exc()[-600:])
            small, sv, tried, kept = claim, v, 0, 0
        if kept:
            vc, hc = evaluate(small)
            if vc:
                p2 = write_replay(prop, small, vc, hc, dict(case=idx, seed=seed, tier=tier, minimised=dict(tried=tried, kept=kept)))
                code, out = fresh_replay(p2)
                if code == 1:
                    os.unlink(path)
                    v, path = vc, p2
                else:
                    os.unlink(p2)
        print('%s: %s' % (v[0], v[1]))
        print('case %d of seed %d; minimised in %d trials (%d edits kept)' % (idx, seed, tried, kept))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        vrep.append(dict(cls=v[0], what=v[1], replay=path, case=idx))
        rc = 1
    elif flaky:
        print('a suspected violation did not repeat: no verdict')
        rc = 2
    elif errs:
        rc = 2
        for i, e in errs[:3]:
            print('case %d: error of the check: %s' % (i, e))
    elif tot['skipped'] > 0.5 * (tot['claims'] + tot['skipped']) or not tot['claims']:
        print('too few usable cases: %s' % dict(tot))
        rc = 2
    for cls, v in sorted(kn.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, known(prop, v)))
    os.makedirs(EVIDENCE, exist_ok=True)
    hours = max(took - tb, 1e-6) / 3600
    cov = dict(
        evaluations=stats.c['runs'], distinct_nontrivial=len(stats.states), rule=mod.RULE, samples=samples or ([describe(viol[1])] if viol else ['none']),
        cases=dict(tot), simulated_runs_per_hour=int(stats.c['runs'] / hours), cases_per_hour=int(tot['cases'] / hours),
        simulated_seconds_on_the_clock=round(stats.simtime, 3), control_flow_edges_executed=stats.c['edges'],
        allocations_served=stats.c['allocations'], scheduling_switches=stats.c['switches'],
        faults={k: dict(configured=a, fired=b) for k, (a, b) in sorted(stats.faults.items())},
        endings={k[4:]: n for k, n in sorted(stats.c.items()) if k.startswith('end ')},
        varied_settings={k[4:]: n for k, n in sorted(stats.c.items()) if k.startswith('set ')},
        runs_by_program={k[5:]: n for k, n in sorted(stats.c.items()) if k.startswith('runs ')},
        probes=dict(sorted(stats.probes.items())),
        code_reached={k: dict(distinct_edges=bin(v).count('1')) for k, v in stats.cov.items()},
        distinct_state_measure='hash over the event trace, the final files and the endings of the processes of a run in which something was disturbed',
        real_code='every function of the programs under test, compiled from the working tree; libm; string and formatting functions of libc',
        stubbed='files and directories, stdio buffering, heap placement and contents, clock, time zone, environment, process end, and the OpenMP run time in the threaded builds',
        host_build_s=round(tb, 2), workers=workers)
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov, wall_s=round(took, 2),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), violations=len(vrep))
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s: %d cases, %d claims, %d runs, %d distinct states, %d skipped, %.0f s: %s' % (
        prop, tier, tot['cases'], tot['claims'], stats.c['runs'], len(stats.states), tot['skipped'], took,
        {0: 'held', 1: 'VIOLATED', 2: 'no verdict'}[rc]))
    return rc


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return campaign(prop, tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
