#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] | check.py --replay FILE | check.py --setup

Builds the readers of /repo's working tree with every goroutine, channel and lock operation routed through the
controlled scheduler (mc/inst, mc/vsched), runs the enumerators of mc/harness for the property and writes
evidence/<property>.json."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
MOD = 'github.com/asap2Go/calibrationReader/zzverif'
T0 = time.time()
NPROC = os.cpu_count() or 1

# per property: processor counts, race stage, seconds for the main stage
CONF = {
    'C01': dict(cpus=[1, 2, 3, 4, 5, 6, 7, 8, 12, 16], race=['schedules'], level_cpus=[2, 3]),
    'C02': dict(cpus=[1, 2, 3, 4, 5, 6, 7, 8, 12, 16], race=['schedules'], level_cpus=[2]),
    'C03': dict(cpus=[1, 2, 3, 4, 5, 6, 7, 8, 12, 16], race=['schedules'], level_cpus=[2, 3]),
    'C04': dict(cpus=[1, 2, 3, 4, 5, 6, 7, 8, 12, 16], race=['schedules'], level_cpus=[2]),
    'C05': dict(cpus=[1, 2, 3, 4, 5, 6, 7, 8, 12, 16], race=['hex-schedules', 's19-schedules'], level_cpus=[2]),
    'C06': dict(cpus=[1, 2, 3, 4, 5, 6, 7, 8], race=['schedules'], level_cpus=[1, 2]),
    'C07': dict(cpus=[1, 2, 3, 4, 5, 6, 7, 8], race=['schedules', 'twins'], level_cpus=[1, 2]),
    'C08': dict(cpus=[1, 2, 3, 4, 5, 6, 7, 8], level_cpus=[1]),
    'C09': dict(cpus=[1, 2, 3, 4, 8], level_cpus=[1]),
    'C10': dict(cpus=[1, 2, 3, 4, 8], level_cpus=[1]),
    'C11': dict(cpus=[1, 2, 3, 4, 5, 6, 7, 8], race=['schedules'], level_cpus=[1, 2]),
    'C12': dict(cpus=[1, 2, 3, 4, 8]),
    'C13': dict(cpus=[1, 2, 3, 4, 5, 6, 7, 8], race=['schedules'], level_cpus=[1, 2]),
    'C14': dict(cpus=[1, 2, 3, 4, 8], race=['schedules'], level_cpus=[1, 2]),
    'C15': dict(cpus=[1, 2, 3, 4, 8], race=['schedules'], level_cpus=[1, 2]),
    'C16': dict(cpus=[1, 2, 4]),
    'C17': dict(cpus=[1, 2]),
    'C18': dict(cpus=[1, 2, 3, 4, 5, 6, 7, 8], race=['schedules', 'twins', 'features'], level_cpus=[1, 2, 3]),
    # the functions that turn bytes into values are not exported: mc/export gives the harness access
    'C19': dict(cpus=[1], tcpus=[1], export=True),
    'C20': dict(cpus=[1], tcpus=[1], export=True),
    'C21': dict(cpus=[1], tcpus=[1], export=True),
    'C22': dict(cpus=[1], tcpus=[1], export=True),
}
# many processors, for the families whose cases depend on how the work is split
MANY = [24, 33, 64, 128]
MANY_FAMILIES = {
    'C01': ['processors', 'splits'], 'C02': ['processors', 'several'], 'C03': ['processors', 'splits'], 'C04': ['processors', 'several'],
    'C05': ['hex-processors', 's19-processors'], 'C06': ['spans', 'uniform'], 'C07': ['splits', 'many'], 'C11': ['position'],
    'C12': ['workers'], 'C13': ['counts', 'layout'], 'C14': ['sizes'], 'C18': ['many', 'large'],
}
THOROUGH_CPUS = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16]


def env(extra=None):
    e = dict(os.environ)
    p = '/opt/veriftools/go1.27.3/bin'
    if os.path.isdir(p):
        e['PATH'] = p + ':' + e.get('PATH', '/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=vendor', CGO_ENABLED='1')
    e.pop('VERIF_NUMCPU', None)
    e.update(extra or {})
    return e


def log(*a):
    print('[%.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Build:
    def __init__(self, work):
        self.work = work
        self.inst = None
        self.prop = None
        self.note = ''

    def tool(self):
        if self.inst:
            return self.inst
        out = os.path.join(self.work, 'inst')
        r = subprocess.run(['go', 'build', '-o', out, '.'], cwd=os.path.join(VERIF, 'mc/inst'), env=env({'GOFLAGS': '-mod=mod'}), capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError('instrumenter does not build: ' + r.stderr)
        self.inst = out
        return out

    def build(self, name, race=False, yields=None, plain=False):
        """returns the path of the harness binary"""
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        repl = {}
        if not plain:
            cmd = [self.tool(), '-repo', REPO, '-out', os.path.join(d, 'src')]
            if yields:
                cmd += ['-yield', ','.join(yields)]
            r = subprocess.run(cmd, cwd=REPO, env=env(), capture_output=True, text=True)
            if r.returncode != 0:
                raise RuntimeError('instrumentation failed: ' + r.stderr)
            repl = json.load(open(os.path.join(d, 'src', 'replace.json')))
        for p in ('vsched', 'vsync', 'vatomic', 'harness'):
            src = os.path.join(VERIF, 'mc', p)
            for f in sorted(os.listdir(src)):
                if f.endswith('.go'):
                    repl[os.path.join(REPO, 'zzverif', p, f)] = os.path.join(src, f)
        tags = []
        if self.prop and CONF[self.prop].get('export'):
            f = self.prop.lower() + '.go'
            repl[os.path.join(REPO, 'zz_verif_' + f)] = os.path.join(VERIF, 'mc', 'export', f)
            tags = ['-tags', 'v' + self.prop[1:]]
        ov = os.path.join(d, 'overlay.json')
        json.dump({'Replace': repl}, open(ov, 'w'), indent=1)
        out = os.path.join(d, 'harness')
        cmd = ['go', 'build'] + (['-race'] if race else []) + tags + ['-overlay', ov, '-o', out, MOD + '/harness']
        r = subprocess.run(cmd, cwd=REPO, env=env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError('build failed: ' + r.stderr[-3000:])
        return out


def scratch_root():
    for d in ('/dev/shm', tempfile.gettempdir(), VERIF):
        try:
            return tempfile.mkdtemp(prefix='verif-', dir=d)
        except OSError:
            pass
    raise RuntimeError('no scratch directory')


class Runner:
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.scratch = prop, tier, scratch
        self.n = 0
        self.procs = set()

    def run(self, binary, cpu, shard='0/1', secs=240, only=None, family=None, plain=False, sched=None, race=False, hang=30, explore=False):
        d = tempfile.mkdtemp(prefix='r', dir=self.scratch)
        out, status = os.path.join(d, 'out.json'), os.path.join(d, 'status')
        sub = os.path.join(d, 'w')
        os.makedirs(sub)
        cmd = [binary, '-prop', self.prop, '-tier', self.tier, '-shard', shard, '-dir', sub, '-out', out, '-status', status, '-secs', str(secs), '-hang', str(hang)]
        if only:
            cmd += ['-only', only]
        if family:
            cmd += ['-family', family]
        if explore:
            cmd += ['-explore']
        if sched:
            cmd += ['-schedule', ','.join(map(str, sched))]
        if plain:
            cmd += ['-plain']
            cmd = ['taskset', '-c', ','.join(str(i) for i in sorted(os.sched_getaffinity(0))[:cpu])] + cmd
        ex = {'VERIF_NUMCPU': str(cpu)}
        if not plain:
            ex['GOMAXPROCS'] = '1'
        if race:
            ex['GORACE'] = 'halt_on_error=0 exitcode=0 history_size=3 log_path=' + os.path.join(d, 'race')
        p = subprocess.Popen(cmd, env=env(ex), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
        self.procs.add(p)
        try:
            _, err = p.communicate(timeout=secs + 240)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            _, err = p.communicate()
        self.procs.discard(p)
        r = dict(cpu=cpu, shard=shard, rc=p.returncode, err=err[-4000:], res=None, case=None, races=[])
        if p.returncode == 0 and os.path.exists(out):
            r['res'] = json.load(open(out))
        else:
            try:
                r['case'] = open(status).readline().strip()
            except OSError:
                pass
        for f in os.listdir(d):
            if f.startswith('race.'):
                r['races'] += parse_races(open(os.path.join(d, f), errors='replace').read())
        shutil.rmtree(d, ignore_errors=True)
        return r


def parse_races(text):
    """list of (frozenset of 'file:line' of both accesses, text), harness-internal reports left out"""
    out = []
    for rep in text.split('WARNING: DATA RACE')[1:]:
        rep = rep.split('==================')[0]
        acc = []
        own = True
        for part in re.split(r'\n\n', rep):
            if not re.match(r'\s*(Read|Write|Previous|Atomic)', part.strip('\n')):
                continue
            frames = re.findall(r'^\s+(\S+?):(\d+) \+0x', part, re.M)
            for f, _ in frames:
                if f.startswith(REPO + '/') and '/zzverif/' not in f:
                    break
                if '/zzverif/vsched/' in f or '/zzverif/vsync/' in f:
                    own = False
            fr = [(f, l) for f, l in frames if f.startswith(REPO + '/') and '/zzverif/' not in f]
            acc.append('%s:%s' % fr[0] if fr else (('%s:%s' % frames[0]) if frames else '?'))
        inrepo = [a for a in acc if a.startswith(REPO + '/') and '/zzverif/' not in a]
        if own and inrepo:
            out.append((frozenset(inrepo), rep.strip()))
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        return setup()
    if args and args[0] == '--replay':
        return replay(args[1])
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(prop, tier)


def workdir(name):
    d = os.path.join(VERIF, '.build', '%s-%d' % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def setup():
    w = workdir('setup')
    try:
        b = Build(w)
        try:
            binary = b.build('main')
            b.build('race', race=True)
        except RuntimeError as e:
            # each check decides for itself what it can still do with this tree
            print('setup: ' + str(e)[:500])
            return 0
        # the reduced exploration must find the outcomes of the unreduced one on small programs
        out = os.path.join(w, 'selftest.json')
        d = os.path.join(w, 'selftest')
        os.makedirs(d)
        r = subprocess.run([binary, '-prop', 'selftest', '-dir', d, '-out', out], env=env({'VERIF_NUMCPU': '2', 'GOMAXPROCS': '1'}), capture_output=True, text=True)
        if r.returncode != 0 or json.load(open(out))['violations']:
            print('selftest of the scheduler failed: ' + (open(out).read()[:2000] if os.path.exists(out) else r.stderr[-2000:]))
            return 1
        print('setup ok')
        return 0
    finally:
        shutil.rmtree(w, ignore_errors=True)


def known_keys(prop):
    keys = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys


def check(prop, tier):
    conf = CONF[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work, scratch = workdir(prop), scratch_root()
    viol, known = [], {}
    total, runs = {}, []
    cov = {}
    notes = []
    keys = known_keys(prop)
    budget = conf.get('secs', 240) if tier == 'quick' else conf.get('tsecs', 3600)
    run = Runner(prop, tier, scratch)
    try:
        b = Build(work)
        b.prop = prop
        plain = False
        try:
            binary = b.build('main')
        except RuntimeError as e:
            notes.append('the controlled build is not possible (%s); free-running fallback' % str(e)[:300])
            log(notes[-1])
            plain = True
            try:
                binary = b.build('plain', plain=True)
            except RuntimeError as e2:
                # the tree does not compile with the harness: nothing was decided
                log(str(e2))
                notes.append('the harness does not build against this tree: ' + str(e2)[:500])
                binary = None
        log('built')
        cpus = conf['cpus'] if tier == 'quick' else sorted(set(conf['cpus'] + conf.get('tcpus', THOROUGH_CPUS)))
        jobs = []
        if binary:
            nsh = conf.get('shards', max(1, -(-2 * NPROC // len(cpus))))
            if plain:
                cpus = [c for c in cpus if c <= len(os.sched_getaffinity(0))]
                nsh = 1
            for s in range(nsh):
                for c in cpus:
                    jobs.append(dict(cpu=c, shard='%d/%d' % (s, nsh)))
            if not plain:
                jobs += [dict(cpu=c, shard='0/1', family=f) for f in MANY_FAMILIES.get(prop, []) for c in MANY]
        deadline = time.time() + budget
        if plain:
            deadline = time.time() + min(budget, 200)

        def one(j):
            left = deadline - time.time()
            # later jobs must not starve: a job may use what is left divided by the rounds still to come
            if left <= 1:
                return dict(j, rc=0, res=None, skipped=True, races=[])
            return run.run(binary, j['cpu'], j['shard'], secs=max(2, left), plain=plain, family=j.get('family'))
        complete = True
        for r in each(run, one, jobs, 1 if plain else NPROC):
            if r.get('skipped'):
                complete = False
                continue
            if r['res'] is None:
                complete = False
                v = crash(run, binary, r, plain)
                if v:
                    viol.append(v)
            else:
                add(total, r['res'], runs, r)
                complete = complete and r['res']['complete'] and not r['res']['cases_capped']
                for v in r['res']['violations'] or []:
                    viol.append(dict(v, stage='main', plain=plain))
            if any(v.get('case', '') not in keys for v in viol):
                complete = False
                break
        log('main stage done')
        # race stage: the same cases with the race detector; what races is then explored as visible operations
        races = {}
        if conf.get('race') and binary and not plain and not viol:
            races, rv, rt, rnote = race_stage(b, run, prop, tier, conf, total, runs, 120 if tier == 'quick' else 1500)
            viol += rv
            notes += rnote
            complete = complete and rt
        reported = []
        for v in viol:
            k = v.get('case', '')
            if k in keys:
                known[k] = keys[k]
            else:
                reported.append(v)
        for k, t in known.items():
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, t))
        cov = coverage(prop, total, runs, sorted(set(cpus + ([] if plain or not binary else MANY if prop in MANY_FAMILIES else []))), complete, plain, races, notes)
        ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
                  assumptions=assumptions(prop), wall_s=round(time.time() - T0, 2), violations=len(reported))
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
        if reported:
            v = reported[0]
            rp = os.path.join(VERIF, 'evidence', 'replay', prop + '.json')
            json.dump(dict(property=prop, tier=tier, violation=v, others=[dict(case=o.get('case'), msg=o.get('msg')) for o in reported[1:20]],
                           how='python3 /verif/check.py --replay ' + rp), open(rp, 'w'), indent=1)
            print('case %s (%s processors): %s' % (v.get('case'), v.get('numcpu'), str(v.get('msg'))[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            return 1
        log('held on everything explored; exhaustive within the bounds: %s' % complete)
        return 0
    finally:
        for p in list(run.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)


def each(run, fn, jobs, workers):
    """the results of fn over jobs as they come in; leaving the loop early drops what has not started and ends what runs"""
    stop = []
    ex = ThreadPoolExecutor(max_workers=workers)
    fs = [ex.submit(lambda j=j: None if stop else fn(j)) for j in jobs]
    try:
        for f in as_completed(fs):
            if f.result() is not None:
                yield f.result()
    finally:
        stop.append(1)
        for p in list(run.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        ex.shutdown()


def crash(run, binary, r, plain, yields=None):
    """a process ended abnormally: confirm with the single case"""
    case = r.get('case')
    log('process for cpu=%s shard=%s ended with %s in case %s: %s' % (r['cpu'], r['shard'], r['rc'], case, r['err'][:600]))
    if not case or r['rc'] == 4:
        return None
    what = 'endless loop or deadlock' if r['rc'] == 7 else 'memory exhausted' if r['rc'] == 8 else 'the process crashed'
    n = 0
    last = None
    with ThreadPoolExecutor(max_workers=2) as ex:
        again = list(ex.map(lambda i: run.run(binary, r['cpu'], only=case, secs=100, plain=plain, hang=45), range(2)))
    for q in again:
        if q['res'] is None and q['rc'] != 4:
            n += 1
            last = q
        elif q['res'] and q['res']['violations']:
            return dict(q['res']['violations'][0], stage='main', plain=plain)
    if n == 0:
        log('not confirmed')
        return None
    return dict(case=case, numcpu=r['cpu'], msg=what + ': ' + (last['err'] or '')[:1500], stage='main', plain=plain, repeat='%d' % n)


def race_stage(b, run, prop, tier, conf, total, runs, secs):
    notes, viol, races = [], [], {}
    complete = True
    try:
        rb = b.build('race', race=True)
    except RuntimeError as e:
        return races, viol, False, ['race detector build not possible: ' + str(e)[:300]]
    log('race build done')
    jobs = [(c, f, s) for f in conf['race'] for c in conf['level_cpus'] for s in range(conf.get('rshards', 4))]
    n = conf.get('rshards', 4)

    def one(j):
        return run.run(rb, j[0], '%d/%d' % (j[2], n), secs=secs, family=j[1], race=True, hang=120)
    rx = 0
    for r in each(run, one, jobs, NPROC):
        if r['res'] is None:
            complete = False
            v = crash(run, rb, r, False)
            if v:
                viol.append(v)
                break
            continue
        rx += r['res']['execs']
        complete = complete and r['res']['complete']
        for v in r['res']['violations'] or []:
            viol.append(dict(v, stage='race'))
        for k, t in r['races']:
            races.setdefault(k, t)
    log('race stage done')
    total['race_execs'] = rx
    if races and not viol:
        ys = sorted(set(x for k in races for x in k))
        notes.append('unsynchronised accesses at ' + ', '.join(ys) + '; explored as visible operations')
        log(notes[-1])
        if prop == 'C18':
            k, t = sorted(races.items(), key=lambda z: sorted(z[0]))[0]
            viol.append(dict(case='race/' + '+'.join(sorted(k)), numcpu=conf['level_cpus'][0], msg='data race\n' + t[:3000], stage='race-report'))
            return races, viol, complete, notes
        try:
            yb = b.build('yield', yields=ys)
        except RuntimeError as e:
            return races, viol, False, notes + [str(e)[:300]]

        def two(j):
            return run.run(yb, j[0], '%d/%d' % (j[2], n), secs=secs, family=j[1], explore=True)
        for r in each(run, two, jobs, NPROC):
            if r['res'] is None:
                complete = False
                v = crash(run, yb, r, False)
                if v:
                    viol.append(v)
                    break
                continue
            add(total, r['res'], runs, r)
            for v in r['res']['violations'] or []:
                viol.append(dict(v, stage='yield', yields=ys))
    return races, viol, complete, notes


SUM = ['cases', 'execs', 'sleep_cut', 'states', 'transitions', 'compared', 'cases_all_schedules', 'cases_capped', 'diverged']
MAX = ['max_steps', 'max_threads', 'max_execs_one_case', 'distinct_outcomes']


def add(total, res, runs, r):
    for k in SUM:
        total[k] = total.get(k, 0) + res[k]
    for k in MAX:
        total[k] = max(total.get(k, 0), res[k])
    f = total.setdefault('families', {})
    for k, v in res['families'].items():
        f[k] = f.get(k, 0) + v
    s = total.setdefault('samples', [])
    for x in (res['samples'] or [])[:2]:
        if len(s) < 12:
            s.append('processors=%d %s' % (r['cpu'], x))
    if res.get('unsupported'):
        total['unsupported'] = res['unsupported']
    if res['slowest_ms'] > total.get('slowest_ms', -1):
        total['slowest_ms'], total['slowest'] = res['slowest_ms'], res['slowest']


def coverage(prop, total, runs, cpus, complete, plain, races, notes):
    return dict(states=total.get('states', 0), transitions=total.get('transitions', 0),
                traces_validated_against_impl=total.get('compared', 0), exhaustive=bool(complete and not plain),
                cases=total.get('cases', 0), cases_with_all_schedules=total.get('cases_all_schedules', 0),
                executions=total.get('execs', 0), executions_cut_as_equivalent=total.get('sleep_cut', 0),
                cases_whose_schedules_were_capped=total.get('cases_capped', 0),
                diverged=total.get('diverged', 0),
                executions_with_race_detector=total.get('race_execs', 0), races=len(races),
                families=total.get('families', {}), processor_counts=cpus, distinct_outcomes=total.get('distinct_outcomes', 0),
                longest_execution_steps=total.get('max_steps', 0), most_goroutines=total.get('max_threads', 0),
                most_schedules_of_one_case=total.get('max_execs_one_case', 0), slowest_case=total.get('slowest', ''), slowest_case_ms=total.get('slowest_ms', 0),
                controlled_scheduler=not plain, notes=notes, samples=total.get('samples', []),
                what='states: scheduling states visited; transitions: visible operations executed by the real code; '
                     'traces_validated_against_impl: complete executions of the real code compared with the reference model')


def assumptions(prop):
    return ['goroutines interact only through channels, locks, atomics and memory the race detector watches',
            'the processor count is the only thing the code learns from the machine',
            'inputs outside the enumerated families are not covered']


def replay(path):
    a = json.load(open(path))
    v, prop, tier = a['violation'], a['property'], a['tier']
    work, scratch = workdir('replay'), scratch_root()
    try:
        b = Build(work)
        b.prop = prop
        if v.get('stage') == 'race-report':
            print('run the check again: the race is reported by the race detector')
            return check(prop, tier)
        binary = b.build('replay', yields=v.get('yields'), plain=bool(v.get('plain')))
        r = Runner(prop, tier, scratch).run(binary, v['numcpu'], only=v['case'], sched=v.get('schedule'), plain=bool(v.get('plain')))
        bad = r['res'] is None or bool(r['res']['violations'])
        print(json.dumps(r['res'] and r['res']['violations'], indent=1) if r['res'] else r['err'])
        print('reproduced' if bad else 'not reproduced')
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
