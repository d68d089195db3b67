"""Seeded search over many simulated runs, minimisation, replay and evidence."""
import copy
import gc
import hashlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import traceback

from . import boot, core, seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PERF = core.REAL_PERF
CHILD_TIMEOUT = 100


# ------------------------------------------------------------- one run
def make_world(plan, scratch, replay):
    from . import registry
    return registry.world_class(plan['prop'])(plan, scratch, replay)


def run_here(plan, replay):
    """One simulated run in this (expendable) process; returns the result record."""
    gc.disable()
    plan = copy.deepcopy(plan)
    scratch = boot.make_scratch('r')
    out, err = sys.stdout, sys.stderr
    cap = boot.StdCapture()
    res = dict(i=plan.get('i'), seed=plan['seed'])
    try:
        boot.ROOT_CAPTURE.records[:] = []
        seams.MemoryHandler.records[:] = []
        sys.stdout = sys.stderr = cap
        w = make_world(plan, scratch, replay)
        w.cap = cap
        w.run()
        s = w.sim
        res.update(viol=[list(v) for v in w.violations[:20]], decisions=s.decisions, faults=s.fault_counts, probe=s.probe,
                   steps=s.total_steps, switches=s.n_switch, sched=s.sched_hash.hexdigest()[:16],
                   trace=s.trace_hash.hexdigest()[:24], simtime=max(0.0, s.now - s.t_start), deadlock=s.deadlock,
                   over=s.over_steps, tasks=len(s.tasks), restarts=getattr(w, 'restarts', 0),
                   reqs=getattr(w, 'n_requests', lambda: 0)())
        if w.violations:
            res['log'] = s.log_lines[-600:]
    except BaseException:
        res['error'] = traceback.format_exc()
        res['out'] = ''.join(cap.text)[-2000:]
    finally:
        sys.stdout, sys.stderr = out, err
        core.SIM = None
        shutil.rmtree(scratch, ignore_errors=True)
    return res


# -------------------------------------------------------------- workers
def _write_all(fd, data):
    while data:
        n = seams._os['write'](fd, data)
        data = data[n:]


def _child(job, wfd):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(CHILD_TIMEOUT)
    from . import registry
    try:
        if 'plan' in job:
            plan = job['plan']
        else:
            plan = registry.plan(job['prop'], job['base'], job['i'])
        res = run_here(plan, job.get('replay', False))
        res['job'] = job.get('job')
        data = json.dumps(res).encode() + b'\n'
    except BaseException:
        data = json.dumps(dict(job=job.get('job'), error=traceback.format_exc())).encode() + b'\n'
    _write_all(wfd, data)
    os._exit(0)


def _worker(rfd, wfd):
    gc.collect()
    gc.freeze()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    f = seams._io_open(rfd, 'rb', closefd=False)
    while True:
        line = f.readline()
        if not line:
            os._exit(0)
        job = json.loads(line)
        pid = os.fork()
        if pid == 0:
            _child(job, wfd)
        _, status = os.waitpid(pid, 0)
        shutil.rmtree('%s/verif-sim.%07d.r' % (boot.scratch_base(), pid), ignore_errors=True)
        if status:
            _write_all(wfd, b'\n' + json.dumps(dict(job=job.get('job'), error='run ended with status %d (%s)' % (
                status, 'wall-clock limit' if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM else 'died')))
                .encode() + b'\n')


class Pool(object):
    def __init__(self, n):
        self.w = []
        for _ in range(n):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    for x in self.w:
                        seams._os['close'](x['to'])
                        seams._os['close'](x['from'])
                    seams._os['close'](w1)
                    seams._os['close'](r2)
                    _worker(r1, w2)
                finally:
                    os._exit(1)
            seams._os['close'](r1)
            seams._os['close'](w2)
            self.w.append(dict(pid=pid, to=w1, **{'from': r2}, buf=b'', busy=False))

    def run(self, jobs, on_result):
        """jobs: iterator of job dicts; on_result(res) returns True to stop handing out jobs."""
        it = iter(jobs)
        stop = False
        done = False
        while True:
            for x in self.w:
                if not x['busy'] and not stop and not done:
                    try:
                        j = next(it)
                    except StopIteration:
                        done = True
                        break
                    _write_all(x['to'], json.dumps(j).encode() + b'\n')
                    x['busy'] = True
            busy = [x for x in self.w if x['busy']]
            if not busy:
                return
            rs, _, _ = select.select([x['from'] for x in busy], [], [])
            for x in busy:
                if x['from'] not in rs:
                    continue
                d = seams._os['read'](x['from'], 1 << 20)
                if not d:
                    raise core.HarnessError('a worker died')
                x['buf'] += d
                while b'\n' in x['buf']:
                    line, x['buf'] = x['buf'].split(b'\n', 1)
                    if not line.strip():
                        continue
                    x['busy'] = False
                    try:
                        res = json.loads(line)
                    except ValueError:
                        continue
                    if on_result(res):
                        stop = True

    def map(self, jobs):
        out = {}
        for k, j in enumerate(jobs):
            j['job'] = k
        self.run(jobs, lambda r: out.__setitem__(r.get('job'), r) and False)
        return [out.get(k) for k in range(len(jobs))]

    def close(self):
        for x in self.w:
            seams._os['close'](x['to'])
        for x in self.w:
            os.waitpid(x['pid'], 0)


# ------------------------------------------------------------ minimiser
def has(res, prop, cls):
    return bool(res) and any(v[0] == prop and v[1] == cls for v in res.get('viol') or ())


def minimise(pool, plan, decisions, prop, cls, deadline):
    """Smallest plan and decision list found that still shows the violation, in replay mode."""
    cur = copy.deepcopy(plan)
    cur['forced'] = dict(decisions)
    n_runs = [0]

    def test(cands):
        """Index of the first candidate that still fails."""
        n_runs[0] += len(cands)
        for k, r in enumerate(pool.map([dict(plan=c, replay=True) for c in cands])):
            if has(r, prop, cls):
                return k
        return None
    if test([cur]) is None:
        return None, n_runs[0]

    def chunks(n):
        size = n
        while size >= 1:
            for a in range(0, n, size):
                yield a, min(n, a + size)
            if size == 1:
                break
            size = max(1, size // 2)

    def shrink(get, put):
        nonlocal cur
        again = True
        while again and PERF() < deadline:
            again = False
            items = get(cur)
            size = max(1, len(items) // 2)
            while items and PERF() < deadline:
                cands = []
                for a in range(0, len(items), size):
                    c = copy.deepcopy(cur)
                    keep = items[:a] + items[a + size:]
                    if put(c, keep) is not False:
                        cands.append(c)
                hit = None
                for b in range(0, len(cands), 16):
                    k = test(cands[b:b + 16])
                    if k is not None:
                        hit = b + k
                        break
                    if PERF() > deadline:
                        break
                if hit is not None:
                    cur = cands[hit]
                    items = get(cur)
                    size = max(1, min(size, len(items) // 2))
                    again = True
                elif size == 1:
                    break
                else:
                    size //= 2

    def put_forced(c, keep):
        c['forced'] = dict(keep)
    shrink(lambda c: sorted(c['forced'].items(), key=str), put_forced)

    def put_actors(c, keep):
        c['actors'] = keep
    shrink(lambda c: list(c['actors']), put_actors)

    def ops_of(c):
        return [(a['name'], op) for a in c['actors'] for op in a['ops']]

    def put_ops(c, keep):
        ids = set(op['id'] for _, op in keep)
        for a in c['actors']:
            a['ops'] = [op for op in a['ops'] if op['id'] in ids]
        c['actors'] = [a for a in c['actors'] if a['ops']]
    shrink(ops_of, put_ops)

    def put_final(c, keep):
        c['final'] = keep
    if cur.get('final'):
        shrink(lambda c: list(c['final']), put_final)
    shrink(lambda c: sorted(c['forced'].items(), key=str), put_forced)
    return cur, n_runs[0]


# ------------------------------------------------------------ known findings
def known_findings():
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with seams._io_open(path, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: '):
                    fields = {}
                    rest = line[7:]
                    for k in ('property', 'class'):
                        a = rest.index(k + '=') + len(k) + 1
                        fields[k] = rest[a:].split()[0]
                    a = rest.index('match="') + 7
                    b = rest.index('"', a)
                    fields['match'] = rest[a:b]
                    fields['what'] = rest[b + 1:].strip()
                    out.append(fields)
    return out


def is_known(v, known):
    for k in known:
        if k['property'] == v[0] and k['class'] == v[1] and k['match'] in v[2]:
            return k
    return None


# ---------------------------------------------------------------- the check
def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with seams._io_open(path + '.tmp', 'w', encoding='utf-8') as f:
        json.dump(obj, f, indent=1, sort_keys=True, ensure_ascii=False)
        f.write('\n')
    os.replace(path + '.tmp', path)


def replay_name(prop, res):
    return os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, res['seed']))


def check(prop, tier, base, workers=None, count=None, cap=None):
    from . import registry
    t0 = PERF()
    boot.init()
    registry.prepare(prop)
    n, soft = registry.budget(prop, tier)
    if count:
        n = count
    if cap:
        soft = cap
    known = known_findings()
    pool = Pool(workers or min(8, os.cpu_count() or 8))
    stats = dict(runs=0, errors=[], faults={}, probe={}, steps=0, switches=0, simtime=0.0, deadlocks=0, restarts=0, reqs=0, over=0)
    scheds, traces, nontrivial, samples = set(), set(), set(), []
    found = []
    known_seen = {}
    first = {}

    def jobs():
        for i in range(n):
            if PERF() - t0 > soft and i >= 40:
                return
            yield dict(prop=prop, base=base, i=i)

    def on(res):
        if res.get('error'):
            stats['errors'].append(res['error'])
            return len(stats['errors']) >= 25
        stats['runs'] += 1
        for k in ('faults', 'probe'):
            for a, b in res[k].items():
                stats[k][a] = stats[k].get(a, 0) + b
        for k in ('steps', 'switches', 'simtime', 'restarts', 'reqs'):
            stats[k] += res[k]
        stats['deadlocks'] += bool(res['deadlock'])
        stats['over'] += bool(res['over'])
        scheds.add(res['sched'])
        traces.add(res['trace'])
        if (res['switches'] > 2 * res['tasks'] or sum(res['faults'].values())) and (res['probe'] or res['reqs']):
            nontrivial.add(res['trace'])
        if len(samples) < 3 and res['faults'] or not samples:
            samples.append(dict(run=res['i'], seed=res['seed'], steps=res['steps'], switches=res['switches'], faults=res['faults'],
                                decisions=dict(sorted(res['decisions'].items())[:12]), observed=res['probe'],
                                simulated_seconds=round(res['simtime'], 3)))
        if len(first) < 4:
            first[res['i']] = res['trace']
        bad = []
        for v in res['viol']:
            k = is_known(v, known)
            if k is None:
                bad.append(v)
            else:
                known_seen[(v[0], v[1], k['match'])] = k
        if bad:
            res['viol'] = bad
            found.append(res)
            return True
        return False
    pool.run(jobs(), on)
    t_search = PERF() - t0
    # the same seeds again: the executions must be identical
    det = None
    if not found and first:
        again = pool.map([dict(prop=prop, base=base, i=i) for i in sorted(first)])
        det = sum(1 for r, i in zip(again, sorted(first)) if r and r.get('trace') == first[i])
    code, path = 0, None
    lines = []
    for k in known_seen.values():
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    info = None
    if found:
        found.sort(key=lambda r: r['i'])
        res = found[0]
        v = res['viol'][0]
        plan = registry.plan(prop, base, res['i'])
        small, nruns = minimise(pool, plan, res['decisions'], v[0], v[1], PERF() + (45 if tier == 'quick' else 240))
        rep = dict(property=v[0], cls=v[1], run=res['i'], base=base, seed=res['seed'])
        if small is None:
            rep.update(plan=plan, replay=False, note='not reproducible from its decision list; replayed from its seed')
        else:
            rep.update(plan=small, replay=True)
        final = pool.map([dict(plan=rep['plan'], replay=rep['replay'])])[0] or {}
        vs = [x for x in final.get('viol') or () if x[0] == v[0] and x[1] == v[1]]
        rep.update(detail=(vs or [v])[0][2], trace=final.get('trace'), decisions=final.get('decisions'), log=final.get('log'),
                   faults=final.get('faults'), repo=boot.REPO)
        path = replay_name(prop, res)
        write_json(path, rep)
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay', path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONHASHSEED='0'))
        exact = p.returncode == 1 and b'identical' in p.stdout
        info = dict(seed=res['seed'], run=res['i'], cls=v[1], detail=rep['detail'], minimised_runs=nruns,
                    operations=sum(len(a['ops']) for a in rep['plan'].get('actors', ())), decisions=len(rep['plan'].get('forced', {})),
                    replay=path, replay_identical=exact)
        lines.append('%s: %s [%s] (run %d, seed %d; minimised to %d operations, %d scheduling/fault decisions; replay %s)' % (
            prop, rep['detail'], v[1], res['i'], res['seed'], info['operations'], info['decisions'],
            'identical' if exact else 'NOT identical'))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    pool.close()
    wall = PERF() - t0
    hours = max(t_search, 0.001) / 3600.0
    ev = dict(property=prop, tier=tier, seed=base if isinstance(base, int) else 0, level='exploration', wall_s=round(wall, 2),
              violations=len(found),
              coverage=dict(
                  evaluations=stats['runs'], distinct_nontrivial=len(nontrivial),
                  rule=registry.rule(prop), samples=samples,
                  runs_per_hour=int(stats['runs'] / hours), seeds_per_hour=int(stats['runs'] / hours),
                  simulated_seconds=round(stats['simtime'], 1), scheduling_points=stats['steps'], context_switches=stats['switches'],
                  requests_executed=stats['reqs'], restarts=stats['restarts'], faults_injected=stats['faults'],
                  distinct_interleavings=len(scheds), distinct_executions=len(traces), observed=stats['probe'],
                  deadlocks=stats['deadlocks'], step_limit_hit=stats['over'], harness_errors=len(stats['errors']),
                  determinism='%s of %d re-executed seeds gave the identical event trace' % (det, len(first)) if det is not None else
                              'not repeated (violation found)',
                  real_code=registry.real(prop), stubbed=registry.stubbed(prop)),
              assumptions=registry.assumptions(prop))
    if info:
        ev['coverage']['violation'] = info
    write_json(os.path.join(VERIF, 'evidence', prop + '.json'), ev)
    for ln in lines:
        print(ln)
    print('%s %s: %d runs in %.0f s (%d distinct non-trivial executions, %d interleavings, %d faults injected, %.0f simulated s), '
          '%d violations, %d harness errors' % (prop, tier, stats['runs'], wall, len(nontrivial), len(scheds),
                                               sum(stats['faults'].values()), stats['simtime'], len(found), len(stats['errors'])))
    if code and stats['errors']:
        sys.stderr.write('harness error in another run:\n%s\n' % stats['errors'][0])
    if code == 0 and (stats['errors'] or stats['runs'] == 0):
        sys.stderr.write('harness error (no verdict):\n%s\n' % (stats['errors'] or ['no runs'])[0])
        return 2
    return code


def replay(path):
    boot.init()
    from . import registry
    with seams._io_open(path, encoding='utf-8') as f:
        rep = json.load(f)
    registry.prepare(rep['property'])
    pool = Pool(1)
    res = pool.map([dict(plan=rep['plan'], replay=rep['replay'])])[0]
    pool.close()
    if res.get('error'):
        sys.stderr.write(res['error'])
        return 2
    vs = [v for v in res['viol'] if v[0] == rep['property'] and v[1] == rep['cls']]
    for v in vs[:3]:
        print('%s: %s [%s]' % (v[0], v[2], v[1]))
    print('trace %s (%s)' % (res['trace'], 'identical' if res['trace'] == rep['trace'] else 'recorded was %s' % rep['trace']))
    if vs:
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    print('not reproduced on this tree')
    return 0


# ------------------------------------------------------------ determinism
def traces(base, n, workers):
    """One line per run: property, run number, trace hash."""
    from . import registry
    boot.init()
    out = []
    for prop in registry.ALL:
        registry.prepare(prop)
    pool = Pool(workers)
    jobs = [dict(prop=prop, base=base, i=i) for i in range(n) for prop in registry.ALL]
    for j, r in zip(jobs, pool.map(jobs)):
        out.append('%s %d %s' % (j['prop'], j['i'], (r or {}).get('trace') or 'ERROR %s' % (r or {}).get('error')))
    pool.close()
    return out


def selftest(base, n):
    """The same seeds in fresh interpreters with other worker counts and hash seeds give the same event traces."""
    logs = []
    for workers, hs in ((8, '0'), (5, '0'), (3, '77')):
        p = subprocess.run([sys.executable, '-u', os.path.join(VERIF, 'check.py'), '--traces', str(base), str(n), str(workers)],
                           stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=hs, _VERIF_REEXEC='1', PYTHONDONTWRITEBYTECODE='1'))
        logs.append(p.stdout.decode().splitlines())
    bad = [x for x in zip(*logs) if len(set(x)) != 1 or 'ERROR' in x[0]]
    print('%d runs executed three times (8, 5 and 3 workers, two hash seeds): %d differ' % (len(logs[0]), len(bad)))
    for x in bad[:10]:
        print('   ' + ' | '.join(x))
    return 1 if bad or not logs[0] or len(set(map(len, logs))) != 1 else 0
