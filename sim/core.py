"""Deterministic scheduler: real threads, released one at a time.

Every choice is drawn through Sim.pick() / the step-indexed schedule and is
keyed by (task name, tag, per-task counter), so that one seed is one execution
and a recorded, sparse decision list replays it.  A decision that is absent
means the benign default (no switch, no fault).
"""
import _thread
import gc
import hashlib
import random as _random
import re
import sys
import tempfile
import time as _real_time

SCRATCH = re.compile(r'verif-sim\.\d+|(?<= at )0x[0-9a-f]+')

REAL_LOCK = _thread.allocate_lock
REAL_IDENT = _thread.get_ident
REAL_TIME = _real_time.time
REAL_GMTIME = _real_time.gmtime
REAL_LOCALTIME = _real_time.localtime
REAL_STRFTIME = _real_time.strftime
REAL_PERF = _real_time.perf_counter

SIM = None          # the active simulation, if any


def sim():
    return SIM


class SimKilled(BaseException):
    """The simulated process of this task has crashed."""


class SimStop(BaseException):
    """The run is over (step limit or deadlock)."""


class HarnessError(Exception):
    pass


class Task(object):
    def __init__(self, sim, name, fn, node):
        self.sim, self.name, self.fn, self.node = sim, name, fn, node
        self.sem = REAL_LOCK()
        self.sem.acquire()
        self.ident = None
        self.step = 0
        self.next_special = 1 << 60
        self.special_q = []
        self.state = 'ready'
        self.wake_at = None
        self.killed = False
        self.nopre = 0
        self.counters = {}
        self.rngs = {}
        self.exc = None
        self.result = None
        self.rec = None          # request record, for server tasks
        self.inc = None          # process incarnation, for server tasks
        self.waiters = []
        self.started = False
        self.entropy = []
        self.idx = 0

    def count(self, tag):
        n = self.counters.get(tag, 0)
        self.counters[tag] = n + 1
        return n


class Sim(object):
    MAX_STEPS = 3000000

    def __init__(self, seed, knobs, forced=None, replay=False, probs=None):
        global SIM
        self.seed = seed
        self.knobs = knobs
        self.replay = replay
        self.forced = dict(forced or {})
        self.probs = probs or {}
        self.decisions = {}           # sparse record of non-default choices made
        self.fault_counts = {}
        self.probe = {}
        self.tasks = []
        self.cur = None
        self.now = 1000000000.0       # replaced by the world
        self.t_start = self.now
        self.seq = 0
        self.total_steps = 0
        self.n_switch = 0
        self.trace_hash = hashlib.sha256()
        self.sched_hash = hashlib.sha256()
        self.deadlock = False
        self.over_steps = False
        self.stopping = False
        self.main_sem = REAL_LOCK()
        self.main_sem.acquire()
        self.log_lines = []
        self.fault_budget = knobs.get('fault_budget', 10 ** 9)
        self.faults_on = True
        self.harness_error = None
        self.clock = None
        self.entropy_seen = {}
        self.open_files = []
        self.main_rng = _random.Random('%s/main' % seed)
        _random.seed('%s/module' % seed)
        tempfile._name_sequence = None
        tempfile.tempdir = '/tmp'
        self.forced_steps = {}
        for k, v in self.forced.items():
            task, tag, n = k.rsplit('|', 2)
            if tag in ('s', 'crash', 'exc'):
                self.forced_steps.setdefault(task, []).append((int(n), tag, v))
        for lst in self.forced_steps.values():
            lst.sort(key=lambda x: (x[0], x[1]))
        SIM = self

    # ---- randomness -------------------------------------------------
    def rng(self, name, tag):
        return _random.Random('%s/%s/%s' % (self.seed, name, tag))

    def task_rng(self, t, tag):
        r = t.rngs.get(tag)
        if r is None:
            r = t.rngs[tag] = self.rng(t.name, tag)
        return r

    def pick(self, tag, n, p=None, weights=None):
        """0 (benign) or 1..n-1; p is the probability of a non-benign value."""
        t = self.cur
        name = t.name if t is not None else 'main'
        if t is None:
            return 0
        i = t.count(tag)
        key = '%s|%s|%d' % (name, tag, i)
        if key in self.forced:
            v = self.forced[key]
            if not isinstance(v, int) or not 0 <= v < n:
                v = 0
        elif self.replay or not self.faults_on:
            v = 0
        else:
            if p is None:
                p = self.probs.get(tag, 0.0)
            if p <= 0.0:
                v = 0
            else:
                r = self.task_rng(t, tag)
                v = 0
                if r.random() < p:
                    if weights:
                        v = 1 + r.choices(range(n - 1), weights)[0]
                    else:
                        v = r.randrange(1, n)
        if v:
            self.decisions[key] = v
        return v

    def fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1
        self.ev('fault', kind)
        t = self.cur
        if t is not None and t.rec is not None:
            t.rec['faults'].append(kind)

    def hit(self, name, n=1):
        self.probe[name] = self.probe.get(name, 0) + n

    # ---- event log ---------------------------------------------------
    def ev(self, *what):
        self.seq += 1
        t = self.cur
        line = '%d %s %s' % (self.seq, t.name if t else '-', ' '.join(str(w) for w in what))
        if 'verif-sim.' in line or ' at 0x' in line:
            line = SCRATCH.sub('~', line)
        self.trace_hash.update(line.encode('utf-8', 'backslashreplace') + b'\n')
        if len(self.log_lines) < 4000:
            self.log_lines.append(line)
        return self.seq

    # ---- tasks ---------------------------------------------------------
    def spawn(self, name, fn, node='client', inc=None, delay=None):
        t = Task(self, name, fn, node)
        t.inc = inc
        t.idx = len(self.tasks)
        if delay is not None:
            t.state = 'timed'
            t.wake_at = self.now + delay
        self.tasks.append(t)
        self._arm(t)
        return t

    def _arm(self, t):
        q = [x for x in self.forced_steps.get(t.name, ())]
        t.special_q = q
        if not self.replay and self.knobs.get('preempt_mean'):
            r = self.task_rng(t, 'preempt')
            t.pre_next = 1 + int(r.expovariate(1.0 / self.knobs['preempt_mean']))
        else:
            t.pre_next = 1 << 60
        t.next_special = min(q[0][0] if q else 1 << 60, t.pre_next)

    def _boot(self, t):
        t.ident = REAL_IDENT()
        t.sem.acquire()
        try:
            if not t.killed and not self.stopping:
                t.result = t.fn()
        except SimKilled:
            t.exc = 'killed'
        except SimStop:
            t.exc = 'stop'
        except BaseException as e:                # a bug of the harness
            import traceback
            t.exc = e
            if self.harness_error is None:
                self.harness_error = traceback.format_exc()
            self.stopping = True
            t.exc = 'harness'
        t.state = 'done'
        for w in t.waiters:
            if w.state == 'blocked':
                w.state = 'ready'
        t.waiters = []
        t.fn = None
        self._handoff(t, final=True)

    def run(self):
        """Runs until every task is done. Called on the main thread."""
        if not self.tasks:
            return
        self._handoff(None)
        self.main_sem.acquire()
        if self.harness_error:
            raise HarnessError(self.harness_error)

    def _runnable(self):
        return [t for t in self.tasks if t.state == 'ready']

    def _pick_next(self, frm):
        """Choose who runs next; may advance the clock."""
        while True:
            ready = self._runnable()
            now_due = [t for t in self.tasks if t.state == 'timed' and t.wake_at <= self.now]
            for t in now_due:
                t.state = 'ready'
                t.wake_at = None
            if now_due:
                ready = self._runnable()
            if ready:
                if len(ready) == 1:
                    return ready[0]
                return ready
            timed = [t for t in self.tasks if t.state == 'timed']
            if timed:
                self.now = max(self.now, min(t.wake_at for t in timed))
                continue
            blocked = [t for t in self.tasks if t.state == 'blocked']
            if blocked:
                self.deadlock = True
                self.ev('deadlock', ','.join(t.name for t in blocked))
                self.stopping = True
                for t in blocked:
                    t.state = 'ready'
                continue
            return None

    def _handoff(self, frm, final=False, key=None):
        """Give control to another task. The caller's state is already set."""
        nxt = self._pick_next(frm)
        if nxt is None:
            self.cur = None
            self.main_sem.release()
            return
        if isinstance(nxt, list):
            cands = nxt
            nxt = cands[0]
            if frm is not None:
                # decision belongs to the task that gives up control
                i = frm.count('n')
                k = '%s|n|%d' % (frm.name, i)
                if k in self.forced:
                    for c in cands:
                        if c.name == self.forced[k]:
                            nxt = c
                            break
                    else:
                        k = None
                elif not self.replay:
                    nxt = cands[self.task_rng(frm, 'n').randrange(len(cands))]
                if k and nxt is not cands[0]:
                    self.decisions[k] = nxt.name
            elif not self.replay:
                nxt = cands[0]
        self._go(frm, nxt, final)

    def _go(self, frm, nxt, final=False):
        if nxt is frm:
            self.cur = nxt
            return
        self.n_switch += 1
        self.sched_hash.update(b'%d>%d;' % (frm.idx if frm else -1, nxt.idx))
        self.cur = nxt
        if not nxt.started:
            nxt.started = True
            _thread.start_new_thread(self._boot, (nxt,))
        nxt.sem.release()
        if frm is not None and not final:
            frm.sem.acquire()
            self._woken(frm)

    def _woken(self, t):
        if t.killed:
            raise SimKilled()
        if self.stopping:
            raise SimStop()

    def check_alive(self):
        t = self.cur
        if t is not None and REAL_IDENT() == t.ident:
            if t.killed:
                raise SimKilled()
            if self.stopping:
                raise SimStop()

    # ---- yield points -------------------------------------------------
    def on_step(self, t):
        """A special step of the running task was reached."""
        q = t.special_q
        while q and q[0][0] < t.step:
            q.pop(0)
        act = None
        while q and q[0][0] == t.step:
            n, tag, v = q.pop(0)
            if tag == 's':
                act = ('s', v)
            else:
                act = (tag, v)
                break
        due = t.step >= t.pre_next
        if due:
            r = self.task_rng(t, 'preempt')
            t.pre_next = t.step + 1 + int(r.expovariate(1.0 / self.knobs['preempt_mean']))
        t.next_special = min(q[0][0] if q else 1 << 60, t.pre_next)
        if act is not None and act[0] == 'crash':
            self.decisions['%s|crash|%d' % (t.name, t.step)] = act[1]
            if t.rec is not None and (self.faults_on or self.replay):
                self.fault('crash-at-line')
                self.crash_now(act[1])
                self.check_alive()
            return
        if act is not None and act[0] == 'exc':
            if t.rec is not None or self.knobs.get('exc_anywhere'):
                self.decisions['%s|exc|%d' % (t.name, t.step)] = act[1]
                self.fault('memory-error')
                raise MemoryError('simulated allocation failure')
            return
        target = None
        ready = [x for x in self._due_ready() if x is not t]
        if not ready:
            return
        if act is not None:
            for x in ready:
                if x.name == act[1]:
                    target = x
            if target is None:
                return
        elif due:
            r = self.task_rng(t, 'target')
            target = ready[r.randrange(len(ready))]
        if target is not None:
            self.decisions['%s|s|%d' % (t.name, t.step)] = target.name
            self._go(t, target)

    def _due_ready(self):
        for t in self.tasks:
            if t.state == 'timed' and t.wake_at <= self.now:
                t.state = 'ready'
                t.wake_at = None
        return self._runnable()

    def point(self, what=None):
        """A yield point at a seam (database, file, network operation)."""
        t = self.cur
        if t is None or REAL_IDENT() != t.ident:
            return
        self.check_alive()
        if t.nopre:
            return
        self._count(t)
        if t.step >= t.next_special:
            self.on_step(t)
            return
        p = self.knobs.get('p_seam', 0.0)
        if p and not self.replay:
            r = self.task_rng(t, 'seam')
            if r.random() < p:
                ready = [x for x in self._due_ready() if x is not t]
                if ready:
                    target = ready[r.randrange(len(ready))]
                    self.decisions['%s|s|%d' % (t.name, t.step)] = target.name
                    self._go(t, target)

    def _count(self, t):
        t.step += 1
        self.total_steps += 1
        if self.total_steps > self.MAX_STEPS:
            self.over_steps = True
            self.stopping = True
            raise SimStop()

    def sleep(self, dt):
        t = self.cur
        if t is None or REAL_IDENT() != t.ident:
            self.now += dt
            return
        self.check_alive()
        if t.nopre:
            self.now += dt
            return
        t.state = 'timed'
        t.wake_at = self.now + max(dt, 0.0)
        self._handoff(t)

    def block(self):
        """Park the running task until someone makes it ready."""
        t = self.cur
        self.check_alive()
        t.state = 'blocked'
        self._handoff(t)

    def block_timed(self, dt):
        t = self.cur
        self.check_alive()
        t.state = 'timed'
        t.wake_at = self.now + dt
        self._handoff(t)

    def wake(self, t):
        if t.state in ('blocked', 'timed'):
            t.state = 'ready'
            t.wake_at = None

    def join(self, other):
        while other.state != 'done':
            other.waiters.append(self.cur)
            self.block()

    def pick_crash(self, where):
        if self.pick('crashp', 2):
            self.fault('crash-at-' + where)
            self.crash_now('process')
            self.check_alive()

    # ---- crashes --------------------------------------------------------
    crash_hook = None

    def crash_now(self, how):
        if self.crash_hook is not None:
            self.crash_hook(how)

    def kill(self, t):
        if t.state == 'done' or t.killed:
            return
        t.killed = True
        if t is self.cur:
            return
        t.state = 'ready'
        t.wake_at = None


class nopreempt(object):
    """No scheduling inside (harness code, imports)."""

    def __enter__(self):
        s = SIM
        self.t = s.cur if s is not None else None
        if self.t is not None:
            self.t.nopre += 1

    def __exit__(self, *a):
        if self.t is not None:
            self.t.nopre -= 1


# ---- locks -----------------------------------------------------------------
class SimLock(object):
    """threading.Lock replacement that parks the simulated task."""
    __slots__ = ('_locked', '_waiters', '__weakref__')

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        s = SIM
        if s is None or s.cur is None or REAL_IDENT() != s.cur.ident:
            raise HarnessError('lock contention outside the simulation')
        t = s.cur
        if t.killed:
            raise SimKilled()
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        while self._locked:
            if t.nopre:
                raise HarnessError('blocking on a lock inside a no-preemption section')
            self._waiters.append(t)
            try:
                if deadline is None:
                    s.block()
                else:
                    if s.now >= deadline:
                        return False
                    s.block_timed(deadline - s.now)
            finally:
                if t in self._waiters:
                    self._waiters.remove(t)
        self._locked = True
        return True

    __enter__ = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        if self._waiters:
            w = self._waiters.pop(0)
            if SIM is not None:
                SIM.wake(w)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []


class SimRLock(object):
    __slots__ = ('_lock', '_owner', '_count', '__weakref__')

    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    @staticmethod
    def _me():
        return REAL_IDENT()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __exit__(self, *a):
        self.release()

    def _release_save(self):
        c, o = self._count, self._owner
        self._count, self._owner = 0, None
        self._lock.release()
        return c, o

    def _acquire_restore(self, st):
        self._lock.acquire()
        self._count, self._owner = st

    def _is_owned(self):
        return self._owner == self._me()

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()
        self._owner, self._count = None, 0


# ---- line (or instruction) level preemption ---------------------------------
TOOL = 3
_repo_prefix = None
_installed = None


def _on_line(code, where):
    if not code.co_filename.startswith(_repo_prefix):
        return sys.monitoring.DISABLE
    s = SIM
    if s is None:
        return
    t = s.cur
    if t is None or t.nopre or REAL_IDENT() != t.ident:
        return
    if t.killed or s.stopping:
        s.check_alive()
    t.step += 1
    s.total_steps += 1
    if t.step >= t.next_special:
        s.on_step(t)
    elif s.total_steps > s.MAX_STEPS:
        s._count(t)


def install_monitor(prefix, instruction=False):
    global _repo_prefix, _installed
    _repo_prefix = prefix
    m = sys.monitoring
    if _installed is None:
        m.use_tool_id(TOOL, 'sim')
        m.register_callback(TOOL, m.events.LINE, _on_line)
        m.register_callback(TOOL, m.events.INSTRUCTION, _on_line)
    _installed = True
    m.set_events(TOOL, m.events.INSTRUCTION if instruction else m.events.LINE)
