"""The simulator kernel: one seed, one execution.

A `Sim` owns everything nondeterministic in one simulated program lifetime: which task runs (real threads, parked and
released one at a time), the clock, directory order, random bytes, and the faults.  Code under test reaches the kernel
through the seams in fs.py, ncsim.py and here (locks, clock); each seam call is a *point*.

A scenario fixes every decision in advance:
  faults   {n: kind}   at the n-th faultable point of an operation, or {'what#n': kind} at the n-th of one sort
  sched    {'seed','p'} or {'switches': {decision: task}}
so running it twice gives the same execution.
"""
import _thread
import collections
import os
import random
import sys
import time as _time
import zlib

_alloc = _thread.allocate_lock
REAL_TIME = _time.time

REPO_PREFIX = '/repo/dedop/'


class SimCrash(BaseException):
    """the simulated program is killed here; nothing it does afterwards has any effect"""


class SimHang(BaseException):
    """a run used more steps than any live execution may need"""


class Sim:
    current = None           # the active Sim of this OS process

    def __init__(self, root, order_seed=0, sched=None, clock0=1.6e9, max_points=2000000, line_preempt=False,
                 pid=4242):
        self.root = os.path.realpath(root)
        self.dead = False
        self.points = 0
        self.max_points = max_points
        self.fault_hits = collections.Counter()
        self.fault_log = []
        self.trace = []
        self.trace_hash = 0
        self.order = random.Random('order-%s' % order_seed)
        self.rand = random.Random('rand-%s' % order_seed)
        self.clock = clock0
        self.clock_step = 1e-4
        self.clock_hook = None
        self.observer = None
        self.escapes = []
        self.subprocesses = []
        self.subprocess_fail = None
        self.sleeps = 0.0
        self.tasks = []
        self.sched = Sched(sched or {'seed': 0, 'p': 0.0})
        self.line_preempt = line_preempt
        self.pid = pid
        self.main_task = Task(self, 'main', None, -1)
        self.by_ident = {}
        self.buf_choices = (8192,)

    # ---- tasks -----------------------------------------------------------
    def task(self):
        return self.by_ident.get(_thread.get_ident())

    def enter_main(self):
        self.by_ident[_thread.get_ident()] = self.main_task

    def run_tasks(self, fns, trace_lines=None):
        """run the functions as concurrent tasks until all are done; returns the tasks"""
        self.tasks = [Task(self, 'c%d' % i, fn, i) for i, fn in enumerate(fns)]
        done = _alloc()
        done.acquire()
        self._all_done = done
        saved = self.by_ident.pop(_thread.get_ident(), None)
        for t in self.tasks:
            _thread.start_new_thread(t._body, ())
        first = self.sched.pick(None, self.tasks)
        self.running = first
        first.sem.release()
        done.acquire()
        if saved is not None:
            self.by_ident[_thread.get_ident()] = saved
        return self.tasks

    def _next_after(self, t):
        """task t cannot continue: hand the baton to another, or finish"""
        alive = [x for x in self.tasks if not x.done and not x.blocked_now()]
        if alive:
            n = self.sched.pick(None, alive)
            self.running = n
            n.sem.release()
        elif all(x.done for x in self.tasks):
            self._all_done.release()
        else:
            # everyone is blocked: a deadlock. kill the program.
            self.deadlock = True
            self.dead = True
            x = [x for x in self.tasks if not x.done][0]
            x.blocked_on = None
            self.running = x
            x.sem.release()

    deadlock = False

    def switch(self, t):
        """a scheduling decision at a point of task t"""
        if t.importing:
            return              # the interpreter's import lock is held; no other task could import
        alive = [x for x in self.tasks if not x.done and not x.blocked_now()]
        if len(alive) <= 1:
            return
        n = self.sched.pick(t, alive)
        if n is not t:
            self.running = n
            n.sem.release()
            t.sem.acquire()

    def block(self, t, lock):
        t.blocked_on = lock
        self._next_after(t)
        t.sem.acquire()
        t.blocked_on = None
        if self.dead:
            raise SimCrash()

    # ---- points ----------------------------------------------------------
    def point(self, kind, what='', faultable=True):
        t = self.task()
        if t is None or not t.in_op:
            return None
        if self.dead:
            raise SimCrash()
        self.points += 1
        if self.points > self.max_points:
            raise SimHang('more than %d steps' % self.max_points)
        self.clock += self.clock_step
        if self.clock_hook is not None:
            self.clock_hook(self)
        if self.tasks:
            self.switch(t)
            if self.dead:
                raise SimCrash()
        f = None
        if faultable:
            t.calls += 1
            f = t.faults.get(t.calls)
            if t.kfaults:
                t.kcalls[kind] = n = t.kcalls.get(kind, 0) + 1
                f = f or t.kfaults.get((kind, n))
            if f is None and t.sticky is not None:
                f = t.sticky
            if f is not None and f.startswith('sticky:'):
                t.sticky = f[7:]
                f = t.sticky
        if self.observer is not None:
            self.observer(t, kind, what, f)
        ev = (t.name, kind, what, f)
        self.trace_hash = zlib.crc32(('%s|%s|%s|%s' % (t.index, kind, what, f)).encode('utf-8', 'replace'),
                                     self.trace_hash)
        if len(self.trace) < 400:
            self.trace.append(ev)
        return f

    def hit(self, f, kind, what):
        self.fault_hits[f] += 1
        self.fault_log.append((f, kind, what))

    def die(self, f, kind, what):
        self.hit(f, kind, what)
        self.dead = True
        raise SimCrash()

    # ---- operations ------------------------------------------------------
    def op(self, fn, faults=None):
        """run fn as one operation of the simulated program, under the given faults.
        returns ('ok', value) | ('err', exception) | ('crash', None)"""
        t = self.task()
        t.calls = 0
        t.faults = {int(k): v for k, v in (faults or {}).items() if '#' not in k}
        t.kfaults = {(k.split('#')[0], int(k.split('#')[1])): v for k, v in (faults or {}).items() if '#' in k}
        t.kcalls = {}
        t.sticky = None
        hits = len(self.fault_log)
        t.in_op = True
        try:
            try:
                r = ('ok', fn())
            except SimCrash:
                r = ('crash', None)
            except SimHang as e:
                r = ('hang', e)
            except Exception as e:
                r = ('err', e)
        finally:
            t.in_op = False
        if self.dead:
            r = ('crash', None)
        t.last_hits = self.fault_log[hits:]
        return r


class Task:
    def __init__(self, sim, name, fn, index):
        self.sim = sim
        self.name = name
        self.fn = fn
        self.index = index
        self.sem = _alloc()
        self.sem.acquire()
        self.done = False
        self.blocked_on = None
        self.in_op = False
        self.calls = 0
        self.faults = {}
        self.kfaults = {}
        self.kcalls = {}
        self.sticky = None
        self.result = None
        self.last_hits = []
        self.countdown = 0
        self.importing = 0

    def blocked_now(self):
        return self.blocked_on is not None and self.blocked_on._held()

    def _body(self):
        sim = self.sim
        sim.by_ident[_thread.get_ident()] = self
        self.sem.acquire()
        try:
            if sim.line_preempt:
                self.countdown = sim.sched.line_gap()
                sys.settrace(self._tracer)
            try:
                self.result = ('ok', self.fn(self))
            except SimCrash:
                self.result = ('crash', None)
            except SimHang as e:
                self.result = ('hang', e)
            except BaseException as e:
                import traceback
                self.result = ('harness', traceback.format_exc())
            finally:
                sys.settrace(None)
        finally:
            self.done = True
            sim.by_ident.pop(_thread.get_ident(), None)
            sim._next_after(self)

    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(REPO_PREFIX):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.countdown -= 1
            if self.countdown <= 0:
                self.countdown = self.sim.sched.line_gap()
                if self.in_op and not self.sim.dead:
                    self.sim.points += 1
                    if self.sim.points > self.sim.max_points:
                        raise SimHang('too many steps')
                    self.sim.switch(self)
                    if self.sim.dead:
                        raise SimCrash()
        return self._local


class Sched:
    """decides which task runs next; records every decision that is not 'go on' """

    def __init__(self, spec):
        self.spec = spec
        self.n = 0
        self.log = {}
        self.gap = spec.get('gap', 40)
        self.explicit = spec.get('switches')
        self.rng = random.Random('sched-%s' % spec.get('seed', 0))
        self.grng = random.Random('gap-%s' % spec.get('seed', 0))
        self.p = spec.get('p', 0.2)

    def line_gap(self):
        return 1 + int(self.grng.expovariate(1.0 / self.gap))

    def pick(self, cur, alive):
        i = self.n
        self.n += 1
        default = cur if cur is not None else alive[0]
        if self.explicit is not None:
            want = self.explicit.get(str(i))
            pick = default
            if want is not None:
                for x in alive:
                    if x.index == want:
                        pick = x
        else:
            pick = default
            if cur is None:
                pick = self.rng.choice(alive)
            elif self.rng.random() < self.p:
                pick = self.rng.choice([x for x in alive if x is not cur] or alive)
        if pick is not default:
            self.log[str(i)] = pick.index
        return pick


# ---- locks ---------------------------------------------------------------
class SimLock:
    """threading.Lock for code under test: blocking is a scheduling decision"""
    _re = False

    def __init__(self):
        self._real = _alloc()
        self._owner = None
        self._count = 0

    def _held(self):
        return self._owner is not None

    def acquire(self, blocking=True, timeout=-1):
        sim = Sim.current
        t = sim.task() if sim is not None else None
        if t is None or not t.in_op:
            me = ('thread', _thread.get_ident())
            if self._re and self._owner == me:
                self._count += 1
                return True
            ok = self._real.acquire(blocking, timeout)
            if ok:
                self._owner = me
                self._count = 1
            return ok
        me = ('task', t.index)
        if self._re and self._owner == me:
            self._count += 1
            return True
        sim.point('lock', '', faultable=False)
        while self._owner is not None:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0 and not sim.tasks:
                return False
            if not sim.tasks:
                sim.deadlock = True
                sim.dead = True
                raise SimCrash()
            sim.block(t, self)
        self._real.acquire(False)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            try:
                self._real.release()
            except RuntimeError:
                pass

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is not None

    def _at_fork_reinit(self):
        self.__init__()

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


class SimRLock(SimLock):
    _re = True


# ---- clock ---------------------------------------------------------------
def _mk_clock():
    import datetime as dtm
    real = dtm.datetime

    class SimDatetime(real):
        @classmethod
        def now(cls, tz=None):
            s = Sim.current
            if s is None or s.task() is None:
                return real.now(tz)
            s.point('clock', 'now', faultable=False)
            # a naive now() is local time; the simulated machine is not on UTC
            base = real.fromtimestamp(s.clock, dtm.timezone.utc)
            if tz is None:
                r = (base + dtm.timedelta(hours=5, minutes=30)).replace(tzinfo=None)
            else:
                r = base.astimezone(tz)
            return cls(r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, r.tzinfo)

        @classmethod
        def utcnow(cls):
            s = Sim.current
            if s is None or s.task() is None:
                return real.utcnow()
            return cls.now(dtm.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def fromtimestamp(cls, t, tz=None):
            return real.fromtimestamp(t, tz)

    return real, SimDatetime


def install_clock():
    import datetime as dtm
    import time
    _, SimDatetime = _mk_clock()
    dtm.datetime = SimDatetime
    real_time, real_mono, real_perf, real_sleep = time.time, time.monotonic, time.perf_counter, time.sleep

    def wrap(real_fn, off):
        def fn():
            s = Sim.current
            if s is None:
                return real_fn()
            t = s.task()
            if t is None or not t.in_op:
                return real_fn()
            s.point('clock', '', faultable=False)
            return s.clock - off
        return fn

    def sleep(secs):
        s = Sim.current
        t = s.task() if s is not None else None
        if t is None or not t.in_op:
            return real_sleep(secs)
        s.clock += secs
        s.sleeps += secs
        s.point('sleep', '', faultable=False)
    time.time = wrap(real_time, 0)
    time.monotonic = wrap(real_mono, 1.6e9 - 1000)
    time.perf_counter = wrap(real_perf, 1.6e9 - 500)
    time.sleep = sleep
    now = time.time
    time.time_ns = lambda: int(now() * 1e9)
    rg, rl, rs, rc, ra = time.gmtime, time.localtime, time.strftime, time.ctime, time.asctime
    time.gmtime = lambda t=None: rg(now() if t is None else t)
    time.localtime = lambda t=None: rl(now() if t is None else t)
    time.strftime = lambda f, t=None: rs(f, time.localtime() if t is None else t)
    time.ctime = lambda t=None: rc(now() if t is None else t)
    time.asctime = lambda t=None: ra(time.localtime() if t is None else t)


def install_imports():
    """tasks are not switched while they hold an import lock"""
    import importlib._bootstrap as b

    def wrap(name):
        real = getattr(b, name)

        def f(*a, **k):
            s = Sim.current
            t = s.task() if s is not None else None
            if t is None:
                return real(*a, **k)
            t.importing += 1
            try:
                return real(*a, **k)
            finally:
                t.importing -= 1
        setattr(b, name, f)
    for n in ('_find_and_load', '_load'):
        wrap(n)


def install_locks():
    import threading
    threading.Lock = SimLock
    threading.RLock = SimRLock


def install_ids():
    """addresses of objects: as soon as an object is gone, the next one of its type is put where it was"""
    import builtins
    import weakref
    real = builtins.id
    known, free, count = {}, {}, [0]

    def sim_id(obj):
        k = real(obj)
        e = known.get(k)
        if e is not None and e[0]() is obj:
            return e[1]
        t = type(obj)
        if isinstance(obj, type) or not (t.__module__ or '').startswith('dedop'):
            return k

        def gone(_):
            if known.get(k) is entry:
                del known[k]
            free.setdefault(t, []).append(entry[1])
        try:
            ref = weakref.ref(obj, gone)
        except TypeError:
            return k
        if free.get(t):
            n = free[t].pop()
        else:
            count[0] += 1
            n = 16 * count[0]
        entry = known[k] = (ref, n)
        return n
    builtins.id = sim_id
