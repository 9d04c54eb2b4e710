"""U01 monitors and captured streams under interrupts, U02 trees of progress monitors, U03 the user configuration."""
import io
import json
import os
import re
import signal
import sys
import zlib

from .. import boot as _boot
from .. import kernel
from .. import proc
from ..kernel import Sim
from . import ws

SHRINK = ('clients', 'body', 'items', 'lifetimes', 'faults', 'switches', 'ints')
CPU_LIMIT = 60
PLAN = {'U01': {'quick': 12000, 'thorough': 400000},
        'U02': {'quick': 12000, 'thorough': 400000},
        'U03': {'quick': 6000, 'thorough': 150000}}
LEVEL = {}
REAL = {'U01': ['dedop.util.monitor', 'dedop.util.fetchstd', "Python's signal handling and context managers"],
        'U02': ['dedop.util.monitor'],
        'U03': ['dedop.util.config', 'pkgutil', 'a real file system (scratch folder) below the simulated calls']}
STUB = {'U01': ['when the interrupt arrives (after a chosen C call of dedop code, inside a chosen write to the '
                'terminal, or in the task)', 'the terminal (writes and flushes that fail)'],
        'U02': ['thread scheduling', 'the root monitor in half of the runs (records what it is told)'],
        'U03': ['system calls (faults, crash points)', 'home and working folder', 'thread and process scheduling']}
RULE = {'U01': 'nested monitored tasks and captured sections, 0-4 interrupts and failing terminal writes; non-trivial: '
               'at least one interrupt or failing write struck',
        'U02': '1-3 concurrent task trees of depth 1-4 over one monitor, with cancellations; non-trivial: at least two '
               'levels and three reports',
        'U03': '1-3 program lifetimes over one home folder, each with 1-4 threads or two programs at once; failing '
               'calls or a kill in some; non-trivial: the configuration was read by two threads, or a fault struck'}
ASSUME = {'U01': ['an interrupt is handled where CPython handles it: at the end of a C call; the instructions between '
                  'the end of a with body and the first line of the exit code are not interrupted'],
          'U02': ['a switch of tasks happens between source lines or at seam calls'],
          'U03': ws._A}


def boot():
    _boot.workspace()


def gen(prop, r, tier, i):
    return {'U01': gen1, 'U02': gen2, 'U03': gen3}[prop](r)


def run(sc, d):
    r = {'U01': run1, 'U02': run2, 'U03': run3}[sc['prop']](sc, d)
    r['viol'] = [[a, b.replace(os.path.realpath(d), '<root>')] for a, b in r['viol']]
    return r


def valid(sc):
    return sc['prop'] != 'U02' or len(sc['clients']) > 0


# ---- U01 ---------------------------------------------------------------------
class UserError(Exception):
    pass


def gen_body(r, depth, inmon, incap):
    out = []
    for _ in range(r.choice([1, 2, 3, 4, 6])):
        k = r.random()
        if k < .3 and depth < 4:
            t = r.choice(['mon', 'mon', 'cap', 'cap', 'child' if inmon else 'cap'])
            s = {'t': t, 'prop': r.random() < .6, 'how': r.choice(['with', 'with', 'with', 'plain']),
                 'body': None}
            if t == 'mon':
                s.update(stay=r.random() < .5, bar=r.choice([None, 0, 10, 40]), total=r.choice([10, 10, 3, 1.5, None, 0]),
                         pre=r.random() < .1)
            if t == 'child':
                s.update(share=r.choice([1, 2.5, 10]), total=r.choice([10, 3, None]))
            s['body'] = gen_body(r, depth + 1, inmon or t == 'mon', t == 'cap')
            out.append(['sec', s])
        elif k < .5:
            out.append(['prog', r.choice([None, 0, 1, 1, 2.5]), r.choice([None, None, 'm', 'a longer message'])])
        elif k < .65:
            out.append(['print', r.choice(['out', 'out', 'err'])])
        elif k < .85:
            out.append(['int'])
        elif k < .9:
            out.append(['raise', r.choice(['user', 'user', 'kbd', 'exit'])])
        elif incap and k < .95:
            out.append([r.choice(['close', 'swap'])])
        else:
            out.append(['cancel'])
    return out


def gen1(r):
    sc = {'handler': r.choice(['default', 'default', 'record', 'raise', 'ignore']),
          'body': gen_body(r, 0, False, False)}
    if r.random() < .25:
        s = {'t': 'mon', 'prop': True, 'how': 'with', 'stay': r.random() < .5, 'bar': 10, 'total': 10,
             'body': gen_body(r, 1, True, False)}
        sc['body'].append(['sec', s])
    sc['ints'] = {}
    sc['faults'] = {}
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        sc['ints'][str(r.randrange(1, r.choice([4, 12, 40])))] = 1
    if r.random() < .4:
        for _ in range(r.choice([1, 1, 2])):
            sc['faults'][str(r.randrange(1, r.choice([4, 12, 40])))] = r.choice(['err', 'err', 'pipe', 'sticky:err',
                                                                                'enc'])
    return sc


class Terminal:
    """a standard stream of the simulated program"""
    encoding = 'ascii'

    def __init__(self, w, name):
        self.w = w
        self.name = name
        self.text = []

    def _pt(self, what):
        s = self.w.sim
        f = s.point('tty', self.name + what)
        if f is not None:
            s.hit(f, 'tty', self.name + what)
            if f == 'enc':
                raise UnicodeEncodeError('ascii', 'x', 0, 1, 'simulated')
            if f == 'pipe':
                raise BrokenPipeError(32, 'simulated')
            raise OSError(28, 'simulated')
        self.w.maybe_int('tty')

    def write(self, x):
        self._pt('write')
        self.text.append(x)
        return len(x)

    def flush(self):
        self._pt('flush')

    def isatty(self):
        return False


TOOL = 3


class W1:
    def __init__(self, sc, sim):
        self.sc = sc
        self.sim = sim
        self.n = 0
        self.viol = []
        self.stack = []            # [monitor, phase]
        self.delivering = False
        self.handled = 0           # calls of the handler that was there first
        self.log = []
        self.tok = 0
        self.ints = 0
        self.kbd = 0
        self.asked = set()
        self.keep = []
        self.touched = set()       # monitors that an interrupt may have reached

    # interrupts
    def maybe_int(self, where):
        if self.delivering or not self.sim.main_task.in_op:
            return
        self.n += 1
        if str(self.n) in self.sc['ints']:
            self.deliver(where)

    def deliver(self, where):
        self.delivering = True
        self.ints += 1
        self.sim.hit('interrupt', 'int', where)
        before = self.handled
        kbd = None
        mons = [m for m, p in self.stack]
        was = [m.is_cancelled() for m in mons]
        try:
            try:
                signal.raise_signal(signal.SIGINT)
            except BaseException as e:
                kbd = e
            now = [m.is_cancelled() for m in mons]
            self.log.append(('int', where, type(kbd).__name__, now, [p for m, p in self.stack]))
            running = [m for m, p in self.stack if p == 'body']
            for m in mons:
                self.touched.add(id(m))
                if m.is_cancelled():
                    self.asked.add(id(m))
            if self.stack and self.stack[-1][1] == 'body':
                m = self.stack[-1][0]
                if not m.is_cancelled():
                    self.viol.append(['lost', 'an interrupt in a running task does not request cancellation'])
                else:
                    self.asked.add(id(m))
            elif running and not any(b and not a for a, b in zip(was, now)) and not any(was):
                self.viol.append(['lost', 'an interrupt at the start or end of a task inside another one is lost'])
            elif not running and self.sc['handler'] != 'ignore' and not any(now) and self.handled == before:
                self.viol.append(['lost', 'an interrupt is lost'])
            if running and kbd is not None:
                self.viol.append(['killed', 'an interrupt kills the monitored task (%s)' % type(kbd).__name__])
            for a, b in zip(was, now):
                if a and not b:
                    self.viol.append(['forgotten', 'a requested cancellation is forgotten'])
        finally:
            self.delivering = False
        if kbd is not None:
            self.kbd += 1
            raise kbd

    def on_c_return(self, code, offset, callable_, arg0):
        if self.delivering or not (code.co_filename.startswith(kernel.REPO_PREFIX) or
                                   code.co_filename == signal.__file__):
            return
        self.maybe_int(code.co_name)

    def first_handler(self, sig, frame):
        self.handled += 1
        if self.sc['handler'] == 'default':
            raise KeyboardInterrupt()
        if self.sc['handler'] == 'raise':
            raise UserError('from the handler')

    # execution
    def body(self, items, mon):
        for it in items:
            k = it[0]
            if k == 'sec':
                self.section(it[1], mon)
            elif k == 'prog':
                if mon is not None:
                    mon.progress(work=it[1], msg=it[2])
            elif k == 'print':
                self.tok += 1
                t = '<%d>' % self.tok
                st = sys.stdout if it[1] == 'out' else sys.stderr
                st.write(t)
                if self.caps:
                    self.caps[-1][1].append((it[1], t))
            elif k == 'int':
                self.deliver('task')
            elif k == 'raise':
                raise {'user': UserError, 'kbd': KeyboardInterrupt, 'exit': SystemExit}[it[1]]('from the task')
            elif k == 'close':
                sys.stdout.close()
            elif k == 'swap':
                sys.stdout = io.StringIO()
            elif k == 'cancel':
                if mon is not None:
                    mon.cancel()
                    self.cancelled_by_task = True
        return None

    caps = ()

    def section(self, s, mon):
        from dedop.util import monitor as dm
        from dedop.util import fetchstd
        h0, out0, err0 = signal.getsignal(signal.SIGINT), sys.stdout, sys.stderr
        hits0, kbd0 = len(self.sim.fault_log), self.kbd
        exc = None
        inner = None
        m = None
        info = None
        try:
            if s['t'] == 'cap':
                info = [None, []]
                with fetchstd.fetch_std_streams() as streams:
                    self.caps = list(self.caps) + [info]
                    try:
                        info[0] = streams
                        try:
                            self.body(s['body'], mon)
                        except BaseException as e:
                            inner = e
                            raise
                    finally:
                        self.caps = self.caps[:-1]
            else:
                if s['t'] == 'child':
                    m = mon.child(s['share'])
                else:
                    m = dm.ConsoleMonitor(stay_in_line=s['stay'], progress_bar_size=s['bar'])
                    self.keep.append(m)         # so that ids stay unique
                    self.stack.append([m, 'enter'])
                    top = self.stack[-1]
                    if s.get('pre'):
                        # asked to stop before it starts
                        m.cancel()
                        self.touched.add(id(m))
                        self.asked.add(id(m))

                def inside():
                    nonlocal inner
                    try:
                        if s['t'] == 'mon':
                            top[1] = 'body'
                        self.body(s['body'], m)
                    except BaseException as e:
                        inner = e
                        raise
                    finally:
                        if s['t'] == 'mon':
                            top[1] = 'exit'
                try:
                    if s['how'] == 'with':
                        with m.starting('task', total_work=s['total']):
                            inside()
                    else:
                        m.start('task', total_work=s['total'])
                        try:
                            inside()
                        finally:
                            m.done()
                finally:
                    if s['t'] == 'mon':
                        self.stack.remove(top)
        except BaseException as e:
            exc = e
        self.log.append((s['t'], type(exc).__name__))
        tt = type(exc).__name__ if exc is not None else 'normally'
        h1 = signal.getsignal(signal.SIGINT)
        if h1 != h0:
            self.viol.append(['handler', 'after a %s that ended %s the interrupt handler is %s' % (
                'monitored task' if s['t'] != 'cap' else 'captured section', tt,
                'that of a monitor' if hasattr(h1, '__self__') else 'another one')])
        if s['t'] == 'cap' and (sys.stdout is not out0 or sys.stderr is not err0):
            self.viol.append(['streams', 'after a captured section that ended %s: %s' % (
                tt, 'sys.stdout is another stream' if sys.stdout is not out0 else 'sys.stderr is another stream')])
        if m is not None and id(m) in self.asked and not m.is_cancelled():
            self.viol.append(['forgotten', 'a requested cancellation is forgotten'])
        if m is not None and s['t'] == 'mon' and m.is_cancelled() and id(m) not in self.touched and \
                not self.has_cancel(s['body']):
            self.viol.append(['spurious', 'a task is cancelled although nobody asked for it'])
        if len(self.sim.fault_log) == hits0 and self.kbd == kbd0:
            if exc is not inner and not (s['t'] != 'cap' and isinstance(exc, ValueError) and out0 is not None and
                                         getattr(out0, 'closed', False)):
                self.viol.append(['outcome', 'a section whose body ended with %s ended with %s: %s' % (
                    type(inner).__name__, type(exc).__name__, exc)])
            if info is not None and info[0] is not None and not self.odd(s['body']):
                for k, (name, st) in enumerate(zip(('out', 'err'), info[0])):
                    want = ''.join(t for n, t in info[1] if n == name)
                    try:
                        got = st.getvalue()
                    except Exception as e:
                        self.viol.append(['capture', 'the captured text cannot be read: %s' % e])
                        continue
                    got = ''.join(re.findall(r'<\d+>', got))
                    if got != want:
                        self.viol.append(['capture', 'captured %r of std%s, written was %r' % (got, name, want)])
        # put back what a violation left behind, then go on
        if self.viol:
            raise Stop()
        if exc is not None and (s['prop'] or isinstance(exc, (kernel.SimCrash, kernel.SimHang, Stop))):
            raise exc

    def odd(self, items):
        return any(it[0] in ('close', 'swap') or it[0] == 'sec' and it[1]['t'] != 'cap' and self.odd(it[1]['body'])
                   for it in items)

    def has_cancel(self, items):
        return any(it[0] == 'cancel' or it[0] == 'sec' and self.has_cancel(it[1]['body']) for it in items)


class Stop(BaseException):
    pass


def run1(sc, d):
    def life():
        sim = Sim(d)
        Sim.current = sim
        sim.enter_main()
        w = W1(sc, sim)
        w.caps = []
        out, err = Terminal(w, 'out'), Terminal(w, 'err')
        first = signal.SIG_IGN if sc['handler'] == 'ignore' else w.first_handler
        signal.signal(signal.SIGINT, first)
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = out, err
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'dst')
        mon.register_callback(TOOL, mon.events.C_RETURN, w.on_c_return)
        mon.set_events(TOOL, mon.events.CALL)

        def top():
            try:
                w.body(sc['body'], None)
            except (kernel.SimCrash, kernel.SimHang):
                raise
            except BaseException:
                pass
        try:
            sim.op(top, sc['faults'])
        finally:
            mon.set_events(TOOL, 0)
            left = sys.stdout is out and sys.stderr is err
            sys.stdout, sys.stderr = so, se
        if not w.viol:
            if signal.getsignal(signal.SIGINT) != first:
                w.viol.append(['handler', 'at the end the interrupt handler is not the first one'])
            if not left:
                w.viol.append(['streams', 'at the end the standard streams are not the first ones'])
        st = ws.new_stats()
        st['faults'] = {k: n for k, n in sim.fault_hits.items()}
        st['points'] = sim.points + w.n
        st['sim_time'] = sim.clock - 1.6e9
        ws.bump(st['ops'], 'sections', len(w.log))
        dg = zlib.crc32(repr((w.log, sim.trace_hash, w.n, [v[0] for v in w.viol])).encode())
        return {'viol': w.viol[:3], 'stats': st, 'digest': dg, 'states': [dg],
                'trace': [list(x) for x in sim.trace] + [list(map(str, x)) for x in w.log],
                'nontrivial': bool(sim.fault_hits)}
    return proc.in_child(life, cpu=20)


# ---- U02 ---------------------------------------------------------------------
def gen_items(r, depth):
    out = []
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        k = r.random()
        if k < .35 and depth < 4:
            out.append(['c', r.choice([0, 1, 2.5, 10, 70, 1e-3]), r.choice([1, 10, 3, 7, 0.5, 100, 10, None, 0]),
                        gen_items(r, depth + 1), r.random() < .5])
        elif k < .9:
            out.append(['p', r.choice([None, 0, 1, 1, 2.5, .1, 3]), r.choice([None, None, 'm'])])
        elif k < .95:
            out.append(['q'])
        else:
            out.append(['x'])
    return out


def gen2(r):
    n = r.choice([1, 1, 2, 3])
    return {'root': r.choice(['rec', 'rec', 'console']), 'total': r.choice([100, 10, 7, None, 0]),
            'stay': r.random() < .3, 'pre': r.random() < .1, 'bar': r.choice([None, 20]),
            'clients': [{'items': gen_items(r, 0), 'share': r.choice([10, 3.5])} for _ in range(n)],
            'sched': {'seed': r.randrange(1 << 30), 'p': r.choice([.1, .3, .5]), 'gap': r.choice([2, 5, 15])}}


def run2(sc, d):
    def life():
        from dedop.util import monitor as dm
        sim = Sim(d, sched=sc['sched'], line_preempt=len(sc['clients']) > 1)
        Sim.current = sim
        sim.enter_main()
        viol, log = [], []

        class Rec(dm.Monitor):
            def __init__(self):
                self.sum = 0.0
                self.n = 0
                self.c = False

            def start(self, label, total_work=None):
                self.total = total_work

            def progress(self, work=None, msg=None):
                sim.point('mon', '%s' % (work is None), faultable=False)
                if work is not None:
                    self.sum += work
                self.n += 1

            def done(self):
                pass

            def cancel(self):
                self.c = True

            def is_cancelled(self):
                return self.c
        buf = io.StringIO()
        so = sys.stdout
        sys.stdout = buf
        root = Rec() if sc['root'] == 'rec' else dm.ConsoleMonitor(stay_in_line=sc['stay'],
                                                                    progress_bar_size=sc['bar'])
        allm = [root]
        want = [0.0]
        asked = [False]
        nreports = [0]

        def check(where):
            # only what was asked before this look counts as asked
            must = asked[0]
            for m in list(allm):
                c = m.is_cancelled()
                if must and not c:
                    viol.append(['cancel', 'a cancellation requested on one level is not seen on another (%s)' % where])
                    return
                if c and not asked[0] and not asking[0]:
                    viol.append(['cancel', 'cancelled although nobody asked'])
                    return
        asking = [0]

        def go(m, items, scale, total, conc):
            # scale: what one unit of this monitor is worth at the top (None: unknown)
            for it in items:
                if viol:
                    return
                if it[0] == 'p':
                    nreports[0] += 1
                    m.progress(work=it[1], msg=it[2])
                    if it[1] is not None and scale is not None:
                        want[0] += it[1] * scale
                    if sc['root'] == 'console' and not conc and sc['total'] and it[1] is not None and scale is not None:
                        shown(m)
                elif it[0] == 'q':
                    check('task')
                elif it[0] == 'x':
                    asking[0] += 1
                    m.cancel()
                    asked[0] = True
                    check('after cancel')
                elif it[0] == 'c':
                    _, share, tot, sub, ctx = it
                    c = m.child(share)
                    allm.append(c)
                    sc2 = scale * share / tot if scale is not None and tot else None
                    if ctx:
                        with c.starting('sub', total_work=tot):
                            go(c, sub, sc2, tot, conc)
                    else:
                        c.start('sub', total_work=tot)
                        go(c, sub, sc2, tot, conc)
                        c.done()

        def shown(m):
            pct = re.findall(r'(-?\d+)%', buf.getvalue())
            x = 100. * want[0] / sc['total']
            if not pct or abs(int(pct[-1]) - x) > .5 + 1e-6 * max(1, abs(x)):
                viol.append(['shown', 'the console shows %s after %.4f%% of the work' % (pct[-1:] or 'nothing', x)])

        def one():
            if sc.get('pre'):
                root.cancel()
                asked[0] = True
            with root.starting('all', total_work=sc['total']):
                if len(sc['clients']) == 1:
                    go(root, sc['clients'][0]['items'], 1.0, sc['total'], False)
                else:
                    def mk(cl):
                        def body(task):
                            def op():
                                c = root.child(cl['share'])
                                allm.append(c)
                                with c.starting('part', total_work=10):
                                    go(c, cl['items'], cl['share'] / 10.0, 10, True)
                            r = sim.op(op)
                            if r[0] == 'err':
                                raise r[1]
                        return body
                    for t in sim.run_tasks([mk(c) for c in sc['clients']]):
                        if t.result[0] == 'harness':
                            viol.append(['error', 'a report fails: ' + t.result[1].strip().splitlines()[-1]])
                        elif t.result[0] != 'ok':
                            viol.append(['error', 'a task did not end: %s' % (t.result,)])
                    sim.tasks = []
                if viol:
                    return
                check('end')
                tol = 1e-9 * max(1.0, abs(want[0]))
                if sc['root'] == 'rec':
                    if abs(root.sum - want[0]) > tol:
                        viol.append(['work', 'work %r arrives at the top, done was %r' % (root.sum, want[0])])
                elif sc['total']:
                    root.progress(work=0, msg='the end')
                    shown(root)
            check('afterwards')
        try:
            r = sim.op(one)
        finally:
            sys.stdout = so
        if r[0] == 'err' and not viol:
            viol.append(['error', 'a report fails: %s: %s' % (type(r[1]).__name__, r[1])])
        st = ws.new_stats()
        st['points'], st['switches'] = sim.points, len(sim.sched.log)
        st['sim_time'] = sim.clock - 1.6e9
        st['ops'] = {'reports': nreports[0], 'monitors': len(allm)}
        st['probes'] = {'cancelled': int(asked[0])}
        dg = zlib.crc32(repr((repr(sc['clients']), sc['root'], sc['total'], want, sorted(sim.sched.log.items()),
                              buf.getvalue(), [v[0] for v in viol])).encode())
        return {'viol': viol[:3], 'stats': st, 'digest': dg, 'states': [dg], 'trace': [list(x) for x in sim.trace],
                'sched_log': sim.sched.log, 'nontrivial': len(allm) > 1 and nreports[0] > 2}
    return proc.in_child(life, cpu=20)


# ---- U03 ---------------------------------------------------------------------
def cfg_text(kind, who, n):
    a = 'who_%s = %r\n' % (who, n)
    both = 'shared = %r\nnumber = %d\n' % (who, n)
    pad = ''.join('# %s filler line %d\n' % (who, i) for i in range(n % 7 * 20))
    last = 'last_%s = shared + "!"\n' % who
    if kind == 'good':
        return a + both + pad + last
    if kind == 'broken':
        return a + both + pad + 'this is not python\n'
    if kind == 'raises':
        return a + both + pad + 'raise RuntimeError("x")\n' + last
    if kind == 'dies':
        return a + both + pad + 'import os\nx = os.environ["NO_SUCH_VARIABLE_HERE"]\n' + last
    if kind == 'reenter':
        return a + both + pad + 'from dedop.util.config import get_config_value\nv = get_config_value("nope", 5)\n' + \
            last
    return ''


def cfg_vals(kind, who, n):
    if kind not in ('good', 'reenter'):
        return {}
    v = {'who_' + who: n, 'shared': who, 'number': n, 'last_' + who: who + '!'}
    if kind == 'reenter':
        v['v'] = 5
    return v


def gen3(r):
    sc = {'user': r.choice([None, None, 'good', 'good', 'broken', 'raises', 'dies', 'reenter', 'empty']),
          'local': r.choice([None, None, 'good', 'broken', 'raises']), 'n': r.randrange(1, 50),
          'home': r.choice(['nodir', 'dir', 'dir', 'file', 'nohome']) if r.random() < .5 else 'nodir',
          'order': r.randrange(1 << 30), 'buf': r.choice([[8192], [64], [16]]), 'lifetimes': []}
    for k in range(r.choice([1, 1, 2, 3])):
        progs = r.choice([1, 1, 1, 2])
        lf = {'progs': [{'clients': [[r.choice(['get', 'val', 'path', 'val']) for _ in range(r.choice([1, 1, 2, 3]))]
                                     for _ in range(r.choice([1, 2, 2, 3]) if progs == 1 else r.choice([1, 1, 2]))]}
                        for _ in range(progs)],
              'sched': {'seed': r.randrange(1 << 30), 'p': r.choice([.1, .3, .5]), 'gap': r.choice([2, 5, 15, 40])},
              'lines': r.random() < .6, 'faults': {}}
        if r.random() < .5:
            kind = r.choice([['crash', 'crash_after', 'torn'], ['err', 'err', 'partial', 'full', 'sticky:err',
                                                               'sticky:full']])
            lf['faults'][str(r.choice([1, 2, 3, 4, 5, 6, 8, 10]))] = r.choice(kind)
        sc['lifetimes'].append(lf)
    return sc


def run3(sc, d):
    root = os.path.join(os.path.realpath(d), 'disk')
    home = os.path.join(root, 'home')
    work = os.path.join(root, 'work')
    os.makedirs(work)
    if sc['home'] != 'nohome':
        os.makedirs(home)
    dot = os.path.join(home, '.dedop')
    cfg = os.path.join(dot, 'config.py')
    user = sc['user']
    if sc['home'] == 'file':
        open(dot, 'w').write('x')
        user = None
    elif sc['home'] == 'dir' or user and sc['home'] != 'nohome':
        os.makedirs(dot)
    if user and not os.path.isdir(dot):
        user = None
    if user:
        open(cfg, 'w').write(cfg_text(user, 'u', sc['n']))
    if sc['local']:
        open(os.path.join(work, 'dedop-config.py'), 'w').write(cfg_text(sc['local'], 'l', sc['n'] + 1))
    st = ws.new_stats()
    viol, digs, trace = [], [], []
    nontriv = False
    slog = {}
    for i, lf in enumerate(sc['lifetimes']):
        r = proc.in_child(lambda: life3(sc, lf, root, home, work, user), cpu=20)
        ws.merge(st, r['stats'])
        digs.append(r['digest'])
        trace += r['trace']
        nontriv = nontriv or r['nontrivial']
        viol += r['viol']
        slog = r['sched_log']
        tpl = open(os.path.join(_boot.REPO, 'dedop', 'util', 'config-template.py')).read()
        if sc['home'] not in ('file', 'nohome'):
            have = open(cfg).read() if os.path.isfile(cfg) else None
            if user:
                if have != cfg_text(user, 'u', sc['n']):
                    viol.append(['user-file', "the user's configuration file was changed"])
            elif have is not None and have != tpl:
                viol.append(['torn', 'the default configuration file is truncated (%d of %d characters) after %s' % (
                    len(have), len(tpl), r['hits'])])
            elif have is None and not r['hits']:
                viol.append(['missing', 'no default configuration file was created'])
        digs.append(sorted(os.listdir(dot)) if os.path.isdir(dot) else None)
        if viol:
            break
    dg = zlib.crc32(repr(digs).encode())
    return {'viol': viol[:3], 'stats': st, 'digest': dg, 'states': [dg], 'trace': trace, 'sched_log': None,
            'nontrivial': nontriv}


def life3(sc, lf, root, home, work, user):
    import importlib
    os.environ['HOME'] = home
    os.chdir(work)
    sim = Sim(root, order_seed=sc['order'], sched=lf['sched'], line_preempt=lf['lines'], max_points=200000)
    sim.buf_choices = tuple(sc['buf'])
    Sim.current = sim
    viol, seen = [], []
    mods = []
    for p in lf['progs']:
        for k in [k for k in sys.modules if k == 'dedop' or k.startswith('dedop.')]:
            del sys.modules[k]
        mods.append(importlib.import_module('dedop.util.config'))
    sim.enter_main()
    u = cfg_vals(user, 'u', sc['n'])
    l = cfg_vals(sc['local'], 'l', sc['n'] + 1)
    first = [True]

    def options():
        """what may be seen: with failing reads each file may be missing as a whole"""
        out = [dict(u, **l)]
        if sim.fault_log:
            out += [dict(u), dict(l), {}]
        return out

    def plain(c):
        return {k: v for k, v in c.items() if isinstance(v, (str, int))}

    def mk(mod, calls, faults):
        def body(task):
            for k in calls:
                def op():
                    if k == 'get':
                        return mod.get_config()
                    if k == 'val':
                        return {x: mod.get_config_value(x, default=None)
                                for x in ('shared', 'number', 'last_u', 'last_l', 'who_u', 'who_l')}
                    return {x: mod.get_config_path(x, default='~/p') for x in ('shared', 'nothing')}
                fl = faults if first[0] else {}
                first[0] = False
                r, v = sim.op(op, fl)
                if r == 'crash':
                    return
                if r != 'ok':
                    viol.append(['stops', 'the configuration stops the program: %s: %s' % (type(v).__name__, v)])
                    return
                if k == 'get':
                    got = plain(v)
                    ok = any(got == {a: b for a, b in o.items()} for o in options())
                elif k == 'val':
                    got = {a: b for a, b in v.items() if b is not None}
                    ok = any(got == {a: o[a] for a in v if a in o} for o in options())
                else:
                    got = v
                    ok = any(got == {'shared': str(o.get('shared', os.path.join(home, 'p'))),
                                     'nothing': os.path.join(home, 'p')} for o in options())
                seen.append((task.index, k, sorted(got.items())))
                if not ok:
                    viol.append(['partial', 'a caller sees %s instead of %s' % (got, options()[0])])
                    return
        return body
    fns = [mk(m, c, lf['faults'] if j == 0 else {}) for j, (m, p) in enumerate(zip(mods, lf['progs']))
           for c in p['clients']]
    tasks = sim.run_tasks(fns)
    for t in tasks:
        if t.result[0] == 'harness':
            raise RuntimeError(t.result[1])
        if t.result[0] == 'hang':
            viol.append(['hang', 'a caller does not get the configuration'])
    if sim.deadlock:
        viol.append(['deadlock', 'the callers wait for each other'])
    if sim.escapes:
        viol.append(['escape', repr(sim.escapes)])
    st = ws.new_stats()
    st['faults'] = dict(sim.fault_hits)
    st['points'], st['switches'] = sim.points, len(sim.sched.log)
    st['sim_time'] = sim.clock - 1.6e9
    st['ops'] = {'calls': len(seen)}
    return {'viol': viol, 'stats': st, 'digest': zlib.crc32(repr((sim.trace_hash, seen)).replace(root, '').encode()),
            'trace': [list(x) for x in sim.trace], 'hits': [list(x[:2]) for x in sim.fault_log],
            'sched_log': sim.sched.log, 'nontrivial': bool(sim.fault_log) or len(fns) > 1}
