"""C01: the run command of the command line, and the process call of the web service.

Two kinds of runs.  'calls': the real command with a recording processor handed in through the command's own
processor_factory seam, over histories of workspaces, configurations and inputs, with failing members and failing
file-system calls.  'real' and 'web': the real processor over synthetic inputs, products compared with those of
separate single runs.
"""
import io
import json
import os
import sys
import zlib

from .. import boot as _boot
from .. import proc
from ..kernel import Sim
from . import sar, ws

SHRINK = ('ops', 'faults', 'members')
CPU_LIMIT = 240
PLAN = {'C01': {'quick': 1500, 'thorough': 60000}}
LEVEL = {}
REAL = {'C01': ['dedop.cli.main (run command)', 'dedop.ui.workspace_manager', 'dedop.webapi.websocket (process)',
                'dedop.util.monitor', 'dedop.proc.sar and what it uses (one run in eight)']}
STUB = {'C01': ['cate.util.cli (argument parsing, error to exit status)', 'the processor (seven runs in eight: records '
                'what it is given and fails when told to)', 'the file system decides when a call fails',
                'the clock', 'when a NetCDF call fails', 'scipy.optimize.curve_fit (a cheap deterministic fit)',
                'the input (synthetic Level-1A products)']}
RULE = {'C01': 'history of workspace, configuration and input operations with 1-4 run commands of random options, '
               'failing members and failing calls; one run in eight with the real processor; non-trivial: a run with at '
               'least two members, or one that failed'}
ASSUME = {'C01': ws._A + ['inputs of one run have different names', 'no member is cancelled (P04 decides what a '
                          'cancelled run does)']}

WSN = ['a', 'b', 'default']
CFN = ['c', 'd', 'default', 'e f', 'C']
INN = ['L1A_1.nc', 'L1A_2.nc', 'x.nc', 'L1A_10.nc', 'y z.nc', '.h.nc']
FAILS = ['proc', 'ws', 'os', 'rt', 'val', 'key', 'mem']


def boot():
    _boot.processor()
    import dedop.ui.workspace_manager                # noqa


def gen(prop, r, tier, i):
    if i % 8 == 3:
        return gen_real(r)
    ops = []
    if r.random() < .9:
        w = r.choice(WSN)
        ops.append({'k': 'ws_add', 'w': w})
        ops.append({'k': 'ws_cur', 'w': w})
        for c in r.sample(CFN, r.choice([1, 2, 3])):
            ops.append({'k': 'cfg_add', 'w': w, 'c': c})
            if r.random() < .5:
                ops.append({'k': 'cfg_cur', 'w': w, 'c': c})
        ops.append({'k': 'in_add', 'w': w, 'i': r.sample(INN, r.choice([1, 2, 3, 4]))})
    ops.append(run_op(r))
    for _ in range(r.choice([0, 2, 4, 8])):
        w = r.choice(WSN)
        c, c2 = r.choice(CFN), r.choice(CFN)
        k = r.choice(['ws_add', 'ws_cur', 'cfg_add', 'cfg_add', 'cfg_rm', 'cfg_mv', 'cfg_cp', 'cfg_cur', 'in_add', 'in_rm',
                      'run', 'run', 'run'])
        e = {'k': k, 'w': w}
        if k.startswith('cfg'):
            e['c'] = c
        if k in ('cfg_mv', 'cfg_cp'):
            e['n'] = c2
        if k.startswith('in'):
            e['i'] = r.sample(INN, r.choice([1, 2]))
        ops.append(run_op(r) if k == 'run' else e)
    return {'kind': 'calls', 'ops': ops, 'order': r.randrange(1 << 30)}


def run_op(r):
    e = {'k': 'run'}
    if r.random() < .3:
        e['w'] = r.choice(WSN)
    x = r.random()
    if x < .3:
        e['c'] = r.choice(CFN)
    elif x < .65:
        e['a'] = True
    elif x < .68:
        e['a'] = True
        e['c'] = r.choice(CFN)
    if r.random() < .4:
        e['s'] = True
    if r.random() < .6:
        e['q'] = True
    if r.random() < .3:
        e['o'] = r.choice(['out', 'deep/er/out', 'rel'])
    if r.random() < .35:
        e['i'] = r.sample(INN + ['none.nc'], r.choice([1, 2, 3]))
        e['rel'] = r.random() < .3
    x = r.random()
    if x < .3:
        e['fail'] = {str(r.randrange(6)): r.choice(FAILS)}
    elif x < .36:
        e['ffail'] = {str(r.randrange(3)): r.choice(FAILS)}
    elif x < .5:
        e['faults'] = {str(r.randrange(1, 60)): r.choice(['err', 'err', 'full', 'sticky:err'])}
    return e


def gen_real(r):
    n = r.choice([1, 2, 2, 3])
    ins = [{'in': sar.inp(r, .2), 'name': x} for x in r.sample(['L1A_1.nc', 'L1A_2.nc', 'L1A_33.nc', 'x.nc'], n)]
    x = r.random()
    bad = None
    if x < .4:
        bad = [r.randrange(n), r.choice(['short', 'garbage', 'missing'])]
    cs = r.sample(range(len(sar.CONFS)), r.choice([1, 1, 2]))
    sc = {'kind': r.choice(['real', 'real', 'web']), 'members': ins, 'confs': cs, 'bad': bad, 'bs': r.random() < .4,
          'all': len(cs) > 1 and r.random() < .7, 'o': r.random() < .3, 'i': r.random() < .4, 'order': r.randrange(1 << 30)}
    if bad is None and r.random() < .3:
        sc['faults'] = sar.fault(r)
    if sc['kind'] == 'web':
        sc['bs'] = True
        sc['seq'] = [[r.randrange(len(cs)), r.randrange(n)] for _ in range(r.choice([1, 2, 3]))]
    if bad and bad[1] == 'missing':
        sc['i'] = True
    return sc


def valid(sc):
    return bool(sc.get('ops', True)) and (sc['kind'] == 'calls' or bool(sc['members']))


def run(sc, d):
    return proc.in_child(lambda: {'calls': run_calls}.get(sc['kind'], run_real)(sc, d), cpu=200)


def files(root):
    out = {}
    for p, ds, fs in os.walk(root):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, 'rb') as fp:
                out[os.path.relpath(q, root)] = zlib.crc32(fp.read())
    return out


class Boom(Exception):
    pass


def exc(kind):
    from dedop.model.exception import ProcessorException
    from dedop.ui.exception import WorkspaceError
    return {'proc': ProcessorException('failed'), 'ws': WorkspaceError('failed'), 'os': OSError(5, 'failed'),
            'rt': RuntimeError('failed'), 'val': ValueError('failed'), 'key': KeyError('failed'),
            'mem': MemoryError('failed')}[kind]


# ---- with a recording processor ------------------------------------------------
def run_calls(sc, d):
    import dedop.cli.main as cli
    from dedop.ui.workspace_manager import WorkspaceManager
    from dedop.util.monitor import Monitor
    root = os.path.join(os.path.realpath(d), 'disk')
    src = os.path.join(root, 'incoming')
    cwd = os.path.join(root, 'here')
    wdir = os.path.join(root, 'workspaces')
    for x in (src, cwd):
        os.makedirs(x)
    os.chdir(cwd)
    for n in INN:
        with open(os.path.join(src, n), 'wb') as fp:
            fp.write(b'ext ' + n.encode())
        with open(os.path.join(cwd, n), 'wb') as fp:
            fp.write(b'here ' + n.encode())
    sim = Sim(root, order_seed=str(sc['order']))
    Sim.current = sim
    sim.enter_main()
    mg = WorkspaceManager(wdir)
    inputs, serial = {}, 0            # what each workspace's inputs hold
    marks = {}
    viol, trace, stats, digest, nontrivial = [], [], ws.new_stats(), 0, False
    for e in sc['ops']:
        k = e['k']
        ws.bump(stats['ops'], k)
        if k != 'run':
            serial += 1
            res = setup(sim, mg, e, src, serial, inputs, marks)
            trace.append([e, res])
            digest = zlib.crc32(repr((e, res)).encode(), digest)
            continue
        # what is asked for
        Sim.current = None
        w = e.get('w') or mg.get_current_workspace().name or 'default'
        there = w in mg.get_workspace_names()
        cfgs = (mg.get_config_names(w) or []) if there else []
        if e.get('a'):
            want_c = list(cfgs)
        else:
            cur = mg.get_current_config_name(w) if there else None
            want_c = [e.get('c') or cur or 'default']
        known = dict(marks.get(w, {}))
        if e.get('i'):
            base = cwd if e.get('rel') else src
            arg_i = [n if e.get('rel') else os.path.join(base, n) for n in e['i']]
            want_i = [('here ' if e.get('rel') else 'ext ') + n if n in INN else None for n in e['i']]
            pre_i = [os.path.basename(n) for n in e['i']]
        else:
            arg_i = None
            want_i = list(inputs.get(w, {}).values())
            pre_i = list(inputs.get(w, {}))
        out = None
        if e.get('o'):
            out = e['o'] if e['o'] == 'rel' else os.path.join(root, e['o'])
        before = files(root)
        Sim.current = sim
        calls, made, failed, done = [], [], [], []

        class Recorder:
            def __init__(self, name, cnf_file=None, cst_file=None, chd_file=None, output_dir='.', skip_l1bs=True):
                n = len(made)
                made.append(name)
                try:
                    self.text = [open(f).read() for f in (chd_file, cnf_file, cst_file)]
                    if str(n) in e.get('ffail', {}):
                        raise exc(e['ffail'][str(n)])
                except BaseException as x:
                    failed.append(x)
                    raise
                self.name, self.out, self.skip = name, output_dir, skip_l1bs

            def process(self, l1a_file, monitor=Monitor.NULL):
                n = len(calls)
                calls.append(None)
                try:
                    with monitor.starting('processing', total_work=2):
                        with open(l1a_file, 'rb') as fp:
                            data = fp.read().decode()
                        calls[n] = (self.name, tuple(m for t in self.text for m in [json.loads(t).get('_mark')]), data,
                                    os.path.realpath(self.out), bool(self.skip))
                        monitor.progress(1)
                        if str(n) in e.get('fail', {}):
                            raise exc(e['fail'][str(n)])
                        os.makedirs(self.out, exist_ok=True)
                        b = os.path.splitext(os.path.basename(l1a_file))[0]
                        for t in ['L1B'] if self.skip else ['L1B', 'L1BS']:
                            p = os.path.join(self.out, '%s_%s_%s.nc' % (t, b, self.name))
                            with open(p, 'w') as fp:
                                fp.write(data)
                            done.append(os.path.relpath(os.path.realpath(p), root))
                        monitor.progress(1)
                except BaseException as x:
                    failed.append(x)
                    raise
        a = ['run'] + (['-w', e['w']] if e.get('w') else []) + (['-c', e['c']] if e.get('c') else []) + \
            ['-' + f for f in 'asq' if e.get(f)] + (['-o', out] if out else []) + \
            (['-i'] + arg_i if arg_i is not None else [])
        sys.stdin = io.StringIO('')
        res, val = sim.op(lambda: cli.main(a, workspace_manager=mg, processor_factory=Recorder), e.get('faults'))
        hits = list(sim.main_task.last_hits)
        Sim.current = None
        ok = res == 'ok' and val in (0, None)
        show = ' '.join(x.replace(root, '') for x in a)
        trace.append([show, res, str(val).replace(root, '')[:80], [h[1] for h in hits]])
        if res == 'hang':
            viol.append(['hang', show])
            break
        after = files(root)
        # the members asked for; a configuration made on the fly has the default files (no mark)
        want = []
        for c in want_c:
            o = os.path.realpath(out if out else os.path.join(wdir, w, 'configs', c, 'outputs'))
            for x in want_i:
                m = known.get(c)
                want.append((c, tuple('%s-%s' % (m, t) for t in ('CHD', 'CNF', 'CST')) if m is not None else (None,) * 3,
                             x, o, bool(e.get('s'))))
        left = list(want)
        digest = zlib.crc32(repr((show, ok, [h[1] for h in hits], [x and x[:3] for x in calls])).encode(), digest)
        for x in calls:
            if x is None:
                continue
            if x in left:
                left.remove(x)
            elif x in want:
                viol.append(['twice', '%s processes %r with %r twice' % (show, x[2], x[0])])
            else:
                near = [y for y in want if y[2] == x[2] and y[0] == x[0]] or want[:1]
                viol.append(['other', ('%s processes %s, which is not asked for (nearest: %s)' % (
                    show, list(x), near)).replace(root, '')])
            if viol:
                break
        legit = failed or hits or not there and not e.get('i') or not want or e.get('a') and e.get('c') or \
            None in want_i or any(c not in cfgs for c in want_c)
        if viol:
            break
        if ok and failed:
            viol.append(['silent', '%s succeeds although a member failed (%s)' % (show, type(failed[0]).__name__)])
        elif ok and left:
            viol.append(['missed', ('%s succeeds without processing %s' % (show, left[0],)).replace(root, '')])
        elif not ok and not legit:
            viol.append(['refused', ('%s fails (%s, %r), nothing is wrong' % (show, res, val)).replace(root, '')])
        if viol:
            break
        # nothing but the outputs is changed
        for p in sorted(set(before) | set(after)):
            if before.get(p) != after.get(p) and p not in done:
                q = p.split(os.sep)
                if q[0] == 'workspaces' and (len(q) == 2 and not there or len(q) > 1 and q[1] == w and (
                        not there or q[2] == 'configs' and (len(q) == 4 or q[3] not in cfgs))):
                    continue      # the workspace or configuration made on the fly, and its selection
                if p.startswith('home') or failed and os.path.dirname(p) in {os.path.relpath(x[3], root) for x in want}:
                    continue
                viol.append(['tree', '%s changes %s' % (show, p)])
                break
        if viol:
            break
        nontrivial = nontrivial or len(want) > 1 or bool(failed)
        Sim.current = sim
    Sim.current = None
    stats['faults'] = dict(sim.fault_hits)
    stats['points'] = sim.points
    digest = zlib.crc32(b'%d' % sim.trace_hash, digest)
    return {'viol': viol[:2], 'stats': stats, 'digest': digest, 'states': [digest], 'trace': trace,
            'nontrivial': nontrivial}


def setup(sim, mg, e, src, serial, inputs, marks):
    k, w = e['k'], e['w']

    def mark(c):
        for t in ('CHD', 'CNF', 'CST'):
            with open(mg.get_config_file(w, c, t)) as fp:
                j = json.load(fp)
            j['_mark'] = '%d-%s' % (serial, t)
            mg.write_config_file(w, c, t, json.dumps(j))
        marks.setdefault(w, {})[c] = str(serial)

    def f():
        if k == 'ws_add':
            mg.create_workspace(w)
        elif k == 'ws_cur':
            mg.set_current_workspace_name(w)
        elif k == 'cfg_add':
            mg.create_config(w, e['c'])
            mark(e['c'])
        elif k == 'cfg_rm':
            mg.delete_config(w, e['c'])
            marks[w].pop(e['c'], None)
            if mg.get_current_config_name(w) == e['c']:
                mg.set_current_config_name(w, '')
        elif k == 'cfg_mv':
            mg.rename_config(w, e['c'], e['n'])
            marks[w][e['n']] = marks[w].pop(e['c'])
            if mg.get_current_config_name(w) == e['c']:
                mg.set_current_config_name(w, e['n'])
        elif k == 'cfg_cp':
            mg.copy_config(w, e['c'], e['n'])
            mark(e['n'])
        elif k == 'cfg_cur':
            mg.set_current_config_name(w, e['c'])
        elif k == 'in_add':
            from dedop.util.monitor import Monitor
            p = []
            for n in e['i']:
                q = os.path.join(src, n)
                with open(q, 'rb') as fp:
                    old = fp.read()
                p.append((q, old, '%s of %s, %d' % (n, w, serial)))
                with open(q, 'w') as fp:
                    fp.write(p[-1][2])
            try:
                mg.add_inputs(w, [x[0] for x in p], Monitor.NULL)
            finally:
                for q, old, new in p:
                    with open(q, 'wb') as fp:
                        fp.write(old)
            for q, old, new in p:
                inputs.setdefault(w, {})[os.path.basename(q)] = new
        elif k == 'in_rm':
            from dedop.util.monitor import Monitor
            n = [x for x in e['i'] if x in inputs.get(w, {})]
            mg.remove_inputs(w, n, Monitor.NULL)
            for x in n:
                inputs[w].pop(x, None)
    return sim.op(f)[0]


# ---- with the real processor ---------------------------------------------------
def run_real(sc, d):
    import dedop.cli.main as cli
    from dedop.ui.workspace_manager import WorkspaceManager
    from dedop.util.monitor import Monitor
    from dedop.webapi.websocket import WebSocketService
    from .. import ncsim
    w = sar.World(sc, d, order_seed=str(sc['order']))
    env, bs = w.env, sc['bs']
    mg = WorkspaceManager(os.path.join(env.root, 'workspaces'))
    ins = []
    for i, m in enumerate(sc['members']):
        spec, bad = m['in'], sc['bad'] and sc['bad'][0] == i and sc['bad'][1]
        where = 'in'
        p = os.path.join(env.root, where, m['name'])
        if bad == 'missing':
            os.makedirs(os.path.dirname(p), exist_ok=True)
        elif bad == 'garbage':
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fp:
                fp.write(b'this is not NetCDF')
        else:
            if bad == 'short':
                spec = {'pieces': [[spec['pieces'][0][0], 20]], 'salt': 0}
            p = env.input(spec, name=m['name'])
        ins.append((p, spec, bad))
    confs = [sar.CONFS[c] for c in sc['confs']]
    names = ['cfg%d' % i for i in range(len(confs))]
    refs = {}
    for i, (p, spec, bad) in enumerate(ins):
        for j, c in enumerate(confs):
            if not bad:
                refs[i, j] = sar.reference(env, spec, c, bs)
                if refs[i, j]['res'] != 'ok':
                    raise proc.HarnessError('reference run: %s' % refs[i, j]['status'])
    mg.create_workspace('w')
    for n, c in zip(names, confs):
        mg.create_config('w', n)
        for t, p in env.aux(c).items():
            with open(p) as fp:
                mg.write_config_file('w', n, t, fp.read())
    mg.set_current_workspace_name('w')
    mg.set_current_config_name('w', names[0])
    if not sc['i'] and sc['kind'] == 'real':
        mg.add_inputs('w', [p for p, _, _ in ins], Monitor.NULL)
    out = os.path.join(env.root, 'elsewhere')
    sim = w.start()
    if sc['kind'] == 'web':
        svc = WebSocketService(mg)
        for j, i in sc['seq']:
            i %= len(ins)
            p, spec, bad = ins[i]
            o = out if sc['o'] else mg.get_outputs_path('w', names[j])
            r = sim.op(lambda: svc.process(names[j], 'w', names[j], o, p, Monitor.NULL), sc.get('faults'))
            hit = bool(sim.main_task.last_hits)
            w.stop()
            w.log.append(('web', r[0], [h[1] for h in sim.main_task.last_hits]))
            judge(w, 'the process call', r[0] == 'ok', r, bad, hit, [(i, j, o)], refs, names, ins, bs)
            ncsim.drop_handles()
            if w.viol:
                break
            Sim.current = sim
        w.stop()
        return w.out(True)
    js = range(len(names)) if sc['all'] else [0]
    a = ['run', '-q'] + ([] if bs else ['-s']) + (['-a'] if sc['all'] else []) + (['-o', out] if sc['o'] else []) + \
        (['-i'] + [p for p, _, _ in ins] if sc['i'] else [])
    before = files(mg.workspaces_dir)
    r = sim.op(lambda: cli.main(a, workspace_manager=mg), sc.get('faults'))
    hit = bool(sim.main_task.last_hits)
    w.stop()
    w.log.append(('cli', r[0], r[1] if r[0] == 'ok' else type(r[1]).__name__, [h[1] for h in sim.main_task.last_hits]))
    ok = r[0] == 'ok' and r[1] in (0, None)
    want = [(i, j, out if sc['o'] else mg.get_outputs_path('w', names[j])) for i in range(len(ins)) for j in js]
    judge(w, ' '.join(x.replace(env.root, '') for x in a), ok, r, any(b for _, _, b in ins), hit, want, refs, names, ins, bs)
    ncsim.drop_handles()
    if not w.viol:
        after = files(mg.workspaces_dir)
        allowed = set()
        for i, j, o in want:
            allowed.add(os.path.relpath(o, mg.workspaces_dir))
        for p in sorted(set(before) | set(after)):
            if before.get(p) != after.get(p) and os.path.dirname(p) not in allowed:
                w.viol.append(['tree', 'the run changes %s' % p])
                break
    return w.out(len(want) > 1 or not ok)


def judge(w, what, ok, r, bad, hit, want, refs, names, ins, bs):
    if ok and bad:
        w.viol.append(['silent', '%s succeeds although an input is bad (%s)' % (what, bad)])
    elif not ok and not bad and not hit:
        w.viol.append(['refused', ('%s fails: %r' % (what, r[1])).replace(w.env.root, '')])
    elif ok:
        exp = {}
        for i, j, o in want:
            p = sar.products(o, bs, os.path.basename(ins[i][0]), names[j])
            for k in ('l1b', 'l1bs') if bs else ('l1b',):
                x = sar.differ(p[k], refs[i, j][k])
                if x is not None:
                    w.viol.append(['product', '%s: the %s product of %s with %s differs from that of a single run: %s' % (
                        what, k.upper(), os.path.basename(ins[i][0]), names[j], x)])
                    return
            exp.setdefault(o, set()).add((i, j))
        if what != 'the process call':
            for o, s in exp.items():
                n = len(os.listdir(o))
                if n != len(s) * (2 if bs else 1):
                    w.viol.append(['product', '%s leaves %d files for %d members' % (what, n, len(s))])
                    return
