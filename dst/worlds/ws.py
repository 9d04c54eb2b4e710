"""W01, W02, W03: histories of workspace operations; without faults, with failing calls, with crashes."""
import copy
import json
import os
import random
import zlib

from .. import boot as _boot
from .. import proc
from ..kernel import Sim
from . import wsmodel as M

SHRINK = ('ops', 'faults')
CPU_LIMIT = 60

PLAN = {
    'W01': {'quick': 5000, 'thorough': 120000},
    'W02': {'quick': 9000, 'thorough': 160000},
    'W03': {'quick': 9000, 'thorough': 160000},
}
LEVEL = {'W01': 'exploration', 'W02': 'exploration', 'W03': 'exploration'}
_R = ['dedop.ui.workspace_manager', 'dedop.ui.workspace', 'dedop.util.config', 'shutil', 'json',
      "Python's buffered and text I/O layers", 'a real file system (scratch folder) below the simulated calls']
_S = ['system calls (faults, crash points, seeded directory order)', 'clock', 'process ids and random names',
      'sub-process start (recorded only)', 'input and product files (random bytes, never opened as NetCDF)']
REAL = {p: _R for p in PLAN}
STUB = {p: _S for p in PLAN}
RULE = {
    'W01': 'history of 4-30 random operations by 1-3 managers and program restarts over few names; checked against the '
           'model after every operation; non-trivial: at least 3 operations changed something',
    'W02': 'history of 2-14 operations, one or more of them with a failing call (error, short write then error, full '
           'disk, persistent failure); non-trivial: at least one fault struck inside an operation',
    'W03': 'history of 2-12 operations, one or more of them killed before, after or in the middle of a call, then '
           'restarted; non-trivial: at least one kill struck inside an operation',
}
_A = ['faults strike where the program calls the operating system from Python; stat and access never fail',
      'what was handed to the operating system survives a kill (no power loss)',
      'the tree below one workspaces directory is used only through the simulated program and the harness']
ASSUME = {p: _A for p in PLAN}


def boot():
    _boot.workspace()


WS = ['a', 'b', 'default', 'a_1', 'my ws', '.h', 'e ']
CF = ['c', 'd', 'default', 'c_copy', 'c d', '.c', ' e']
INS = ['i1.nc', 'i2.nc', 'i10.nc', 'note.txt', 'i[1].nc', 'i3.nc.bak']
OUTS = ['L1B_x.nc', 'L1BS_x.nc', 'log.txt']
USERS = ['readme.txt', 'sub/deep/data.bin', 'inputs.txt']
NBS = ['inspect-p.nc-1.ipynb', 'inspect-p.nc-2.ipynb', 'compare-p.nc-q.nc-1.ipynb', 'mine.ipynb', 'notes.txt']


def gen_op(r, faulty):
    w = r.choice(WS[:r.choice([1, 2, 2, 4, 7])])
    w2 = r.choice(WS)
    c = r.choice(CF[:r.choice([1, 2, 2, 4, 7])])
    c2 = r.choice(CF)
    k = r.choices(
        ['ws_add', 'ws_rm', 'ws_cp', 'ws_mv', 'ws_cur', 'ws_clear', 'cfg_add', 'cfg_rm', 'cfg_cp', 'cfg_mv', 'cfg_cur',
         'cfg_write', 'cfg_up', 'in_add', 'in_rm', 'out_put', 'out_rm', 'user_put', 'nb_put', 'nb_inspect',
         'nb_compare', 'stray', 'q_in', 'q_out', 'q_cur', 'q_ls', 'q_cfg'],
        [5, 2, 4, 3, 3, 0.3, 7, 2, 4, 3, 3, 6, 2, 5, 3, 3, 2, 2, 1, 1, 1, 0.4, 1, 1, 2, 1, 1.5])[0]
    if k in ('ws_add', 'ws_rm', 'ws_cur'):
        return [k, w]
    if k in ('ws_cp', 'ws_mv'):
        return [k, w, w2]
    if k == 'cfg_add':
        return [k, w, c, r.randrange(4) == 0]
    if k in ('cfg_rm', 'cfg_cur', 'cfg_up', 'out_rm'):
        return [k, w, c]
    if k in ('cfg_cp', 'cfg_mv'):
        return [k, w, c, c2]
    if k == 'cfg_write':
        return [k, w, c, r.choice(M.KEYS), r.randrange(1, 60)]
    if k == 'in_add':
        return [k, w, [[n, r.choice([-1] + list(range(1, 25))) if r.random() < .1 else r.randrange(1, 25)]
                       for n in r.sample(INS, r.choice([1, 1, 2, 3]))]]
    if k == 'in_rm':
        return [k, w, [r.choice(INS) for _ in range(r.choice([1, 1, 2, 3]))]]
    if k == 'out_put':
        return [k, w, c, [[n, r.randrange(1, 25)] for n in r.sample(OUTS, r.choice([0, 1, 2, 3]))]]
    if k == 'user_put':
        return [k, w, r.choice(USERS), r.randrange(1, 25)]
    if k == 'nb_put':
        return [k, w, r.choice(NBS[:4]), r.randrange(1, 25)]
    if k == 'nb_inspect':
        return [k, w, r.choice(['/data/p.nc', 'C:\\data\\p.nc', "/it's/p.nc"])]
    if k == 'nb_compare':
        return [k, w, '/data/p.nc', r.choice(['/data/q.nc', '/data/p.nc'])]
    if k == 'q_in':
        return [k, w, r.choice(['*', 'i1*', ['i1*', '*.nc'], ['i?.nc'], None, '*.txt', ['i1.nc', 'i10.nc']])]
    if k == 'q_out':
        return [k, w, c, r.choice(['*', 'L1B*', ['L1B_*', '*x.nc'], None])]
    if k in ('q_cur', 'q_ls'):
        return [k, w]
    if k == 'q_cfg':
        return [k, w, c, r.choice(M.KEYS)]
    if k == 'stray':
        return [k, r.choice(['notes.txt', '.DS_Store', 'zzz'])]
    return [k]


def gen_seedstate(r):
    """operations that give the history something to work on"""
    ops = [['ws_add', 'a'], ['cfg_add', 'a', 'c', False]]
    if r.random() < .7:
        ops.append(['cfg_write', 'a', 'c', r.choice(M.KEYS), r.randrange(1, 60)])
    if r.random() < .6:
        ops.append(['in_add', 'a', [['i1.nc', 1], ['i2.nc', 2]]])
    if r.random() < .4:
        ops.append(['out_put', 'a', 'c', [['L1B_x.nc', 3], ['log.txt', 4]]])
    if r.random() < .5:
        ops.append(['ws_cur', 'a'])
    if r.random() < .5:
        ops.append(['cfg_cur', 'a', 'c'])
    if r.random() < .4:
        ops += [['ws_add', 'b'], ['cfg_add', 'b', 'd', r.random() < .3]]
    if r.random() < .3:
        ops.append(['user_put', 'a', r.choice(USERS), 5])
    return ops


def gen(prop, r, tier, i):
    ops = gen_seedstate(r) if r.random() < .8 else []
    n = {'W01': r.choice([4, 8, 14, 26]), 'W02': r.choice([1, 2, 4, 8]), 'W03': r.choice([1, 2, 4, 8])}[prop]
    body = [gen_op(r, prop != 'W01') for _ in range(n)]
    out = [{'op': o, 'm': 0} for o in ops]
    p = {'W01': 0, 'W02': .6, 'W03': .6}[prop]
    for o in body:
        e = {'op': o, 'm': r.choice([0, 0, 1, 2])}
        if r.random() < p and o[0] not in HARNESS:
            if prop == 'W02':
                k = r.choice(['err', 'err', 'err', 'partial', 'full', 'sticky:err', 'sticky:full'])
            else:
                k = r.choice(['crash', 'crash_after', 'torn'])
            e['faults'] = {str(when(r)): k}
            if prop == 'W02' and r.random() < .15:
                e['faults'][str(when(r))] = 'err'
            if r.random() < .5:
                out.append(e)
                e = {'op': o, 'm': r.choice([0, 1])}        # and again
        out.append(e)
        if r.random() < .05:
            out.append({'op': ['restart'], 'm': 0})
    return {'ops': out, 'order': r.randrange(1 << 30), 'buf': r.choice([[8192], [64, 512], [16]])}


def when(r):
    return max(1, int(2 ** r.uniform(0, r.choice([2.5, 4, 6]))))


HARNESS = ('out_put', 'user_put', 'nb_put', 'stray', 'restart')


def run(sc, d):
    real = M.Real(d).setup()
    model = M.empty()
    viol, stats, digest, states = [], new_stats(), 0, []
    i, life = 0, 0
    trace = []
    changed = hits = 0
    while i < len(sc['ops']) and not viol:
        i, model, v, st, dg, ss, tr, ch = proc.in_child(lambda: lifetime(sc, real, model, i, life))
        viol += v
        merge(stats, st)
        digest = zlib.crc32(b'%d' % dg, digest)
        states += ss
        trace += tr
        changed += ch
        life += 1
    hits = sum(stats['faults'].values())
    return {'viol': viol, 'stats': stats, 'digest': digest, 'states': states, 'trace': trace,
            'nontrivial': changed >= 3 if sc.get('prop') == 'W01' else hits > 0}


def new_stats():
    return {'faults': {}, 'ops': {}, 'probes': {}, 'sim_time': 0.0, 'points': 0, 'switches': 0}


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            for x, n in v.items():
                a[k][x] = a[k].get(x, 0) + n
        else:
            a[k] += v


def bump(d, k, n=1):
    d[k] = d.get(k, 0) + n


def lifetime(sc, real, model, i, life):
    sim = Sim(os.path.join(real.root), order_seed='%s-%d' % (sc['order'], life), pid=4242 + life)
    sim.buf_choices = tuple(sc['buf'])
    Sim.current = sim
    sim.enter_main()
    managers = {}
    viol, states, trace = [], [], []
    stats = new_stats()
    users = list(USERS)
    digest = 0
    changed = 0
    while i < len(sc['ops']):
        e = sc['ops'][i]
        op = e['op']
        i += 1
        bump(stats['ops'], op[0])
        if op[0] == 'restart':
            break
        real.prepare(op)
        if op[0] in HARNESS:
            out, new = M.apply(model, op)
            real.harness_op(op)
            model = new
            continue
        mg = managers.setdefault(e['m'], None) or real.manager()
        managers[e['m']] = mg
        if op[0] == 'in_add' and op[1] not in model['ws']:
            continue            # importing into a workspace that is not there is not specified
        try:
            want, new = M.apply(model, op)
        except M.RefusedPartly as p:
            want, new = 'partly', p.m
        tr0 = len(sim.trace)
        res, val = sim.op(lambda: real.call(mg, op), e.get('faults'))
        t = sim.task()
        hit = t.last_hits
        for f, kind, _ in hit:
            bump(stats['faults'], '%s@%s' % (f, kind))
        trace.append([op, e.get('faults'), res, str(val)[:100]])
        trace += [list(x[1:]) for x in sim.trace[tr0:]][-60:]
        problems = []
        try:
            got = M.observe(real, problems, users, INS)
        except BaseException as x:
            viol.append(['observe', 'after %s (%s) the workspaces cannot be read: %s: %s' % (
                op, res, type(x).__name__, str(x).replace(real.root, '<root>')[:200])])
            break
        v, model2 = judge(op, want, model, new, res, val, hit, got, problems, mg)
        v = [[s, '%s [%s after %s%s]' % (msg.replace(real.root, '<root>'), res, op,
                                         ', faults %s' % (hit,) if hit else '')] for s, msg in v]
        viol += v
        if v:
            break
        if model2 != model:
            changed += 1
        model = model2
        states.append(zlib.crc32(repr(state_key(model)).encode()))
        digest = zlib.crc32(repr((op, res, state_key(model))).encode(), digest)
        if sim.escapes:
            viol.append(['escape', 'writes outside the disk: %r' % (sim.escapes,)])
            break
        if res == 'crash':
            break
    digest = zlib.crc32(b'%d' % sim.trace_hash, digest)
    stats['sim_time'] = sim.clock - 1.6e9
    stats['points'] = sim.points
    return i, model, viol, stats, digest, states, trace, changed


def state_key(m):
    return [(w, x['cur'], sorted(x['cfg']), sorted(x['in']), sorted(x['nb']), sorted(x['user']),
             [(c, zlib.crc32(repr(y).encode())) for c, y in sorted(x['cfg'].items())],
             zlib.crc32(repr(sorted(x['in'].items())).encode())) for w, x in sorted(m['ws'].items())], m['cur']


DESTROY = ('ws_rm', 'cfg_rm', 'ws_clear', 'out_rm', 'in_rm')


def judge(op, want, old, new, res, val, hits, got, problems, mg):
    """-> violations, model to go on with"""
    v = list(problems)
    if v:
        return v, old
    exp_new = copy.deepcopy(new)
    if res == 'hang':
        return [['hang', 'did not end']], old
    if not hits:
        # no fault struck: plain refinement
        if want == 'partly':
            ok = res == 'err'
        elif want in ('any', 'either'):
            ok = res in ('ok', 'err')
        else:
            ok = res == want
        if not ok:
            return [['outcome', 'the operation %s, the model says %s' % (
                'succeeded' if res == 'ok' else 'failed (%s: %s)' % (type(val).__name__, val), want)]], old
        if want == 'partly':
            # import of several files, one of them missing: the others may or may not be there, whole
            return partial_import(op, old, got) if op[0] == 'in_add' else partial_upgrade(op, old, new, got)
        if res == 'err' and want != 'any':
            exp_new = copy.deepcopy(old)
        M.take_notebook(exp_new, got, v)
        dd = M.diff(exp_new, got)
        if dd:
            v.append(['state', '; '.join(dd[:4])])
        elif res == 'ok':
            er = M.expected_return(old, new, op, mg)
            if er != 'skip' and er != val:
                v.append(['return', 'returned %r, the model says %r' % (val, er)])
            M.adopt(exp_new, got)
        return v, exp_new
    # faults struck
    if res == 'ok':
        if want in ('err', 'partly'):
            return [['fault-outcome', 'succeeded, but without faults it is refused']], old
        M.take_notebook(exp_new, got, v)
        dd = M.diff(exp_new, got)
        if dd:
            v.append(['silent', 'reported success, but: ' + '; '.join(dd[:4])])
        else:
            M.adopt(exp_new, got)
            if op[0].startswith('q_'):
                er = M.expected_return(old, new, op, mg)
                if er != val:
                    v.append(['fault-return', 'a failing call made it return %r, right is %r' % (val, er)])
        return v, exp_new
    # failed or killed
    if want in ('err', 'any'):
        new = old
    if op[0] in DESTROY:
        return destroyed(op, old, new, got)
    if op[0] == 'in_add':
        return partial_import(op, old, got)
    if op[0] in ('nb_inspect', 'nb_compare'):
        return notebook_failed(op, old, got)
    if op[0] == 'cfg_up' and want in ('ok', 'partly'):
        return partial_upgrade(op, old, new, got)
    d_old = M.diff(old, got)
    if not d_old:
        return [], old
    if res == 'crash':
        d_new = M.diff(exp_new, got) if want in ('ok', 'any', 'either') else ['']
        if not d_new:
            return [], exp_new
        return [['torn', 'after restart neither the old nor the new state: ' + '; '.join((d_old + d_new)[:4])]], old
    return [['half-done', 'the operation failed but changed: ' + '; '.join(d_old[:4])]], old


def partial_upgrade(op, old, new, got):
    exp = copy.deepcopy(old)
    fn = new['ws'][op[1]]['cfg'][op[2]]['files']
    for k in M.KEYS:
        have = got['ws'].get(op[1], M.new_ws())['cfg'].get(op[2], {'files': {}})['files'].get(k)
        if fn[k] is not None and not M.diff(fn[k], have):
            exp['ws'][op[1]]['cfg'][op[2]]['files'][k] = have
    dd = M.diff(exp, got)
    return ([['torn', '; '.join(dd[:4])]] if dd else []), exp


def partial_import(op, old, got):
    exp = copy.deepcopy(old)
    if op[1] in got['ws'] and op[1] in exp['ws']:
        w = exp['ws'][op[1]]['in']
        have = got['ws'][op[1]]['in']
        for name, n in op[2]:
            if n >= 0 and have.get(name) == M.blob(n):
                w[name] = have[name]
    dd = M.diff(exp, got)
    return ([['torn-input', '; '.join(dd[:4])]] if dd else []), exp


def destroyed(op, old, new, got):
    """only what is named may have lost something"""
    exp = copy.deepcopy(old)
    if op[0] == 'ws_clear':
        for w, x in got['ws'].items():
            if w not in old['ws'] or not M.subset(x, loose(old['ws'][w])):
                return [['delete', 'clearing changed contents of workspace %r' % w]], old
        if got['cur'] not in (old['cur'], None):
            return [['delete', 'clearing changed the current workspace']], old
        return [], copy.deepcopy(got)
    w = op[1]
    if w in old['ws']:
        if op[0] == 'ws_rm':
            if w in got['ws']:
                if not M.subset(got['ws'][w], loose(old['ws'][w])):
                    return [['delete', 'a failed removal changed contents: %s' % M.diff(old['ws'][w], got['ws'][w])[:3]]], old
                exp['ws'][w] = got['ws'][w]
            else:
                exp['ws'].pop(w)
        elif op[0] in ('cfg_rm', 'out_rm') and op[2] in old['ws'][w]['cfg'] and w in got['ws']:
            c = got['ws'][w]['cfg'].get(op[2])
            if c is None:
                if op[0] == 'cfg_rm':
                    exp['ws'][w]['cfg'].pop(op[2])
            else:
                oc = old['ws'][w]['cfg'][op[2]]
                if op[0] == 'cfg_rm':
                    if not M.subset(c, loose(oc)):
                        return [['delete', 'a failed removal changed contents']], old
                    exp['ws'][w]['cfg'][op[2]] = c
                else:
                    if not M.subset(c['outs'], oc['outs']):
                        return [['delete', 'a failed clean changed contents']], old
                    exp['ws'][w]['cfg'][op[2]]['outs'] = c['outs']
        elif op[0] == 'in_rm' and w in got['ws']:
            for n in op[2]:
                if n not in got['ws'][w]['in']:
                    exp['ws'][w]['in'].pop(n, None)
    dd = M.diff(exp, got)
    return ([['delete', 'something not named changed: ' + '; '.join(dd[:4])]] if dd else []), exp


def loose(x):
    """a partly removed tree may have lost its output folder and its selection"""
    x = copy.deepcopy(x)

    def walk(y):
        if isinstance(y, dict):
            for k in y:
                if k in ('hasouts',):
                    y[k] = Any2()
                else:
                    walk(y[k])
    walk(x)
    return x


class Any2:
    def __eq__(self, o):
        return True


def notebook_failed(op, old, got):
    """existing notebooks stay; a whole new one may be there (the launch may have failed after it was written)"""
    exp = copy.deepcopy(old)
    w = op[1]
    v = []
    if w in exp['ws'] and w in got['ws']:
        new = sorted(set(got['ws'][w]['nb']) - set(exp['ws'][w]['nb']))
        if len(new) > 1:
            v.append(['notebook', 'a failed request left %d notebooks' % len(new)])
        for n in new:
            exp['ws'][w]['nb'][n] = got['ws'][w]['nb'][n]
    dd = M.diff(exp, got)
    if dd:
        v.append(['half-done', '; '.join(dd[:4])])
    return v, exp
