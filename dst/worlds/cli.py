"""W08: the current selection always names something that exists."""
import io
import os
import sys
import zlib

from .. import boot as _boot
from .. import proc
from ..kernel import Sim
from . import ws
from . import wsmodel as M

SHRINK = ('ops',)
CPU_LIMIT = 60
PLAN = {'W08': {'quick': 3500, 'thorough': 100000}}
LEVEL = {}
REAL = {'W08': ['dedop.cli.main (all workspace, config, input and output commands)', 'dedop.webapi.websocket'] + ws._R}
STUB = {'W08': ws._S + ['cate.util.cli (argument parsing, error to exit status)', 'the keyboard (scripted answers)']}
RULE = {'W08': 'history of 5-30 command-line commands and web service calls (no web renames) over few names, with '
               'program restarts, seeded directory order and scripted answers; '
               'selections are checked after every command; non-trivial: a '
               'current workspace or configuration was removed or renamed'}
ASSUME = {'W08': ws._A + ['no file-system failures inside a command (W02 and W03 cover those for each single operation)']}

WSN = ['a', 'b', 'default', 'my ws', '.h']
CFN = ['c', 'd', 'default', 'c_copy', 'zz']


def boot():
    _boot.services()


def gen(prop, r, tier, i):
    ops = []
    mode = r.choice(['cli', 'cli', 'web', 'mix'])
    for _ in range(r.choice([5, 10, 20, 30])):
        via = mode if mode != 'mix' else r.choice(['cli', 'web'])
        w = r.choice(WSN[:r.choice([2, 3, 5])])
        w2 = r.choice(WSN + ['n'])
        c = r.choice(CFN[:r.choice([2, 3, 5])])
        c2 = r.choice(CFN + ['m'])
        k = r.choices(['ws_add', 'ws_rm', 'ws_cp', 'ws_mv', 'ws_cur', 'cfg_add', 'cfg_rm', 'cfg_cp', 'cfg_mv', 'cfg_cur',
                       'look', 'in_add', 'restart'], [6, 4, 3, 3, 3, 8, 6, 4, 4, 3, 1, 1, 1])[0]
        if r.random() < .04:
            w, w2, c, c2 = r.choice([('a\nb', w2, c, c2), (w, 'a\n', c, c2), (w, w2, 'c\nd', c2), (w, w2, c, 'd\r')])
        e = {'via': via, 'k': k}
        if k.startswith('ws_'):
            e['w'] = None if via == 'cli' and k in ('ws_rm', 'ws_cp', 'ws_mv') and r.random() < .4 else w
            e['n'] = w2 if k == 'ws_mv' or r.random() < .7 else None
            if e['w'] is None and k == 'ws_cp':
                e['n'] = None
        else:
            e['w'] = None if via == 'cli' and r.random() < .6 else w
            e['c'] = None if via == 'cli' and k in ('cfg_rm', 'cfg_cp', 'cfg_mv', 'cfg_cur') and r.random() < .4 else c
            e['n'] = c2 if k == 'cfg_mv' or r.random() < .7 else None
            if e['c'] is None and k == 'cfg_cp':
                e['n'] = None
        if k in ('ws_rm', 'cfg_rm'):
            e['yes'] = r.choice([True, True, 'yes', '', 'no', 'y'])
        if via == 'web' and k in ('ws_mv', 'cfg_mv'):
            continue
        ops.append(e)
    return {'kind': mode, 'ops': ops, 'order': r.randrange(1 << 30)}


def argv(e, src):
    k = e['k']
    pos = []
    if k.startswith('ws_'):
        out = ['workspace', {'ws_add': 'add', 'ws_rm': 'rm', 'ws_cp': 'cp', 'ws_mv': 'rn', 'ws_cur': 'cur'}[k]]
        if e['w'] is not None:
            pos.append(e['w'])
    elif k == 'in_add':
        out = ['input', 'add', '-q'] + (['-w', e['w']] if e['w'] else [])
        return out + [os.path.join(src, '*.nc')]
    elif k == 'look':
        return [['status'], ['workspace', 'ls'], ['config', 'ls'], ['input', 'ls'], ['config', 'cur'],
                ['workspace', 'cur']][len(repr(e)) % 6]
    else:
        out = ['config', {'cfg_add': 'add', 'cfg_rm': 'rm', 'cfg_cp': 'cp', 'cfg_mv': 'rn', 'cfg_cur': 'cur'}[k]]
        if e['w'] is not None:
            out += ['-w', e['w']]
        if e['c'] is not None:
            pos.append(e['c'])
    if k in ('ws_rm', 'cfg_rm') and e['yes'] is True:
        out.append('-y')
    if k in ('ws_cp', 'ws_mv', 'cfg_cp', 'cfg_mv') and e['n'] is not None:
        pos.append(e['n'])
    return out + pos


def web_call(svc, e, src):
    k = e['k']
    if k == 'ws_add':
        return svc.new_workspace(e['w'])
    if k == 'ws_rm':
        return svc.delete_workspace(e['w'])
    if k == 'ws_cp':
        return svc.copy_workspace(e['w'], e['n'] or 'n')
    if k == 'ws_cur':
        return svc.set_current_workspace(e['w'])
    if k == 'cfg_add':
        return svc.add_new_config(e['w'], e['c'], False)
    if k == 'cfg_rm':
        return svc.delete_config(e['w'], e['c'])
    if k == 'cfg_cp':
        return svc.copy_config(e['w'], e['c'], e['n'] or 'm')
    if k == 'cfg_cur':
        return svc.set_current_config(e['w'], e['c'])
    if k == 'in_add':
        return svc.add_input_files(e['w'], [os.path.join(src, 'i1.nc')])
    return svc.get_all_workspaces(), svc.get_current_workspace()


def state(mg):
    out = {'cur': mg.get_current_workspace().name or None, 'ws': {}}
    for w in mg.get_workspace_names():
        out['ws'][w] = {'cur': mg.get_current_config_name(w) or None, 'cfg': mg.get_config_names(w) or []}
    return out


def run(sc, d):
    real = M.Real(d).setup()
    with open(os.path.join(real.src, 'i1.nc'), 'wb') as f:
        f.write(b'x')
    viol, trace, stats = [], [], ws.new_stats()
    digest, i, life, touched = 0, 0, 0, 0
    while i < len(sc['ops']) and not viol:
        i, v, st, dg, tr, tc = proc.in_child(lambda: lifetime(sc, real, i, life))
        viol += v
        ws.merge(stats, st)
        trace += tr
        touched += tc
        digest = zlib.crc32(b'%d' % dg, digest)
        life += 1
    viol = [[a, b.replace(real.root, '<root>')] for a, b in viol]
    return {'viol': viol[:3], 'stats': stats, 'digest': digest, 'states': [digest], 'trace': trace,
            'nontrivial': touched > 0}


def lifetime(sc, real, i, life):
    import dedop.cli.main as cli
    from dedop.webapi.websocket import WebSocketService
    sim = Sim(real.root, order_seed='%s-%d' % (sc['order'], life), pid=4242 + life)
    Sim.current = sim
    sim.enter_main()
    mg = real.manager()
    svc = WebSocketService(mg)
    viol, trace, stats, digest, touched = [], [], ws.new_stats(), 0, 0
    while i < len(sc['ops']) and not viol:
        e = sc['ops'][i]
        i += 1
        ws.bump(stats['ops'], '%s:%s' % (e['via'], e['k']))
        if e['k'] == 'restart':
            break
        old = state(mg)
        if e['via'] == 'cli':
            a = argv(e, real.src)
            sys.stdin = io.StringIO('%s\n' % (e.get('yes') if e.get('yes') is not True else '') * 3)
            res, val = sim.op(lambda: cli.main(a, workspace_manager=mg))
            ok = res == 'ok' and val == 0
        else:
            a = e
            res, val = sim.op(lambda: web_call(svc, e, real.src))
            ok = res == 'ok'
        if res == 'hang':
            viol.append(['hang', '%s' % a])
            break
        new = state(mg)
        trace.append([a, res, str(val)[:80], new['cur'], {w: x['cur'] for w, x in new['ws'].items()}])
        touched += judge(e, a, ok, old, new, viol)
        digest = zlib.crc32(repr((e, ok, new)).encode(), digest)
    stats['sim_time'] = sim.clock - 1.6e9
    stats['points'] = sim.points
    digest = zlib.crc32(b'%d' % sim.trace_hash, digest)
    return i, viol, stats, digest, trace, touched


def judge(e, a, ok, old, new, viol):
    k = e['k']
    touched = 0

    def one(what, o_cur, o_names, n_cur, n_names, named, op):
        """one selection (workspaces, or configurations of one workspace) across one command"""
        nonlocal touched
        if n_cur is not None and n_cur not in n_names:
            viol.append(['dangling', 'after %s the current %s is %r, there are %s' % (a, what, n_cur, n_names)])
            return
        gone = set(o_names) - set(n_names)
        come = set(n_names) - set(o_names)
        if not op:
            if o_cur != n_cur:
                viol.append(['moved', '%s changed the current %s from %r to %r' % (a, what, o_cur, n_cur)])
            return
        if op == 'rm' and gone:
            if o_cur in gone:
                touched += 1
                want = ['default'] if 'default' in n_names else sorted(n_names) or [None]
                if n_cur not in want:
                    viol.append(['reselect', 'after removing the current %s %r by %s the current one is %r of %s' % (
                        what, o_cur, a, n_cur, n_names)])
            elif e['via'] == 'cli' and n_cur != o_cur:
                viol.append(['moved', '%s changed the current %s from %r to %r' % (a, what, o_cur, n_cur)])
        elif op == 'mv' and gone:
            if o_cur in gone:
                touched += 1
                if come and n_cur != list(come)[0]:
                    viol.append(['rename', 'after renaming the current %s %r to %r by %s the current one is %r' % (
                        what, o_cur, list(come)[0], a, n_cur)])
            elif n_cur != o_cur:
                viol.append(['moved', '%s changed the current %s from %r to %r' % (a, what, o_cur, n_cur)])
        elif op == 'cur':
            if ok and named is not None and n_cur != named:
                viol.append(['select', '%s succeeded, the current %s is %r' % (a, what, n_cur)])
            elif not ok and n_cur != o_cur:
                viol.append(['moved', '%s failed but changed the current %s from %r to %r' % (a, what, o_cur, n_cur)])
        elif op == 'cp':
            if n_cur != o_cur:
                viol.append(['moved', '%s changed the current %s from %r to %r' % (a, what, o_cur, n_cur)])
        elif op == 'add':
            if e['via'] == 'cli' and ok and come and n_cur not in come:
                viol.append(['select', '%s made a new %s but the current one is %r' % (a, what, n_cur)])
            if not ok and n_cur != o_cur:
                viol.append(['moved', '%s failed but changed the current %s from %r to %r' % (a, what, o_cur, n_cur)])

    wop = k[3:] if k.startswith('ws_') else 'any' if e['via'] == 'cli' and set(new['ws']) != set(old['ws']) else None
    one('workspace', old['cur'], list(old['ws']), new['cur'], list(new['ws']), e.get('w'), wop)
    for w in new['ws']:
        if w not in old['ws']:
            x = new['ws'][w]
            if x['cur'] is not None and x['cur'] not in x['cfg']:
                viol.append(['dangling', 'after %s the current configuration of %r is %r, there are %s' % (
                    a, w, x['cur'], x['cfg'])])
            continue
        o, x = old['ws'][w], new['ws'][w]
        here = k.startswith('cfg_') and w == (e['w'] or old['cur'] or 'default')
        one('configuration of %r' % w, o['cur'], o['cfg'], x['cur'], x['cfg'], e.get('c'), k[4:] if here else None)
    return touched
