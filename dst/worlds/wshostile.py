"""W05: whatever names are passed, nothing but the named child is touched."""
import os
import zlib

from .. import boot as _boot
from ..kernel import Sim
from . import ws
from . import wsmodel as M

SHRINK = ('ops', 'faults')
CPU_LIMIT = 60
PLAN = {'W05': {'quick': 6000, 'thorough': 150000}}
LEVEL = {}
REAL = {'W05': ws._R}
STUB = {'W05': ws._S}
RULE = {'W05': 'workspaces, configurations, inputs, outputs and neighbouring files, then 1-6 operations with hostile '
               'names (empty, dots, separators, absolute, links), some of them with a failing call; the whole disk is '
               'compared before and after each; non-trivial: at least one hostile name in an operation on existing '
               'things'}
ASSUME = {'W05': ws._A + ['writes outside the scratch disk are refused by the simulator and count as a violation']}


def boot():
    _boot.workspace()


HOST = ['', '.', '..', '../outside', '../../disk/outside', 'a/..', 'a/../b', './a', 'a/', '/', 'a/configs', 'a/inputs',
        'b/configs/c', '..//b', '<abs>/disk/outside', '<abs>/disk/workspaces/b', '../workspaces/b', '../workspaces',
        'nope/../b', '...', '~', '-rf', 'b\\..', '<abs>', '/dst-nowhere', '*', 'a\0b', '../incoming', '.current', '.current', 'a\nb', 'a\n']
HCFG = ['', '.', '..', '../configs', '../inputs', '../../b', '../../b/configs/c', 'c/..', 'c/../d', 'c/outputs', 'c/',
        './c', '/', '<abs>/disk/outside', '../../../outside', '../notebooks', '../../../../disk/outside', '*', 'c\0', '.current', '.current', 'c\nd', 'c\r']
HIN = ['', '.', '..', '../i1.nc', '../configs/c/CHD.json', '../../b/inputs/i1.nc', '../../../outside/secret.nc',
       '<abs>/disk/outside/secret.nc', '../notebooks/n.ipynb', '../readme.txt', './i1.nc', '*.nc', 'sub/../i2.nc', '/']
HKEY = ['../d/CHD', '../../../b/configs/c/CNF', '../../inputs/x', '', '..', '../../../../outside/secret',
        '<abs>/disk/outside/secret']


def gen(prop, r, tier, i):
    ops = []
    for _ in range(r.choice([1, 2, 3, 6])):
        w = r.choice(HOST) if r.random() < .5 else r.choice(['a', 'b'])
        w2 = r.choice(HOST) if r.random() < .7 else r.choice(['n', 'b'])
        c = r.choice(HCFG) if r.random() < .6 else 'c'
        c2 = r.choice(HCFG) if r.random() < .7 else r.choice(['n', 'd'])
        k = r.choice(['ws_add', 'ws_rm', 'ws_rm', 'ws_cp', 'ws_mv', 'ws_cur', 'cfg_add', 'cfg_rm', 'cfg_rm', 'cfg_cp',
                      'cfg_mv', 'cfg_cur', 'cfg_write', 'in_add', 'in_rm', 'in_rm', 'out_rm', 'nb_inspect', 'cfg_up'])
        if k in ('ws_add', 'ws_rm', 'ws_cur'):
            o = [k, w]
        elif k in ('ws_cp', 'ws_mv'):
            o = [k, w, w2]
        elif k == 'cfg_add':
            o = [k, w, c, False]
        elif k in ('cfg_rm', 'cfg_cur', 'out_rm', 'cfg_up'):
            o = [k, w, c]
        elif k in ('cfg_cp', 'cfg_mv'):
            o = [k, w, c, c2]
        elif k == 'cfg_write':
            o = [k, w, c, r.choice(HKEY) if r.random() < .5 else 'CHD', 3]
        elif k == 'in_add':
            o = [k, w, [[n, 7] for n in r.sample(['i1.nc', 'link.nc', 'new.nc'], r.choice([1, 2]))]]
        elif k == 'in_rm':
            o = [k, w, [r.choice(HIN) if r.random() < .7 else r.choice(['i1.nc', 'link.nc'])
                        for _ in range(r.choice([1, 2]))]]
        else:
            o = [k, w, r.choice(['/data/p.nc', '../../x.nc', '..', 'a\\..\\b.nc', '/data/'])]
        if r.random() < .12:       # things that are links to somewhere else
            o = r.choice([['ws_rm', 'ln'], ['ws_mv', 'ln', 'n'], ['cfg_rm', 'a', 'lnk'], ['cfg_mv', 'a', 'lnk', 'n'],
                          ['out_rm', 'a', 'c'], ['out_rm', 'b', 'c'], ['ws_rm', 'a'], ['ws_rm', 'b'], ['cfg_rm', 'a', 'c'],
                          ['in_rm', 'a', ['link.nc']], ['in_add', 'a', [['link.nc', 7]]]])
        e = {'op': o}
        if r.random() < .1:
            e['faults'] = {str(ws.when(r)): r.choice(['err', 'full', 'sticky:err'])}
        ops.append(e)
    return {'ops': ops, 'order': r.randrange(1 << 30)}


def snap(root):
    out = {}
    for d, ds, fs in os.walk(os.path.join(root, 'disk')):
        for n in ds:
            p = os.path.join(d, n)
            out[p] = 'link ' + os.readlink(p) if os.path.islink(p) else 'dir'
        for n in fs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[p] = 'link ' + os.readlink(p)
            else:
                with open(p, 'rb') as f:
                    out[p] = zlib.crc32(f.read())
    return out


def child(base, name):
    """the direct child of base that name denotes, or None"""
    if base is None or '\0' in name or name == '.current':
        return None
    p = os.path.normpath(os.path.join(base, name))
    return p if os.path.dirname(p) == base and p != base else None


def allowed(real, op):
    """predicate on paths: may the operation change this path?"""
    top = os.path.normpath(real.dir)
    k = op[0]
    w = child(top, op[1])
    under = []
    files = []
    if k in ('ws_add', 'ws_rm'):
        under = [w]
    elif k == 'ws_cp':
        under = [child(top, op[2])] if w else []
    elif k == 'ws_mv':
        n = child(top, op[2])
        under = [w, n] if w and n else []
    elif k == 'ws_cur':
        files = [os.path.join(top, '.current')]
    elif w:
        cb = os.path.join(w, 'configs')
        if k in ('cfg_add', 'cfg_rm'):
            under = [child(cb, op[2])]
            files = [cb]
        elif k == 'cfg_cp':
            under = [child(cb, op[3])] if child(cb, op[2]) else []
            files = [cb]
        elif k == 'cfg_mv':
            a, b = child(cb, op[2]), child(cb, op[3])
            under = [a, b] if a and b else []
        elif k == 'cfg_cur':
            files = [os.path.join(cb, '.current')]
        elif k == 'cfg_write':
            c = child(cb, op[2])
            files = [child(c, op[3] + '.json')]
        elif k == 'cfg_up':
            c = child(cb, op[2])
            files = [child(c, x + '.json') for x in M.KEYS]
        elif k == 'in_add':
            ib = os.path.join(w, 'inputs')
            files = [w, ib] + [os.path.join(ib, n) for n, _ in op[2]]
        elif k == 'in_rm':
            files = [child(os.path.join(w, 'inputs'), n) for n in op[2]]
        elif k == 'out_rm':
            c = child(cb, op[2])
            under = [os.path.join(c, 'outputs')] if c else []
        elif k == 'nb_inspect':
            under = [os.path.join(w, 'notebooks')]
    under = [u for u in under if u]

    def ok(p, before):
        if any(p == u or p.startswith(u + os.sep) for u in under):
            return True
        if p in [f for f in files if f]:
            return True
        # something new and hidden (a temporary file a failure left over) inside a workspaces folder
        return before is None and any(x.startswith('.') for x in os.path.relpath(p, top).split(os.sep)) \
            and p.startswith(top + os.sep)
    return ok


def run(sc, d):
    real = M.Real(d).setup()
    mg = real.manager()
    for w in ('a', 'b'):
        for op in (['ws_add', w], ['cfg_add', w, 'c', False], ['cfg_add', w, 'd', True], ['ws_cur', w],
                   ['cfg_cur', w, 'c'], ['in_add', w, [['i1.nc', 1], ['i2.nc', 2]]],
                   ['out_put', w, 'c', [['L1B_x.nc', 3]]], ['nb_put', w, 'n.ipynb', 4],
                   ['user_put', w, 'readme.txt', 5]):
            real.prepare(op)
            if not real.harness_op(op):
                real.call(mg, op)
    os.makedirs(os.path.join(d, 'disk', 'outside', 'deep'))
    for n in ('secret.nc', 'secret.json', 'deep/x'):
        with open(os.path.join(d, 'disk', 'outside', n), 'w') as f:
            f.write('{"secret": 1}')
    os.symlink(os.path.join(d, 'disk', 'outside', 'secret.nc'), mg.get_inputs_path('a', 'link.nc'))
    os.symlink(os.path.join(d, 'disk', 'outside'), os.path.join(mg.get_workspace_path('b'), 'linkdir'))
    out = os.path.join(d, 'disk', 'outside')
    os.symlink(out, mg.get_workspace_path('ln'))
    os.symlink(out, mg.get_config_path('a', 'lnk'))
    os.symlink(os.path.join(out, 'secret.nc'), mg.get_outputs_path('a', 'c', 'L1B_l.nc'))
    os.symlink(os.path.join(out, 'deep'), mg.get_outputs_path('b', 'c', 'deep'))
    sim = Sim(real.root, order_seed=sc['order'])
    Sim.current = sim
    sim.enter_main()
    stats = ws.new_stats()
    viol, trace = [], []
    digest = 0
    hostile = 0
    for e in sc['ops']:
        op = subst(e['op'], d)
        ws.bump(stats['ops'], op[0])
        if op[0] == 'in_add':
            real.prepare(op)
        before = snap(d)
        mg = real.manager()
        res, val = sim.op(lambda: real.call(mg, op), e.get('faults'))
        for f, kind, _ in sim.task().last_hits:
            ws.bump(stats['faults'], '%s@%s' % (f, kind))
        after = snap(d)
        ok = allowed(real, op)
        bad = []
        for p in sorted(set(before) | set(after)):
            if before.get(p) != after.get(p) and not ok(p, before.get(p)):
                bad.append('%s %s' % ('removed' if p not in after else 'created' if p not in before else 'changed',
                                      os.path.relpath(p, d)))
        if op[0] == 'nb_inspect':
            for p in before:
                if p.endswith('.ipynb') and after.get(p) != before[p]:
                    bad.append('changed %s' % os.path.relpath(p, d))
        trace.append([e['op'], res, str(val)[:100]])
        hostile += any(x in HOST + HCFG + HIN + HKEY for x in flat(e['op'][1:]))
        if bad:
            viol.append(['outside', '%s %s: %s' % (e['op'], res, '; '.join(bad[:5]))])
        if sim.escapes:
            viol.append(['escape', '%s %s: tried to change %s' % (e['op'], res, sim.escapes[:3])])
        if res == 'hang':
            viol.append(['hang', '%s' % e['op']])
        digest = zlib.crc32(repr((op[0], res, sorted((os.path.relpath(p, d), v) for p, v in after.items()
                                                     if not str(v).startswith('link')))).encode(), digest)
        if viol:
            break
    viol = [[a, b.replace(d, '<abs>')] for a, b in viol]
    stats['sim_time'] = sim.clock - 1.6e9
    stats['points'] = sim.points
    return {'viol': viol, 'stats': stats, 'digest': digest, 'states': [digest], 'trace': trace, 'nontrivial': hostile > 0}


def flat(x):
    for y in x:
        if isinstance(y, list):
            yield from flat(y)
        else:
            yield y


def subst(op, d):
    return [subst(x, d) if isinstance(x, list) else x.replace('<abs>', d) if isinstance(x, str) else x for x in op]
