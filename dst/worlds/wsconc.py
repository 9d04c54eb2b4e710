"""W04: several clients use the workspaces at the same time."""
import copy
import json
import os
import zlib

from .. import boot as _boot
from ..kernel import Sim
from . import ws
from . import wsmodel as M

SHRINK = ('clients', 'ops', 'switches')
CPU_LIMIT = 60
PLAN = {'W04': {'quick': 6000, 'thorough': 200000}}
LEVEL = {}
REAL = {'W04': ws._R}
STUB = {'W04': ws._S + ['thread scheduling (one task runs at a time; switches at seam calls and, in half of the runs, '
                        'between source lines of dedop)']}
RULE = {'W04': '2-4 clients in one program, each with 1-8 operations; either each on its own workspaces or '
               'configurations (outcomes and final state compared with each client alone), or writers and readers of '
               'the same files (every read whole and in order); non-trivial: at least 3 task switches'}
ASSUME = {'W04': ws._A + ['a switch of tasks happens only at a system call made from Python or between source lines']}


def boot():
    _boot.workspace()


def gen(prop, r, tier, i):
    kind = r.choice(['iso-ws', 'iso-cfg', 'reg', 'reg', 'grow', 'same'])
    sc = {'kind': kind, 'order': r.randrange(1 << 30), 'buf': r.choice([[8192], [64, 512], [16]]),
          'sched': {'seed': r.randrange(1 << 30), 'p': r.choice([.03, .1, .3, .5]), 'gap': r.choice([5, 30, 200])},
          'lines': r.random() < .5}
    n = r.choice([2, 2, 3])
    cl = []
    if kind == 'iso-ws':
        for c in range(n):
            ops = [['ws_add', 'a']] if r.random() < .8 else []
            ops += [o for o in (ws.gen_op(r, False) for _ in range(r.choice([2, 4, 7])))
                    if o[0] not in ('ws_cur', 'ws_clear', 'stray', 'nb_put')]
            cl.append({'ops': [rename(o, 'k%d_' % c, '') for o in ops]})
    elif kind == 'iso-cfg':
        for c in range(n):
            ops = []
            for _ in range(r.choice([2, 4, 7])):
                o = ws.gen_op(r, False)
                if o[0] in ('cfg_add', 'cfg_rm', 'cfg_cp', 'cfg_mv', 'cfg_write', 'cfg_up', 'in_add', 'in_rm',
                            'out_put', 'out_rm', 'q_out', 'nb_inspect'):
                    o = copy.deepcopy(o)
                    o[1] = 'a'
                    ops.append(rename(o, '', 'k%d_' % c))
            cl.append({'ops': ops})
    elif kind == 'reg':
        what = r.choice(['file', 'file', 'wscur', 'cfgcur', 'input', 'file2', 'up'])
        sc['what'] = what
        nw = 2 if what == 'file2' else 1
        for c in range(nw):
            k = r.choice([1, 2, 4])
            cl.append({'ops': [['w', 1 + c * 10 + j] for j in range(k)]})
        for c in range(r.choice([1, 1, 2])):
            cl.append({'ops': [['r']] * r.choice([1, 3, 6])})
    elif kind == 'grow':
        for c in range(r.choice([1, 2])):
            cl.append({'ops': [r.choice([['cfg_add', 'a', 'n%d%d' % (c, j), r.random() < .3],
                                         ['cfg_cp', 'a', 'c', 'n%d%d' % (c, j)],
                                         ['ws_cp', 'a', 'w%d%d' % (c, j)],
                                         ['in_add', 'a', [['n%d%d.nc' % (c, j), 3 + j]]],
                                         ['ws_add', 'w%d%d' % (c, j)]])
                               for j in range(r.choice([1, 2, 3]))]})
        for c in range(r.choice([1, 2])):
            cl.append({'ops': [['look']] * r.choice([2, 4])})
    else:
        # the same thing by everybody: one wins
        o = r.choice([['cfg_add', 'a', 'n', False], ['cfg_cp', 'a', 'c', 'n'], ['ws_cp', 'a', 'n'],
                      ['cfg_mv', 'a', None, 'n'], ['ws_mv', None, 'n'], ['in_add', 'a', [['n.nc', None]]]])
        for c in range(n):
            x = copy.deepcopy(o)
            if x[0] == 'cfg_mv':
                x[2] = 's%d' % c
            if x[0] == 'ws_mv':
                x[1] = 's%d' % c
            if x[0] == 'in_add':
                x[2][0][1] = 3 + c
            cl.append({'ops': [x]})
    sc['clients'] = cl
    return sc


def rename(o, wp, cp):
    o = copy.deepcopy(o)
    k = o[0]
    if wp:
        o[1] = wp + o[1]
        if k in ('ws_cp', 'ws_mv'):
            o[2] = wp + o[2]
        if k == 'in_add':
            o[2] = [[wp + a, b] for a, b in o[2]]
        if k == 'in_rm':
            o[2] = [wp + a for a in o[2]]
    if cp:
        if k.startswith('cfg') or k in ('out_put', 'out_rm', 'q_out'):
            o[2] = cp + o[2]
            if k in ('cfg_cp', 'cfg_mv'):
                o[3] = cp + o[3]
        if k == 'in_add':
            o[2] = [[cp + a, b] for a, b in o[2]]
        if k == 'in_rm':
            o[2] = [cp + a for a in o[2]]
        if k == 'nb_inspect':
            o[2] = '/data/%sp.nc' % cp
    return o


def run(sc, d):
    real = M.Real(d).setup()
    sim = Sim(real.root, order_seed=sc['order'], sched=sc['sched'], line_preempt=sc['lines'], max_points=400000)
    sim.buf_choices = tuple(sc['buf'])
    Sim.current = sim
    sim.enter_main()
    stats = ws.new_stats()
    viol = []
    from .. import kernel
    boxes = [[] for _ in sc['clients']]
    kind = sc['kind']
    mg0 = real.manager()
    base = M.empty()

    def pre(op):
        nonlocal base
        real.prepare(op)
        if not real.harness_op(op):
            real.call(mg0, op)
        base = M.apply(base, op)[1]

    if kind != 'iso-ws' or sc['order'] % 2:
        pre(['ws_add', 'a'])
    if kind in ('reg', 'grow', 'same'):
        pre(['cfg_add', 'a', 'c', False])
        pre(['cfg_add', 'a', 'd', True])
        pre(['ws_add', 'b'])
        pre(['ws_cur', 'b'])
        pre(['cfg_cur', 'a', 'c'])
        pre(['in_add', 'a', [['i1.nc', 1]]])
    if kind == 'reg' and sc['what'] == 'up':
        pre(['cfg_write', 'a', 'c', 'CNF', 1])
    if kind == 'same':
        for c in range(len(sc['clients'])):
            pre(['cfg_add', 'a', 's%d' % c, False])
            pre(['ws_add', 's%d' % c])
            pre(['cfg_add', 's%d' % c, 'x', False])
    fns = []
    for c, client in enumerate(sc['clients']):
        f = {'iso-ws': iso, 'iso-cfg': iso, 'reg': reg, 'grow': grow, 'same': same}[kind]
        fns.append(f(sim, real, sc, c, client, base, boxes[c], viol, stats))
    tasks = sim.run_tasks(fns)
    for t in tasks:
        if t.result[0] == 'harness':
            raise RuntimeError(t.result[1])
        if t.result[0] == 'hang':
            viol.append(['hang', 'a client did not end'])
    if sim.deadlock:
        viol.append(['deadlock', 'the clients wait for each other'])
    sim.tasks = []
    if not viol:
        final(sc, real, base, boxes, viol)
    if sim.escapes:
        viol.append(['escape', repr(sim.escapes)])
    viol = [[a, b.replace(real.root, '<root>')] for a, b in viol]
    stats['sim_time'] = sim.clock - 1.6e9
    stats['points'] = sim.points
    stats['switches'] = len(sim.sched.log)
    dg = zlib.crc32(repr((sim.trace_hash, sorted(sim.sched.log.items()), [repr(b)[:2000] for b in boxes])).encode())
    return {'viol': viol[:3], 'stats': stats, 'digest': dg, 'states': [dg], 'trace': [list(x) for x in sim.trace],
            'sched_log': sim.sched.log, 'nontrivial': len(sim.sched.log) >= 3}


def iso(sim, real, sc, c, client, base, box, viol, stats):
    """an isolated client: its own model says how each operation ends"""
    def body(task):
        mg = real.manager()
        model = {'cur': None, 'ws': copy.deepcopy({k: v for k, v in base['ws'].items() if k == 'a'})} \
            if sc['kind'] == 'iso-cfg' else M.empty()
        box.append(model)
        for op in client['ops']:
            ws.bump(stats['ops'], op[0])
            real.prepare(op)
            if op[0] in ws.HARNESS:
                real.harness_op(op)
                box[0] = M.apply(box[0], op)[1]
                continue
            if op[0] == 'in_add' and op[1] not in box[0]['ws']:
                continue
            try:
                want, new = M.apply(box[0], op)
            except M.RefusedPartly as p:
                want, new = 'partly', p.m
            res, val = sim.op(lambda: real.call(mg, op))
            if res == 'crash':
                return
            if want in ('ok', 'err') and res != want:
                viol.append(['client', 'client %d: %s %s, alone it is %s' % (
                    c, op, 'succeeds' if res == 'ok' else 'fails (%s: %s)' % (type(val).__name__, val), want)])
                return
            if want == 'partly':
                if res != 'err':
                    viol.append(['client', 'client %d: %s succeeded' % (c, op)])
                    return
                # which of the files are there is free
                w = new['ws'][op[1]]['in']
                for name, n in op[2]:
                    p = mg.get_inputs_path(op[1], name)
                    if os.path.isfile(p):
                        w[name] = M._bytes(p)
                    else:
                        w.pop(name, None)
                box[0] = new
                continue
            if want in ('any', 'either') and res == 'err':
                continue
            if res == 'ok':
                if op[0] == 'q_out':
                    er = M.expected_return(box[0], new, op, mg)
                    if er != val:
                        viol.append(['client', 'client %d: %s returned %r, alone %r' % (c, op, val, er)])
                        return
                if op[0] == 'cfg_up':
                    for k in M.KEYS:
                        data = M._bytes(mg.get_config_file(op[1], op[2], k))
                        dd = M.diff(new['ws'][op[1]]['cfg'][op[2]]['files'][k], data)
                        if dd:
                            viol.append(['client', 'client %d: %s: %s' % (c, op, dd)])
                            return
                        new['ws'][op[1]]['cfg'][op[2]]['files'][k] = data
                if op[0].startswith('nb_'):
                    names = new['ws'][op[1]]['nb'].pop(M.NEW_NB)
                    new['ws'][op[1]].setdefault('nbreq', []).append(names)
                box[0] = new
    return body


def final(sc, real, base, boxes, viol):
    kind = sc['kind']
    problems = []
    ins = [p + n for n in ws.INS for p in ('', 'k0_', 'k1_', 'k2_')]
    try:
        got = M.observe(real, problems, ws.USERS, ins)
    except BaseException as x:
        viol.append(['observe', 'afterwards the workspaces cannot be read: %s: %s' % (type(x).__name__, x)])
        return
    if problems:
        viol += problems
        return
    if kind == 'iso-ws':
        exp = {'cur': base['cur'], 'ws': dict(base['ws'])}
        for b in boxes:
            if b:
                exp['ws'].update(b[0]['ws'])
    elif kind == 'iso-cfg':
        exp = copy.deepcopy(base)
        a = exp['ws'].get('a')
        if a is None:
            return
        for c, b in enumerate(boxes):
            if not b:
                continue
            mine = b[0]['ws']['a']
            a['cfg'].update(mine['cfg'])
            a['in'].update(mine['in'])
            a.setdefault('nbreq', [])
            a['nbreq'] += mine.get('nbreq', [])
    else:
        return
    # notebooks: one complete one per request
    for w, x in exp['ws'].items():
        req = x.pop('nbreq', [])
        nb = got['ws'].get(w, M.new_ws())['nb']
        if len(nb) != len(req) + len(x['nb']):
            viol.append(['notebook', '%d requests gave %d notebooks' % (len(req), len(nb))])
            return
        for names in req:
            if not any(names_ok(data, names) for data in nb.values()):
                viol.append(['notebook', 'no notebook for %r' % (names,)])
                return
        x['nb'] = nb
    dd = M.diff(exp, got)
    if dd:
        viol.append(['final', 'not the state of the clients alone: ' + '; '.join(dd[:4])])


def names_ok(data, names):
    p = []
    M.check_notebook(data, names, p)
    return not p


def reg(sim, real, sc, c, client, base, box, viol, stats):
    """writers and readers of one register"""
    what = sc['what']
    # the values in the order of writing
    writer_ids = [j for j, x in enumerate(sc['clients']) if any(o[0] == 'w' for o in x['ops'])]

    def value(n):
        if what in ('file', 'file2', 'up'):
            return json.loads(M.text(n))
        if what == 'wscur':
            return ['a', 'b'][n % 2]
        if what == 'cfgcur':
            return ['d', 'c'][n % 2]
        return M.blob(n)

    def initial():
        if what == 'up':
            return json.loads(M.text(1))
        if what in ('file', 'file2'):
            return json.loads(base['ws']['a']['cfg']['c']['files']['CNF'].decode())
        if what == 'wscur':
            return 'b'
        if what == 'cfgcur':
            return 'c'
        return M.blob(1)

    def body(task):
        mg = real.manager()
        last = 0
        for op in client['ops']:
            ws.bump(stats['ops'], 'reg-' + op[0])
            if op[0] == 'w':
                n = op[1]
                o = {'file': ['cfg_write', 'a', 'c', 'CNF', n], 'file2': ['cfg_write', 'a', 'c', 'CNF', n],
                     'wscur': ['ws_cur', value(n)], 'cfgcur': ['cfg_cur', 'a', value(n)],
                     'input': ['in_add', 'a', [['i1.nc', n]]], 'up': ['cfg_up', 'a', 'c']}[what]
                real.prepare(o)
                res, val = sim.op(lambda: real.call(mg, o))
                if res == 'crash':
                    return
                if res != 'ok':
                    viol.append(['client', 'writer %d: %s fails (%s: %s)' % (c, o, type(val).__name__, val)])
                    return
                continue

            def rd():
                if what in ('file', 'file2', 'up'):
                    return dict(mg.get_config_json('a', 'c', 'CNF')[0])
                if what == 'wscur':
                    return mg.get_current_workspace().name
                if what == 'cfgcur':
                    return mg.get_current_config_name('a')
                names = mg.get_input_names('a')
                if names != ['i1.nc']:
                    return names
                with open(mg.get_inputs_path('a', 'i1.nc'), 'rb') as f:
                    return f.read()
            res, val = sim.op(rd)
            if res == 'crash':
                return
            if res != 'ok':
                viol.append(['reader', 'reader %d fails while %s is being written (%s: %s)' % (
                    c, what, type(val).__name__, val)])
                return
            box.append(zlib.crc32(repr(val).encode()))
            seq = [initial()]
            if what == 'up':
                seq.append(M.upgraded(initial(), json.loads(M.default_config(False)['CNF'].decode())))
            else:
                seq += [value(o[1]) for j in writer_ids for o in sc['clients'][j]['ops'] if o[0] == 'w']
            if what == 'file2' or what == 'up':
                ok = val in seq
            elif what in ('wscur', 'cfgcur'):
                ok = val in seq
            else:
                ok = False
                for j in range(last, len(seq)):
                    if seq[j] == val:
                        ok, last = True, j
                        break
            if not ok:
                viol.append(['reader', 'reader %d sees %s which was never written (or older than seen before)' % (
                    c, M.short(val))])
                return
    return body


def grow(sim, real, sc, c, client, base, box, viol, stats):
    def body(task):
        mg = real.manager()
        for op in client['ops']:
            ws.bump(stats['ops'], op[0])
            if op[0] != 'look':
                real.prepare(op)
                res, val = sim.op(lambda: real.call(mg, op))
                if res == 'crash':
                    return
                if res != 'ok' and op[0] != 'ws_cp':
                    # copying a workspace in which others are busy may fail
                    viol.append(['client', 'client %d: %s fails (%s: %s)' % (c, op, type(val).__name__, val)])
                    return
                box.append((op, res))
                continue

            def look():
                out = []
                for w in mg.get_workspace_names():
                    for cf in mg.get_config_names(w) or []:
                        fs = {}
                        for k in M.KEYS:
                            p = mg.get_config_file(w, cf, k)
                            if not os.path.isfile(p):
                                fs[k] = None
                            else:
                                with open(p, 'rb') as f:
                                    fs[k] = f.read()
                        out.append((w, cf, fs))
                    for n in mg.get_input_names(w):
                        with open(mg.get_inputs_path(w, n), 'rb') as f:
                            out.append((w, n, f.read()))
                    cur = mg.get_current_config_name(w)
                    out.append((w, 'cur', cur))
                return out
            res, val = sim.op(look)
            if res == 'crash':
                return
            if res != 'ok':
                viol.append(['reader', 'reader %d fails (%s: %s)' % (c, type(val).__name__, val)])
                return
            whole = [M.default_config(False), M.default_config(True)]
            full = {}
            for w, n, x in val:
                if isinstance(x, dict):
                    full.setdefault(w, set()).add(n)
                    if x not in whole:
                        viol.append(['partial', 'reader %d sees an incomplete configuration %s/%s' % (c, w, n)])
                        return
                elif isinstance(x, bytes):
                    full.setdefault(w, set()).add(n)
                    if x not in [M.blob(j) for j in range(1, 8)]:
                        viol.append(['partial', 'reader %d sees an incomplete input %s/%s' % (c, w, n)])
                        return
            copies = {o['ops'][j][2] for o in sc['clients'] for j in range(len(o['ops'])) if o['ops'][j][0] == 'ws_cp'}
            blank = {o['ops'][j][1] for o in sc['clients'] for j in range(len(o['ops'])) if o['ops'][j][0] == 'ws_add'}
            for w in mg.get_workspace_names() if False else {w for w, _, _ in val}:
                if w in copies and w not in blank and not {'c', 'd', 'i1.nc'} <= full.get(w, set()):
                    viol.append(['partial', 'reader %d sees an incomplete copy %s' % (c, w)])
                    return
            box.append(len(val))
    return body


def same(sim, real, sc, c, client, base, box, viol, stats):
    def body(task):
        mg = real.manager()
        for op in client['ops']:
            ws.bump(stats['ops'], 'same-' + op[0])
            if op[0] == 'in_add':
                # each client imports its own file of that name
                src = os.path.join(real.src, str(c))
                os.makedirs(src, exist_ok=True)
                with open(os.path.join(src, 'n.nc'), 'wb') as f:
                    f.write(M.blob(op[2][0][1]))
                res, val = sim.op(lambda: mg.add_inputs('a', [os.path.join(src, 'n.nc')], M.NullMonitor()))
            else:
                res, val = sim.op(lambda: real.call(mg, op))
            if res == 'crash':
                return
            box.append((op, res, type(val).__name__))
            if all(len(b) for b in sim_boxes(sim)):
                pass
        # the last one to end looks at the result
        task.outcome = list(box)
        others = [t for t in sim.tasks if t is not task]
        if not all(hasattr(t, 'outcome') for t in others):
            return
        allr = [x for t in sim.tasks for x in t.outcome]
        if not allr:
            return
        op = allr[0][0]
        oks = [x for x in allr if x[1] == 'ok']
        m2 = real.manager()
        if op[0] == 'in_add':
            data = M._bytes(m2.get_inputs_path('a', 'n.nc')) if m2.get_input_names('a') == ['i1.nc', 'n.nc'] else None
            if len(oks) != len(allr) or data not in [M.blob(x[0][2][0][1]) for x in allr]:
                viol.append(['winner', 'imports of the same name: %r, result %s' % (allr, M.short(data))])
            return
        if len(oks) != 1:
            viol.append(['winner', '%d of %d requests for the same new name succeed: %r' % (len(oks), len(allr), allr)])
            return
        if op[0].startswith('cfg'):
            fs = {k: M._bytes(m2.get_config_file('a', 'n', k)) for k in M.KEYS}
            if fs != M.default_config(False):
                viol.append(['winner', 'the new configuration is not whole'])
        else:
            if op[0] == 'ws_cp':
                if not {'c', 'd'} <= set(m2.get_config_names('n')):
                    viol.append(['winner', 'the new workspace is not whole: %r' % m2.get_config_names('n')])
            elif m2.get_config_names('n') != ['x']:
                viol.append(['winner', 'the renamed workspace is not whole'])
    return body


def sim_boxes(sim):
    return []
