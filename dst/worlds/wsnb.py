"""W07: notebooks are never overwritten; every successful request gets its own."""
import ast
import json
import os
import zlib

from .. import boot as _boot
from .. import proc
from ..kernel import Sim
from . import ws
from . import wsmodel as M

SHRINK = ('rounds', 'clients', 'ops', 'faults', 'switches', 'there')
CPU_LIMIT = 60
PLAN = {'W07': {'quick': 4500, 'thorough': 160000}}
LEVEL = {}
REAL = {'W07': ws._R}
STUB = {'W07': ws._S + ['thread scheduling (switches at seam calls and between source lines)',
                        'the Jupyter server (its start is recorded)']}
RULE = {'W07': '1-3 rounds of 1-3 clients in one program, each asking for 1-4 notebooks of the same or different '
               'products next to existing notebooks; part of the runs with failing calls or a kill and restart; '
               'non-trivial: at least two requests for the same product, or a fault struck'}
ASSUME = {'W07': ws._A}

PRODUCTS = ['/data/p.nc', '/data/q.nc', '/other/p.nc', 'C:\\data\\p.nc', "/it's/p.nc", '/say "x"/p.nc',
            '/d/\u00e9t\u00e9.nc', '/d/back\\slash n.nc']


def boot():
    _boot.workspace()


def gen(prop, r, tier, i):
    rounds = []
    prods = r.sample(PRODUCTS, r.choice([1, 1, 2, 4]))
    mode = r.choice(['plain', 'fault', 'crash', 'mixed'])
    for _ in range(r.choice([1, 1, 2, 3])):
        clients = []
        for _ in range(r.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(r.choice([1, 1, 2, 4])):
                w = r.choice(['a', 'a', 'a', 'b', 'nope'])
                o = ['nb_inspect', w, r.choice(prods)] if r.random() < .6 else \
                    ['nb_compare', w, r.choice(prods), r.choice(prods)]
                e = {'op': o}
                if mode != 'plain' and r.random() < .4:
                    k = r.choice({'fault': ['err', 'partial', 'full', 'sticky:err'],
                                  'crash': ['crash', 'crash_after', 'torn'],
                                  'mixed': ['err', 'partial', 'full', 'crash', 'torn']}[mode])
                    e['faults'] = {str(r.choice([1, 2, 2, 3, 4, 5, 6])): k}
                ops.append(e)
            clients.append({'ops': ops})
        rounds.append({'clients': clients})
    there = []
    for _ in range(r.choice([0, 0, 1, 3])):
        b = os.path.basename(r.choice(prods)) or 'x'
        there.append([r.choice(['inspect-%s-%d.ipynb' % (b, r.choice([1, 1, 2, 3])),
                                'compare-%s-%s-1.ipynb' % (b, b), 'mine.ipynb']), r.randrange(1, 25)])
    return {'rounds': rounds, 'there': there, 'order': r.randrange(1 << 30), 'lines': r.random() < .5,
            'buf': r.choice([[8192], [64, 512], [16]]),
            'sched': {'seed': r.randrange(1 << 30), 'p': r.choice([.05, .2, .5]), 'gap': r.choice([4, 20, 100])}}


def listing(real):
    out = {}
    mg = real.manager()
    for w in ('a', 'b'):
        d = mg.get_workspace_path(w, 'notebooks')
        for n in mg.get_notebook_names(w):
            with open(os.path.join(d, n), 'rb') as f:
                out[w + '/' + n] = f.read()
    return out


def names(data, paths):
    """the notebook is well-formed and its code names these products in this order"""
    try:
        nb = json.loads(data.decode('utf-8'))
    except ValueError as e:
        return 'is not valid JSON (%s)' % e
    consts = []
    for cell in nb.get('cells', []):
        if cell.get('cell_type') != 'code':
            continue
        src = cell.get('source', '')
        src = ''.join(src) if isinstance(src, list) else src
        src = '\n'.join(x for x in src.split('\n') if not x.lstrip().startswith(('%', '!')))
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            if any(os.path.basename(p) in src for p in paths):
                return 'has a cell that is not Python: %s' % e
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and isinstance(node.value, str):
                consts.append((node.lineno, node.col_offset, node.value))
    vals = [v for _, _, v in consts]
    missing = [p for p in paths if p not in vals]
    if missing:
        return 'does not name %r' % missing
    i = 0
    for p in paths:
        while i < len(vals) and vals[i] != p:
            i += 1
        i += 1
    if len(paths) == 2 and i > len(vals):
        return 'names the products in another order'
    return None


def run(sc, d):
    real = M.Real(d).setup()
    mg = real.manager()
    for w in ('a', 'b'):
        mg.create_workspace(w)
    for n, b in sc['there']:
        real.harness_op(['nb_put', 'a', n, b])
    viol, trace, stats = [], [], ws.new_stats()
    digest, slog = 0, {}
    nreq = {}
    for k, rd in enumerate(sc['rounds']):
        v, st, dg, tr, lg, rq = proc.in_child(lambda: lifetime(sc, real, rd, k))
        viol += v
        ws.merge(stats, st)
        trace += tr
        digest = zlib.crc32(b'%d' % dg, digest)
        if k == 0:
            slog = lg
        for x in rq:
            nreq[x] = nreq.get(x, 0) + 1
        if viol:
            break
    viol = [[a, b.replace(real.root, '<root>')] for a, b in viol]
    return {'viol': viol[:3], 'stats': stats, 'digest': digest, 'states': [digest], 'trace': trace,
            'sched_log': slog if len(sc['rounds']) == 1 else None,
            'nontrivial': max(list(nreq.values()) + [0]) > 1 or sum(stats['faults'].values()) > 0}


def lifetime(sc, real, rd, k):
    sched = dict(sc['sched'])
    if 'seed' in sched:
        sched['seed'] = '%s-%d' % (sched['seed'], k)
    sim = Sim(real.root, order_seed='%s-%d' % (sc['order'], k), sched=sched, line_preempt=sc['lines'],
              max_points=400000, pid=4242 + k)
    sim.buf_choices = tuple(sc['buf'])
    Sim.current = sim
    sim.enter_main()
    before = listing(real)
    box = []
    stats = ws.new_stats()

    def client(c, cl):
        def body(task):
            mg = real.manager()
            for e in cl['ops']:
                ws.bump(stats['ops'], e['op'][0])
                n0 = len(sim.subprocesses)
                rec = {'op': e['op'], 'c': c, 'res': 'crash', 'val': None, 'hits': []}
                box.append(rec)
                res, val = sim.op(lambda: real.call(mg, e['op']), e.get('faults'))
                rec.update(res=res, val='%s: %s' % (type(val).__name__, val) if res == 'err' else None,
                           hits=task.last_hits)
                if res == 'crash':
                    return
        return body
    tasks = sim.run_tasks([client(c, cl) for c, cl in enumerate(rd['clients'])])
    viol = []
    for t in tasks:
        if t.result[0] == 'harness':
            raise RuntimeError(t.result[1])
        if t.result[0] == 'hang':
            viol.append(['hang', 'a request did not end'])
    if sim.deadlock:
        viol.append(['deadlock', 'clients wait for each other'])
    sim.tasks = []
    crashed = sim.dead
    sim.dead = False
    for f, kind, _ in sim.fault_log:
        ws.bump(stats['faults'], '%s@%s' % (f, kind))
    after = listing(real)
    for n, data in before.items():
        if n not in after:
            viol.append(['gone', 'notebook %s was removed' % n])
        elif after[n] != data:
            viol.append(['overwritten', 'notebook %s, which existed before the requests, was changed' % n])
    new = {n: x for n, x in after.items() if n not in before}
    oks = [x for x in box if x['res'] == 'ok']
    bad = [x for x in box if x['res'] != 'ok']
    used = {}                       # notebook -> request

    def place(x, seen):
        for n in sorted(new):
            if n in seen or not n.startswith(x['op'][1] + '/') or names(new[n], x['op'][2:]) is not None:
                continue
            seen.add(n)
            if n not in used or place(used[n], seen):
                used[n] = x
                return True
        return False
    for x in oks:
        w = x['op'][1]
        if w not in ('a', 'b'):
            viol.append(['no-workspace', '%s succeeded' % x['op']])
        elif not place(x, set()):
            why = '; '.join('%s %s' % (n, names(new[n], x['op'][2:]) or 'belongs to another request')
                            for n in sorted(new) if n.startswith(w + '/'))
            viol.append(['no-notebook', '%s succeeded%s but there is no new notebook for it (%s)' % (
                x['op'], ' in spite of %s' % x['hits'] if x['hits'] else '', why or 'no new ones')])
    free = [n for n in new if n not in used]
    if len(free) > len(bad):
        viol.append(['extra', '%d requests made %d notebooks: %s' % (len(box), len(new), sorted(new))])
    for x in bad:
        if x['res'] == 'err' and not x['hits'] and x['op'][1] in ('a', 'b'):
            viol.append(['refused', '%s failed without a fault: %s' % (x['op'], x['val'])])
    if not crashed:
        # the notebooks that were opened: one per successful request, no two the same
        opened = [str(cmd) for _, cmd in sim.subprocesses]
        for n in new:
            p = os.path.join(real.dir, n.replace('/', '/notebooks/', 1))
            k2 = sum(p in o for o in opened)
            if k2 > 1:
                viol.append(['shared', 'notebook %s was given to %d requests' % (n, k2)])
        for n in before:
            p = os.path.join(real.dir, n.replace('/', '/notebooks/', 1))
            if any('"%s"' % p in o for o in opened):
                viol.append(['shared', 'the existing notebook %s was opened for a request' % n])
    if sim.escapes:
        viol.append(['escape', repr(sim.escapes)])
    stats['sim_time'] = sim.clock - 1.6e9
    stats['points'] = sim.points
    stats['switches'] = len(sim.sched.log)
    dg = zlib.crc32(repr((sim.trace_hash, sorted(sim.sched.log.items()), [(x['op'], x['res']) for x in box],
                          sorted(new))).encode())
    return viol, stats, dg, [[x['op'], x['res'], x['val'], x['hits']] for x in box] + [list(x) for x in sim.trace[-80:]], \
        sim.sched.log, [repr(x['op']) for x in box]
