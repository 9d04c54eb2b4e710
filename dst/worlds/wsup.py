"""W06: configuration upgrades: exact, repeatable, interruptible."""
import copy
import json
import os
import random
import zlib

from .. import boot as _boot
from .. import proc
from ..kernel import Sim
from . import ws
from . import wsmodel as M

SHRINK = ('steps', 'clients', 'faults', 'switches', 'log', 'extra')
CPU_LIMIT = 60
PLAN = {'W06': {'quick': 6000, 'thorough': 150000}}
LEVEL = {}
REAL = {'W06': ws._R + ['dedop.cli.main (config upgrade)', 'dedop.webapi.websocket (upgrade_configs)']}
STUB = {'W06': ws._S + ['the default configurations: in 3 of 4 runs synthetic ones with random change logs, else the '
                        'shipped ones', 'cate.util.cli (argument parsing)']}
RULE = {'W06': 'user configurations of random older, equal or newer versions (also unversioned) with user values and '
               'unknown parameters; 1-4 upgrades of one file or all, through the manager, the command line or the web '
               'service, with failing calls, kills and restarts, or by two clients at once, then a clean one; '
               'compared with a reference upgrade; non-trivial: at least one file needs upgrading'}
ASSUME = {'W06': ws._A + ['change logs list versions in ascending order']}


def boot():
    _boot.services()


PARS = ['p%d' % i for i in range(8)]


def gen(prop, r, tier, i):
    sc = {'order': r.randrange(1 << 30), 'buf': r.choice([[8192], [64, 512], [16]]), 'real': r.random() < .25,
          'lines': r.random() < .5, 'salt': r.randrange(1 << 30),
          'sched': {'seed': r.randrange(1 << 30), 'p': r.choice([.05, .2, .5]), 'gap': r.choice([5, 30, 200])}}
    sc['files'] = {}
    for k in M.KEYS:
        log = []
        nv = r.choice([0, 1, 2, 3, 5, 11])
        live = set(r.sample(PARS, 4))
        for v in range(nv + 1):
            ch = []
            for _ in range(r.choice([0, 1, 2, 4]) if v else 0):
                p = r.choice(PARS)
                if p in live:
                    s = r.choice('*-')
                else:
                    s = '+'
                live.add(p) if s != '-' else live.discard(p)
                ch.append([p, s, 'because'])
            log.append({'version': v, 'parameters': ch, 'comment': 'v%d' % v})
        sc['files'][k] = {'log': log, 'live': sorted(live), 'user': r.choice([None, 'empty'] + list(range(nv + 2)) * 2),
                          'extra': r.sample(PARS + ['mine', 'x y', '\u00e9'], r.choice([0, 2, 5]))}
    steps = []
    for _ in range(r.choice([1, 2, 3])):
        st = {'what': r.choice(['all', 'all', 'all', 'CHD', 'CNF', 'CST']), 'via': r.choice(['mg', 'mg', 'cli', 'web'])}
        x = r.random()
        if x < .55:
            k = r.choice(['err', 'err', 'partial', 'full', 'sticky:err', 'crash', 'crash_after', 'torn', 'torn'])
            st['faults'] = {str(ws.when(r)): k}
        elif x < .75:
            st = {'clients': [r.choice(['all', 'all', 'CHD', 'CNF', 'read']) for _ in range(r.choice([2, 3]))]}
        elif x < .83:
            st = {'edit': r.choice(M.KEYS), 'par': r.choice(PARS + ['new']), 'n': r.randrange(100)}
        steps.append(st)
    sc['steps'] = steps + [{'what': 'all', 'via': 'mg'}, {'what': 'all', 'via': r.choice(['mg', 'cli', 'web'])}]
    return sc


def default_of(sc, k):
    if sc['real']:
        return json.loads(M.default_config(False)[k].decode())
    f = sc['files'][k]
    log = f['log'] or [{'version': 0, 'parameters': []}]
    # which parameters the newest default has
    live = set(f['live'])
    for c in log:
        for p, s, *_ in c['parameters']:
            live.add(p) if s != '-' else live.discard(p)
    r = random.Random('def-%s-%s' % (sc['salt'], k))
    d = {p: {'value': ['default', p, r.randrange(9)], 'units': None} for p in sorted(live)}
    d['__metainf__'] = {'version': log[-1]['version'], 'changelog': log, 'description': k}
    return d


def user_of(sc, k):
    f = sc['files'][k]
    d = default_of(sc, k)
    r = random.Random('user-%s-%s' % (sc['salt'], k))
    u = {}
    for p in sorted(set(d) - {'__metainf__'}):
        if r.random() < .8:
            u[p] = {'value': ['user', p, r.randrange(99)], 'units': 'm'}
    for p in f['extra']:
        u[p] = {'value': r.choice([1, 'text', None, [1, 2], True, 1e-300, '\u00e9\u4e2d'])}
    if sc['real']:
        for p in ('flag_remove_doppler_ambiguities_cnf', 'ambiguity_mask_margin_cnf', 'other'):
            if r.random() < .5:
                u[p] = {'value': 5}
    v = f['user']
    if v == 'empty':
        u['__metainf__'] = {'description': 'mine'}
    elif v is not None:
        u['__metainf__'] = {'version': v, 'changelog': [], 'description': 'mine'}
    return u


def run(sc, d):
    real = M.Real(d).setup()
    mg = real.manager()
    mg.create_workspace('a')
    for c in ('c', 'd'):
        mg.create_config('a', c)
    mg.set_current_workspace_name('a')
    mg.set_current_config_name('a', 'c')
    defaults = {k: default_of(sc, k) for k in M.KEYS}
    if not sc['real']:
        import pkgutil
        gd = pkgutil.get_data

        def get_data(package, resource):
            if package == 'dedop.ui.data.config' and resource[:3] in defaults:
                return json.dumps(defaults[resource[:3]]).encode()
            return gd(package, resource)
        pkgutil.get_data = get_data
        if any(mg.get_default_config_version(k) != defaults[k]['__metainf__']['version'] for k in M.KEYS):
            # the defaults are not read this way: use the shipped ones
            pkgutil.get_data = gd
            sc = dict(sc, real=True)
            defaults = {k: default_of(sc, k) for k in M.KEYS}
    state = {}
    for k in M.KEYS:
        state[k] = user_of(sc, k)
        if 'version' in state[k].get('__metainf__', {}) or '__metainf__' not in state[k]:
            pass
        r = random.Random('fmt-%s' % sc['salt'])
        mg.write_config_file('a', 'c', k, json.dumps(state[k], indent=r.choice([None, 2, 4]), ensure_ascii=True))
    other = {k: M._bytes(mg.get_config_file('a', 'd', k)) for k in M.KEYS}
    need = sum(M.upgraded(state[k], defaults[k]) != state[k] for k in M.KEYS)
    viol, trace, stats, digest, slog = [], [], ws.new_stats(), 0, None
    i, life = 0, 0
    while i < len(sc['steps']) and not viol:
        i, state, v, st, dg, tr, lg = proc.in_child(lambda: lifetime(sc, real, defaults, state, i, life))
        viol += v
        ws.merge(stats, st)
        trace += tr
        slog = slog or lg
        digest = zlib.crc32(b'%d' % dg, digest)
        life += 1
    for k in M.KEYS:
        if M._bytes(mg.get_config_file('a', 'd', k)) != other[k]:
            viol.append(['other', 'upgrading configuration c changed %s of configuration d' % k])
    if mg.get_config_names('a') != ['c', 'd']:
        viol.append(['other', 'configurations are now %s' % mg.get_config_names('a')])
    viol = [[a, b.replace(real.root, '<root>')] for a, b in viol]
    return {'viol': viol[:3], 'stats': stats, 'digest': digest, 'states': [digest], 'trace': trace,
            'sched_log': slog if sum('clients' in s for s in sc['steps']) == 1 else None, 'nontrivial': need > 0}


def load(mg, k):
    with open(mg.get_config_file('a', 'c', k), encoding='utf-8') as f:
        return json.load(f)


def lifetime(sc, real, defaults, state, i, life):
    sched = dict(sc['sched'])
    if 'seed' in sched:
        sched['seed'] = '%s-%d' % (sched['seed'], life)
    sim = Sim(real.root, order_seed='%s-%d' % (sc['order'], life), sched=sched, line_preempt=sc['lines'],
              max_points=400000, pid=4242 + life)
    sim.buf_choices = tuple(sc['buf'])
    Sim.current = sim
    sim.enter_main()
    stats = ws.new_stats()
    viol, trace = [], []
    mg = real.manager()
    digest = 0
    import dedop.cli.main as cli
    from dedop.webapi.websocket import WebSocketService
    web = WebSocketService(mg)

    def upg(m, what, via='mg'):
        if what != 'all':
            return m.upgrade_config('a', 'c', what)
        if via == 'cli':
            return cli.main(['config', 'upgrade', '-w', 'a', 'c'], workspace_manager=m)
        if via == 'web':
            return web.upgrade_configs('a', 'c')
        return tuple(m.upgrade_all_config('a', 'c'))

    def ver(u):
        return u['__metainf__']['version'] if '__metainf__' in u and 'version' in u['__metainf__'] else -1

    def malformed(st):
        """a configuration with meta information but no version is outside the versioning scheme for some calls"""
        return any('__metainf__' in u and 'version' not in u['__metainf__'] for u in st.values())

    while i < len(sc['steps']) and not viol:
        st = sc['steps'][i]
        i += 1
        exp = {k: M.upgraded(state[k], defaults[k]) for k in M.KEYS}
        before = {k: M._bytes(mg.get_config_file('a', 'c', k)) for k in M.KEYS}
        if 'edit' in st:
            u = dict(state[st['edit']], **{st['par']: {'value': ['edited', st['n']]}})
            mg.write_config_file('a', 'c', st['edit'], json.dumps(u))
            state[st['edit']] = u
            continue
        if 'clients' in st:
            ws.bump(stats['ops'], 'concurrent')
            box = []

            def client(what):
                def body(task):
                    m = real.manager()
                    for _ in range(3 if what == 'read' else 1):
                        if what == 'read':
                            res = sim.op(lambda: [json.loads(json.dumps(m.get_config_json('a', 'c', k)[0]))
                                                  for k in M.KEYS])
                        else:
                            res = sim.op(lambda: upg(m, what))
                        box.append((what,) + res)
                return body
            tasks = sim.run_tasks([client(x) for x in st['clients']])
            for t in tasks:
                if t.result[0] == 'harness':
                    raise RuntimeError(t.result[1])
            sim.tasks = []
            touched = set(M.KEYS) if 'all' in st['clients'] else set(st['clients']) & set(M.KEYS)
            for what, res, val in box:
                if res != 'ok':
                    viol.append(['concurrent', '%s at the same time as others: %s %s' % (what, res, val)])
                elif what == 'read':
                    for k, x in zip(M.KEYS, val):
                        if x not in (state[k], exp[k]):
                            viol.append(['torn-read', 'a reader got %s that is neither the old nor the upgraded file' % k])
            for k in M.KEYS:
                got = load(mg, k)
                want = exp[k] if k in touched else state[k]
                if got != want:
                    viol.append(['upgrade', '%s after concurrent upgrades: %s' % (k, show(want, got))])
                state[k] = got
            digest = zlib.crc32(repr(sorted(sim.sched.log.items())).encode(), digest)
            trace.append(['concurrent', [(b[0], b[1]) for b in box]])
            continue
        what, via = st['what'], st['via']
        ws.bump(stats['ops'], '%s-%s' % (via, what))
        if malformed(state) and via != 'mg':
            via = 'mg'
        res, val = sim.op(lambda: upg(mg, what, via), st.get('faults'))
        hits = sim.task().last_hits
        for f, kind, _ in hits:
            ws.bump(stats['faults'], '%s@%s' % (f, kind))
        trace.append([st, res, str(val)[:150] if res == 'err' else None, hits])
        keys = M.KEYS if what == 'all' else (what,)
        if res == 'hang':
            viol.append(['hang', 'upgrade did not end'])
        ok = res == 'ok' and not (via == 'cli' and what == 'all' and val != 0)
        if not hits and not ok:
            viol.append(['refused', 'upgrade %s failed without a fault: %s: %s' % (st, type(val).__name__, val)])
        if ok and what == 'all' and via == 'mg' and list(val) != [ver(exp[k]) for k in M.KEYS]:
            viol.append(['version', 'upgrade returned %s, the versions are %s' % (val, [ver(exp[k]) for k in M.KEYS])])
        if ok and what != 'all' and val != ver(exp[what]):
            viol.append(['version', 'upgrade of %s returned %s, the version is %s' % (what, val, ver(exp[what]))])
        if ok and what == 'all' and via == 'web':
            for k in M.KEYS:
                if json.loads(json.dumps(val[k.lower()])) != exp[k]:
                    viol.append(['web', 'the service returned %s: %s' % (k, show(exp[k], val[k.lower()]))])
        for k in M.KEYS:
            try:
                got = load(mg, k)
            except Exception as e:
                viol.append(['torn', '%s cannot be read after %s (%s): %s' % (k, st, res, e)])
                continue
            allowed = [exp[k]] if ok and k in keys else [state[k], exp[k]] if k in keys else [state[k]]
            if not any(same(got, a) for a in allowed):
                viol.append(['upgrade' if ok else 'torn', '%s after %s (%s%s): %s' % (
                    k, st, res, ', faults %s' % hits if hits else '', show(allowed[-1], got))])
            elif ok and k in keys and same(state[k], exp[k]) and sorted_form(before[k]) \
                    and M._bytes(mg.get_config_file('a', 'c', k)) != before[k]:
                viol.append(['again', 'upgrading %s again changed the text of the file' % k])
            state[k] = got
        digest = zlib.crc32(repr((st, res, sorted(state.items(), key=lambda x: x[0]))).encode(), digest)
        if res == 'crash':
            break
    digest = zlib.crc32(b'%d' % sim.trace_hash, digest)
    stats['sim_time'] = sim.clock - 1.6e9
    stats['points'] = sim.points
    stats['switches'] = len(sim.sched.log)
    return i, state, viol, stats, digest, trace, sim.sched.log


def same(a, b):
    return a == b


def sorted_form(data):
    """the file has the layout an upgrade writes"""
    t = data.decode('utf-8', 'replace')
    try:
        return t == json.dumps(json.loads(t), indent=4, separators=(',', ': '), sort_keys=True)
    except ValueError:
        return False


def show(want, got):
    out = []
    for p in sorted(set(want) | set(got)):
        if want.get(p) != got.get(p):
            out.append('%s is %r, should be %r' % (p, got.get(p, '<absent>'), want.get(p, '<absent>')))
    return '; '.join(out)[:300]
