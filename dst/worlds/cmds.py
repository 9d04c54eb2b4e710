"""C02: commands and web service calls do what they report."""
import copy
import fnmatch
import gc
import io
import json
import os
import re
import sys
import weakref
import zlib

from .. import boot as _boot
from .. import proc
from ..kernel import Sim
from . import ws
from . import wsmodel as M

SHRINK = ('ops', 'faults')
CPU_LIMIT = 60
PLAN = {'C02': {'quick': 6500, 'thorough': 120000}}
LEVEL = {}
REAL = {'C02': ['dedop.cli.main (workspace, config, input, output, status commands)', 'dedop.webapi.websocket'] + ws._R}
STUB = {'C02': ws._S + ['cate.util.cli (argument parsing, error to exit status)', 'cate.util.monitor',
                        'the keyboard (scripted answers)']}
RULE = {'C02': 'history of 4-24 commands and web service calls with restarts; a third of the histories with failing '
               'calls inside the commands; after each the reported outcome, the returned or listed values and the whole '
               'state are compared with the model; non-trivial: at least 3 commands changed something'}
ASSUME = {'C02': ws._A + ['the text of a message is free; a list is recognised by its numbered lines',
                          'importing into a workspace that is not there is not specified']}

WSN = ['a', 'b', 'default', 'my ws']
CFN = ['c', 'd', 'default', 'c_copy']
SRC = ['i1.nc', 'i2.nc', 'i10.nc', 'note.txt']
PATS = ['*.nc', 'i1*', 'i?.nc', 'i1.nc', 'i2.nc', 'i10.nc', '*', 'zz.nc']


def boot():
    _boot.base()
    import netCDF4
    from .. import ncsim
    real = netCDF4.Dataset

    class Var:
        def __init__(self, v, what):
            self._v, self._what = v, what

        def __getitem__(self, k):
            ncsim._point('nc-read', self._what)
            return self._v[k]

        def __len__(self):
            return len(self._v)

        def __getattr__(self, n):
            return getattr(self.__dict__['_v'], n)

    class Query:
        """a data set opened for reading behind the simulator; without a dictionary of its own, like the real one"""
        __slots__ = ('_d', '_p', '_open', '__weakref__')

        def __init__(self, path, *a, **k):
            self._open = False
            self._p = os.path.basename(path)
            ncsim._point('nc-open', self._p)
            self._d = real(path, *a, **k)
            self._open = True
            HANDLES.add(self)

        @property
        def variables(self):
            return {n: Var(v, self._p + ':' + n) for n, v in self._d.variables.items()}

        def __getitem__(self, k):
            return self.variables[k]

        def ncattrs(self):
            ncsim._point('nc-read', self._p + '@')
            return self._d.ncattrs()

        def getncattr(self, n, *a, **k):
            ncsim._point('nc-read', self._p + '@' + n)
            return self._d.getncattr(n, *a, **k)

        def close(self):
            try:
                ncsim._point('nc-close', self._p)
            finally:
                self._open = False
                self._d.close()

        def isopen(self):
            return self._open

        def __enter__(self):
            return self

        def __exit__(self, *a):
            if self._open:
                self.close()

        def __getattr__(self, n):
            if n == '__dict__':
                ncsim._point('nc-read', self._p + '@')
                return self._d.__dict__
            return getattr(self._d, n)

    def dataset(path, *a, **k):
        return real(path, *a, **k) if Sim.current is None else Query(path, *a, **k)
    netCDF4.Dataset = dataset
    _boot.services()


HANDLES = weakref.WeakSet()
ATTRS = [('title', 'L1A'), ('pass_number', 'i4:37'), ('equator_longitude', 'f8:12.25'), ('flags', 'i2:1,2,3'),
         ('comment', ''), ('cycle', 'i8:99')]


def product(path, e):
    import netCDF4
    import numpy as np
    with netCDF4.Dataset(path, 'w') as d:
        d.createDimension('t', None)
        for n, seed in (('lat', e['lat']), ('lon', e['lon'])):
            if seed is not None:
                v = d.createVariable('%s_l1a_echo_sar_ku' % n, 'i4', ('t',))
                v.scale_factor = 1e-6
                v[:] = coords(seed, e['len'])
        for n, x in ATTRS:
            if n in e['attrs']:
                m = re.match('(i4|i2|i8|f8):(.*)', x)
                d.setncattr(n, x if not m else
                            np.array([float(y) for y in m.group(2).split(',')]).astype(m.group(1)))


def coords(seed, n):
    return [((seed * 7919 + j * (104729 if seed % 2 else 53000017)) % 160000000 - 80000000) / 1e6 for j in range(n)]


def answer_to(e):
    if e['q'] == 'attrs':
        out = {}
        for n, x in ATTRS:
            if n in e['attrs']:
                m = re.match('(?:i4|i2|i8|f8):(.*)', x)
                y = [float(z) for z in m.group(1).split(',')] if m else x
                out[n] = y[0] if m and len(y) == 1 else y
        return out
    c = {n: coords(e[n], e['len']) if e[n] is not None else [] for n in ('lat', 'lon')}
    if e['q'] == 'ends':
        if not all(c.values()):
            return None
        c = {n: [x[0], x[-1]] for n, x in c.items()}
    return c


def close_to(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(close_to(a[x], b[x]) for x in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(close_to(x, y) for x, y in zip(a, b))
    if isinstance(b, float):
        return isinstance(a, (int, float)) and abs(a - b) < 1e-7
    return a == b


KINDS = ['ws_add', 'ws_rm', 'ws_cp', 'ws_mv', 'ws_cur', 'cfg_add', 'cfg_rm', 'cfg_cp', 'cfg_mv', 'cfg_cur', 'cfg_up',
         'cfg_save', 'in_add', 'in_rm', 'out_rm', 'ins', 'cmp', 'ls', 'out_put', 'user_put', 'restart', 'geo']
WEIGHTS = [6, 3, 3, 3, 3, 8, 4, 4, 4, 3, 3, 4, 6, 4, 3, 2, 2, 14, 5, 1, 1, 2]


def gen(prop, r, tier, i):
    ops = []
    mode = r.choice(['cli', 'cli', 'web', 'mix'])
    faulty = r.random() < .35
    for _ in range(r.choice([4, 8, 14, 24])):
        via = mode if mode != 'mix' else r.choice(['cli', 'web'])
        k = r.choices(KINDS, WEIGHTS)[0]
        e = {'via': via, 'k': k, 'w': r.choice(WSN[:r.choice([1, 2, 4])]), 'c': r.choice(CFN[:r.choice([1, 2, 4])]),
             'n': r.choice((WSN if k.startswith('ws') else CFN) + ['n'])}
        if via == 'cli':
            if r.random() < .5 and not k.startswith('ws_') or k in ('ws_rm', 'ws_cp', 'ws_mv', 'ws_cur') and \
                    r.random() < .3:
                e['w'] = None
            if r.random() < .5 and k != 'cfg_add':
                e['c'] = None
            if k in ('ws_cp', 'cfg_cp') and r.random() < .4 or e['w' if k == 'ws_cp' else 'c'] is None and \
                    k in ('ws_cp', 'cfg_cp'):
                e['n'] = None
        e['yes'] = r.choice([True, True, True, 'yes', '', 'no', 'n'])
        if k == 'cfg_add':
            e['cryo'] = r.random() < .25
        elif k == 'cfg_save':
            e['via'] = 'web'
            e['w'], e['c'] = e['w'] or 'a', e['c'] or 'c'
            e['texts'] = [r.randrange(1, 60) for _ in range(3)]
        elif k == 'in_add':
            e['src'] = [[n, r.randrange(1, 25)] for n in r.sample(SRC, r.choice([1, 2, 3]))]
            e['rel'] = r.random() < .3
            e['pats'] = [r.choice(PATS[:7])] if r.random() < .5 else [n for n, _ in e['src']]
        elif k == 'in_rm':
            e['pats'] = r.sample(PATS, r.choice([0, 1, 1, 2]))
        elif k == 'ls':
            e['what'] = r.choice(['ws', 'cfg', 'in', 'out', 'out', 'status', 'curws', 'curcfg', 'ver'] if via == 'cli' else
                                 ['ws', 'cfg', 'out', 'out', 'curws', 'curcfg', 'cfgs', 'nb'])
            e['pat'] = r.choice([None, None] + PATS)
        elif k == 'geo':
            e['via'] = 'web'
            e['q'] = r.choice(['latlon', 'ends', 'attrs'])
            e['len'] = r.choice([1, 2, 5])
            for n in ('lat', 'lon'):
                e[n] = r.randrange(1, 1000) if r.random() < .85 else None
            e['attrs'] = [n for n, _ in ATTRS if r.random() < .5]
            if faulty and r.random() < .6:
                e['faults'] = {str(r.randrange(1, 5)): r.choice(['err', 'sticky:err'])}
        elif k == 'out_put':
            e['outs'] = [[n, r.randrange(1, 25)] for n in r.sample(['L1B_x.nc', 'L1BS_x.nc', 'log.txt'], r.choice([1, 2]))]
        elif k in ('ins', 'cmp'):
            e['p1'] = r.choice(['L1B_x.nc', 'L1BS_x.nc', 'zz.nc', '<path>'])
            e['p2'] = r.choice(['L1B_x.nc', 'L1BS_x.nc', '<path>', None])
            e['w2'] = r.choice([None, None, 'a', 'b'])
            e['c2'] = r.choice([None, None, 'c', 'd'])
        if faulty and r.random() < .5 and k not in ('out_put', 'user_put', 'restart', 'geo'):
            e['faults'] = {str(ws.when(r)): r.choice(['err', 'err', 'partial', 'full', 'sticky:err'])}
            if k == 'ls' and r.random() < .6:
                e['faults'] = {r.choice(['list#1', 'list#1', 'list#2', 'open-r#1', 'open-r#2', 'read#1', 'read#2']): 'err'}
            if k == 'in_add' and e['via'] == 'cli':
                e['pats'] = [n for n, _ in e['src']]
        if k == 'ls' and e['what'] in ('out', 'in') and r.random() < .5:
            # list what was put there before
            o = [x for x in ops if x['k'] == ('out_put' if e['what'] == 'out' else 'in_add')]
            if o:
                e['w'], e['c'] = o[-1]['w'] or 'a', o[-1]['c'] or 'c'
        ops.append(e)
    if mode != 'cli' or r.random() < .7:
        first = [{'via': 'cli', 'k': 'ws_add', 'w': 'a', 'c': None, 'n': None, 'yes': True},
                 {'via': 'cli', 'k': 'cfg_add', 'w': 'a', 'c': 'c', 'n': None, 'yes': True, 'cryo': False}]
        ops = first + ops
    return {'kind': mode, 'ops': ops, 'order': r.randrange(1 << 30)}


def unique(new, names):
    n, i = new, 2
    while n in names:
        n = '%s_%d' % (new, i)
        i += 1
    return n


class No(Exception):
    """refused; or None: not specified, skip the command"""


def plan(m, e, real):
    """what the command amounts to: model operations (in order), and a check of what it says"""
    k, w, c = e['k'], e['w'], e['c']
    cli = e['via'] == 'cli'
    W = w or m['cur'] if cli else w
    ws_ = m['ws']

    def cur(W, c):
        if not cli or c:
            return c
        if W not in ws_:
            raise No
        return ws_[W]['cur']

    def reselect(names):
        return ['ws_cur', 'default' if 'default' in names else sorted(names)[0] if names else '']

    if e['yes'] not in (True, 'yes', '') and cli:
        answer = False
    else:
        answer = True
    if k == 'ws_add':
        return [['ws_add', w]] + ([['ws_cur', w]] if cli else []), None
    if k == 'ws_cur':
        if cli and not w:
            return [], ('says', m['cur'])
        return [['ws_cur', w]], None
    if k.startswith('ws_'):
        if not W:
            raise No
        if k == 'ws_rm':
            if not answer:
                return [], None
            rest = set(ws_) - {W}
            return [['ws_rm', W]] + ([reselect(rest)] if not cli or m['cur'] == W else []), None
        new = unique(e['n'], ws_) if e['n'] and cli else e['n'] or '<new>'
        if k == 'ws_cp':
            return [['ws_cp', W, new]], None
        return [['ws_mv', W, new]] + ([['ws_cur', new]] if cli and m['cur'] == W else []), None
    if k == 'cfg_add':
        pre = []
        if not W:
            W = 'default'
            pre = [] if W in ws_ else [['ws_add', W], ['ws_cur', W]]
        return pre + [['cfg_add', W, c, e['cryo']]] + ([['cfg_cur', W, c]] if cli else []), None
    if k == 'cfg_cur':
        W = W or 'default'
        c = cur(W, c)
        if W not in ws_:
            raise No
        return ([['cfg_cur', W, c]] if c else []), None
    if k in ('cfg_rm', 'cfg_cp', 'cfg_mv', 'cfg_up', 'out_rm'):
        if not W:
            raise No
        c = cur(W, c)
        if not c:
            raise No
        if k == 'cfg_rm' and not answer:
            return [], None
        if W not in ws_:
            raise No
        cf = ws_[W]['cfg']
        if k == 'cfg_rm':
            rest = sorted(set(cf) - {c})
            sel = 'default' if 'default' in rest else rest[0] if rest else ''
            return [['cfg_rm', W, c]] + ([['cfg_cur', W, sel]] if not cli or ws_[W]['cur'] == c else []), None
        if k == 'cfg_up':
            return [['cfg_up', W, c]], ('upgraded', W, c)
        if k == 'out_rm':
            if c not in cf or (cli and not M.match(cf[c]['outs'], None)):
                raise No
            return ([['out_rm', W, c]] if answer else []), None
        new = unique(e['n'], cf) if e['n'] and cli else e['n'] or '<new>'
        if k == 'cfg_cp':
            return [['cfg_cp', W, c, new]], None
        return [['cfg_mv', W, c, new]] + ([['cfg_cur', W, new]] if cli and ws_[W]['cur'] == c else []), None
    if k == 'cfg_save':
        return [['cfg_json', w, c, key, n] for key, n in zip(M.KEYS, e['texts'])], None
    if k == 'in_add':
        pre = []
        names = [n for p in e['pats'] for n, _ in e['src'] if fnmatch.fnmatchcase(n, p)] if cli else \
            [n for n, _ in e['src']]
        if not names:
            raise No
        if not W:
            W = 'default'
            pre = [] if W in ws_ else [['ws_add', W], ['ws_cur', W]]
        elif W not in ws_:
            return None, None
        d = dict(e['src'])
        return pre + [['in_add', W, [[n, d[n]] for n in names]]], None
    if k == 'in_rm':
        if not W:
            raise No
        if W not in ws_:
            return None, None
        if cli:
            names = M.match(ws_[W]['in'], e['pats'] or '*.nc')
            if not names:
                raise No
        else:
            names = e['pats']
        return ([['in_rm', W, names]] if answer else []), ('number', len(names)) if cli and answer else None
    if k in ('ins', 'cmp'):
        if not W or W not in ws_:
            return None, None
        ps = []
        cc = cur(W, c) if cli else c
        for j, p in enumerate([e['p1']] + ([e['p2'] if e['p2'] or not cli else e['p1']] if k == 'cmp' else [])):
            X, y = (W, cc) if j == 0 else (e['w2'] or W, e['c2'] or cc)
            if not cli or p == '<path>':
                ps.append(outside(real) if p in (None, '<path>') else '/data/' + p)
                continue
            if not y or X not in ws_ or y not in ws_[X]['cfg'] or p not in ws_[X]['cfg'][y]['outs']:
                raise No
            ps.append(real.manager().get_outputs_path(X, y, p))
        return [['nb_inspect' if k == 'ins' else 'nb_compare', W] + ps], None
    if k == 'geo':
        x = answer_to(e)
        if x is None:
            raise No
        return [], ('geo', x)
    if k == 'ls':
        t = e['what']
        if t in (('cfgs', 'nb') if cli else ('ver', 'in')):
            return None, None
        if t == 'ws':
            return [], ('list', sorted(ws_))
        if t == 'curcfg' and cli:
            W = W or 'default'
            if W not in ws_:
                raise No
            x = ws_[W]['cur']
            return ([['cfg_cur', W, x]] if x else []), ('says', x)
        if t == 'curws':
            return [], ('says', m['cur'])
        if t == 'status':
            if cli and m['cur'] and m['cur'] not in ws_:
                return None, None
            if cli:
                return [], ('says', m['cur'], ', '.join(sorted(ws_)), m['cur'] and ws_[m['cur']]['cur'])
            return [], ('says', m['cur'])
        if not W:
            raise No
        if W not in ws_:
            if t in ('cfg', 'curcfg'):
                raise No
            return None, None
        if t == 'cfg':
            return [], ('list', sorted(ws_[W]['cfg']))
        if t == 'nb':
            return ([], ('list', sorted(ws_[W]['nb']))) if not cli else (None, None)
        if t == 'in':
            return ([], ('list', M.match(ws_[W]['in'], e['pat']))) if cli else (None, None)
        if t == 'curcfg':
            x = ws_[W]['cur']
            if cli:
                return None, None
            return [], ('says', x)
        c = cur(W, c)
        if not c:
            raise No
        if c not in ws_[W]['cfg']:
            if t == 'out':
                return None, None
            raise No
        f = ws_[W]['cfg'][c]
        if t == 'out':
            return [], ('list', M.match(f['outs'], e['pat'] if cli else None))
        if any(v is None for v in f['files'].values()):
            raise No
        if t == 'ver':
            return ([], ('versions', [M.version_of(f['files'][x]) for x in M.KEYS])) if cli else (None, None)
        return ([], ('cfgs', {x.lower(): json.loads(f['files'][x].decode()) for x in M.KEYS}, c)) if not cli \
            else (None, None)
    raise ValueError(e)


def outside(real):
    return os.path.join(real.root, 'disk', 'prod', 'p.nc')


def argv(e, real):
    k = e['k']
    o = ['-w', e['w']] if e['w'] else []
    n = [e['n']] if e['n'] else []
    quiet = e['yes'] is True
    if k.startswith('ws_'):
        return ['workspace', {'ws_add': 'add', 'ws_rm': 'rm', 'ws_cp': 'cp', 'ws_mv': 'rn', 'ws_cur': 'cur'}[k]] + \
            (['-y'] if k == 'ws_rm' and quiet else []) + ([e['w']] if e['w'] else []) + \
            (n if k in ('ws_cp', 'ws_mv') else [])
    if k.startswith('cfg_'):
        return ['config', {'cfg_add': 'add', 'cfg_rm': 'rm', 'cfg_cp': 'cp', 'cfg_mv': 'rn', 'cfg_cur': 'cur',
                           'cfg_up': 'up'}[k]] + (['-y'] if k == 'cfg_rm' and quiet else []) + o + \
            (['--cryosat-adapted'] if e.get('cryo') else []) + \
            ([e['c']] if e['c'] else []) + (n if k in ('cfg_cp', 'cfg_mv') else [])
    q = ['-q'] if quiet else []
    if k == 'in_add':
        return ['input', 'add'] + q + o + [p if e['rel'] else os.path.join(real.src, p) for p in e['pats']]
    if k == 'in_rm':
        return ['input', 'rm'] + q + o + e['pats']
    oc = o + (['-c', e['c']] if e['c'] else [])
    if k == 'out_rm':
        return ['output', 'clean'] + q + oc

    def path(p):
        return [outside(real) if p == '<path>' else p] if p else []
    if k == 'ins':
        return ['output', 'inspect'] + oc + path(e['p1'])
    if k == 'cmp':
        return ['output', 'compare'] + oc + (['-W', e['w2']] if e['w2'] else []) + \
            (['-C', e['c2']] if e['c2'] else []) + path(e['p1']) + path(e['p2'])
    t = e['what']
    pat = [e['pat']] if e['pat'] else []
    return {'ws': ['workspace', 'ls'], 'cfg': ['config', 'ls'] + o, 'in': ['input', 'ls'] + o + pat,
            'out': ['output', 'ls'] + oc + pat, 'status': ['status'], 'curws': ['workspace', 'cur'],
            'curcfg': ['config', 'cur'] + o, 'ver': ['config', 'v'] + o + ([e['c']] if e['c'] else []),
            'cfgs': ['status'], 'nb': ['status']}[t]


def web(svc, e, real):
    k, w, c, n = e['k'], e['w'], e['c'], e['n']
    if k == 'ws_add':
        return svc.new_workspace(w)
    if k == 'ws_rm':
        return svc.delete_workspace(w)
    if k == 'ws_cp':
        return svc.copy_workspace(w, n)
    if k == 'ws_mv':
        return svc.rename_workspace(w, n)
    if k == 'ws_cur':
        return svc.set_current_workspace(w)
    if k == 'cfg_add':
        return svc.add_new_config(w, c, e['cryo'])
    if k == 'cfg_rm':
        return svc.delete_config(w, c)
    if k == 'cfg_cp':
        return svc.copy_config(w, c, n)
    if k == 'cfg_mv':
        return svc.rename_config(w, c, n)
    if k == 'cfg_cur':
        return svc.set_current_config(w, c)
    if k == 'cfg_up':
        return svc.upgrade_configs(w, c)
    if k == 'cfg_save':
        return svc.save_configs(w, c, {x.lower(): json.loads(M.text(t)) for x, t in zip(M.KEYS, e['texts'])})
    if k == 'in_add':
        return svc.add_input_files(w, [os.path.join(real.src, x) for x, _ in e['src']])
    if k == 'in_rm':
        return svc.remove_input_files(w, list(e['pats']))
    if k == 'out_rm':
        return svc.remove_output_files(w, c)
    if k in ('ins', 'cmp'):
        ps = [outside(real) if p in (None, '<path>') else '/data/' + p for p in (e['p1'], e['p2'])]
        return svc.inspect_output(w, ps[0]) if k == 'ins' else svc.compare_outputs(w, *ps)
    if k == 'geo':
        p = os.path.join(real.root, 'disk', 'prod', 'q.nc')
        return {'latlon': svc.get_lat_lon, 'ends': svc.get_max_min_coordinates, 'attrs': svc.get_global_attributes}[
            e['q']](p)
    t = e['what']
    if t == 'ws':
        return [d['name'] for d in svc.get_all_workspaces()['workspaces']]
    if t == 'cfg':
        return svc.get_config_names(w) or []
    if t == 'nb':
        return svc.get_notebook_file_names(w)
    if t == 'out':
        return svc.get_output_names(w, c)
    if t in ('curws', 'status'):
        return svc.get_current_workspace()['name'] or None
    if t == 'curcfg':
        return svc.get_current_config(w)['name'] or None
    if t == 'cfgs':
        return svc.get_configs(w, c)
    return None


def said(e, exp, val, out, got):
    """-> complaint about what a successful command said, or None"""
    if exp is None:
        return None
    cli = e['via'] == 'cli'
    if exp[0] == 'geo' and not close_to(val, exp[1]):
        return 'returns %r, right is %r' % (val, exp[1])
    if exp[0] == 'list':
        if cli:
            have = [x.group(1) for x in re.finditer(r'(?m)^ *\d+: (.*)$', out)]
        else:
            have = val
        if have != exp[1]:
            return 'lists %r, there are %r' % (have, exp[1])
    elif exp[0] == 'says':
        if cli:
            for x in exp[1:]:
                if x and not any(ln.rstrip('"').endswith(x) for ln in out.splitlines()):
                    return 'does not say %r: %r' % (x, out[-300:])
        elif val != exp[1]:
            return 'returns %r, right is %r' % (val, exp[1])
    elif exp[0] == 'versions':
        have = [int(x) if x else -1 for x in re.findall(r'\.json: (?:version (\d+)|no-version)', out)]
        if have != exp[1]:
            return 'says versions %r, right are %r' % (have, exp[1])
    elif exp[0] == 'cfgs':
        bad = [x for x in exp[1] if val.get(x) != exp[1][x] or sorted(val.get(x + '_order')) != sorted(exp[1][x])]
        if bad or val.get('name') != exp[2]:
            return 'returns other parameters of %s than stored' % bad
    elif exp[0] == 'number':
        have = re.findall(r'removed (\d+) inputs', out)
        if have and have != [str(exp[1])]:
            return 'says that %s inputs were removed, it was %d' % (have[0], exp[1])
    elif exp[0] == 'upgraded' and not cli:
        f = got['ws'][exp[1]]['cfg'][exp[2]]['files']
        bad = [x for x in M.KEYS if f[x] is None or val.get(x.lower()) != json.loads(f[x].decode())]
        if bad:
            return 'returns other parameters of %s than stored' % bad
    return None


def run(sc, d):
    real = M.Real(d).setup()
    os.makedirs(os.path.dirname(outside(real)))
    with open(outside(real), 'wb') as f:
        f.write(b'x')
    os.makedirs(os.path.join(real.root, 'disk', 'here'))
    for n in ('L1B_x.nc', 'zz.nc', 'i2.nc', 'c', 'a'):
        with open(os.path.join(real.root, 'disk', 'here', n), 'wb') as f:
            f.write(b'not this one')
    model = M.empty()
    viol, trace, stats, states = [], [], ws.new_stats(), []
    digest, i, life, changed = 0, 0, 0, 0
    while i < len(sc['ops']) and not viol:
        i, model, v, st, dg, tr, ch, ss = proc.in_child(lambda: lifetime(sc, real, model, i, life))
        viol += v
        ws.merge(stats, st)
        trace += tr
        changed += ch
        states += ss
        digest = zlib.crc32(b'%d' % dg, digest)
        life += 1
    viol = [[a, b.replace(real.root, '<root>')] for a, b in viol]
    return {'viol': viol[:3], 'stats': stats, 'digest': digest, 'states': states, 'trace': trace,
            'nontrivial': changed >= 3}


def lifetime(sc, real, model, i, life):
    import dedop.cli.main as cli
    from dedop.webapi.websocket import WebSocketService
    sim = Sim(real.root, order_seed='%s-%d' % (sc['order'], life), pid=4242 + life)
    Sim.current = sim
    sim.enter_main()
    mg = real.manager()
    svc = WebSocketService(mg)
    viol, trace, stats, digest, changed, states = [], [], ws.new_stats(), 0, 0, []
    while i < len(sc['ops']) and not viol:
        e = sc['ops'][i]
        i += 1
        k = e['k']
        ws.bump(stats['ops'], '%s:%s' % (e['via'], k))
        if k == 'restart':
            break
        if k in ('out_put', 'user_put'):
            w, c = e['w'] or 'a', e['c'] or 'c'
            op = ['out_put', w, c, e['outs']] if k == 'out_put' else ['user_put', w, 'readme.txt', 5]
            want, new = M.apply(model, op)
            real.harness_op(op)
            model = new
            continue
        try:
            steps, exp = plan(model, e, real)
        except No:
            steps, exp = No, None
        if steps is None:
            continue
        if k == 'in_add':
            for n in os.listdir(real.src):
                os.remove(os.path.join(real.src, n))
            for n, b in e['src']:
                with open(os.path.join(real.src, n), 'wb') as f:
                    f.write(M.blob(b))
        if k == 'geo':
            Sim.current = None
            product(os.path.join(real.root, 'disk', 'prod', 'q.nc'), e)
            Sim.current = sim
        os.chdir(real.src if k == 'in_add' and e['rel'] else os.path.join(real.root, 'disk', 'here'))
        buf, old_out = io.StringIO(), sys.stdout
        if e['via'] == 'cli':
            a = argv(e, real)
            sys.stdin = io.StringIO('%s\n' % (e['yes'] if e['yes'] is not True else '') * 3)

            def call():
                sys.stdout = buf
                try:
                    return cli.main(list(a), workspace_manager=mg)
                finally:
                    sys.stdout = old_out
        else:
            a = e

            def call():
                return web(svc, e, real)
        tr0 = len(sim.trace)
        res, val = sim.op(call, e.get('faults'))
        hits = list(sim.task().last_hits)
        for f, kind, _ in hits:
            ws.bump(stats['faults'], '%s@%s' % (f, kind))
        ok = res == 'ok' and (e['via'] == 'web' or val == 0)
        trace.append([a, e.get('faults'), res, str(val)[:80]])
        trace += [list(x[1:]) for x in sim.trace[tr0:]][-40:]
        what = '%s%s' % ([str(x) for x in a] if e['via'] == 'cli' else {x: e[x] for x in e if x != 'faults'},
                         ', faults %s' % hits if hits else '')
        if res == 'hang':
            viol.append(['hang', what])
            break
        if ok and e['via'] == 'web':
            try:
                json.dumps(val)
            except (TypeError, ValueError) as x:
                viol.append(['report', 'what %s returns cannot be sent: %s' % (what, x)])
                break
        if k == 'geo':
            val = val if ok else '%s: %s' % (type(val).__name__, val)
            gc.collect()
        if any(h._open for h in HANDLES):
            viol.append(['open', 'after %s the product is still open' % what])
            break
        problems = []
        try:
            got = M.observe(real, problems, ['readme.txt'], SRC)
        except BaseException as x:
            viol.append(['observe', 'after %s the workspaces cannot be read: %s: %s' % (what, type(x).__name__, x)])
            break
        if problems:
            viol += [[s, '%s [after %s]' % (t, what)] for s, t in problems]
            break
        if steps is not No:
            steps = [fresh(model, got, s) for s in steps]
        v, new = judge(model, steps, e, ok, res, val, hits, got, mg)
        if not v and ok:
            c = said(e, exp, val, buf.getvalue(), got)
            if c:
                v = [['report', c]]
        viol += [[s, '%s [%s: %s]' % (t, what, 'reported success' if ok else 'reported failure (%s)' % str(val)[:100])]
                 for s, t in v]
        if sim.escapes:
            viol.append(['escape', '%s writes outside the disk: %r' % (what, sim.escapes)])
        changed += new != model
        model = new
        states.append(zlib.crc32(repr(ws.state_key(model)).encode()))
        digest = zlib.crc32(repr((e, ok, ws.state_key(model))).encode(), digest)
    stats['sim_time'] = sim.clock - 1.6e9
    stats['points'] = sim.points
    digest = zlib.crc32(b'%d' % sim.trace_hash, digest)
    return i, model, viol, stats, digest, trace, changed, states


def outcomes(model, steps):
    """without faults: the right (ok, model) pairs; and all (step, want, before, after) on the way"""
    out, way = [], []
    cur = model
    for s in steps:
        try:
            want, new = M.apply(cur, s)
        except M.RefusedPartly as p:
            want, new = 'partly', p.m
        way.append((s, want, cur, new))
        if want in ('err', 'partly'):
            out.append((False, cur))
            return out, way
        if want in ('any', 'either'):
            out.append((False, cur))
        cur = new
    out.append((True, cur))
    return out, way


def judge(model, steps, e, ok, res, val, hits, got, mg):
    if steps is No:
        if ok:
            return [['outcome', 'reports success, but there is nothing it can be done to']], model
        dd = M.diff(model, got)
        return ([['changed', 'refused, but: ' + '; '.join(dd[:4])]] if dd else []), model
    outs, way = outcomes(model, steps)
    why = []
    for o, m in outs:
        if o != ok:
            continue
        m = copy.deepcopy(m)
        p = []
        M.take_notebook(m, got, p)
        dd = M.diff(m, got) + [t for _, t in p]
        if not dd:
            M.adopt(m, got)
            return [], m
        why += dd
    if ok:
        if not why:
            return [['outcome', 'reports success, the model says it is refused']], model
        return [['state', 'reports success, but: ' + '; '.join(why[:4])]], model
    if not hits and not any(w == 'partly' for _, w, _, _ in way):
        if not why:
            return [['outcome', 'fails, the model says it succeeds']], model
        return [['changed', 'fails, but: ' + '; '.join(why[:4])]], model
    # a fault struck: any prefix of the steps, the next one undone or in a state a failed one may leave
    if not M.diff(model, got):
        return [], model
    for s, want, before, after in way:
        b = copy.deepcopy(before)
        resolve(b, got)
        a = copy.deepcopy(after)
        v, m = ws.judge(s, want, b, a, 'err', OSError('x'), [('err', 'x', 0)], got, [], mg)
        if not v:
            return [], m
        why += [t for _, t in v]
    if way:
        m = copy.deepcopy(way[-1][3])
        p = []
        M.take_notebook(m, got, p)
        if way[-1][1] in ('ok', 'any', 'either') and not p and not M.diff(m, got):
            M.adopt(m, got)
            return [], m
    return [['half-done', 'fails, but: ' + '; '.join((why or M.diff(model, got))[:4])]], model


def fresh(m, got, s):
    """a copy without a name gets one that was not there"""
    if s[-1] != '<new>':
        return s
    have = set(got['ws']) - set(m['ws']) if s[0] == 'ws_cp' else \
        set(got['ws'].get(s[1], M.new_ws())['cfg']) - set(m['ws'].get(s[1], M.new_ws())['cfg'])
    return s[:-1] + [sorted(have)[0] if have else 'new']


def resolve(m, got):
    """place holders of steps that were done, taken from the disk if they fit"""
    for w, x in m['ws'].items():
        for c, y in x['cfg'].items():
            for k, v in list(y['files'].items()):
                if isinstance(v, dict):
                    have = got['ws'].get(w, M.new_ws())['cfg'].get(c, {'files': {}})['files'].get(k)
                    if have is not None and not M.diff(v, have):
                        y['files'][k] = have
