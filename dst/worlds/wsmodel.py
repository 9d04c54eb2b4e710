"""Sequential model of the workspaces, and the observation of the real ones through the public API."""
import copy
import fnmatch
import json
import os
import random

KEYS = ('CHD', 'CNF', 'CST')


class NullMonitor:
    """what add_inputs and remove_inputs are given"""

    def starting(self, label, total_work=None):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def start(self, *a, **k):
        pass

    def progress(self, *a, **k):
        pass

    def done(self):
        pass

    def child(self, *a, **k):
        return self

    def is_cancelled(self):
        return False

    def cancel(self):
        pass


# ---- data ------------------------------------------------------------------
_defaults = {}


def default_config(cryosat):
    if cryosat not in _defaults:
        d = '/repo/dedop/ui/data/' + ('cryosat_config' if cryosat else 'config')
        from .. import boot
        d = os.path.join(boot.REPO, 'dedop', 'ui', 'data', 'cryosat_config' if cryosat else 'config')
        out = {}
        for k in KEYS:
            with open(os.path.join(d, k + '.json'), 'rb') as f:
                out[k] = f.read()
        _defaults[cryosat] = out
    return _defaults[cryosat]


def text(n):
    """configuration text number n: JSON, sizes from a line to several buffers"""
    r = random.Random('text-%d' % n)
    d = {'par_%02d' % i: {'value': r.choice([i, n, 'v%d' % n, None, True, 1.5]), 'units': 'm'}
         for i in range(r.choice([0, 1, 3, 40, 120]))}
    d['text_number'] = n
    if r.random() < 0.8:
        d['__metainf__'] = {'version': r.choice([0, 1, 2, 3, 5]), 'changelog': []}
    return json.dumps(d, indent=r.choice([None, 1, 4]))


def blob(n):
    r = random.Random('blob-%d' % n)
    return (b'CDF%d-' % n) + r.randbytes(r.choice([0, 3, 50, 700, 9000]))


def version_of(data):
    d = json.loads(data.decode('utf-8'))
    return d['__metainf__']['version'] if '__metainf__' in d else -1


# ---- reference upgrade -----------------------------------------------------
def upgraded(cur, default):
    """what the change log says: later entries override earlier ones"""
    cv = cur['__metainf__']['version'] if '__metainf__' in cur and 'version' in cur['__metainf__'] else -1
    dv = default['__metainf__']['version']
    if cv >= dv:
        return cur
    last = {}
    for change in default['__metainf__']['changelog']:
        if change['version'] <= cv:
            continue
        for p in change['parameters']:
            if p[1] in '*+':
                last[p[0]] = True
            elif p[1] == '-':
                last[p[0]] = False
    out = dict(cur)
    for k, keep in last.items():
        if keep:
            out[k] = default[k]
        else:
            out.pop(k, None)
    out['__metainf__'] = default['__metainf__']
    return out


# ---- model -----------------------------------------------------------------
def empty():
    return {'cur': None, 'ws': {}}


def new_ws():
    return {'cur': None, 'cfg': {}, 'in': {}, 'nb': {}, 'user': {}}


def new_cfg(cryosat):
    return {'files': dict(default_config(cryosat)), 'outs': {}, 'hasouts': False}


class Refused(Exception):
    pass


def _ws(m, w):
    if w not in m['ws']:
        raise Refused('no such workspace')
    return m['ws'][w]


def _cfg(m, w, c):
    x = _ws(m, w)
    if c not in x['cfg']:
        raise Refused('no such configuration')
    return x['cfg'][c]


def apply(m, op):
    """the effect of op on the model: (outcome, new model), outcome 'ok', 'err' or 'any' (both are right)"""
    m = copy.deepcopy(m)
    old = copy.deepcopy(m)
    try:
        return _apply(m, op) or 'ok', m
    except Refused:
        return 'err', old


def _apply(m, op):
    k = op[0]
    if k == 'ws_add':
        if op[1] in m['ws']:
            if is_blank(m['ws'][op[1]]):
                return 'any'
            raise Refused
        m['ws'][op[1]] = new_ws()
    elif k == 'ws_rm':
        _ws(m, op[1])
        del m['ws'][op[1]]
    elif k == 'ws_cp':
        _ws(m, op[1])
        if op[2] in m['ws']:
            raise Refused
        m['ws'][op[2]] = copy.deepcopy(m['ws'][op[1]])
    elif k == 'ws_mv':
        _ws(m, op[1])
        if op[1] == op[2]:
            return 'any'
        if op[2] in m['ws']:
            raise Refused
        m['ws'][op[2]] = m['ws'].pop(op[1])
    elif k == 'ws_cur':
        if op[1] != '':
            _ws(m, op[1])
        m['cur'] = op[1] or None
    elif k == 'ws_clear':
        m['ws'].clear()
        m['cur'] = None
    elif k == 'cfg_add':
        w = _ws(m, op[1])
        if op[2] in w['cfg'] and not hollow(w['cfg'][op[2]]):
            raise Refused
        either = op[2] in w['cfg']
        w['cfg'][op[2]] = new_cfg(bool(op[3]))
        if either:
            return 'either'
    elif k == 'cfg_rm':
        _cfg(m, op[1], op[2])
        del m['ws'][op[1]]['cfg'][op[2]]
    elif k == 'cfg_cp':
        c = _cfg(m, op[1], op[2])
        if op[3] in m['ws'][op[1]]['cfg']:
            raise Refused
        m['ws'][op[1]]['cfg'][op[3]] = copy.deepcopy(c)
    elif k == 'cfg_mv':
        c = _cfg(m, op[1], op[2])
        if op[2] == op[3]:
            return 'any'
        either = op[3] in m['ws'][op[1]]['cfg']
        if either and not hollow(m['ws'][op[1]]['cfg'][op[3]]):
            raise Refused
        del m['ws'][op[1]]['cfg'][op[2]]
        m['ws'][op[1]]['cfg'][op[3]] = c
        if either:
            return 'either'
    elif k == 'cfg_cur':
        _ws(m, op[1])
        if op[2] != '':
            _cfg(m, op[1], op[2])
        m['ws'][op[1]]['cur'] = op[2] or None
    elif k == 'cfg_write':
        if _cfg(m, op[1], op[2])['files'][op[3]] is None:
            raise Refused
        _cfg(m, op[1], op[2])['files'][op[3]] = text(op[4]).encode()
    elif k == 'cfg_json':
        if _cfg(m, op[1], op[2])['files'][op[3]] is None:
            raise Refused
        _cfg(m, op[1], op[2])['files'][op[3]] = {'json': json.loads(text(op[4]))}
    elif k == 'cfg_up':
        c = _cfg(m, op[1], op[2])
        broken = any(v is None for v in c['files'].values())
        for key in KEYS:
            if c['files'][key] is None:
                continue
            cur = json.loads(c['files'][key].decode())
            new = upgraded(cur, json.loads(default_config(False)[key].decode()))
            c['files'][key] = {'json': new}        # compared as JSON, then taken over from the disk
        if broken:
            raise RefusedPartly(m)
    elif k == 'in_add':
        w = _ws(m, op[1])
        for name, n in op[2]:
            if n < 0:
                raise RefusedPartly(m)
            w['in'][name] = blob(n)
    elif k == 'in_rm':
        if op[1] not in m['ws']:
            return 'any'
        for name in op[2]:
            m['ws'][op[1]]['in'].pop(name, None)
    elif k == 'out_put':
        c = _cfg(m, op[1], op[2])
        c['hasouts'] = True
        for name, n in op[3]:
            c['outs'][name] = blob(n)
    elif k == 'out_rm':
        c = _cfg(m, op[1], op[2])
        if not c['hasouts']:
            raise Refused
        c['outs'].clear()
    elif k == 'user_put':
        _ws(m, op[1])['user'][op[2]] = blob(op[3])
    elif k == 'nb_put':
        _ws(m, op[1])['nb'][op[2]] = blob(op[3])
    elif k in ('nb_inspect', 'nb_compare'):
        w = _ws(m, op[1])
        w['nb'][NEW_NB] = list(op[2:])
    elif k in ('q_cur', 'q_ls'):
        _ws(m, op[1])
    elif k == 'q_cfg':
        c = _cfg(m, op[1], op[2])
        try:
            json.loads(c['files'][op[3]].decode())
        except (AttributeError, ValueError):
            raise Refused
    elif k in ('stray', 'restart', 'q_in', 'q_out'):
        pass
    else:
        raise ValueError(op)


NEW_NB = '<new>'


class RefusedPartly(Exception):
    def __init__(self, m):
        self.m = m


def hollow(c):
    """what a failed removal may leave: an empty folder"""
    return not any(c['files'].values()) and not c['hasouts']


def is_blank(w):
    return not (w['cfg'] or w['in'] or w['nb'] or w['user'])


# ---- the real thing --------------------------------------------------------
class Real:
    def __init__(self, root):
        self.root = root
        self.dir = os.path.join(root, 'disk', 'workspaces')
        self.src = os.path.join(root, 'disk', 'incoming')

    def setup(self):
        os.makedirs(os.path.join(self.root, 'disk', 'incoming'))
        return self

    def manager(self):
        from dedop.ui.workspace_manager import WorkspaceManager
        return WorkspaceManager(self.dir)

    def prepare(self, op):
        """what happens outside the program before the operation (files appearing)"""
        k = op[0]
        mg = self.manager()
        if k == 'in_add':
            for name, n in op[2]:
                p = os.path.join(self.src, name)
                if n < 0:
                    if os.path.exists(p):
                        os.remove(p)
                else:
                    with open(p, 'wb') as f:
                        f.write(blob(n))

    def harness_op(self, op):
        """operations done by the user or another program, not by the code under test"""
        mg = self.manager()
        k = op[0]
        if k == 'out_put':
            d = mg.get_outputs_path(op[1], op[2])
            files = [(n, blob(b)) for n, b in op[3]]
            base = mg.get_config_path(op[1], op[2])
        elif k == 'nb_put':
            d = mg.get_workspace_path(op[1], 'notebooks')
            files = [(op[2], blob(op[3]))]
            base = mg.get_workspace_path(op[1])
        elif k == 'user_put':
            d = os.path.dirname(mg.get_workspace_path(op[1], op[2]))
            files = [(os.path.basename(op[2]), blob(op[3]))]
            base = mg.get_workspace_path(op[1])
        elif k == 'stray':
            d = self.dir
            files = [(op[1], b'stray')]
            base = self.dir
        else:
            return False
        if not os.path.isdir(base):
            return True
        os.makedirs(d, exist_ok=True)
        for n, data in files:
            with open(os.path.join(d, n), 'wb') as f:
                f.write(data)
        return True

    def call(self, mg, op):
        """issue the operation to the real code"""
        k, a = op[0], op[1:]
        if k == 'ws_add':
            r = mg.create_workspace(a[0])
            return ('ws', r.name, os.path.abspath(r.workspace_dir))
        if k == 'ws_rm':
            return mg.delete_workspace(a[0])
        if k == 'ws_cp':
            r = mg.copy_workspace(a[0], a[1])
            return ('ws', r.name, os.path.abspath(r.workspace_dir))
        if k == 'ws_mv':
            r = mg.rename_workspace(a[0], a[1])
            return ('ws', r.name, os.path.abspath(r.workspace_dir))
        if k == 'ws_cur':
            r = mg.set_current_workspace_name(a[0])
            return ('ws', r.name, os.path.abspath(r.workspace_dir))
        if k == 'ws_clear':
            return mg.delete_all_workspaces()
        if k == 'cfg_add':
            return mg.create_config(a[0], a[1], cryosat=bool(a[2]))
        if k == 'cfg_rm':
            return mg.delete_config(a[0], a[1])
        if k == 'cfg_cp':
            return mg.copy_config(a[0], a[1], a[2])
        if k == 'cfg_mv':
            return mg.rename_config(a[0], a[1], a[2])
        if k == 'cfg_cur':
            return mg.set_current_config_name(a[0], a[1])
        if k == 'cfg_write':
            return mg.write_config_file(a[0], a[1], a[2], text(a[3]))
        if k == 'cfg_up':
            return list(mg.upgrade_all_config(a[0], a[1]))
        if k == 'in_add':
            return mg.add_inputs(a[0], [os.path.join(self.src, n) for n, _ in a[1]], NullMonitor())
        if k == 'in_rm':
            return mg.remove_inputs(a[0], list(a[1]), NullMonitor())
        if k == 'out_rm':
            return mg.remove_outputs(a[0], a[1])
        if k == 'nb_inspect':
            return mg.inspect_l1b_product(a[0], a[1])
        if k == 'nb_compare':
            return mg.compare_l1b_products(a[0], a[1], a[2])
        if k == 'q_in':
            return mg.get_input_names(a[0], a[1])
        if k == 'q_out':
            return mg.get_output_names(a[0], a[1], a[2])
        if k == 'q_cur':
            c = mg.get_current_workspace()
            return c.name or None, mg.get_current_config_name(a[0]) or None
        if k == 'q_ls':
            return (mg.get_workspace_names(), mg.get_config_names(a[0]) or [], mg.get_notebook_names(a[0]),
                    mg.get_input_names(a[0]))
        if k == 'q_cfg':
            return dict(mg.get_config_json(a[0], a[1], a[2])[0]), mg.get_config_version(a[0], a[1], a[2])
        raise ValueError(op)


def expected_return(m_old, m_new, op, mg):
    """a check of the value returned by a successful operation, or None"""
    k = op[0]
    if k in ('ws_add', 'ws_cur'):
        return ('ws', op[1], os.path.abspath(mg.get_workspace_path(op[1])))
    if k in ('ws_cp', 'ws_mv'):
        return ('ws', op[2], os.path.abspath(mg.get_workspace_path(op[2])))
    if k == 'cfg_up':
        return [json_version(m_new['ws'][op[1]]['cfg'][op[2]]['files'][key]) for key in KEYS]
    if k == 'q_in':
        return match(m_old['ws'].get(op[1], new_ws())['in'], op[2])
    if k == 'q_out':
        c = m_old['ws'].get(op[1], new_ws())['cfg'].get(op[2])
        return match(c['outs'] if c else {}, op[3])
    if k == 'q_cur':
        return m_old['cur'], m_old['ws'][op[1]]['cur']
    if k == 'q_ls':
        w = m_old['ws'][op[1]]
        return sorted(m_old['ws']), sorted(w['cfg']), sorted(w['nb']), match(w['in'], None)
    if k == 'q_cfg':
        b = m_old['ws'][op[1]]['cfg'][op[2]]['files'][op[3]]
        return json.loads(b.decode()), version_of(b)
    return 'skip'


def json_version(v):
    d = v['json'] if isinstance(v, dict) else json.loads(v.decode())
    return d['__metainf__']['version'] if '__metainf__' in d else -1


def match(names, pattern):
    ns = [n for n in names if n.endswith('.nc')]
    if isinstance(pattern, str):
        ns = [n for n in ns if fnmatch.fnmatch(n, pattern)]
    elif pattern:
        ns = [n for n in ns if any(fnmatch.fnmatch(n, p) for p in pattern)]
    return sorted(ns)


def _bytes(p):
    with open(p, 'rb') as f:
        return f.read()


def _visible(d):
    return sorted(n for n in os.listdir(d) if not n.startswith('.'))


def observe(real, problems, users=(), extra_inputs=(), strict=True):
    """the state as the public API shows it; inconsistencies between API calls go to `problems`"""
    mg = real.manager()
    out = {'cur': None, 'ws': {}}
    names = mg.get_workspace_names()
    if names != sorted(set(names)):
        problems.append(['listing', 'workspace names not sorted or not unique: %r' % (names,)])
    lst = mg.get_workspaces() or []
    if sorted(d['name'] for d in lst) != names:
        problems.append(['listing', 'get_workspaces lists %r, get_workspace_names %r' % (
            sorted(d['name'] for d in lst), names)])
    for d in lst:
        if os.path.abspath(d['workspace_dir']) != os.path.abspath(mg.get_workspace_path(d['name'])):
            problems.append(['listing', 'get_workspaces gives folder %r for %r' % (d['workspace_dir'], d['name'])])
    c = mg.get_current_workspace()
    out['cur'] = c.name or None
    if c.name and os.path.abspath(c.workspace_dir) != os.path.abspath(mg.get_workspace_path(c.name)):
        problems.append(['current-dir', 'the current workspace %r is said to be in %s, it is in %s' % (
            c.name, strip(real, c.workspace_dir), strip(real, mg.get_workspace_path(c.name)))])
    for w in names:
        x = new_ws()
        out['ws'][w] = x
        if not mg.workspace_exists(w):
            problems.append(['listing', 'workspace %r is listed but does not exist' % w])
        x['cur'] = mg.get_current_config_name(w) or None
        for cname in mg.get_config_names(w) or []:
            y = {'files': {}, 'outs': {}, 'hasouts': False}
            x['cfg'][cname] = y
            for key in KEYS:
                p = mg.get_config_file(w, cname, key)
                y['files'][key] = _bytes(p) if os.path.isfile(p) else None
                if y['files'][key] is not None and strict:
                    try:
                        want = json.loads(y['files'][key].decode())
                    except ValueError:
                        continue
                    got, order = mg.get_config_json(w, cname, key)
                    if dict(got) != want or sorted(order) != sorted(want):
                        problems.append(['json', 'configuration %s/%s/%s is not returned as stored' % (w, cname, key)])
                    v = mg.get_config_version(w, cname, key)
                    if v != version_of(y['files'][key]):
                        problems.append(['version', 'version of %s/%s/%s reported as %r' % (w, cname, key, v)])
            if not mg.config_exists(w, cname) and any(y['files'].values()):
                problems.append(['listing', 'configuration %r is listed but does not exist' % cname])
            d = mg.get_outputs_path(w, cname)
            y['hasouts'] = os.path.isdir(d)
            if y['hasouts']:
                for n in _visible(d):
                    y['outs'][n] = _bytes(os.path.join(d, n))
            got = mg.get_output_names(w, cname)
            if got != sorted(n for n in y['outs'] if n.endswith('.nc')):
                problems.append(['listing', 'outputs of %s/%s listed as %r, there are %r' % (
                    w, cname, got, sorted(y['outs']))])
        d = mg.get_inputs_path(w)
        got = mg.get_input_names(w)
        if os.path.isdir(d):
            for n in sorted(set(_visible(d)) & (set(extra_inputs) | {g for g in os.listdir(d) if g.endswith('.nc')})):
                x['in'][n] = _bytes(os.path.join(d, n))
        if got != sorted(n for n in x['in'] if n.endswith('.nc')):
            problems.append(['listing', 'inputs of %s listed as %r, there are %r' % (w, got, sorted(x['in']))])
        if mg.get_input_paths(w) != [mg.get_inputs_path(w, n) for n in got]:
            problems.append(['listing', 'input paths of %s do not match the input names' % w])
        for n in mg.get_notebook_names(w):
            x['nb'][n] = _bytes(mg.get_workspace_path(w, 'notebooks', n))
        for rel in users:
            p = mg.get_workspace_path(w, rel)
            if os.path.isfile(p):
                x['user'][rel] = _bytes(p)
    return out


def strip(real, p):
    return os.path.abspath(p).replace(real.root, '<root>')


# ---- comparison ------------------------------------------------------------
def diff(exp, got, path=''):
    """differences between model and observation, as text; model values may be {'json': x}"""
    if isinstance(exp, dict) and set(exp) == {'json'} and isinstance(got, (bytes, type(None))):
        try:
            if got is not None and json.loads(got.decode()) == exp['json']:
                return []
        except ValueError:
            pass
        return ['%s: not the expected parameters' % path]
    if isinstance(exp, dict) and isinstance(got, dict):
        out = []
        for k in sorted(set(exp) | set(got)):
            p = '%s/%s' % (path, k)
            if k not in got:
                out.append('%s: missing' % p)
            elif k not in exp:
                out.append('%s: unexpected' % p)
            else:
                out += diff(exp[k], got[k], p)
        return out
    if exp != got:
        return ['%s: expected %s, found %s' % (path, short(exp), short(got))]
    return []


def short(v):
    if isinstance(v, bytes):
        return '%d bytes %r' % (len(v), v[:24])
    return repr(v)[:80]


def take_notebook(exp, got, problems):
    """resolve the '<new>' notebook of the model against the observation"""
    for w, x in exp['ws'].items():
        if NEW_NB in x['nb']:
            names = x['nb'].pop(NEW_NB)
            have = got['ws'].get(w, {'nb': {}})['nb']
            new = sorted(set(have) - set(x['nb']))
            if len(new) != 1:
                problems.append(['notebook', 'a request gave %d new notebooks' % len(new)])
            for n in new:
                x['nb'][n] = have[n]
            if new:
                check_notebook(have[new[0]], names, problems)


def check_notebook(data, names, problems):
    try:
        txt = data.decode('utf-8')
        d = json.loads(txt)
    except ValueError:
        problems.append(['notebook', 'a notebook is not complete'])
        return
    src = '\n'.join(''.join(c.get('source', '')) if not isinstance(c.get('source'), str) else c['source']
                    for c in d.get('cells', []))
    lits = literals(src)
    for n in names:
        if n not in lits and repr(n) not in src:
            problems.append(['notebook', 'the notebook does not name %r' % n])
    if '__L1B_FILE_PATH' in txt:
        problems.append(['notebook', 'the notebook holds an unfilled place'])


def literals(src):
    import ast
    out = set()
    for line in src.split('\n'):
        try:
            for node in ast.walk(ast.parse(line.strip())):
                if isinstance(node, ast.Constant) and isinstance(node.value, str):
                    out.add(node.value)
        except (SyntaxError, ValueError):
            pass
    return out


def adopt(exp, got):
    """replace {'json':..} placeholders by what is on disk (they were compared already)"""
    for w, x in exp['ws'].items():
        for c, y in x['cfg'].items():
            for k, v in list(y['files'].items()):
                if isinstance(v, dict):
                    y['files'][k] = got['ws'][w]['cfg'][c]['files'][k]


def subset(small, big):
    """small holds nothing that big does not hold, with the same values (a partly removed tree)"""
    if isinstance(small, dict) and isinstance(big, dict):
        return all(k in big and subset(v, big[k]) for k, v in small.items())
    return small == big or small is None
