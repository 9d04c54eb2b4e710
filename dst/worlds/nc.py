"""R01 reading input records, R02 writing product records; with faults at the NetCDF calls."""
import os
import random
import zlib

import numpy as np

from .. import boot as _boot
from .. import l1agen as G
from .. import proc
from ..kernel import Sim
from . import ws

SHRINK = ('ops', 'faults', 'recs', 'clients', 'switches')
CPU_LIMIT = 60
PLAN = {'R01': {'quick': 1000, 'thorough': 60000}, 'R02': {'quick': 2200, 'thorough': 60000}}
LEVEL = {}
REAL = {'R01': ['dedop.data.input (NetCDFReader, InputDataset, L1ADataset)', 'dedop.model.l1a_processing_data',
                'dedop.conf', 'the NetCDF library'],
        'R02': ['dedop.data.output (NetCDFWriter, L1BWriter, L1BWriterExtended, L1BSWriter)', 'the NetCDF library (bulk '
                'write at close, and reading back)']}
STUB = {'R01': ['when a NetCDF read fails', 'the input (synthetic Level-1A products)'],
        'R02': ['when a NetCDF write, attribute or close fails', 'single NetCDF writes are kept in memory until close']}
RULE = {'R01': 'one input of 1-130 records, 3-60 reads (single records, next, iteration, values, times, attributes) in '
               'random order through 1-2 open datasets, read errors in some; non-trivial: 3 chunk changes or a read '
               'error',
        'R02': '1-12 record writes with the base writer or one of the three product writers, failing writes, bad '
               'values, failing attributes or close in some; non-trivial: a failed write followed by another one, or '
               'at least 3 records'}
ASSUME = {'R01': ['a read fails as a whole; the NetCDF library never returns wrong data'],
          'R02': ['the unlimited dimension of a NetCDF file cannot shrink, so the remains of a failed last write may '
                  'stay behind the last good record']}


def boot():
    _boot.processor()


def gen(prop, r, tier, i):
    return gen1(r) if prop == 'R01' else gen2(r)


def run(sc, d):
    return proc.in_child(lambda: (run1 if sc['prop'] == 'R01' else run2)(sc, d), cpu=40)


# ---- R01 -----------------------------------------------------------------------
# fields of a packet and the variable they come from
FIELDS = {'time_sar_ku': 'time', 'isp_coarse_time': 'isp_coarse_time', 'isp_fine_time': 'isp_fine_time',
          'sral_fine_time': 'sral_fine_time', 'days': 'UTC_day', 'seconds': 'UTC_sec',
          'burst_sar_ku': 'burst_count_prod', 'alt_sar_sat': 'alt', 'alt_rate_sat_sar': 'orb_alt_rate',
          'x_vel_sat_sar': 'x_vel', 'y_vel_sat_sar': 'y_vel', 'z_vel_sat_sar': 'z_vel',
          'h0_applied': 'h0_applied',
          'cor2_applied': 'cor2_applied', 'dh0': 'dh0', 'surf_type': 'surf_type', 'agc_ku': 'agc_ku',
          'sig0_cal_ku': 'sig0_cal_ku', 'range_ku': 'range_ku', 'uso_cor': 'uso_cor', 'cog_cor': 'cog_cor',
          'source_seq_count': 'seq_count', 'cal1_power': 'burst_power_cor_ku', 'cal1_phase': 'burst_phase_cor_ku',
          'agccode_ku': 'agccode_ku', 'loss_track': 'loss_track', 'SAR_mode': 'SAR_mode'}
VARS = sorted(G._SCALARS) + ['i_meas_ku_l1a_echo_sar_ku', 'q_meas_ku_l1a_echo_sar_ku', 'gprw_meas_ku_l1a_echo_sar_ku',
                             'burst_power_cor_ku_l1a_echo_sar_ku', 'burst_phase_cor_ku_l1a_echo_sar_ku']


def gen1(r):
    n = r.choice([1, 5, 39, 40, 41, 79, 80, 81, 100, 120, 121, 130])
    sc = {'recs': n, 'salt': r.randrange(4), 'inv': sorted(r.sample(range(n), min(n, r.choice([0, 0, 1, 3])))),
          'sets': r.choice([1, 1, 2]), 'ops': []}
    if r.random() < .2:
        sc['zero'] = [r.choice(['lat', 'lon']), r.randrange(n)]      # a record on the equator or the prime meridian
    hot = [r.randrange(n) for _ in range(3)] + [0, n - 1, min(n - 1, 39), min(n - 1, 40)]
    for _ in range(r.choice([3, 8, 20, 40])):
        k = r.choices(['rec', 'val', 'next', 'iter', 'first', 'last', 'glob', 'beyond'],
                      [6, 5, 6, .5, .5, .5, .5, .5])[0]
        op = {'k': k, 's': r.randrange(sc['sets'])}
        if k in ('rec', 'val'):
            op['i'] = r.choice(hot) if r.random() < .6 else r.randrange(n)
        if k == 'val':
            op['v'] = r.choice(VARS)
        if k == 'next':
            op['n'] = r.choice([1, 1, 2, 10, 45])
        if k == 'beyond':
            op['i'] = n + r.choice([0, 0, 1, 40, 7])
        if r.random() < .2:
            op['faults'] = {str(r.choice([1, 2, 3, r.randrange(1, 70), r.randrange(1, 130)])):
                            r.choice(['err', 'err', 'sticky:err'])}
        sc['ops'].append(op)
    return sc


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')


def run1(sc, d):
    from .. import ncsim
    root = os.path.join(os.path.realpath(d), 'disk')
    os.makedirs(root)
    path = os.path.join(root, 'L1A_x.nc')
    n = sc['recs']
    G.write_l1a(path, [G.Rec(k, invalid=k in sc['inv']) for k in range(n)], salt=sc['salt'],
                zero=sc.get('zero'))
    aux = G.write_aux(os.path.join(root, 'aux'))
    raw = ncsim.Real(path)
    truth = {}
    for v in VARS:
        raw[v].set_auto_mask(False)
        truth[v] = raw[v][:]
    attrs = {a: raw.getncattr(a) for a in raw.ncattrs()}
    raw.close()

    def T(short, i):
        return truth[short + '_l1a_echo_sar_ku'][i]
    sim = Sim(root)
    Sim.current = sim
    sim.enter_main()
    from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
    from dedop.data.input.l1a import L1ADataset
    from dedop.data.input.l1a.enums import L1AVariables
    cst = ConstantsFile(aux['CST'])
    chd = CharacterisationFile(cst, aux['CHD'])
    cnf = ConfigurationFile(aux['CNF'])
    viol, log = [], []
    sets, pos = [], []
    for k in range(sc['sets']):
        r = sim.op(lambda: L1ADataset(path, cst=cst, chd=chd, cnf=cnf))
        if r[0] != 'ok':
            return out1(sim, [['open', 'an input cannot be opened: %s' % r[1]]], [], 0)
        sets.append(r[1])
        pos.append(0)

    def check_packet(p, i, how):
        if p is None:
            viol.append(['record', '%s: record %d is not returned' % (how, i)])
            return
        for f, v in FIELDS.items():
            if not same(getattr(p, f), T(v, i)):
                viol.append(['record', '%s: %s of record %d is %s, stored is %s' % (
                    how, f, i, np.ravel(getattr(p, f))[:3], np.ravel(T(v, i))[:3])])
                return
        for f, v in (('lat_sar_sat', 'lat'), ('lon_sar_sat', 'lon')):
            if abs(getattr(p, f) - np.radians(T(v, i))) > 1e-12:
                viol.append(['record', '%s: %s of record %d is wrong' % (how, f, i)])
                return
        wf = (T('i_meas_ku', i) + 1j * T('q_meas_ku', i)) / pow(10., -T('agc_ku', i) / 20.)
        if not np.allclose(p.waveform_cor_sar, wf, rtol=1e-12, atol=0):
            viol.append(['record', '%s: the echoes of record %d are wrong' % (how, i)])
            return
        if not same(p.cal2_array, T('gprw_meas_ku', i)[cnf.flag_cal2_table_index]):
            viol.append(['record', '%s: the CAL2 table of record %d is wrong' % (how, i)])

    chunks = 0
    last = {}
    for op in sc['ops'] + [{'k': 'all', 's': s} for s in range(sc['sets'])]:
        if viol:
            break
        ds = sets[op['s']]
        k = op['k']
        fl = op.get('faults')
        if k == 'rec':
            res, val = sim.op(lambda: ds[op['i']], fl)
            if res == 'ok':
                check_packet(val, op['i'], 'direct')
        elif k == 'val':
            res, val = sim.op(lambda: np.array(ds.get_value(L1AVariables(op['v']), op['i'])), fl)
            if res == 'ok' and not same(val, truth[op['v']][op['i']]):
                viol.append(['value', '%s[%d] is %s, stored is %s' % (
                    op['v'], op['i'], np.ravel(val)[:3], np.ravel(truth[op['v']][op['i']])[:3])])
        elif k == 'next':
            for _ in range(op['n']):
                res, val = sim.op(lambda: next(ds), fl)
                fl = None
                if res == 'err' and isinstance(val, StopIteration):
                    if pos[op['s']] != n:
                        viol.append(['next', 'the input ends after %d of %d records' % (pos[op['s']], n)])
                    res = 'ok'
                    break
                if res == 'err':
                    break
                i = pos[op['s']]
                if i >= n:
                    viol.append(['next', 'more than %d records' % n])
                    break
                if i in sc['inv']:
                    if val is not None:
                        viol.append(['next', 'record %d without position is returned' % i])
                else:
                    check_packet(val, i, 'next')
                pos[op['s']] += 1
                if viol:
                    break
        elif k in ('iter', 'all'):
            def it():
                return list(ds)
            res, val = sim.op(it, fl)
            if res == 'ok':
                if len(val) != n:
                    viol.append(['iter', '%d of %d records' % (len(val), n)])
                for i, p in enumerate(val):
                    if viol:
                        break
                    if i in sc['inv']:
                        if p is not None:
                            viol.append(['iter', 'record %d without position is returned' % i])
                    else:
                        check_packet(p, i, 'iteration')
        elif k in ('first', 'last'):
            res, val = sim.op(lambda: ds.first_time() if k == 'first' else ds.last_time(), fl)
            if res == 'ok' and val != T('time', 0 if k == 'first' else n - 1):
                viol.append(['time', 'the %s time is wrong' % k])
        elif k == 'glob':
            res, val = sim.op(lambda: ds.read_globals(), fl)
            if res == 'ok':
                for a in G.GLOBALS + ['product_name']:
                    if getattr(val, a) != attrs.get(a):
                        viol.append(['globals', '%s is %r' % (a, getattr(val, a))])
                        break
        elif k == 'beyond':
            res, val = sim.op(lambda: ds[op['i']], fl)
            if res == 'ok':
                viol.append(['beyond', 'reading record %d of %d returns a record' % (op['i'], n)])
            res = 'ok'
        log.append((k, res, pos[op['s']]))
        if res == 'err' and not sim.main_task.last_hits:
            viol.append(['unreadable', 'reading %s fails although no read failed: %s: %s' % (
                {x: y for x, y in op.items() if x != 'faults'}, type(val).__name__, val)])
        if res == 'ok' and k != 'beyond' and any(h[1] in ('nc-read', 'nc-gread') for h in sim.main_task.last_hits):
            if k != 'next':
                viol.append(['silent', 'a read error is not reported'])
    if not viol:
        for ds in sets:
            sim.op(ds.close)
        if ncsim.open_handles():
            viol.append(['open', 'the input stays open after close'])
    return out1(sim, viol, log, len(sc['ops']))


def out1(sim, viol, log, nops):
    st = ws.new_stats()
    st['faults'] = dict(sim.fault_hits)
    st['points'] = sim.points
    st['sim_time'] = sim.clock - 1.6e9
    st['ops'] = {'reads': nops}
    dg = zlib.crc32(repr((sim.trace_hash, log)).encode())
    return {'viol': viol[:2], 'stats': st, 'digest': dg, 'states': [dg], 'trace': [list(x) for x in sim.trace],
            'nontrivial': bool(sim.fault_hits) or sim.points > 180}


# ---- R02 -----------------------------------------------------------------------
SURF = {}


def prepare(prop, tier, base):
    """surfaces as the processor gives them to the writers"""
    if prop != 'R02' or SURF:
        return
    r = proc.in_child(lambda: capture(base), cpu=60)
    SURF.update(r)


def capture(base):
    import pickle
    root = os.path.join(base, 'capture')
    os.makedirs(root)
    G.write_l1a(os.path.join(root, 'L1A_x.nc'), [G.Rec(k) for k in range(104)])
    aux = G.write_aux(os.path.join(root, 'aux'))
    sim = Sim(root)
    Sim.current = sim
    sim.enter_main()
    from dedop.data.output import L1BWriterExtended
    from dedop.proc.sar import L1BProcessor
    got = []
    real = L1BWriterExtended.write_record

    def spy(self, s):
        got.append(s)
        return real(self, s)
    L1BWriterExtended.write_record = spy
    p = L1BProcessor('n', aux['CNF'], aux['CST'], aux['CHD'], os.path.join(root, 'out'), skip_l1bs=True)
    sim.op(lambda: p.process(os.path.join(root, 'L1A_x.nc')))
    Sim.current = None
    try:
        return {'surf': pickle.loads(pickle.dumps(got[:14])), 'aux': aux}
    except Exception:
        return {'surf': [], 'aux': aux}


def gen2(r):
    sc = {'cls': r.choice(['base', 'base', 'base', 'l1b', 'l1bx', 'l1bs']), 'ops': [], 'with': r.random() < .3}
    for _ in range(r.choice([1, 2, 3, 5, 8, 12])):
        k = r.choices(['rec', 'glob'], [8, 1])[0]
        op = {'k': k, 'v': r.randrange(1 << 20)}
        if k == 'rec' and r.random() < .15:
            op['bad'] = r.choice(['long', 'wide', 'text', 'none'])
        if r.random() < .3:
            n = r.choice([1, 2, 3, 4, 5, 6]) if sc['cls'] == 'base' else r.choice([1, 2, r.randrange(1, 70),
                                                                                  r.randrange(1, 70)])
            op['faults'] = {str(n): r.choice(['err', 'partial', 'full', 'partial', 'err'])}
        sc['ops'].append(op)
    if r.random() < .15:
        sc['close'] = r.choice(['err', 'err'])
    return sc


def mk_base():
    from dedop.data.output.netcdf_writer import NetCDFWriter

    class W(NetCDFWriter):
        def __init__(self, filename):
            super().__init__(filename)
            self.define_dimension('time', None)
            self.define_dimension('x', 5)
            self.define_dimension('y', 4)
            self.define_variable('t', np.float64, ('time',), long_name='t')
            self.define_variable('s', np.int32, ('time',), long_name='s', scale_factor=1e-3, add_offset=5.0,
                                 fill_value=2147483647)
            self.define_variable('a', np.float64, ('time', 'x'), long_name='a')
            self.define_variable('b', np.float32, ('time', 'x', 'y'), long_name='b')
            self.define_variable('c', np.int16, ('time', 'x'), long_name='c', fill_value=-1)
            self.define_variable('u', np.int16, ('time',), long_name='u', flag_meanings=('p', 'q'))

        def write_record(self, **v):
            super().write_record(**v)
    return W


def values(op):
    r = random.Random(op['v'])
    x, y = r.choice([5, 5, 3, 1]), r.choice([4, 4, 2])
    v = {'t': r.random() * 100,
         's': round(r.random() * 50, 3),
         'a': np.array([r.random() for _ in range(x)]),
         'b': np.array([[float(r.randrange(99)) for _ in range(y)] for _ in range(x)]),
         'c': np.array([r.randrange(-9, 99) for _ in range(x)]),
         'u': r.choice([None, r.randrange(99)])}
    for k in ('t', 's', 'a', 'b', 'c'):
        if r.random() < .12:
            v[k] = None
    if r.random() < .15 and v['t'] is not None:
        v['t'] = r.choice([0.0, float('nan'), float('inf'), -1.0])
    if r.random() < .15 and v['a'] is not None:
        v['a'][r.randrange(x)] = r.choice([0.0, float('nan'), float('-inf')])
    if r.random() < .1 and v['a'] is not None:
        v['a'][:] = 0.0
    ks = list(v)
    r.shuffle(ks)
    v = {k: v[k] for k in ks}
    bad = op.get('bad')
    if bad == 'long':
        v['a'] = np.arange(7.)
    elif bad == 'wide':
        v['b'] = np.zeros((2, 6))
    elif bad == 'text':
        v['t'] = 'abc'
    elif bad == 'none':
        v['nosuch'] = 1.0
    return v


def run2(sc, d):
    from .. import ncsim
    root = os.path.join(os.path.realpath(d), 'disk')
    os.makedirs(root)
    sim = Sim(root)
    Sim.current = sim
    sim.enter_main()
    viol, log = [], []
    cls = sc['cls']
    if cls != 'base' and len(SURF.get('surf') or []) < 3:
        cls = 'base'
    if cls == 'base':
        mk = mk_base()
    else:
        from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
        from dedop.data.output import L1BSWriter, L1BWriter, L1BWriterExtended
        aux = SURF['aux']
        cst = ConstantsFile(aux['CST'])
        chd = CharacterisationFile(cst, aux['CHD'])
        cnf = ConfigurationFile(aux['CNF'])
        C = {'l1b': L1BWriter, 'l1bx': L1BWriterExtended, 'l1bs': L1BSWriter}[cls]

        def mk(filename):
            return C(filename=filename, chd=chd, cnf=cnf, cst=cst)

    def put(w, op):
        if op['k'] == 'glob':
            return w.write_globals(**{'g%d' % (op['v'] % 3): 'v%d' % op['v'], 'h': None})
        if cls == 'base':
            return w.write_record(**values(op))
        return w.write_record(SURF['surf'][op['v'] % len(SURF['surf'])])

    def write(path, ops, faulty):
        done = []
        failed_last = False
        glob = {}
        w = sim.op(lambda: mk(path))[1]

        def go(op):
            nonlocal failed_last
            res, val = sim.op(lambda: put(w, op), op.get('faults') if faulty else None)
            hits = sim.main_task.last_hits
            log.append((op['k'], res, len(hits)))
            if res == 'ok' and hits:
                viol.append(['silent', 'a failed %s is not reported' % hits[0][1]])
            bad = cls == 'base' and op.get('bad') in ('long', 'wide', 'text', 'none')
            if res == 'err' and not hits and not bad:
                viol.append(['refused', 'a correct record is refused: %s: %s %s' % (
                    type(val).__name__, val, getattr(val, 'child', ''))])
            if res == 'ok' and bad and op['k'] == 'rec':
                viol.append(['silent', 'a record with a value that does not fit (%s) is not refused' % op['bad']])
            if op['k'] == 'rec':
                if res == 'ok':
                    done.append(op)
                    failed_last = False
                else:
                    failed_last = True
            else:
                # an attribute whose writing failed may have the old or the new value
                for g, x in (('g%d' % (op['v'] % 3), 'v%d' % op['v']), ('h', 'Not available')):
                    glob[g] = [x] if res == 'ok' else glob.get(g, [None]) + [x]
            return res
        r = sim.op(lambda: w.open())
        if r[0] != 'ok':
            viol.append(['open', 'a product cannot be opened: %s' % r[1]])
            return w, done, False, glob, False
        if sc['with']:
            w.__enter__()
        for op in ops:
            go(op)
            if viol:
                break
        closed = True
        fl = {'1': sc['close']} if faulty and sc.get('close') else None
        res, val = sim.op((lambda: w.__exit__(None, None, None)) if sc['with'] else w.close, fl)
        if sim.main_task.last_hits:
            closed = False
            if res == 'ok':
                viol.append(['silent', 'a failed close is not reported'])
        elif res != 'ok':
            viol.append(['close', 'a product cannot be closed: %s' % val])
        return w, done, failed_last, glob, closed
    p1 = os.path.join(root, 'out', 'a.nc')
    w, done, failed_last, glob, closed = write(p1, sc['ops'], True)
    nbad = len([x for x in log if x[1] == 'err'])
    if not viol and closed:
        try:
            a = load(ncsim, p1)
        except Exception as e:
            viol.append(['unreadable', 'the closed product cannot be read: %s' % e])
    if not viol and closed:
        n = a['#n']
        if n < len(done) or n > len(done) + (1 if failed_last else 0):
            viol.append(['count', '%d records were written, the product has %d' % (len(done), n)])
        else:
            for g, v in glob.items():
                if a['@'].get(g) not in v:
                    viol.append(['globals', 'attribute %s is %r, written was %r' % (g, a['@'].get(g), v)])
            if cls == 'base':
                exp = expected(done)
            else:
                p2 = os.path.join(root, 'out', 'b.nc')
                write(p2, done, False)
                exp = load(ncsim, p2)
            for v in exp:
                if v[0] in '@#' or viol:
                    continue
                x, y = a[v], exp[v]
                if v in a['#rec']:
                    x = x[:len(done)]
                if not same(x, y):
                    i = 0
                    for i in range(len(done)):
                        if x.shape[0] <= i or not same(x[i], y[i]):
                            break
                    viol.append(['record', '%s of record %d is %s, written was %s' % (
                        v, i, np.ravel(x[i])[:6], np.ravel(y[i])[:6])])
            if cls != 'base' and not viol:
                viol += direct(ncsim, p1, [SURF['surf'][o['v'] % len(SURF['surf'])] for o in done], cst)
    st = ws.new_stats()
    st['faults'] = dict(sim.fault_hits)
    st['points'] = sim.points
    st['sim_time'] = sim.clock - 1.6e9
    st['ops'] = {'writes': len(sc['ops']), 'failed': nbad}
    dg = zlib.crc32(repr((sim.trace_hash, log, [repr(o) for o in sc['ops']])).encode())
    return {'viol': viol[:2], 'stats': st, 'digest': dg, 'states': [dg], 'trace': [list(x) for x in sim.trace],
            'nontrivial': len(done) >= 3 or nbad > 0 and len(done) > 0}


DIRECT = {'time': lambda s: s.time_surf, 'lat': lambda s: np.degrees(s.lat_surf), 'lon': lambda s: np.degrees(s.lon_surf),
          'alt': lambda s: s.alt_sat, 'orb_alt_rate': lambda s: s.alt_rate_sat, 'x_pos': lambda s: s.x_sat,
          'y_pos': lambda s: s.y_sat, 'z_pos': lambda s: s.z_sat, 'x_vel': lambda s: s.x_vel_sat,
          'y_vel': lambda s: s.y_vel_sat, 'z_vel': lambda s: s.z_vel_sat, 'meas_x_pos': lambda s: s.x_surf,
          'meas_y_pos': lambda s: s.y_surf, 'meas_z_pos': lambda s: s.z_surf, 'stdev_stack': lambda s: s.stack_std,
          'skew_stack': lambda s: s.stack_skewness, 'kurt_stack': lambda s: s.stack_kurtosis,
          'max_stack': lambda s: s.stack_max,
          'scale_factor_ku': lambda s: s.sigma0_scaling_factor, 'records_count': lambda s: s.surface_counter}
for _n in ('isp_coarse_time isp_fine_time sral_fine_time flag_time_status nav_bul_status nav_bul_source oper_instr '
           'SAR_mode cl_gain acq_stat dem_eeprom loss_track h0_nav_dem h0_applied cor2_nav_dem cor2_applied dh0 '
           'agccode_ku uso_cor int_path_cor_ku agc_ku sig0_cal_ku').split():
    DIRECT[_n] = (lambda n: lambda s: getattr(s.closest_burst, n))(_n)
DIRECT['seq_count'] = lambda s: s.closest_burst.source_seq_count


def direct(ncsim, path, surfs, cst):
    """the stored values against those of the surfaces, within the resolution of the stored type"""
    ds = ncsim.Real(path)
    try:
        for n, v in ds.variables.items():
            short = n.split('_l1b')[0]
            if v.ndim == 1 and short == 'range_ku':
                f = lambda s: s.win_delay_surf * cst.c / 2.
            elif v.ndim == 1 and short in DIRECT:
                f = DIRECT[short]
            else:
                continue
            res = abs(float(getattr(v, 'scale_factor', 0 if v.dtype.kind == 'f' else 1)))
            x = v[:]
            for i, s in enumerate(surfs):
                y = f(s)
                if y is None:
                    continue
                y = float(y)
                if np.ma.is_masked(x[i]) or abs(float(x[i]) - y) > 1.01 * res + 1e-6 * abs(y):
                    return [['direct', '%s of record %d is %s, that of the surface is %s' % (n, i, x[i], y)]]
        w = [n for n in ds.variables if n.startswith('i2q2_meas_ku')]
        f = [n for n in ds.variables if n.startswith('i2q2_scale_factor')]
        if w and f and surfs:     # the others overflow their stored type for strong echoes
            x = np.ma.filled(ds.variables[w[0]][:], np.nan)
            for i, s in enumerate(surfs):
                y = np.asarray(s.waveform_multilooked, dtype=float)
                a, b = x[i] / np.nanmax(x[i]), y / y.max()
                if not np.allclose(a, b, atol=2e-2, equal_nan=False):
                    return [['direct', 'the echo of record %d is not that of the surface: %s %s' % (i, a[:5], b[:5])]]
                if abs(float(ds.variables[f[0]][i]) * np.nanmax(x[i]) / y.max() - 1) > 2e-2:
                    return [['direct', 'the power of the echo of record %d is not that of the surface: %s %s' % (i, a[:5], b[:5])]]
        return []
    finally:
        ds.close()


def load(ncsim, path):
    ds = ncsim.Real(path)
    try:
        out = {'@': {a: ds.getncattr(a) for a in ds.ncattrs()}, '#rec': set()}
        t = [n for n, x in ds.dimensions.items() if x.isunlimited()]
        out['#n'] = ds.dimensions[t[0]].size if t else 0
        for n, v in ds.variables.items():
            v.set_auto_maskandscale(False)
            out[n] = np.array(v[:])
            if t and v.dimensions and v.dimensions[0] == t[0]:
                out['#rec'].add(n)
        return out
    finally:
        ds.close()


def expected(done):
    import netCDF4
    F = netCDF4.default_fillvals
    n = len(done)
    e = {'t': np.full(n, F['f8']), 's': np.full(n, 2147483647, 'i4'), 'a': np.full((n, 5), F['f8']),
         'b': np.full((n, 5, 4), F['f4'], 'f4'), 'c': np.full((n, 5), -1, 'i2'), 'u': np.full(n, F['i2'], 'i2')}
    for i, op in enumerate(done):
        v = values(op)
        for k, x in v.items():
            if x is None or k not in e:
                continue
            if k == 's':
                e[k][i] = int(round((x - 5.0) / 1e-3))
            elif k in ('t', 'u'):
                e[k][i] = x
            elif k == 'b':
                e[k][i, :x.shape[0], :x.shape[1]] = x
            else:
                e[k][i, :len(x)] = x
    return e
