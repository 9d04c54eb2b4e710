"""P01-P14: the Level-1B processor as a whole, over synthetic inputs, with a seam under every NetCDF call, the clock,
the monitor and the thread schedule.

The oracle is differential: a reference run (fresh processor, no faults, nothing else running) of an input and a
configuration that the property says must give the same product.  Reference products are kept in a cache directory.
"""
import collections
import gc
import hashlib
import json
import os
import pickle
import zlib

import numpy as np

from .. import boot as _boot
from .. import l1agen as G
from .. import proc
from ..kernel import Sim, install_ids
from . import ws

PROPS = ['P%02d' % i for i in range(1, 15)]
SHRINK = ('runs', 'faults', 'inv', 'pieces', 'clients', 'switches', 'jumps')
CPU_LIMIT = 240
PLAN = {'P01': {'quick': 200, 'thorough': 9000}, 'P02': {'quick': 320, 'thorough': 15000},
        'P03': {'quick': 360, 'thorough': 12000}, 'P04': {'quick': 450, 'thorough': 25000},
        'P05': {'quick': 450, 'thorough': 25000}, 'P06': {'quick': 260, 'thorough': 15000},
        'P07': {'quick': 240, 'thorough': 15000}, 'P08': {'quick': 300, 'thorough': 15000},
        'P09': {'quick': 130, 'thorough': 8000}, 'P10': {'quick': 700, 'thorough': 20000},
        'P11': {'quick': 500, 'thorough': 25000}, 'P12': {'quick': 360, 'thorough': 15000},
        'P13': {'quick': 300, 'thorough': 15000}, 'P14': {'quick': 900, 'thorough': 25000}}
LEVEL = {}
_REAL = ['dedop.proc.sar (processor, algorithms, calibrations)', 'dedop.data.input', 'dedop.data.output', 'dedop.model',
         'dedop.conf', 'dedop.util.monitor', 'dedop.util.time', 'the NetCDF library (reading, bulk writing at close)']
_STUB = ['when a NetCDF call fails', 'single NetCDF writes are kept in memory until close', 'the clock',
         'scipy.optimize.curve_fit (a cheap deterministic fit)', 'the input (synthetic Level-1A products with 8 pulses '
         'of 16 samples)', 'the task schedule (P09)', 'who cancels']
REAL = {p: _REAL for p in PROPS}
STUB = {p: _STUB for p in PROPS}
RULE = {
    'P01': 'one processor, 1-3 earlier runs over different inputs (complete, cancelled at a random poll, failed or '
           'interrupted at a random NetCDF call), then a complete run; non-trivial: an earlier run did not complete or '
           'used another input',
    'P02': '1-4 pieces of 1-130 records with gaps of 1-60 missing records; non-trivial: at least one gap',
    'P03': '95-160 records, up to 40 unusable ones at the start, the end or anywhere, and a region in some; '
           'non-trivial: at least one unusable record',
    'P04': 'inputs with and without gaps, cancellation at a random poll or at a random NetCDF call; non-trivial: the '
           'cancellation came before the end',
    'P05': 'one or two failing NetCDF calls, once or from then on; non-trivial: a call failed',
    'P06': 'as P05 with interrupts and cancellations, then the same run again; non-trivial: the first run did not '
           'complete',
    'P07': 'both products, gaps, cancellation, both formats; non-trivial: at least one record',
    'P08': 'another clock, monitor, folder, left-over product, working directory or hash seed; all are non-trivial',
    'P09': 'two or three concurrent runs, some with failing calls or cancellation, switches at NetCDF calls, fits and '
           'single statements; non-trivial: at least 2 switches',
    'P10': 'complete, cancelled and failing runs under a recording monitor; all are non-trivial',
    'P11': 'inputs with gaps, unusable records, midnight, the equator or the prime meridian in them, complete and '
           'cancelled runs; non-trivial: all that give a record',
    'P12': 'an input and the same input with 1-60 more records, in one piece or after a gap; all are non-trivial',
    'P13': 'an input with a random subset of the global attributes, unusable records at the ends, a region or midnight inside, cancelled or not, sometimes after another run of the processor; non-trivial: a product was written',
    'P14': 'configuration files changed, replaced or removed by someone else while a processor is created or runs; two '
           'processors over the same paths; files that are cut off, of another version, without a parameter or cannot be '
           'read; non-trivial: the change or failure took place'}
_A = ['NetCDF calls fail as a whole and report it; the library never returns wrong data',
      'the synthetic instrument (8 pulses, 16 samples, 6 looks) exercises the same run loop as the real one']
ASSUME = {p: _A for p in PROPS}

STARTS = [0, 200, 420, 640]
LENS = [97, 100, 104, 110, 118, 125]


def boot():
    _boot.processor()


# ---- scenarios -----------------------------------------------------------------
def conf(r):
    c = {}
    if r.random() < .3:
        c['fmt'] = 'sentinel-3'
    if r.random() < .25:
        c['cal1'] = False
    if r.random() < .25:
        c['cal2'] = False
    if r.random() < .2:
        c['mask'] = False
    if r.random() < .15:
        c['method'] = 'exact'
    if r.random() < .15:
        c['aw'] = True
    if r.random() < .2:
        c['looks'] = r.choice([4, 9])
    if r.random() < .1:
        c['align'] = r.choice([1, 2, 3, 4])
    return c


CONFS = [{}, {'fmt': 'sentinel-3'}, {'cal1': False, 'looks': 4}, {'cal2': False, 'mask': False},
         {'fmt': 'sentinel-3', 'method': 'exact', 'align': 3}, {'win': 'hamming', 'width': 4, 'aw': True, 'zp': 1},
         {'dop': False, 'slant': False, 'zeros': False, 'sw': False}, {'win': 'boxcar', 'width': 6, 'focus': 60},
         {'win': 'hamming', 'width': 8}, {'win': 'boxcar', 'width': 4, 'looks': 4}]


def inp(r, gap=.35):
    """an input that is processed without error; drawn from a small pool so that reference runs can be shared"""
    s = r.choice(STARTS[:3])
    n = r.choice(LENS[:4])
    i = {'pieces': [[s, n]], 'salt': r.randrange(2)}
    if r.random() < gap:
        i['pieces'].append([s + n + r.choice([1, 30]), r.choice([20, 97, 100])])
    return i


def fault(r, n=13000):
    x = r.random()
    if x < .35:
        # the rare calls: reading the input, metadata, closing
        k = r.choice(['nc-read#%d' % r.randrange(1, 400), 'nc-gread#%d' % r.randrange(1, 25), 'nc-gattr#%d' % r.randrange(1, 66),
                      'nc-close#%d' % r.choice([1, 1, 2, 2, 3])])
        return {k: r.choice(['err', 'err', 'err', 'full', 'sticky:err'])}
    x = r.random()
    if x < .15:
        k = r.randrange(1, 40)
    elif x < .5:
        k = int(2 ** (r.random() * 13.6))
    elif x < .9:
        k = r.randrange(1, n)
    else:
        k = r.randrange(n - 1500, n + 200)
    return {str(max(1, k)): r.choice(['err', 'err', 'full', 'partial', 'sticky:err'])}


def gen(prop, r, tier, i):
    sc = gen_(prop, r, tier, i)
    if 'conf' in sc and i % 3 == 1:
        sc['conf'] = dict(sc['conf'], tight=r.choice([9, 10, 12, 16]))
        for e in sc.get('clients', []):
            if r.random() < .5:
                e['conf'] = dict(e['conf'], tight=10)
    return sc


def gen_(prop, r, tier, i):
    sc = {'conf': r.choice(CONFS), 'bs': r.random() < .4}
    if prop == 'P01':
        if r.random() < .25:
            sc['conf'] = dict(sc['conf'], focus=r.choice([30, 60, 250]))
        sc['runs'] = []
        for _ in range(r.choice([1, 1, 2, 3])):
            e = {'in': inp(r)}
            x = r.random()
            if x < .35:
                e['cancel'] = r.randrange(1, 260)
            elif x < .7:
                e['faults'] = fault(r, 13000 if sc['bs'] else 7500)
                if r.random() < .3:
                    e['faults'] = {k: 'intr' for k in e['faults']}
            elif x < .8:
                e['in'] = {'pieces': [[0, r.choice([1, 20, 70])]], 'salt': 0}      # too short: fails
            sc['runs'].append(e)
        sc['in'] = inp(r)
    elif prop == 'P02':
        sc['bs'] = r.random() < .3
        # few starts and lengths, so that the pieces are found in the cache
        n = r.choice([2, 2, 2, 2, 3, 3, 4, 1])
        sc['conf'] = r.choice(CONFS[:1] + CONFS[:1] + CONFS[1:4])
        ps = [[120 * k, r.choice([97, 104, 118, 119, 119, 1, 2, 3, 20, 60, 85])] for k in range(n)]
        if r.random() < .2:
            ps[-1][0] += 60
        sc['pieces'] = ps
        sc['salt'] = 0
    elif prop == 'P03':
        sc['bs'] = r.random() < .3
        n = r.choice([95, 100, 110, 130, 160])
        s = r.choice(STARTS)
        inv = set()
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            if x < .25:
                inv |= set(range(r.choice([1, 1, 2, 3, 15])))
            elif x < .5:
                inv |= set(range(n - r.choice([1, 1, 2, 15]), n))
            elif x < .8:
                a = r.randrange(n)
                inv |= set(range(a, min(n, a + r.choice([1, 1, 2, 5, 40]))))
            else:
                inv |= set(r.sample(range(n), r.choice([1, 3, 10])))
        sc['in'] = {'pieces': [[s, n]], 'salt': r.randrange(3)}
        if r.random() < .25:
            sc['in']['pieces'].append([s + n + 12, r.choice([30, 100])])
        sc['inv'] = sorted(inv)
        if r.random() < .25:
            sc['in']['zero'] = [r.choice(['lat', 'lon']), s + r.choice([0, 1, n // 2, n - 1, r.randrange(n)])]
        elif r.random() < .5:
            a = r.choice([0, 0, 1, 3, 20, r.randrange(n)])
            b = n - 1 - r.choice([0, 0, 1, 5, 20, r.randrange(n)])
            a, b = min(a, b), max(a, b)
            sc['roi'] = [s + a, s + b, r.choice(['lat', 'lon', 'both', 'min', 'max'])]
            if r.random() < .4:
                sc['roi'].append('on')
            if r.random() < .5:
                sc['inv'] = []
    elif prop == 'P04':
        sc['in'] = inp(r, .5)
        x = r.random()
        if x < .6:
            sc['cancel'] = r.choice([1, 2, 3, r.randrange(1, 60), r.randrange(60, 300), r.randrange(60, 300)])
        else:
            sc['cancel_at'] = r.randrange(1, 14000 if sc['bs'] else 8000)
        if r.random() < .3:
            sc['mon'] = 'console'
    elif prop in ('P05', 'P06'):
        sc['in'] = inp(r)
        sc['faults'] = fault(r, 13000 if sc['bs'] else 7500)
        if r.random() < .1:
            sc['faults'].update(fault(r))
        if prop == 'P06':
            x = r.random()
            if x < .25:
                sc['faults'] = {k: 'intr' for k in sc['faults']}
            elif x < .4:
                sc['faults'] = {}
                sc['cancel'] = r.randrange(1, 300)
            elif x < .5:
                sc['faults'] = {}
            sc['same'] = r.random() < .5
    elif prop == 'P07':
        sc['bs'] = True
        sc['conf'] = conf(r)
        sc['in'] = inp(r, .5)
        if r.random() < .6:
            sc['cancel'] = r.randrange(60, 320)
    elif prop == 'P08':
        sc['in'] = inp(r)
        sc['clock0'] = r.choice([1.6e9, 0.0, 1e9, 1.7e9 + r.random() * 1e8, 4.1e9])
        sc['jumps'] = [[r.randrange(1, 8000), r.choice([-1e7, 1e7, 3600.0, -3600.0, 1.0])]
                       for _ in range(r.choice([0, 0, 1, 3, 10]))]
        sc['mon'] = r.choice(['null', 'rec', 'console', 'child'])
        sc['out'] = r.choice(['out', 'a/b/c', 'out put', 'Ausgabe-ü', '.', 'out/'])
        sc['left'] = r.choice(['', '', 'garbage', 'other', 'same'])
        sc['where'] = r.choice(['', 'rel', 'deep', 'link'])
        sc['noise'] = r.randrange(1000)
        sc['empty'] = r.choice(['', '', 'nan', 'big', 'random'])
        sc['runs'] = [{'in': inp(r), 'conf': r.choice(CONFS)} for _ in range(r.choice([0, 0, 0, 1, 2]))]
        if r.random() < .04:
            sc['hashseed'] = r.randrange(1, 1000)
    elif prop == 'P09':
        n = r.choice([2, 2, 2, 3])
        same = r.random() < .4
        sc['bs'] = r.random() < .3
        sc['clients'] = []
        one = inp(r, .2)
        c1 = sc['conf']
        for k in range(n):
            e = {'in': one if same else inp(r, .2), 'conf': c1 if same and r.random() < .5 else r.choice(CONFS)}
            x = r.random()
            if x < .15:
                e['cancel'] = r.randrange(1, 260)
            elif x < .3:
                e['faults'] = fault(r, 7500)
            sc['clients'].append(e)
        sc['sched'] = {'seed': r.randrange(1 << 30), 'p': r.choice([.001, .01, .05, .3]), 'gap': r.choice([20, 100, 400])}
        sc['lines'] = r.random() < .35
    elif prop == 'P10':
        sc['in'] = inp(r, .5)
        if r.random() < .3:
            sc['inv'] = sorted(r.sample(range(97), r.choice([1, 1, 2, 12])))
        x = r.random()
        if x < .3:
            sc['cancel'] = r.randrange(1, 320)
        elif x < .55:
            sc['faults'] = fault(r, 13000 if sc['bs'] else 7500)
        elif x < .65:
            sc['in'] = {'pieces': [[0, r.choice([1, 20, 70])]], 'salt': 0}
        sc['mon'] = r.choice(['rec', 'rec', 'child'])
    elif prop == 'P11':
        s = r.choice(STARTS)
        n = r.choice([97, 100, 110, 130])
        sc['in'] = {'pieces': [[s, n]], 'salt': r.randrange(2)}
        while r.random() < .4:
            s, n = s + n + r.choice([1, 2, 30]), r.choice([1, 5, 20, 60, 97])
            sc['in']['pieces'].append([s, n])
        n = len(slots(sc['in']))
        sc['inv'] = sorted(r.sample(range(n), r.choice([1, 2, 5]))) if r.random() < .3 else []
        sc['bs'] = r.random() < .6
        x = r.random()
        if x < .3:
            sc['in']['t0'] = midnight(slots(sc['in'])[r.randrange(n)], r.choice([0, .5, r.random()]))
        elif x < .5:
            sc['in']['zero'] = [r.choice(['lat', 'lon']), slots(sc['in'])[r.randrange(n)]]
        if r.random() < .3:
            sc['cancel'] = r.randrange(20, 300)
        if r.random() < .3:
            sc['conf'] = dict(sc['conf'], looks=9)
    elif prop == 'P12':
        s = r.choice(STARTS[:2])
        n = r.choice([97, 100, 104])
        sc['in'] = {'pieces': [[s, n]], 'salt': r.randrange(2)}
        if r.random() < .3:
            sc['in']['pieces'].append([s + n + r.choice([1, 30]), r.choice([30, 97])])
        sc['more'] = r.choice([1, 2, 3, 10, 16, 40, 60])
        if r.random() < .2:
            sc['after'] = r.choice([1, 2, 25])
    elif prop == 'P13':
        sc['bs'] = r.random() < .7
        sc['in'] = inp(r, .3)
        n = len(slots(sc['in']))
        if r.random() < .6:
            sc['in']['attrs'] = sorted(r.sample(G.GLOBALS, r.choice([0, 5, 12, len(G.GLOBALS)])))
            for k in range(len(sc['in']['attrs'])):
                if r.random() < .15:
                    sc['in']['attrs'][k] += '=' + r.choice(['', '', '0', ' ', 'a\nb', 'Sentinel\u00e4', 'x' * 300])
            if r.random() < .8:
                sc['in']['attrs'].append('product_name')
        sc['in']['product'] = r.choice(['S3A_SR_1_SRA_A__20160101T000000_SIM', 'S3B_SR_1_SRA_A__20171231T235959_A__x', 'other'])
        if r.random() < .3:
            sc['in']['t0'] = midnight(slots(sc['in'])[r.randrange(n)], r.choice([0, .5, r.random()]))
        x = r.random()
        if x < .3:
            sc['inv'] = sorted(set(range(r.choice([0, 1, 3]))) | set(range(n - r.choice([0, 1, 2]), n)))
        elif x < .6 and len(sc['in']['pieces']) == 1:
            s = sc['in']['pieces'][0][0]
            sc['conf'] = dict(sc['conf'], roi=[s + r.choice([0, 1, 3]), s + n - 1 - r.choice([0, 1, 3]),
                                               r.choice(['lat', 'lon', 'both', 'min', 'max'])])
        if r.random() < .3:
            sc['cancel'] = r.randrange(1, 260)
        sc['runs'] = [{'in': inp(r), 'cancel': r.choice([None, r.randrange(1, 200)])} for _ in range(r.choice([0, 0, 1]))]
    elif prop == 'P14':
        sc['bs'] = r.random() < .2
        sc['in'] = {'pieces': [[0, 97]], 'salt': 0}
        sc['conf'] = c = r.choice(CONFS[1:])
        if r.random() < .4:
            c = sc['conf'] = dict(c, x=r.choice(XTRA))
        # another configuration, which differs in the CNF file only
        sc['other'] = dict(r.choice([o for o in CONFS[1:] if ('aw' in o) == ('aw' in c) and o != c] or [{'looks': 4, 'aw': True}]))
        if 'x' in c:
            sc['other']['x'] = c['x']
        sc['mode'] = m = r.choice(['later', 'later', 'during', 'during', 'two', 'bad', 'bad', 'gone', 'gone', 'fault'])
        if m == 'later':
            sc['when'] = r.choice([0, 0, 1, 2, r.randrange(1, 60), r.randrange(1, 60), int(2 ** (r.random() * 13))])
            sc['files'] = sorted(r.sample(['CHD', 'CNF', 'CST'], r.choice([1, 1, 2, 3])))
            sc['how'] = r.choice(['swap', 'write', 'delete', 'empty', 'garbage', 'version'])
        elif m == 'during':
            sc['when'] = r.randrange(1, 12)
            sc['how'] = r.choice(['swap', 'swap', 'swap', 'version'])
        elif m == 'two':
            sc['how'] = r.choice(['swap', 'write'])
            sc['order'] = r.choice([[0, 1], [1, 0], [1]])
            sc['first'] = r.random() < .5
        elif m == 'bad':
            sc['file'] = r.choice(['CHD', 'CNF', 'CNF', 'CST'])
            sc['how'] = r.choice(['cut', 'cut', 'missing', 'dir', 'version', 'version', 'oldversion', 'nometa', 'unknown', 'list'])
            sc['at'] = r.random()
            sc['warm'] = r.random() < .4
        elif m == 'gone':
            sc['file'] = r.choice(['CHD', 'CNF', 'CNF', 'CST'])
            sc['at'] = r.random()
        else:
            sc['faults'] = {r.choice(['open-r#%d' % r.randrange(1, 5), 'read#%d' % r.randrange(1, 16)]): r.choice(['err', 'err', 'sticky:err'])}
            sc['warm'] = r.random() < .4
    return sc


# changes of the other two files that show in the product
XTRA = [{'CST': {'c_cst': 299792000.0}}, {'CST': {'earth_radius_cst': 6400000.0}}, {'CHD': {'antenna_gain_ku_chd': 41.0}},
        {'CHD': {'power_tx_ant_ku_chd': 7.0}}, {'CHD': {'bw_ku_chd': 321000000.0}, 'CST': {'flat_coeff_cst': 0.0034}}]


def midnight(slot, frac):
    """a start time for which UTC midnight falls into a record, or between it and the next"""
    t = G.T0 + (slot + frac) * G.BRI
    return G.T0 + (86400.0 - t % 86400.0)


def valid(sc):
    if 'in' in sc and not sc['in'].get('pieces'):
        return False
    if sc['prop'] == 'P02' and not sc.get('pieces'):
        return False
    if sc['prop'] == 'P09' and len(sc.get('clients') or []) < 2:
        return False
    return True


# ---- running -------------------------------------------------------------------
def slots(spec):
    return [s0 + k for s0, n in spec['pieces'] for k in range(n)]


def key(*x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:20]


class Env:
    """where the files of one run lie"""

    def __init__(self, d):
        self.root = os.path.join(os.path.realpath(d), 'disk')
        self.cache = os.path.join(os.path.dirname(os.path.realpath(d)), 'cache')
        os.makedirs(self.root, exist_ok=True)
        os.makedirs(self.cache, exist_ok=True)

    def input(self, spec, inv=(), drop=(), name='L1A_x.nc', where='in', keep=None):
        """the input file of a specification"""
        k = os.path.join(self.cache, 'in-%s.nc' % key(spec, sorted(inv), sorted(drop), keep))
        if not os.path.exists(k):
            recs = [G.Rec(s, invalid=i in set(inv)) for i, s in enumerate(slots(spec))]
            recs = [x for i, x in enumerate(recs) if i not in set(drop) and (keep is None or keep[0] <= x.slot <= keep[1])]
            tmp = k + '.%d' % os.getpid()
            G.write_l1a(tmp, recs, salt=spec.get('salt', 0), zero=spec.get('zero'),
                        t0=spec.get('t0', G.T0), attrs=spec.get('attrs'),
                        product=spec.get('product', 'S3A_SR_1_SRA_A__20160101T000000_SIM'))
            os.rename(tmp, k)
        p = os.path.join(self.root, where, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p):
            os.link(k, p)
        return p

    def aux(self, c, where='aux'):
        cnf = {'output_format_flag_cnf': c.get('fmt', 'extended'), 'flag_cal1_corrections_cnf': c.get('cal1', True),
               'flag_cal2_correction_cnf': c.get('cal2', True), 'flag_stack_masking_cnf': c.get('mask', True),
               'flag_azimuth_processing_method_cnf': c.get('method', 'approx'),
               'flag_antenna_weighting_cnf': c.get('aw', False),
               'flag_window_delay_alignment_method_cnf': c.get('align', 0)}
        for k, n in (('win', 'flag_azimuth_windowing_method_cnf'), ('width', 'azimuth_window_width_cnf'),
                     ('dop', 'flag_doppler_range_correction_cnf'), ('slant', 'flag_slant_range_correction_cnf'),
                     ('zeros', 'flag_avoid_zeros_in_multilooking_cnf'), ('sw', 'flag_surface_weighting_cnf'),
                     ('zp', 'zp_fact_range_cnf')):
            if k in c:
                cnf[n] = c[k]
        if 'roi' in c:
            a, b, how = c['roi'][:3]
            on = 0 if len(c['roi']) > 3 else .5         # bounds on the records themselves, or between two
            la, lo = G.lat_lon_deg(a - on)
            lb, ob = G.lat_lon_deg(b + on)
            if not on:
                (la, lo), (lb, ob) = stored(la, lo), stored(lb, ob)
            if how in ('lat', 'both', 'min'):
                cnf['min_lat_cnf'] = min(la, lb)
            if how in ('lat', 'both', 'max'):
                cnf['max_lat_cnf'] = max(la, lb)
            if how in ('lon', 'both'):
                cnf['min_lon_cnf'] = min(lo, ob)
                cnf['max_lon_cnf'] = max(lo, ob)
        if 'focus' in c:
            la, lo = G.lat_lon_deg(c['focus'])
            cnf.update({'flag_surface_focusing_cnf': True, 'surface_focusing_lat_cnf': la,
                        'surface_focusing_lon_cnf': lo, 'surface_focusing_alt_cnf': 0.0})
        chd = G.ANTENNA if c.get('aw') else {}
        aux = G.write_aux(os.path.join(self.root, where, key(c)), cnf=cnf, looks=c.get('looks', 6), chd=chd)
        for f, vals in c.get('x', {}).items():
            with open(aux[f]) as fp:
                text = json.load(fp)
            for k, v in vals.items():
                text[k]['value'] = v
            with open(aux[f], 'w') as fp:
                json.dump(text, fp, indent=1)
        if 'tight' in c:
            aux['tight'] = str(c['tight'])
        return aux


def stored(*deg):
    """coordinates as they are read from the input"""
    return tuple(float(np.rint(x / 1e-6) * 1e-6) for x in deg)


def processor(aux, out, bs, name='n'):
    from dedop.proc.sar import L1BProcessor
    p = L1BProcessor(name, aux['CNF'], aux['CST'], aux['CHD'], out, skip_l1bs=not bs)
    if aux.get('tight') and hasattr(p, 'min_surfs'):
        # the queue of surfaces is dimensioned for 64 pulses; as tight for the 8 of the synthetic instrument
        try:
            p.min_surfs = int(aux['tight'])
        except AttributeError:
            pass
    return p


def load(path):
    from .. import ncsim
    if not os.path.exists(path):
        return None
    try:
        ds = ncsim.Real(path)
    except Exception as e:
        return {'broken': type(e).__name__}
    try:
        out = {'attrs': {a: str(ds.getncattr(a)) for a in ds.ncattrs()}, 'vars': {}, 'rec': set(), 'vattrs': {}}
        t = [n for n, x in ds.dimensions.items() if x.isunlimited()]
        out['n'] = ds.dimensions[t[0]].size if t else 0
        for n, v in ds.variables.items():
            v.set_auto_maskandscale(False)
            out['vars'][n] = np.array(v[:])
            out['vattrs'][n] = {a: str(v.getncattr(a)) for a in v.ncattrs()}
            if t and v.dimensions and v.dimensions[0] == t[0]:
                out['rec'].add(n)
        return out
    finally:
        ds.close()


def products(out, bs, l1a='L1A_x.nc', name='n'):
    part = os.path.splitext(l1a)[0]
    if part.startswith('L1A'):
        part = part[3:]
    part = '_' + part if part else ''
    return {'l1b': load(os.path.join(out, 'L1B%s_%s.nc' % (part, name))),
            'l1bs': load(os.path.join(out, 'L1BS%s_%s.nc' % (part, name))) if bs else None}


TIMES = ('creation_time',)


def differ(a, b, n=None, lo=0, skip=(), attrs=True, noattr=TIMES):
    """how product a (its records, or the first n of b) differs from b; None if it does not"""
    for x, w in ((a, 'the product'), (b, 'the reference product')):
        if x is None:
            return '%s does not exist' % w
        if 'broken' in x:
            return '%s cannot be read (%s)' % (w, x['broken'])
    if n is None and a['n'] != b['n']:
        return '%d records instead of %d' % (a['n'], b['n'])
    if n is not None and a['n'] != n:
        return '%d records instead of %d' % (a['n'], n)
    if set(a['vars']) != set(b['vars']):
        return 'variables %s' % sorted(set(a['vars']) ^ set(b['vars']))[:3]
    if a['vattrs'] != b['vattrs']:
        return 'attributes of variables'
    if attrs:
        for k in sorted(set(a['attrs']) | set(b['attrs'])):
            if k not in noattr and a['attrs'].get(k) != b['attrs'].get(k):
                return 'attribute %s is %r instead of %r' % (k, a['attrs'].get(k), b['attrs'].get(k))
    for v in sorted(a['vars']):
        if v.split('_l1b')[0] in skip:
            continue
        x, y = a['vars'][v], b['vars'][v]
        if v in b['rec']:
            y = y[lo:lo + a['n']]
        d = arrays(x, y)
        if d is not None:
            return '%s%s' % (v, d)
    return None


def arrays(x, y):
    if x.shape != y.shape:
        return ' has shape %s instead of %s' % (x.shape, y.shape)
    if x.dtype.kind == 'f':
        ok = (x == y) | (np.isnan(x) & np.isnan(y))
    else:
        ok = x == y
    if np.all(ok):
        return None
    i = np.argwhere(~ok)[0]
    return '%s is %s instead of %s' % (list(map(int, i)), x[tuple(i)], y[tuple(i)])


def single(env, spec, c, bs, inv, drop, keep, name):
    """one run of a new processor in a process of its own"""
    from .. import ncsim
    path = env.input(spec, inv, drop, keep=keep, where='in-' + key(spec, sorted(inv), sorted(drop), keep))
    aux = env.aux(c)
    sim = Sim(env.root)
    Sim.current = sim
    sim.enter_main()
    out = os.path.join(env.root, 'ref-' + name)
    r = sim.op(lambda: processor(aux, out, bs).process(path))
    Sim.current = None
    val = {'res': r[0], 'status': r[1] if r[0] == 'ok' else type(r[1]).__name__ + ': ' + str(r[1])}
    r = None
    ncsim.drop_handles()
    val.update(products(out, bs) if val['res'] == 'ok' else {'l1b': None, 'l1bs': None})
    return val


def reference(env, spec, c, bs, inv=(), drop=(), keep=None):
    """the products of a fresh processor without faults: {'res','status','l1b','l1bs'}"""
    k = os.path.join(env.cache, 'ref-%s.pkl' % key(spec, c, bs, sorted(inv), sorted(drop), keep))
    if os.path.exists(k):
        with open(k, 'rb') as fp:
            return pickle.load(fp)
    val = proc.in_child(lambda: single(env, spec, c, bs, inv, drop, keep, os.path.basename(k)), cpu=100)
    tmp = k + '.%d' % os.getpid()
    with open(tmp, 'wb') as fp:
        pickle.dump(val, fp)
    os.rename(tmp, k)
    return val


EVENTS = collections.Counter()          # what was done to a run besides failing calls


def monitors():
    from dedop.util.monitor import ConsoleMonitor, Monitor

    class Rec(Monitor):
        def __init__(self, cancel=None):
            self.log = []
            self.polls = 0
            self.cancel_poll = cancel
            self.cancelled = False
            self.when = None            # work reported when the cancellation came

        def start(self, label, total_work=None):
            self.log.append(('start', total_work))

        def progress(self, work=None, msg=None):
            self.log.append(('progress', work, None if msg is None or isinstance(msg, str) else type(msg).__name__))

        def done(self):
            self.log.append(('done',))

        def worked(self):
            return sum(x[1] or 0 for x in self.log if x[0] == 'progress')

        def cancel(self):
            if not self.cancelled:
                self.cancelled = True
                self.when = self.worked()
                EVENTS['cancel'] += 1

        def is_cancelled(self):
            self.polls += 1
            if self.cancel_poll is not None and self.polls >= self.cancel_poll:
                self.cancel()
            return self.cancelled

    class Con(ConsoleMonitor):
        """the real console monitor, with a recorder behind it"""

        def __init__(self, cancel=None):
            super().__init__(stay_in_line=True, progress_bar_size=20)
            self.rec = Rec(cancel)

        def start(self, label, total_work=None):
            self.rec.start(label, total_work)
            super().start(label, total_work)

        def progress(self, work=None, msg=None):
            self.rec.progress(work, msg)
            super().progress(work, msg)

        def done(self):
            self.rec.done()
            super().done()

        def is_cancelled(self):
            if self.rec.is_cancelled():
                self.cancel()
            return super().is_cancelled()
    return Monitor, Rec, Con


class Interrupted(Exception):
    pass


def call(fn):
    def f():
        try:
            return fn()
        except KeyboardInterrupt:
            pass
        raise Interrupted()
    return f


def bad_status(st):
    """does the returned status say that the run did not complete?"""
    return st not in (None, 0, True)


class World:
    def __init__(self, sc, d, clock0=1.6e9, **kw):
        self.sc = sc
        self.env = Env(d)
        self.viol = []
        self.log = []
        self.env_ready = False
        self.kw = kw
        self.clock0 = clock0
        self.fast_written = 0

    def start(self):
        self.sim = Sim(self.env.root, clock0=self.clock0, **self.kw)
        Sim.current = self.sim
        self.sim.enter_main()
        return self.sim

    def stop(self):
        Sim.current = None

    def out(self, nontrivial, extra=()):
        sim = self.sim
        st = ws.new_stats()
        st['faults'] = dict(sim.fault_hits)
        for k, n in EVENTS.items():
            st['faults'][k] = st['faults'].get(k, 0) + n
        st['points'] = sim.points
        st['sim_time'] = abs(sim.clock - self.clock0)
        st['ops'] = {}
        for x in self.log:
            st['ops'][x[0]] = st['ops'].get(x[0], 0) + 1
        dg = zlib.crc32(repr((sim.trace_hash, self.log, extra)).encode())
        return {'viol': self.viol[:2], 'stats': st, 'digest': dg, 'states': [dg], 'trace': [list(x) for x in sim.trace],
                'sched_log': getattr(sim.sched, 'log', {}), 'nontrivial': nontrivial}


def run(sc, d):
    def go():
        EVENTS.clear()
        install_ids()
        return globals()['run_' + sc['prop'].lower()](sc, d)
    return proc.in_child(go, cpu=200)


def same_outcome(w, what, res, st, prods, ref, bs, attrs=True, skip=()):
    """a run without faults against its reference"""
    if ref['res'] != 'ok':
        if res == 'ok':
            w.viol.append(['outcome', '%s succeeds, the reference fails with %s' % (what, ref['status'])])
        return
    if res != 'ok':
        w.viol.append(['outcome', '%s fails: %s: %s; the reference run succeeds' % (what, type(st).__name__, st)])
        return
    if bad_status(st) != bad_status(ref['status']):
        w.viol.append(['outcome', '%s returns %r, the reference run %r' % (what, st, ref['status'])])
        return
    for p in ('l1b', 'l1bs') if bs else ('l1b',):
        x = differ(prods[p], ref[p], attrs=attrs, skip=skip)
        if x is not None:
            w.viol.append(['product', '%s: %s product differs: %s' % (what, p.upper(), x)])
            return


# ---- P01 -----------------------------------------------------------------------
def run_p01(sc, d):
    w = World(sc, d)
    env, bs = w.env, sc['bs']
    aux = env.aux(sc['conf'])
    todo = sc['runs'] + [{'in': sc['in']}]
    paths = [env.input(e['in'], where='in%d' % i) for i, e in enumerate(todo)]
    refs = {}
    for i, e in enumerate(todo):
        if not e.get('faults') and 'cancel' not in e:
            refs[i] = reference(env, e['in'], sc['conf'], bs)
    sim = w.start()
    from .. import ncsim
    _, Rec, _ = monitors()
    out = os.path.join(env.root, 'out')
    p = sim.op(lambda: processor(aux, out, bs))[1]
    odd = False
    for i, e in enumerate(todo):
        m = Rec(e.get('cancel'))
        res, st = sim.op(call(lambda: p.process(paths[i], m)), e.get('faults'))
        w.log.append((res, str(st) if res == 'ok' else type(st).__name__, sorted((e.get('faults') or {}).values())))
        fail = (res, st if res == 'ok' else type(st)(str(st)) if type(st) in (ValueError, RuntimeError, Exception, IndexError) else st)
        if res != 'ok':
            odd = True
            import traceback
            traceback.clear_frames(st.__traceback__)
        w.stop()
        if i in refs:
            same_outcome(w, 'run %d' % (i + 1) if i + 1 < len(todo) else 'the last of %d runs' % len(todo), res, st,
                         products(out, bs), refs[i], bs)
        if m.cancelled:
            odd = True
        Sim.current = sim
        if w.viol:
            break
        st = fail = None
        if res != 'ok':
            ncsim.drop_handles()       # P06 looks at files left open
    w.stop()
    return w.out(odd or len({json.dumps(e['in']) for e in todo}) > 1)


# ---- P02 -----------------------------------------------------------------------
LONG = [5000, 97]
SKIP = ('records_count',)


def piece(env, p, salt, c, bs):
    """records of one gap-free piece: processed alone, or if that is too short, in front of a long piece far away"""
    r = reference(env, {'pieces': [p], 'salt': salt}, c, bs)
    if r['res'] == 'ok':
        return {k: rows(r[k], 0, r[k]['n']) for k in ('l1b', 'l1bs') if r[k]}
    far = reference(env, {'pieces': [LONG], 'salt': salt}, c, bs)
    r = reference(env, {'pieces': [p, LONG], 'salt': salt}, c, bs)
    if r['res'] != 'ok' or far['res'] != 'ok':
        return None
    return {k: rows(r[k], 0, r[k]['n'] - far[k]['n']) for k in ('l1b', 'l1bs') if r[k]}


def rows(x, a, b):
    return {'n': b - a, 'vars': {v: x['vars'][v][a:b] for v in x['rec']}}


def run_p02(sc, d):
    w = World(sc, d)
    env, bs, c = w.env, sc['bs'], sc['conf']
    spec = {'pieces': sc['pieces'], 'salt': sc['salt']}
    # pieces that touch are one piece
    ps = []
    for s, n in sc['pieces']:
        if ps and ps[-1][0] + ps[-1][1] == s:
            ps[-1][1] += n
        else:
            ps.append([s, n])
    parts = [piece(env, p, sc['salt'], c, bs) for p in ps]
    alone = [reference(env, {'pieces': [p], 'salt': sc['salt']}, c, bs)['res'] == 'ok' for p in ps]
    path = env.input(spec)
    aux = env.aux(c)
    sim = w.start()
    out = os.path.join(env.root, 'out')
    res, st = sim.op(lambda: processor(aux, out, bs).process(path))
    w.log.append((res, str(st) if res == 'ok' else type(st).__name__))
    w.stop()
    if len(ps) == 1 and not alone[0]:
        return w.out(False)
    if any(x is None for x in parts):
        w.viol.append(['short', 'an input with a short piece before a long one cannot be processed'])
    elif res != 'ok':
        if any(alone):
            w.viol.append(['lost', 'pieces of %s records: no product because of %s: %s' % (
                [n for _, n in ps], type(st).__name__, st)])
    elif bad_status(st):
        w.viol.append(['outcome', 'the run returns %r' % (st,)])
    else:
        prods = products(out, bs)
        for k in ('l1b', 'l1bs') if bs else ('l1b',):
            x = prods[k]
            if x is None or 'broken' in x:
                w.viol.append(['product', 'no readable %s product' % k.upper()])
                break
            want = sum(p[k]['n'] for p in parts)
            at = 0
            for i, p in enumerate(parts):
                for v in sorted(p[k]['vars']):
                    if v.split('_l1b')[0] in SKIP or w.viol:
                        continue
                    y = p[k]['vars'][v]
                    df = arrays(x['vars'][v][at:at + p[k]['n']], y)
                    if df is not None:
                        w.viol.append(['piece', '%s of piece %d of %s records: %s%s (processed together with the others '
                                       'against alone)' % (k.upper(), i + 1, [n for _, n in ps], v, df)])
                at += p[k]['n']
            if x['n'] != want and not w.viol:
                w.viol.append(['count', '%d %s records, the pieces %s give %d' % (
                    x['n'], k.upper(), [n for _, n in ps], want)])
            if w.viol:
                break
    return w.out(len(ps) > 1)


# ---- P03 -----------------------------------------------------------------------
def used(aux, path):
    """the times of the records the processor is given"""
    from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
    from dedop.data.input.l1a import L1ADataset
    cst = ConstantsFile(aux['CST'])
    ds = L1ADataset(path, cst=cst, chd=CharacterisationFile(cst, aux['CHD']), cnf=ConfigurationFile(aux['CNF']))
    out = []
    try:
        while True:
            try:
                p = next(ds)
            except StopIteration:
                return out
            if p is not None:
                out.append(float(p.time_sar_ku))
    finally:
        ds.close()


def run_p03(sc, d):
    w = World(sc, d)
    env, bs, c = w.env, sc['bs'], sc['conf']
    spec = sc['in']
    all_slots = slots(spec)
    n = len(all_slots)
    inv = [i for i in sc['inv'] if i < n]
    keep = None
    c2 = c
    if 'roi' in sc:
        a, b, how = sc['roi'][:3]
        keep = [a if how != 'max' else -10 ** 6, b if how != 'min' else 10 ** 6]
        c2 = dict(c, roi=sc['roi'])
    usable = [s for i, s in enumerate(all_slots) if i not in inv and (keep is None or keep[0] <= s <= keep[1])]
    nun = n - len(usable)
    ref = reference(env, spec, c, bs, drop=inv, keep=keep) if usable else {'res': 'err', 'status': 'no records'}
    path = env.input(spec, inv=inv)
    aux = env.aux(c2)
    sim = w.start()
    out = os.path.join(env.root, 'out')
    res, st = sim.op(lambda: processor(aux, out, bs).process(path))
    w.log.append((res, str(st) if res == 'ok' else type(st).__name__))
    got = sim.op(lambda: used(aux, path))[1]
    w.stop()
    what = '%d of %d records unusable (%s%s)' % (nun, n, inv[:6], ', region %s' % sc['roi'] if 'roi' in sc else '')
    want = [G.time_of(s) for s in usable]
    if got != want:
        lost = [x for x in (want if isinstance(got, list) else []) if x not in got]
        w.viol.append(['read', '%s: %s' % (what, '%d usable records are not read' % len(lost) if lost else
                                           'unusable records are read' if isinstance(got, list) else
                                           'reading fails: %s' % type(got).__name__)])
    elif ref['res'] != 'ok':
        if res == 'ok':
            w.viol.append(['outcome', '%s: succeeds; without those records it fails' % what])
    elif res != 'ok':
        w.viol.append(['outcome', '%s: fails with %s: %s; without those records it succeeds' % (
            what, type(st).__name__, st)])
    else:
        # unusable records at the ends may show in the times of the metadata
        noattr = TIMES + ('first_meas_time', 'last_meas_time') if inv else TIMES
        prods = products(out, bs)
        for k in ('l1b', 'l1bs') if bs else ('l1b',):
            x = differ(prods[k], ref[k], noattr=noattr)
            if x is not None:
                w.viol.append(['product', '%s: %s product differs: %s' % (what, k.upper(), x)])
                break
    return w.out(nun > 0)


# ---- P04 -----------------------------------------------------------------------
def run_p04(sc, d):
    w = World(sc, d)
    env, bs = w.env, sc['bs']
    ref = reference(env, sc['in'], sc['conf'], bs)
    path = env.input(sc['in'])
    aux = env.aux(sc['conf'])
    sim = w.start()
    _, Rec, Con = monitors()
    m = Con(sc.get('cancel')) if sc.get('mon') == 'console' else Rec(sc.get('cancel'))
    rec = getattr(m, 'rec', m)
    written = [0, None]

    def obs(t, kind, what, f):
        if kind == 'nc-write' and ':time_l1b_' in what:
            written[0] += 1
        if 'cancel_at' in sc and sim.points >= sc['cancel_at'] and not rec.cancelled:
            m.cancel()
            rec.cancel()
        if rec.cancelled and written[1] is None:
            written[1] = written[0]
    sim.observer = obs
    out = os.path.join(env.root, 'out')
    res, st = sim.op(lambda: processor(aux, out, bs).process(path, m))
    w.log.append((res, str(st) if res == 'ok' else type(st).__name__, rec.cancelled))
    w.stop()
    prods = products(out, bs)
    early = False
    if ref['res'] != 'ok':
        pass
    elif res != 'ok':
        w.viol.append(['outcome', 'the cancelled run fails: %s: %s' % (type(st).__name__, st)])
    elif not bad_status(st):
        for k in ('l1b', 'l1bs') if bs else ('l1b',):
            x = differ(prods[k], ref[k])
            if x is not None:
                w.viol.append(['status', 'the cancelled run reports success, but the %s product is incomplete: %s' % (
                    k.upper(), x)])
                break
    else:
        early = True
        if not rec.cancelled:
            w.viol.append(['status', 'a run that was not cancelled returns %r' % (st,)])
        for k in ('l1b', 'l1bs') if bs else ('l1b',):
            if w.viol:
                break
            p = prods[k]
            if p is None or 'broken' in p:
                w.viol.append(['product', 'the %s product of a cancelled run cannot be read' % k.upper()])
            elif p['n'] > ref[k]['n']:
                w.viol.append(['product', 'the cancelled run has more %s records' % k.upper()])
            else:
                x = differ(p, ref[k], n=p['n'])
                if x is not None:
                    w.viol.append(['product', 'the %s product of a cancelled run is not the beginning of the whole: %s'
                                   % (k.upper(), x)])
        if not w.viol and written[1] is not None:
            if written[0] - written[1] > 2:
                w.viol.append(['late', '%d more records are written after the cancellation' % (written[0] - written[1])])
            elif rec.worked() - rec.when > 2:
                w.viol.append(['late', '%d more records are read after the cancellation' % (rec.worked() - rec.when)])
    if not w.viol and res == 'ok' and not bad_status(st) and rec.cancelled and written[1] is not None and \
            written[0] - written[1] > 2:
        w.viol.append(['late', 'the run goes on to the end for %d records after the cancellation' % (
            written[0] - written[1])])
    return w.out(early)


# ---- P05, P06 ------------------------------------------------------------------
def run_p05(sc, d):
    w = World(sc, d)
    env, bs = w.env, sc['bs']
    ref = reference(env, sc['in'], sc['conf'], bs)
    path = env.input(sc['in'])
    aux = env.aux(sc['conf'])
    sim = w.start()
    out = os.path.join(env.root, 'out')
    res, st = sim.op(lambda: processor(aux, out, bs).process(path), sc['faults'])
    hits = sim.main_task.last_hits
    w.log.append((res, str(st) if res == 'ok' else type(st).__name__, [h[1:] for h in hits]))
    w.stop()
    if res == 'ok' and not bad_status(st):
        prods = products(out, bs)
        for k in ('l1b', 'l1bs') if bs else ('l1b',):
            x = differ(prods[k], ref[k])
            if x is not None:
                w.viol.append(['silent' if hits else 'product', 'after %s the run reports success, but %s: %s' % (
                    ', '.join('a failed %s of %s' % (h[1], h[2]) for h in hits[:2]) or 'no failure', k.upper(), x)])
                break
    elif ref['res'] != 'ok':
        pass
    elif not hits and res != 'ok':
        w.viol.append(['outcome', 'the run fails without a failure: %s: %s' % (type(st).__name__, st)])
    elif not hits:
        w.viol.append(['outcome', 'the run returns %r without a failure' % (st,)])
    return w.out(bool(hits))


def run_p06(sc, d):
    w = World(sc, d)
    env, bs = w.env, sc['bs']
    ref = reference(env, sc['in'], sc['conf'], bs)
    path = env.input(sc['in'])
    aux = env.aux(sc['conf'])
    sim = w.start()
    from .. import ncsim
    _, Rec, _ = monitors()
    out = os.path.join(env.root, 'out')
    p = sim.op(lambda: processor(aux, out, bs))[1]
    m = Rec(sc.get('cancel'))
    res, st = sim.op(call(lambda: p.process(path, m)), sc['faults'])
    hits = sim.main_task.last_hits
    w.log.append((res, str(st) if res == 'ok' else type(st).__name__, [h[1:] for h in hits]))
    how = '%s after %s' % (res if res != 'ok' else 'return', ', '.join('a failed %s' % h[1] for h in hits[:2]) or
                           ('cancellation' if m.cancelled else 'completion'))
    incomplete = res != 'ok' or bad_status(st)
    st = None
    left = ncsim.open_handles()
    if left:
        w.viol.append(['open', '%s: still open: %s' % (how, ', '.join(left))])
    if not w.viol:
        q = p if sc.get('same') else sim.op(lambda: processor(aux, out, bs))[1]
        res, st = sim.op(call(lambda: q.process(path)))
        w.log.append((res, str(st) if res == 'ok' else type(st).__name__))
        w.stop()
        same_outcome(w, 'the same run again (%s)' % how, res, st, products(out, bs), ref, bs)
        st = None
        Sim.current = sim
        left = ncsim.open_handles()
        if left and not w.viol:
            w.viol.append(['open', 'after a complete run still open: %s' % ', '.join(left)])
    w.stop()
    return w.out(incomplete)


# ---- P07 -----------------------------------------------------------------------
def run_p07(sc, d):
    w = World(sc, d)
    env = w.env
    single = reference(env, sc['in'], sc['conf'], False)
    both = reference(env, sc['in'], sc['conf'], True)
    path = env.input(sc['in'])
    aux = env.aux(sc['conf'])
    sim = w.start()
    _, Rec, _ = monitors()
    out = os.path.join(env.root, 'out')
    m = Rec(sc.get('cancel'))
    res, st = sim.op(lambda: processor(aux, out, True).process(path, m))
    w.log.append((res, str(st) if res == 'ok' else type(st).__name__, m.cancelled))
    w.stop()
    prods = products(out, True)
    n = 0
    if res != 'ok':
        if single['res'] == 'ok':
            w.viol.append(['outcome', 'with an L1BS product the run fails: %s: %s' % (type(st).__name__, st)])
    else:
        a, b = prods['l1b'], prods['l1bs']
        for x, k in ((a, 'L1B'), (b, 'L1BS')):
            if x is None or 'broken' in x:
                w.viol.append(['product', 'no readable %s product' % k])
        if not w.viol and a['n'] != b['n']:
            w.viol.append(['step', '%d L1B records, %d L1BS records' % (a['n'], b['n'])])
        if not w.viol:
            n = a['n']
            for f, tol in (('time', 0), ('lat', 1.1e-6), ('lon', 1.1e-6), ('x_pos', 0.02), ('alt', 0.02)):
                u, v = scaled(a, f), scaled(b, f)
                bad = np.argwhere(~(np.abs(u - v) <= tol))
                if bad.size:
                    w.viol.append(['step', '%s of record %d is %r in L1B and %r in L1BS' % (
                        f, bad[0][0], u[bad[0][0]], v[bad[0][0]])])
                    break
        if not w.viol and single['res'] == 'ok':
            x = differ(a, single['l1b'], n=a['n'])
            if x is not None:
                w.viol.append(['l1b', 'with an L1BS product the L1B product differs: %s' % x])
            elif a['n'] > single['l1b']['n'] or not m.cancelled and a['n'] != single['l1b']['n']:
                w.viol.append(['l1b', 'with an L1BS product the L1B product has %d records instead of %d' % (
                    a['n'], single['l1b']['n'])])
            x = differ(b, both['l1bs'], n=b['n'])
            if x is not None and not w.viol:
                w.viol.append(['l1bs', 'the L1BS product is not the beginning of the whole: %s' % x])
    return w.out(n > 0)


def scaled(p, short):
    v = [x for x in p['vars'] if x.split('_l1b')[0] == short][0]
    at = p['vattrs'][v]
    return p['vars'][v].astype(float) * float(at.get('scale_factor', 1)) + float(at.get('add_offset', 0))


# ---- P08 -----------------------------------------------------------------------
def run_p08(sc, d):
    import datetime
    w = World(sc, d, clock0=sc['clock0'])
    env, bs = w.env, sc['bs']
    ref = reference(env, sc['in'], sc['conf'], bs)
    deep = {'deep': 'some/where/else', 'link': 'elsewhere'}.get(sc['where'], 'in')
    path = env.input(sc['in'], where=deep)
    aux = env.aux(sc['conf'], where=deep + '/conf')
    if sc['where'] == 'link':
        os.symlink(os.path.join(env.root, deep), os.path.join(env.root, 'lnk'))
        path = path.replace('/elsewhere/', '/lnk/')
        aux = {k: v.replace('/elsewhere/', '/lnk/') for k, v in aux.items()}
    out = os.path.join(env.root, sc['out'])
    os.makedirs(out, exist_ok=True)
    for f in ('L1B__x_n.nc', 'L1BS__x_n.nc'):
        if sc['left'] == 'garbage':
            with open(os.path.join(out, f), 'wb') as fp:
                fp.write(b'\x89HDF\r\n\x1a\n' + b'x' * 5000)
        elif sc['left'] in ('other', 'same'):
            o = reference_file(env, f, sc)
            if o:
                with open(o, 'rb') as a, open(os.path.join(out, f), 'wb') as b:
                    b.write(a.read())
    if 'hashseed' in sc:
        return hashseed(w, sc, path, aux, out, ref, bs)
    cwd = os.getcwd()
    out_real = out
    if sc['where'] == 'rel':
        os.chdir(env.root)
        path = os.path.relpath(path, env.root)
        aux = {k: os.path.relpath(v, env.root) for k, v in aux.items()}
        out = os.path.relpath(out, env.root)
        if sc['out'].endswith('/'):
            out += '/'
    sim = w.start()
    Monitor, Rec, Con = monitors()
    for e in sc['runs']:                 # other processors have run before in this program
        sim.op(lambda: processor(env.aux(e['conf'], where='before'), os.path.join(env.root, 'before'), bs).process(
            env.input(e['in'], where='before-' + key(e['in']))))
    gc.collect()
    jumps = sorted([sim.points + k, x] for k, x in sc['jumps'])
    after = []

    def hook(s):
        while jumps and s.points >= jumps[0][0]:
            s.clock = max(0.0, s.clock + jumps.pop(0)[1])
            EVENTS['clock-jump'] += 1

    def obs(t, kind, what, f):
        if kind == 'nc-write':
            after.clear()
        after.append(sim.clock)
    sim.clock_hook = hook
    sim.observer = obs
    np.random.seed(sc['noise'])
    import random
    random.seed(sc['noise'])
    top = Rec()
    if sc['empty']:
        fill_empty(sc['empty'], sc['noise'])
    m = {'null': Monitor.NULL, 'rec': top, 'console': Con(), 'child': top.child(7)}[sc['mon']]
    res, st = sim.op(lambda: processor(aux, out, bs).process(path, m))
    w.log.append((res, str(st) if res == 'ok' else type(st).__name__))
    w.stop()
    os.chdir(cwd)
    prods = products(out_real, bs)
    what = 'with %s' % {k: sc[k] for k in ('clock0', 'mon', 'out', 'left', 'where', 'jumps', 'empty')}
    if sc['runs']:
        what = 'after runs of other processors, ' + what
    same_outcome(w, what, res, st, prods, ref, bs)
    if res == 'ok' and not w.viol:
        for k in ('l1b', 'l1bs') if bs else ('l1b',):
            ct = prods[k]['attrs'].get('creation_time')
            try:
                t = datetime.datetime.fromisoformat(ct)
                t = t.timestamp() if t.tzinfo is not None else None
            except (TypeError, ValueError):
                t = None
            if t is None or not min(after) - 2 <= t <= max(after) + 2:
                w.viol.append(['creation', 'the creation time of the %s product is %s, the run ended at %.0f' % (
                    k.upper(), ct, max(after))])
                break
    return w.out(True, extra=(sc['out'], sc['left'], sc['where'], sc['mon']))


def fill_empty(how, seed):
    """what memory that is not initialised holds: anything"""
    real, like, rng = np.empty, np.empty_like, np.random.RandomState(seed)

    def fill(a):
        if a.dtype.kind in 'fc':
            EVENTS['poisoned-memory'] += 1
            a[...] = {'nan': np.nan, 'big': 1e200 if a.dtype.itemsize >= 8 else 1e30, 'random': rng.rand() * 1e6}[how]
        elif a.dtype.kind in 'iu':
            a[...] = {'nan': 0, 'big': np.iinfo(a.dtype).max, 'random': rng.randint(100)}[how]
        elif a.dtype.kind == 'b':
            a[...] = True
        return a
    np.empty = lambda *a, **k: fill(real(*a, **k))
    np.empty_like = lambda *a, **k: fill(like(*a, **k))


def reference_file(env, f, sc):
    """a product of an earlier run, of another or the same input"""
    spec = sc['in'] if sc['left'] == 'same' else {'pieces': [[640, 125]], 'salt': 1}
    c = sc['conf'] if sc['left'] == 'same' else {}
    k = os.path.join(env.cache, 'left-%s-%s' % (key(spec, c), f))
    if not os.path.exists(k):
        proc.in_child(lambda: make_left(env, spec, c), cpu=100)
    return k if os.path.exists(k) else None


def make_left(env, spec, c):
    path = env.input(spec, where='left-in')
    aux = env.aux(c)
    sim = Sim(env.root)
    Sim.current = sim
    sim.enter_main()
    out = os.path.join(env.root, 'left-out')
    sim.op(lambda: processor(aux, out, True).process(path))
    Sim.current = None
    for g in ('L1B__x_n.nc', 'L1BS__x_n.nc'):
        if os.path.exists(os.path.join(out, g)):
            kk = os.path.join(env.cache, 'left-%s-%s' % (key(spec, c), g))
            os.link(os.path.join(out, g), kk + '.%d' % os.getpid())
            os.rename(kk + '.%d' % os.getpid(), kk)


HASHRUN = '''
import sys, os, json
sys.path.insert(0, %(verif)r)
from dst import boot
boot.processor()
from dst.kernel import Sim
sim = Sim(%(root)r)
Sim.current = sim
sim.enter_main()
from dst.worlds import sar
r = sim.op(lambda: sar.processor(%(aux)r, %(out)r, %(bs)r).process(%(path)r))
Sim.current = None
sys.exit(0 if r[0] == 'ok' else 3)
'''


def hashseed(w, sc, path, aux, out, ref, bs):
    """the run in a fresh interpreter with another hash seed"""
    from .. import fs
    w.start()
    w.stop()
    verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = HASHRUN % {'verif': verif, 'root': w.env.root, 'aux': aux, 'out': out, 'bs': bs, 'path': path}
    import sys
    pid = proc._fork()
    if pid == 0:
        os.execve(sys.executable, [sys.executable, '-c', code], dict(os.environ, PYTHONHASHSEED=str(sc['hashseed'])))
    _, status = os.waitpid(pid, 0)
    ok = os.WIFEXITED(status) and os.WEXITSTATUS(status)
    w.log.append(('hashseed', sc['hashseed'], ok))
    same_outcome(w, 'with hash seed %d' % sc['hashseed'], 'ok' if ok == 0 else 'err', None, products(out, bs), ref, bs)
    return w.out(True, extra=sc['hashseed'])


# ---- P09 -----------------------------------------------------------------------
def run_p09(sc, d):
    w = World(sc, d)
    env, bs = w.env, sc['bs']
    cl = sc['clients']
    same_input = {}
    paths = []
    for i, e in enumerate(cl):
        k = json.dumps(e['in'], sort_keys=True)
        if k not in same_input:
            same_input[k] = env.input(e['in'], where='in%d' % i)
        paths.append(same_input[k])
    auxs = [env.aux(e['conf']) for e in cl]
    Monitor, Rec, _ = monitors()
    from .. import ncsim

    def one(sim, i, out, m):
        return sim.op(call(lambda: processor(auxs[i], out, bs).process(paths[i], m)), cl[i].get('faults'))

    def short(r):
        return (r[0], (r[1] if r[0] == 'ok' else type(r[1]).__name__ + ': ' + str(r[1]).replace(d, '')))
    # one after the other
    alone = []
    for i, e in enumerate(cl):
        k = os.path.join(env.cache, 'solo-%s.pkl' % key(e, bs))
        if os.path.exists(k):
            with open(k, 'rb') as fp:
                alone.append(pickle.load(fp))
            continue

        def solo(i=i, e=e):
            sim = Sim(env.root)
            Sim.current = sim
            sim.enter_main()
            out = os.path.join(env.root, 'solo%d' % i)
            r = short(one(sim, i, out, Rec(e.get('cancel'))))
            hits = [h[1] for h in sim.main_task.last_hits]
            Sim.current = None
            ncsim.drop_handles()
            return {'r': r, 'hits': hits, 'p': products(out, bs) if r[0] == 'ok' else None}
        val = proc.in_child(solo, cpu=100)
        tmp = k + '.%d' % os.getpid()
        with open(tmp, 'wb') as fp:
            pickle.dump(val, fp)
        os.rename(tmp, k)
        alone.append(val)
    w.kw = {'sched': sc['sched'], 'line_preempt': sc['lines']}
    sim = w.start()
    mons = [Rec(e.get('cancel')) for e in cl]
    got = [None] * len(cl)

    def body(i):
        def f(task):
            r = one(sim, i, os.path.join(env.root, 'out%d' % i), mons[i])
            got[i] = short(r)
            return None
        return f
    import warnings
    before = len(warnings.filters)
    tasks = sim.run_tasks([body(i) for i in range(len(cl))])
    res = [t.result for t in tasks]
    nsw = len(sim.sched.log)
    sim.tasks = []
    if sim.deadlock:
        w.viol.append(['deadlock', 'concurrent runs block each other'])
    for i, t in enumerate(tasks):
        if t.result and t.result[0] in ('harness', 'hang') and not w.viol:
            raise proc.HarnessError(str(t.result[1]))
        w.log.append(('run', got[i], [h[1] for h in t.last_hits]))
    w.stop()
    ncsim.drop_handles()
    for i, e in enumerate(cl):
        if w.viol:
            break
        a = alone[i]
        if got[i] is None:
            w.viol.append(['outcome', 'run %d does not end' % (i + 1)])
        elif got[i][0] != a['r'][0] or got[i][0] == 'ok' and bad_status(got[i][1]) != bad_status(a['r'][1]):
            w.viol.append(['outcome', 'run %d of %d concurrent ones ends with %s, alone with %s' % (
                i + 1, len(cl), got[i], a['r'])])
        elif got[i][0] == 'ok':
            p = products(os.path.join(env.root, 'out%d' % i), bs)
            for k in ('l1b', 'l1bs') if bs else ('l1b',):
                x = differ(p[k], a['p'][k])
                if x is not None:
                    w.viol.append(['product', 'run %d of %d concurrent ones: %s product differs from that of the run '
                                   'alone: %s' % (i + 1, len(cl), k.upper(), x)])
                    break
    return w.out(nsw >= 2)


# ---- P10 -----------------------------------------------------------------------
def run_p10(sc, d):
    w = World(sc, d)
    env, bs = w.env, sc['bs']
    inv = [i for i in sc.get('inv', []) if i < len(slots(sc['in']))]
    path = env.input(sc['in'], inv=inv)
    aux = env.aux(sc['conf'])
    sim = w.start()
    _, Rec, _ = monitors()
    top = Rec(sc.get('cancel'))
    m = top
    total = len(slots(sc['in']))
    if sc['mon'] == 'child':
        total = 50.0
        m = top.child(total)
    out = os.path.join(env.root, 'out')
    res, st = sim.op(lambda: processor(aux, out, bs).process(path, m), sc.get('faults'))
    w.log.append((res, str(st) if res == 'ok' else type(st).__name__, len(top.log)))
    w.stop()
    log = top.log
    if sc['mon'] != 'child':
        starts = [x for x in log if x[0] == 'start']
        dones = [x for x in log if x[0] == 'done']
        if len(starts) > 1 or len(dones) != len(starts):
            w.viol.append(['start', 'the task is started %d times and ended %d times' % (len(starts), len(dones))])
        elif res == 'ok' and not starts:
            w.viol.append(['start', 'the task is never started'])
        elif starts and (log[0][0] != 'start' or log[-1][0] != 'done'):
            w.viol.append(['start', 'there are reports before the start or after the end'])
        elif starts and starts[0][1] != total:
            w.viol.append(['total', 'the total work is %r, the input has %d records' % (starts[0][1], total)])
    done = 0.0
    for x in log:
        if x[0] == 'progress' and not w.viol:
            if x[2] is not None:
                w.viol.append(['message', 'the message of a report is of type %s' % x[2]])
            if x[1] is not None and x[1] < 0:
                w.viol.append(['backwards', 'work of %r is reported' % x[1]])
            done += x[1] or 0
            if done > total + 1e-6:
                w.viol.append(['over', '%r of %r units are done' % (done, total)])
    if not w.viol and res == 'ok' and not bad_status(st) and abs(done - total) > 1e-6:
        w.viol.append(['missing', 'the run completes after %r of %r units' % (done, total)])
    return w.out(True)


# ---- P11 -----------------------------------------------------------------------
#: product variable -> input variable, for what is taken over from one burst
TAKEN = {n: n for n in ('isp_coarse_time', 'isp_fine_time', 'sral_fine_time', 'flag_time_status', 'nav_bul_status',
                        'nav_bul_source', 'seq_count', 'oper_instr', 'SAR_mode', 'cl_gain', 'acq_stat', 'dem_eeprom',
                        'loss_track', 'h0_nav_dem', 'h0_applied', 'cor2_nav_dem', 'cor2_applied', 'dh0', 'agccode_ku',
                        'surf_type', 'uso_cor', 'int_path_cor_ku', 'agc_ku', 'sig0_cal_ku')}


def column(p, name, kind):
    """a variable of a product with its scale applied, or None"""
    n = '%s_%s_echo_sar_ku' % (name, kind)
    if p is None or n not in p['vars']:
        return None
    a = p['vattrs'][n]
    return p['vars'][n].astype(float) * float(a.get('scale_factor', 1)) + float(a.get('add_offset', 0))


def stretches(sl):
    """gap-free stretches of a list of slots"""
    out = []
    for s in sl:
        if out and s == out[-1][-1] + 1:
            out[-1].append(s)
        else:
            out.append([s])
    return out


def on_track(p, kind, spec, inv, c, l1a, looks, whole=None):
    """what is wrong with the records of a product, or None"""
    t0 = spec.get('t0', G.T0)
    usable = [s for i, s in enumerate(slots(spec)) if i not in set(inv)]
    order = {s: i for i, s in enumerate(slots(spec))}
    t = column(p, 'time', kind)
    n = len(t)
    if n == 0:
        return None
    sl = (t - t0) / G.BRI
    if n > 1 and not np.all(np.diff(t) > 0):
        i = int(np.argmin(np.diff(t)))
        return 'records %d and %d are not in the order of time' % (i, i + 1)
    step = None
    for st in stretches(usable):
        q = sl[(sl >= st[0] - 1e-4) & (sl <= st[-1] + 1e-4)]
        if len(q) > 2 and 'focus' not in c:         # a surface moved to a target off the input is lost
            d = np.diff(q)
            step = step or float(np.median(d))
            if d.max() > 1.5 * step or d.min() < .5 * step:
                return 'the records within one gap-free stretch are %.2f to %.2f bursts apart' % (d.min(), d.max())
    inside = np.zeros(n, bool)
    for st in stretches(usable):
        inside |= (sl >= st[0] - 1e-4) & (sl <= st[-1] + 1e-4)
    if not inside.all():
        return 'record %d lies at burst %.2f, where there is no input' % (int(np.argmin(inside)), sl[np.argmin(inside)])
    day, sec = column(p, 'UTC_day', kind), column(p, 'UTC_sec', kind)
    if day is not None and sec is not None:
        bad = np.abs(day * 86400.0 + sec - t) > 1e-3
        bad |= (sec < -1e-6) | (sec > 86400.0 + 1e-3)
        if bad.any():
            i = int(np.argmax(bad))
            return 'record %d: UTC day %d and second %.3f, the time is day %d, second %.3f' % (
                i, day[i], sec[i], t[i] // 86400, t[i] % 86400)
    want = [G.state(x, spec.get('zero')) for x in sl]
    for name, f, tol in (('lat', 'lat', 5e-6), ('lon', 'lon', 5e-6), ('alt', 'alt', .05), ('x_pos', 'x', .6), ('y_pos', 'y', .6),
                         ('z_pos', 'z', .6)):
        x = column(p, name, kind)
        if x is None:
            continue
        bad = x - np.array([w[f] for w in want])
        if name == 'lon':
            bad = (bad + 180.0) % 360.0 - 180.0
        bad = np.abs(bad) > tol
        if name in ('lat', 'lon') and 'focus' in c and bad.sum() <= 1:
            continue                                # one surface is moved to the target
        if bad.any():
            i = int(np.argmax(bad))
            return '%s of record %d is %s, the track has %s there' % (name, i, x[i], want[i][f])
    gps = column(p, 'GPS_time', kind)
    if gps is not None and np.ptp(gps - t) > 1e-3:
        i = int(np.argmax(np.abs(gps - t - np.median(gps - t))))
        return 'the GPS time of record %d is %.3f s off' % (i, abs(gps[i] - t[i] - np.median(gps - t)))
    at = np.array([order[x] for x in usable])
    for name in ('x_vel', 'y_vel', 'z_vel'):
        x = column(p, name, kind)
        if x is None:
            continue
        y = np.interp(sl, usable, l1a[name + '_l1a_echo_sar_ku'][at])
        bad = np.abs(x - y) > .1
        if bad.any():
            i = int(np.argmax(bad))
            return '%s of record %d is %s, the input has %s there' % (name, i, x[i], y[i])
    h = column(p, 'h0_applied', kind)
    if h is not None:
        near = np.rint(h - 2000).astype(int)
        for i in range(n):
            b = int(near[i])
            if b not in order or order[b] in set(inv) or abs(b - sl[i]) > 2:
                return 'record %d (at burst %.2f) has values of burst %d' % (i, sl[i], b)
        rows = np.array([order[int(b)] for b in near])
        for name, src in TAKEN.items():
            x = column(p, name, kind)
            if x is None:
                continue
            y = l1a[src + '_l1a_echo_sar_ku'][rows]
            bad = np.abs(x - y) > 1e-6 + .006 * (name in ('agc_ku', 'sig0_cal_ku'))
            if bad.any():
                i = int(np.argmax(bad))
                return '%s of record %d is %s, that of the burst it is taken from is %s' % (name, i, x[i], y[i])
    nb = column(p, 'nb_stack', kind)
    if nb is not None and (nb.min() < 1 or nb.max() > looks):
        return '%d to %d beams in the stacks, %d are configured' % (nb.min(), nb.max(), looks)
    if 'focus' in c or looks > 9:
        return None
    # all the bursts around a record are in its stack, unless the input begins or ends there
    inner = np.zeros(n, bool)
    for st in stretches(usable):
        inner |= (sl >= st[0] + 12) & (sl <= st[-1] - 12)
    if whole is not None:
        inner &= sl <= whole - 12
    if nb is not None and (nb[inner] != looks).any():
        i = int(np.argmax(inner & (nb != looks)))
        return 'record %d (at burst %.2f) has %d of %d looks' % (i, sl[i], nb[i], looks)
    a, b = column(p, 'burst_start_ind', kind), column(p, 'burst_stop_ind', kind)
    if a is not None and b is not None:
        a, b = a / 3.0, b / 3.0                      # the sequence count of the input
        bad = inner & ((np.abs(b - a + 1 - looks) > 1e-6) | (np.abs((a + b) / 2 - sl) > 3))
        if bad.any():
            i = int(np.argmax(bad))
            return 'the stack of record %d (at burst %.2f) is of bursts %d to %d' % (i, sl[i], a[i], b[i])
    return None


def raw(path):
    from .. import ncsim
    ds = ncsim.Real(path)
    try:
        for v in ds.variables.values():
            v.set_auto_mask(False)
        return {n + '_l1a_echo_sar_ku': np.array(ds.variables[n + '_l1a_echo_sar_ku'][:], dtype=float)
                for n in list(TAKEN.values()) + ['x_vel', 'y_vel', 'z_vel']}
    finally:
        ds.close()


def run_p11(sc, d):
    w = World(sc, d)
    env, bs = w.env, sc['bs']
    inv = [i for i in sc.get('inv', []) if i < len(slots(sc['in']))]
    path = env.input(sc['in'], inv=inv)
    l1a = raw(path)
    usable = [s for i, s in enumerate(slots(sc['in'])) if i not in set(inv)]
    aux = env.aux(sc['conf'])
    sim = w.start()
    _, Rec, _ = monitors()
    out = os.path.join(env.root, 'out')
    m = Rec(sc.get('cancel'))
    res, st = sim.op(lambda: processor(aux, out, bs).process(path, m))
    w.log.append((res, str(st) if res == 'ok' else type(st).__name__))
    w.stop()
    n = 0
    if res == 'ok':
        prods = products(out, bs)
        for k in ('l1b', 'l1bs') if bs else ('l1b',):
            p = prods[k]
            if p is None or 'broken' in p:
                w.viol.append(['product', 'no readable %s product' % k.upper()])
                break
            n += p['n']
            x = on_track(p, k, sc['in'], inv, sc['conf'], l1a, sc['conf'].get('looks', 6),
                         usable[min(len(usable), m.worked()) - 1] if m.cancelled else None)
            if x is not None:
                w.viol.append(['record', '%s product: %s' % (k.upper(), x)])
                break
    elif not m.cancelled and max(len(x) for x in stretches(usable)) >= 97:
        w.viol.append(['outcome', 'the run fails: %s: %s' % (type(st).__name__, st)])
    return w.out(n > 0)


# ---- P12 -----------------------------------------------------------------------
REACH = 24      # no burst further away than this contributes to a surface of the synthetic instrument


def run_p12(sc, d):
    w = World(sc, d)
    env, bs, c = w.env, sc['bs'], sc['conf']
    ref = reference(env, sc['in'], c, bs)
    spec = json.loads(json.dumps(sc['in']))
    last = sum(spec['pieces'][-1])
    if sc.get('after'):
        spec['pieces'].append([last + sc['after'], sc['more']])
        limit = last - .5
    else:
        spec['pieces'][-1][1] += sc['more']
        limit = last - REACH
    path = env.input(spec)
    aux = env.aux(c)
    sim = w.start()
    out = os.path.join(env.root, 'out')
    res, st = sim.op(lambda: processor(aux, out, bs).process(path))
    w.log.append((res, str(st) if res == 'ok' else type(st).__name__))
    w.stop()
    if ref['res'] == 'ok':
        prods = products(out, bs)
        if res != 'ok' or bad_status(st):
            w.viol.append(['outcome', 'with %d more records at the end the run fails: %s' % (sc['more'], st)])
        for k in ('l1b', 'l1bs') if bs else ('l1b',):
            if w.viol:
                break
            t = column(ref[k], 'time', k)
            n = int(np.sum((t - G.T0) / G.BRI < limit))
            a, b = prods[k], ref[k]
            if a is None or 'broken' in a:
                w.viol.append(['product', 'no readable %s product' % k.upper()])
            elif a['n'] < n:
                w.viol.append(['count', '%d more records at the end of the input: %d %s records instead of at least %d' % (
                    sc['more'], a['n'], k.upper(), n)])
            else:
                for v in sorted(b['rec']):
                    if v.split('_l1b')[0] in SKIP:
                        continue
                    x = arrays(a['vars'][v][:n], b['vars'][v][:n])
                    if x is not None:
                        w.viol.append(['record', '%s%s because of %d more records at the end of the input' % (
                            v, x, sc['more'])])
                        break
    return w.out(True)


# ---- P13 -----------------------------------------------------------------------
ONLY_BS = ('xref_platform',)


def run_p13(sc, d):
    import datetime
    w = World(sc, d)
    env, bs, c = w.env, sc['bs'], sc['conf']
    inv = [i for i in sc.get('inv', []) if i < len(slots(sc['in']))]
    path = env.input(sc['in'], inv=inv)
    before = [env.input(e['in'], name='L1A_b%d.nc' % k) for k, e in enumerate(sc.get('runs', []))]
    aux = env.aux(c)
    from .. import ncsim
    ds = ncsim.Real(path)
    try:
        lat, lon, t = (np.array(ds.variables[v + '_l1a_echo_sar_ku'][:]) for v in ('lat', 'lon', 'time'))
        have = {a: ds.getncattr(a) for a in ds.ncattrs()}
    finally:
        ds.close()
    with open(aux['CNF']) as fp:
        cnf = json.load(fp)
    with open(aux['CST']) as fp:
        cst = json.load(fp)
    ok = np.ones(len(t), dtype=bool)
    for v, x in (('lat', lat), ('lon', lon)):
        lo, hi = ((cnf.get('%s_%s_cnf' % (m, v)) or {}).get('value') for m in ('min', 'max'))
        if lo is not None:
            ok &= x >= lo
        if hi is not None:
            ok &= x <= hi
    if not ok.any():
        return w.out(False)
    t = t[ok]

    def iso(x):
        return datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=float(x))
    sim = w.start()
    _, Rec, _ = monitors()
    out = os.path.join(env.root, 'out')
    box = []

    def go():
        p = processor(aux, out, bs)
        for e, q in zip(sc.get('runs', []), before):
            try:
                p.process(q, Rec(e['cancel']))
            except Exception:
                pass
        box.append(1)
        return p.process(path, Rec(sc.get('cancel')))
    res, st = sim.op(go)
    w.log.append((res, str(st) if res == 'ok' else type(st).__name__))
    w.stop()
    if res != 'ok':
        if box and len(t) - len(inv) >= 97:
            w.viol.append(['outcome', 'the run fails: %s: %s' % (type(st).__name__, st)])
        return w.out(False)
    prods = products(out, bs)
    for k in ('l1b', 'l1bs') if bs else ('l1b',):
        p = prods[k]
        if p is None or 'broken' in p:
            w.viol.append(['product', 'no readable %s product' % k.upper()])
            break
        want = {g: str(have.get(g, 'Not available')) for g in G.GLOBALS if k == 'l1bs' or g not in ONLY_BS}
        name = have.get('product_name')
        want['product_name'] = 'Not available' if name is None else \
            name.replace('_A__', '____' if k == 'l1b' else '_BS_')
        want['semi_major_ellipsoid_axis'] = str(cst['semi_major_axis_cst']['value'])
        want['ellipsoid_flattening'] = str(cst['flat_coeff_cst']['value'])
        got = p['attrs']
        bad = [g for g in sorted(want) if got.get(g) != want[g]]
        if bad:
            w.viol.append(['attribute', '%s product: %s is %r, right is %r' % (
                k.upper(), bad[0], got.get(bad[0]), want[bad[0]])])
            break
        for g, x in (('first_meas_time', t[0]), ('last_meas_time', t[-1])):
            try:
                y = datetime.datetime.fromisoformat(got.get(g))
                far = abs((y - iso(x)).total_seconds()) > 2e-6
            except (TypeError, ValueError):
                far = True
            if far:
                w.viol.append(['attribute', '%s product: %s is %r, right is %r' % (
                    k.upper(), g, got.get(g), iso(x).isoformat())])
        if w.viol:
            break
    return w.out(True)


# ---- P14 -----------------------------------------------------------------------
OPTIONAL = ('min_lat_cnf', 'max_lat_cnf', 'min_lon_cnf', 'max_lon_cnf', 'look_angle_mask_min_chd', 'look_angle_mask_max_chd',
            'output_format_flag_cnf', 'flag_doppler_range_correction_cnf', 'flag_slant_range_correction_cnf',
            'flag_window_delay_alignment_method_cnf', 'flag_avoid_zeros_in_multilooking_cnf')     # these have defaults


def read_text(p):
    with open(p) as fp:
        return fp.read()


def tamper(path, how, other):
    """what someone else does to a configuration file"""
    EVENTS['conf-' + how] += 1
    if how == 'delete':
        os.remove(path)
        return
    text = read_text(other)
    if how == 'version':
        j = json.loads(text)
        j['__metainf__']['version'] += 1
        text = json.dumps(j)
    elif how == 'empty':
        text = ''
    elif how == 'garbage':
        text = '{"a": '
    if how == 'write':
        with open(path, 'w') as fp:
            fp.write(text)
    else:
        with open(path + '.new', 'w') as fp:
            fp.write(text)
        os.replace(path + '.new', path)


def spoil(path, how, at):
    """a file that must not be used (or, if unknown, makes no difference)"""
    EVENTS['conf-' + how] += 1
    text = read_text(path)
    if how == 'missing':
        os.remove(path)
        return
    if how == 'dir':
        os.remove(path)
        os.mkdir(path)
        return
    if how == 'cut':
        text = text[:int(at * text.rindex('}'))]
    elif how == 'list':
        text = json.dumps([1, 2, json.loads(text)])
    else:
        j = json.loads(text)
        v = j['__metainf__']['version']
        if how == 'version':
            j['__metainf__']['version'] = v + [1, 1, 2, 10][int(at * 4)]
        elif how == 'oldversion':
            j['__metainf__']['version'] = v - 1
        elif how == 'nometa':
            del j['__metainf__']
        elif how == 'unknown':
            j['no_such_parameter'] = {'value': 3}
            if path.endswith('CNF.json'):
                j['n_looks_stack_cnf'] = {'value': 2}
                j['N_looks_stack_chd'] = {'value': 2}
        text = json.dumps(j, indent=1)
    with open(path, 'w') as fp:
        fp.write(text)


def run_p14(sc, d):
    w = World(sc, d)
    env, bs, mode = w.env, sc['bs'], sc['mode']
    path = env.input(sc['in'])
    refs = [reference(env, sc['in'], c, bs) for c in (sc['conf'], sc['other'])]
    for x in refs:
        if x['res'] != 'ok':
            w.viol.append(['outcome', 'a run with intact files fails: %s' % x['status']])
            return _nothing(w)
    aux = env.aux(sc['conf'], 'mine')
    other = env.aux(sc['other'], 'theirs')
    sim = w.start()
    out = os.path.join(env.root, 'out')
    done = []

    def run_one(p, k, what, ref):
        o = out + str(k)
        p.out_path = o
        res, st = sim.op(lambda: p.process(path))
        w.log.append((what, res, str(st) if res == 'ok' else type(st).__name__))
        w.stop()
        same_outcome(w, what, res, st, products(o, bs), ref, bs)
        Sim.current = sim

    def make():
        res, p = sim.op(lambda: processor(aux, out, bs), sc.get('faults') if mode == 'fault' else None)
        w.log.append(('create', res, '' if res == 'ok' else type(p).__name__))
        return res, p

    def change(files):
        w.stop()
        for f in files:
            tamper(aux[f], sc['how'], other[f])
        done.append(1)
        Sim.current = sim

    if mode in ('bad', 'fault') and sc.get('warm'):
        # the same paths have been in use before
        res, p = sim.op(lambda: processor(aux, out, bs))
        run_one(p, 0, 'an earlier run', refs[0])
        p = None
        done = []
    if mode == 'two' and sc['first']:
        res, p = make()
        run_one(p, 9, 'the run before the change', refs[0])
        p = None
    if mode == 'later' and not w.viol:
        res, p = make()
        if res != 'ok':
            w.viol.append(['outcome', 'cannot create a processor: %s' % type(p).__name__])
        elif not sc['when']:
            change(sc['files'])
        else:
            count = [0]

            def observer(t, kind, what, f):
                count[0] += 1
                if count[0] == sc['when']:
                    t.in_op = False
                    change(sc['files'])
                    t.in_op = True
            sim.observer = observer
        if res == 'ok':
            run_one(p, 1, 'a processor whose %s %s (%s) after its creation' % (
                ', '.join(sc['files']), 'were changed' if len(sc['files']) > 1 else 'was changed', sc['how']), refs[0])
    elif mode == 'during':
        count = [0]

        def observer(t, kind, what, f):
            if kind in ('open-r', 'read') and 'mine' in str(what):
                count[0] += 1
                if count[0] == sc['when']:
                    t.in_op = False
                    change(['CNF'])
                    t.in_op = True
        sim.observer = observer
        res, p = make()
        sim.observer = None
        if res != 'ok':
            if sc['how'] == 'swap' or not done:
                w.viol.append(['outcome', 'cannot create a processor while a file is replaced: %s: %s' % (type(p).__name__, p)])
        else:
            o = out + '1'
            p.out_path = o
            res, st = sim.op(lambda: p.process(path))
            w.log.append(('run', res, str(st) if res == 'ok' else type(st).__name__))
            w.stop()
            prods = products(o, bs)
            ok = []
            for ref in refs if done and sc['how'] == 'swap' else refs[:1]:
                w2 = World(sc, d)
                same_outcome(w2, 'a processor created while its CNF was replaced (%s)' % sc['how'], res, st, prods, ref, bs)
                ok.append(w2.viol)
            if all(ok):
                w.viol += ok[0]
    elif mode == 'two' and not w.viol:
        if sc['order'] != [1]:
            _, p = make()
        else:
            p = None
            gc.collect()
        change(['CNF'])
        _, q = make()
        for k in sc['order']:
            if not w.viol:
                run_one([p, q][k], k, ['the processor made before the change', 'the processor made after the change'][k], refs[k])
    elif mode in ('bad', 'fault') and not w.viol:
        if mode == 'bad':
            w.stop()
            spoil(aux[sc['file']], sc['how'], sc['at'])
            done.append(1)
            Sim.current = sim
        hits = len(sim.fault_log)
        res, p = make()
        if len(sim.fault_log) > hits:
            done.append(1)
        if mode == 'bad' and sc['how'] == 'unknown':
            if res == 'ok':
                run_one(p, 1, 'a processor whose %s holds an unknown parameter' % sc['file'], refs[0])
            else:
                w.viol.append(['outcome', 'an unknown parameter is refused: %s: %s' % (type(p).__name__, p)])
        elif mode == 'bad':
            if res == 'ok':
                res, st = sim.op(lambda: p.process(path))
                w.log.append(('run', res, str(st) if res == 'ok' else type(st).__name__))
                if res == 'ok' and not bad_status(st):
                    w.viol.append(['outcome', 'a %s file that must be refused (%s) is used' % (sc['file'], sc['how'])])
        else:
            if res == 'ok':
                run_one(p, 1, 'a processor whose configuration could not be read at once', refs[0])
            res, p = sim.op(lambda: processor(aux, out, bs))
            if res != 'ok':
                w.viol.append(['outcome', 'no processor can be created after a failed read: %s' % type(p).__name__])
            elif not w.viol:
                run_one(p, 2, 'the processor created after a failed read', refs[0])
    elif mode == 'gone':
        w.stop()
        with open(aux[sc['file']]) as fp:
            j = json.load(fp)
        names = sorted(k for k in j if k != '__metainf__' and k not in OPTIONAL)
        mine = [k for k in names if k in sc['conf'].get('x', {}).get(sc['file'], {})]
        name = mine[0] if mine and sc['at'] < .7 else names[int(sc['at'] * len(names))]
        del j[name]
        with open(aux[sc['file']], 'w') as fp:
            json.dump(j, fp)
        done.append(1)
        Sim.current = sim
        res, p = make()
        if res == 'ok':
            o = out + '1'
            p.out_path = o
            res, st = sim.op(lambda: p.process(path))
            w.log.append(('run', name, res, str(st) if res == 'ok' else type(st).__name__))
            if res == 'ok' and not bad_status(st):
                w.stop()
                same_outcome(w, 'a run without the parameter %s' % name, res, st, products(o, bs), refs[0], bs)
    w.stop()
    return w.out(bool(done))


def _nothing(w):
    w.start()
    w.stop()
    return w.out(False)
