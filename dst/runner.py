"""Seeded search, minimisation, replay and evidence.

  python -m dst.runner --property W01 [--tier quick|thorough]      search; exit 0 or 1 + VIOLATION line
  python -m dst.runner --replay FILE                               run one replay file; exit 1 if it fails as recorded
  python -m dst.runner --property W01 --selfcheck N                run N seeds twice, compare the event logs

One integer (VERIF_SEED) decides everything: run number i of property P uses the generator Random("P/seed/i"); the
scenario it draws is plain JSON and contains every fault and the schedule (a seed, or after minimisation the explicit
list of task switches).
"""
import argparse
import collections
import copy
import importlib
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time

from . import proc

wall = time.time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

WORLD_OF = {}


def _load_worlds():
    for name, props in (('ws', 'W01 W02 W03'), ('wsconc', 'W04'), ('wshostile', 'W05'), ('wsup', 'W06'),
                        ('wsnb', 'W07'), ('cli', 'W08'), ('util', 'U01 U02 U03'),
                        ('nc', 'R01 R02'), ('sar', 'P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14'), ('batch', 'C01'), ('cmds', 'C02')):
        for p in props.split():
            WORLD_OF[p] = name


_load_worlds()


def world(prop):
    return importlib.import_module('dst.worlds.' + WORLD_OF[prop])


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(',', ':'))


# ---- one run ---------------------------------------------------------------
def scratch_base():
    for d in ('/dev/shm', os.environ.get('TMPDIR') or '/tmp', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return '/tmp'


def run_one(w, scenario, base, cpu=None):
    """execute a scenario in a fresh process; returns the result dict"""
    scenario = json.loads(canon(scenario))
    d = tempfile.mkdtemp(prefix='run-', dir=base)
    try:
        def go():
            os.environ['HOME'] = os.path.join(d, 'home')
            os.environ['TMPDIR'] = os.path.join(d, 'tmp')
            tempfile.tempdir = None
            os.mkdir(os.environ['HOME'])
            os.mkdir(os.environ['TMPDIR'])
            os.mkdir(os.path.join(d, 'cwd'))
            os.chdir(os.path.join(d, 'cwd'))
            return w.run(scenario, d)
        try:
            res = proc.in_child(go, cpu=cpu or getattr(w, 'CPU_LIMIT', 60), slack=20)
        except proc.ChildDied as e:
            res = {'viol': [['died', 'the program under test did not finish: %s' % e]], 'died': True}
        except proc.Stalled as e:
            res = {'viol': [], 'harness': 'stalled: %s' % e}
        except proc.HarnessError as e:
            res = {'viol': [], 'harness': str(e)}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res.setdefault('viol', [])
    return res


# ---- workers ---------------------------------------------------------------
def worker(w, prop, tier, seed, idx, n, total, fd, base, stop_at, known):
    out = os.fdopen(fd, 'w')
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    i = idx
    while i < total and wall() < stop_at:
        rng = random.Random('%s/%s/%s' % (prop, seed, i))
        sc = w.gen(prop, rng, tier, i)
        sc['prop'] = prop
        res = run_one(w, sc, base)
        rec = {'i': i, 'stats': res.get('stats', {}), 'digest': res.get('digest'), 'harness': res.get('harness'),
               'viol': res['viol'], 'nontrivial': res.get('nontrivial', True), 'kind': sc.get('kind', ''),
               'states': res.get('states', [])}
        if res['viol'] or res.get('harness') or i < 3:
            rec['scenario'] = sc
            rec['sched_log'] = res.get('sched_log')
        if i % 97 == 5 and not res['viol']:
            # the same scenario again must give the same event log
            r2 = run_one(w, sc, base)
            rec['det'] = (r2.get('digest') == res.get('digest'))
        out.write(json.dumps(rec) + '\n')
        out.flush()
        i += n
    out.close()


def known_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def is_known(prop, v, findings):
    for k in findings:
        if k['property'] == prop and k['signature'] == v[0]:
            return k
    return None


# ---- minimisation ----------------------------------------------------------
def sig_class(v):
    return v[0].split(':')[0]


def fails_same(res, cls):
    for v in res['viol']:
        if sig_class(v) == cls:
            return v
    return None


def paths_of_lists(x, pre=()):
    """lists inside the scenario that may be shortened"""
    out = []
    if isinstance(x, dict):
        for k in sorted(x):
            if k.startswith('_') or k in ('prop', 'kind'):
                continue
            out += paths_of_lists(x[k], pre + (k,))
    elif isinstance(x, list):
        out.append(pre)
        for i, y in enumerate(x):
            out += paths_of_lists(y, pre + (i,))
    return out


def get_path(x, p):
    for k in p:
        x = x[k]
    return x


def minimise(w, sc, cls, base, budget):
    t0 = wall()
    shrinkable = getattr(w, 'SHRINK', ('ops', 'clients', 'faults', 'switches'))
    best = copy.deepcopy(sc)
    tries = 0

    def attempt(c):
        nonlocal tries
        if wall() - t0 > budget:
            return None
        tries += 1
        try:
            if hasattr(w, 'valid') and not w.valid(c):
                return None
            r = run_one(w, c, base)
        except Exception:
            return None
        return r if fails_same(r, cls) else None

    # make the schedule explicit
    if isinstance(best.get('sched'), dict) and 'switches' not in best['sched']:
        r = attempt(best)
        if r is not None and r.get('sched_log') is not None:
            c = copy.deepcopy(best)
            c['sched'] = dict(c['sched'], switches=r['sched_log'])
            if attempt(c) is not None:
                best = c
    changed = True
    while changed and wall() - t0 < budget:
        changed = False
        for key in shrinkable:
            for cont in list(find_key(best, key)):
                val = get_path(best, cont)
                if isinstance(val, dict):
                    items = sorted(val, key=lambda k: (len(k), k))
                elif isinstance(val, list):
                    items = list(range(len(val)))
                else:
                    continue
                n = max(1, len(items) // 2)
                while n >= 1 and wall() - t0 < budget:
                    i = 0
                    while i < len(items):
                        c = copy.deepcopy(best)
                        tgt = get_path(c, cont)
                        cut = items[i:i + n]
                        if isinstance(tgt, dict):
                            for k in cut:
                                tgt.pop(k, None)
                        else:
                            tgt[:] = [y for j, y in enumerate(tgt) if j not in cut]
                        if attempt(c) is not None:
                            best = c
                            changed = True
                            items = sorted(get_path(best, cont), key=lambda k: (len(k), k)) \
                                if isinstance(tgt, dict) else list(range(len(tgt)))
                        else:
                            i += n
                        if wall() - t0 > budget:
                            break
                    n //= 2
        if hasattr(w, 'simplify'):
            for c in w.simplify(copy.deepcopy(best)):
                if canon(c) != canon(best) and attempt(c) is not None:
                    best = c
                    changed = True
                    break
    return best, tries


def find_key(x, key, pre=()):
    if isinstance(x, dict):
        for k in sorted(x):
            if k == key and isinstance(x[k], (list, dict)):
                yield pre + (k,)
            else:
                yield from find_key(x[k], key, pre + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from find_key(y, key, pre + (i,))


def scenario_of(w, prop, seed, tier, i):
    sc = w.gen(prop, random.Random('%s/%s/%s' % (prop, seed, i)), tier, i)
    sc['prop'] = prop
    return sc


# ---- search ----------------------------------------------------------------
def search(prop, tier, seed, runs=None, jobs=None, cap=None, quiet=False):
    t0 = wall()
    w = world(prop)
    w.boot()
    boot_s = wall() - t0
    plan = w.PLAN[prop]
    total = runs or plan[tier]
    cap = cap or (plan.get('cap', 420) if tier == 'quick' else plan.get('cap_thorough', 3 * 3600))
    jobs = jobs or min(8, os.cpu_count() or 1)
    base = tempfile.mkdtemp(prefix='dst-%s-' % prop, dir=scratch_base())
    findings = known_findings()
    agg = dict(fault=collections.Counter(), digests=set(), nontrivial=set(), states=set(), sim_time=0.0, points=0,
               switches=0, n=0, kinds=collections.Counter(), det_ok=0, det_bad=0, probes=collections.Counter(),
               ops=collections.Counter())
    samples, viols, harness, seen_known = [], [], [], {}
    unconfirmed = 0
    print('%s: %s tier, seed %s, %d runs' % (prop, tier, seed, total))
    try:
        if hasattr(w, 'prepare'):
            w.prepare(prop, tier, base)
        fds, pids = {}, []
        for k in range(jobs):
            r, wr = os.pipe()
            sys.stdout.flush()
            pid = proc._fork()
            if pid == 0:
                try:
                    os.close(r)
                    for f in fds:
                        os.close(f)
                    os.setpgid(0, 0)
                    worker(w, prop, tier, seed, k, jobs, total, wr, base, t0 + cap, findings)
                finally:
                    os._exit(0)
            os.close(wr)
            fds[r] = b''
            pids.append(pid)
        open_ = set(fds)
        stop = False
        while open_ and not stop:
            ready, _, _ = select.select(list(open_), [], [], 5)
            for f in ready:
                b = os.read(f, 1 << 16)
                if not b:
                    open_.discard(f)
                    continue
                fds[f] += b
                while b'\n' in fds[f]:
                    line, fds[f] = fds[f].split(b'\n', 1)
                    rec = json.loads(line.decode())
                    agg['n'] += 1
                    agg['kinds'][rec['kind']] += 1
                    st = rec['stats']
                    agg['fault'].update(st.get('faults', {}))
                    agg['probes'].update(st.get('probes', {}))
                    agg['ops'].update(st.get('ops', {}))
                    agg['sim_time'] += st.get('sim_time', 0)
                    agg['points'] += st.get('points', 0)
                    agg['switches'] += st.get('switches', 0)
                    agg['digests'].add(rec['digest'])
                    agg['states'].update(rec['states'])
                    if rec['nontrivial']:
                        agg['nontrivial'].add(rec['digest'])
                    if 'det' in rec:
                        agg['det_ok' if rec['det'] else 'det_bad'] += 1
                    if rec.get('harness'):
                        harness.append(rec)
                    if len(samples) < 3 and 'scenario' in rec and not rec['viol']:
                        samples.append({'run': rec['i'], 'scenario': trim(rec['scenario'])})
                    new = []
                    for v in rec['viol']:
                        k = is_known(prop, v, findings)
                        if k:
                            seen_known[k['signature']] = k
                        else:
                            new.append(v)
                    if new and unconfirmed < 10:
                        rec['viol'] = new
                        # a violation that does not repeat does not end the search
                        again = run_one(w, scenario_of(w, prop, seed, tier, rec['i']), base)
                        if any(not is_known(prop, v, findings) for v in again['viol']):
                            viols.append(rec)
                            stop = True
                        else:
                            unconfirmed += 1
                            print('run %d: violation %s did not repeat' % (rec['i'], new[0]), file=sys.stderr)
        for p in pids:
            if stop:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        search_s = wall() - t0
        for f in fds:
            os.close(f)
        report = None
        if viols:
            viols.sort(key=lambda r: r['i'])
            for rec in viols[:6]:
                report = confirm(w, prop, seed, rec, base, findings, budget=60 if tier == 'quick' else 240)
                if report:
                    break
                unconfirmed += 1
    finally:
        shutil.rmtree(base, ignore_errors=True)
    write_evidence(prop, tier, seed, w, agg, samples, report, search_s, boot_s, harness, unconfirmed, t0, total)
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s: %d runs in %.1f s, %d distinct executions, faults %s' % (
        prop, agg['n'], search_s, len(agg['digests']), dict(agg['fault'])))
    if agg['probes']:
        print('   probes: %s' % dict(sorted(agg['probes'].items())))
    if harness:
        print('%s: %d runs ended in a harness error, e.g.\n%s' % (prop, len(harness), harness[0]['harness'][-3000:]),
              file=sys.stderr)
    if report:
        print('violation: %s' % report['message'])
        print('minimised to %s (%d attempts)' % (trim(report['scenario']), report['tries']))
        print('VIOLATION property=%s replay=%s' % (prop, report['path']))
        return 1
    if unconfirmed:
        print('%s: %d violations did not repeat' % (prop, unconfirmed), file=sys.stderr)
        return 3
    if harness and len(harness) * 2 > agg['n']:
        return 4
    if agg['n'] == 0:
        return 5
    return 0


def trim(sc):
    s = canon(sc)
    return json.loads(s) if len(s) < 6000 else s[:6000] + '...'


def confirm(w, prop, seed, rec, base, findings, budget):
    sc = rec['scenario']
    cls = sig_class(rec['viol'][0])
    r = run_one(w, sc, base)
    v = fails_same(r, cls)
    if not v or is_known(prop, v, findings):
        print('run %d: violation %s did not repeat (now: %s)' % (rec['i'], rec['viol'][0], r['viol'] or r.get('harness')), file=sys.stderr)
        return None
    best, tries = minimise(w, sc, cls, base, budget)
    r1 = run_one(w, best, base)
    r2 = run_one(w, best, base)
    v = fails_same(r1, cls)
    if v is None or canon(r1['viol']) != canon(r2['viol']) or is_known(prop, v, findings):
        best = sc
        r1 = run_one(w, best, base)
        v = fails_same(r1, cls) or rec['viol'][0]
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%s-run%d.json' % (prop, seed, rec['i']))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'run': rec['i'], 'violation': v, 'scenario': best,
                   'original_scenario': sc, 'trace': r1.get('trace', [])[-200:], 'digest': r1.get('digest'),
                   'replay': 'bash /verif/check.sh --replay ' + path}, f, indent=1)
    return {'message': '%s: %s' % (v[0], v[1]), 'scenario': best, 'path': path, 'tries': tries, 'run': rec['i'],
            'signature': v[0]}


def replay(path):
    with open(path) as f:
        rp = json.load(f)
    w = world(rp['property'])
    w.boot()
    base = tempfile.mkdtemp(prefix='dst-replay-', dir=scratch_base())
    try:
        if hasattr(w, 'prepare'):
            w.prepare(rp['property'], 'quick', base)
        r = run_one(w, rp['scenario'], base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for e in r.get('trace', [])[-80:]:
        print('  ', e)
    if r.get('harness'):
        print(r['harness'])
    for v in r['viol']:
        print('violation: %s: %s' % tuple(v))
    same = any(sig_class(v) == sig_class(rp['violation']) for v in r['viol'])
    print('event log %s' % ('identical' if r.get('digest') == rp.get('digest') else 'differs'))
    if same:
        print('VIOLATION property=%s replay=%s' % (rp['property'], path))
        return 1
    return 0


def selfcheck(prop, n, seed):
    """event logs of n seeds, for comparison between processes"""
    w = world(prop)
    w.boot()
    base = tempfile.mkdtemp(prefix='dst-self-', dir=scratch_base())
    bad = 0
    try:
        if hasattr(w, 'prepare'):
            w.prepare(prop, 'quick', base)
        for i in range(n):
            sc = w.gen(prop, random.Random('%s/%s/%s' % (prop, seed, i)), 'quick', i)
            sc['prop'] = prop
            a, b = run_one(w, sc, base), run_one(w, sc, base)
            print(i, a.get('digest'), 'same' if a.get('digest') == b.get('digest') else 'DIFFERENT',
                  a['viol'][:1] or '', (a.get('harness') or '')[-600:])
            bad += a.get('digest') != b.get('digest')
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return 1 if bad else 0


def write_evidence(prop, tier, seed, w, agg, samples, report, search_s, boot_s, harness, unconfirmed, t0, total):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rate = agg['n'] / search_s * 3600 if search_s > 0 else 0
    cov = {
        'evaluations': agg['n'],
        'distinct_nontrivial': len(agg['nontrivial']),
        'rule': w.RULE[prop],
        'samples': samples or [{'note': 'no run finished without a violation'}],
        'runs_planned': total,
        'runs_per_hour': round(rate),
        'seeds': '%s/%s/0 .. %s/%s/%d' % (prop, seed, prop, seed, total - 1),
        'simulated_seconds': round(agg['sim_time'], 3),
        'seam_points': agg['points'],
        'task_switches': agg['switches'],
        'faults_injected': dict(sorted(agg['fault'].items())),
        'operations': dict(sorted(agg['ops'].items())),
        'scenario_kinds': dict(sorted(agg['kinds'].items())),
        'probes_hit': dict(sorted(agg['probes'].items())),
        'distinct_executions': len(agg['digests']),
        'distinct_states': len(agg['states']),
        'distinct_measure': 'executions: CRC of the full event log (task, seam call, path, fault) and of the results; '
                            'states: CRC of each observed state',
        'determinism_rechecks': {'same': agg['det_ok'], 'different': agg['det_bad']},
        'real_components': w.REAL[prop],
        'stub_components': w.STUB[prop],
        'harness_errors': len(harness),
        'unconfirmed': unconfirmed,
    }
    if report:
        cov['violation'] = {'message': report['message'], 'replay': report['path'], 'run': report['run']}
    ev = {'property': prop, 'tier': tier, 'seed': int(seed), 'level': w.LEVEL.get(prop, 'exploration'),
          'coverage': cov, 'wall_s': round(wall() - t0, 2), 'assumptions': w.ASSUME[prop],
          'violations': 1 if report else 0}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--selfcheck', type=int)
    a = ap.parse_args()
    # nothing below reads or writes the real home folder
    os.environ['HOME'] = os.path.join(scratch_base(), 'dst-no-home')
    if a.replay:
        return replay(a.replay)
    if a.selfcheck:
        return selfcheck(a.property, a.selfcheck, a.seed)
    return search(a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick', a.seed, a.runs, a.jobs, a.cap)


if __name__ == '__main__':
    sys.exit(main())
