"""writes /verif/MANIFEST.json from the list of claims below and properties.jsonl"""
import importlib.util
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import runner

NA = {
    'N01': 'A pure function of its arguments: no schedule, clock, I/O or fault can change its result, so there is nothing for a simulation to vary.',
    'N02': 'Pure numeric functions; which formula they compute is a matter of numeric reference tests or proof, not of schedules and faults (P01-P14 compare whole runs with each other and with the track, not with the formulas).',
    'N03': 'Type and version checks of parsed values depend on the input values only; generating inputs for a pure function is fuzzing, not simulation.',
    'N04': 'Plotting of stored values: a function of the product only, and matplotlib back ends are not part of this code base.',
}
NOTE = {
    'W01': 'Exploration: seeded histories against an executable sequential model, checked after every operation.',
    'W02': 'Exploration: every file-system call made from Python can fail; stat and access never do.',
    'W03': 'Exploration: kill before, after or in the middle of any file-system call, then restart from the disk; data handed to the operating system survives (no power loss).',
    'W04': 'Exploration: one task runs at a time; switches at system calls and, in half of the runs, between source lines.',
    'W05': 'Exploration: hostile names for every operation; writes outside the scratch disk are refused by the simulator and reported.',
    'W06': 'Exploration: reference upgrade over random change logs and the shipped ones; faults, kills and concurrent upgrades.',
    'W07': 'Exploration: concurrent requests with faults and kills; notebooks parsed and matched one to one with requests.',
    'W08': 'Exploration: command and service histories; no file-system faults inside a command.',
    'U01': 'Exploration: interrupts delivered at seeded source lines and calls of monitored tasks and captured sections.',
    'U02': 'Exploration: random trees of sub-tasks, threads and cancellations against exact sums.',
    'U03': 'Exploration: concurrent first callers, failing calls and kills while the default file is created.',
    'R01': 'Exploration: random access orders, read faults at the NetCDF seam; the NetCDF library itself is trusted.',
    'R02': 'Exploration: record writes with faults at the NetCDF seam, the closed file read back with the real library.',
    'P01': 'Exploration: histories of runs of one processor object compared with fresh processors.',
    'P02': 'Exploration: synthetic inputs with gaps compared with their pieces processed alone.',
    'P03': 'Exploration: synthetic inputs with unusable records compared with the inputs without them.',
    'P04': 'Exploration: cancellation at any monitor call; products compared with the uncancelled run.',
    'P05': 'Exploration: faults at any NetCDF or file call of a run.',
    'P06': 'Exploration: handles counted at the NetCDF and file seams after runs that end in every way.',
    'P07': 'Exploration: both products of complete and cancelled runs compared record by record.',
    'P08': 'Exploration: clock, monitor, folder, leftovers and hash seed varied; products compared byte for byte per variable.',
    'P09': 'Exploration: concurrent processors, switches at NetCDF calls and source lines.',
    'P10': 'Exploration: all calls on the monitor recorded.',
    'P11': 'Exploration: invariants of every product record against an independent model of the synthetic track and input.',
    'P12': 'Exploration: products of an input and of the extended input compared record by record.',
    'P13': 'Exploration: attributes of products against the attributes and times in the synthetic input.',
    'P14': 'Exploration: configuration files changed, cut off or unreadable at any point of the creation and run of a processor.',
    'C01': 'Exploration: the run command over random workspaces with a recording or the real processor.',
    'C02': 'Exploration: commands and service calls over random histories, a third of them with failing calls, against the sequential model.',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        w = runner.WORLD_OF.get(i)
        if w and os.path.exists(os.path.join(V, 'dst', 'worlds', w + '.py')) and i in runner.world(i).PLAN:
            checks.append({'property': i, 'quick_cmd': 'bash check.sh %s quick' % i,
                           'thorough_cmd': 'bash check.sh %s thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i,
                           'technique': 'deterministic simulation with fault injection (seeded search)',
                           'level': 'exploration', 'level_note': NOTE[i]})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the seams are Python calls (files, netCDF4.Dataset, locks, clock, signals), '
                  'interposed from /verif/dst. Replay a violation with: bash check.sh --replay FILE.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed', [x['property'] for x in na], 'not')


main()
