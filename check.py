#!/usr/bin/env python3
"""check.py ID [quick|thorough]: builds the simulator from /repo's working tree and searches for a violation of property ID.
Exit 0: held on everything explored; 1: a VIOLATION line was printed; anything else: the check itself failed."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
# simulated runs of the quick check (about half a minute on 8 idle cores); the thorough one makes 12 times as many
QUICK = {'C01': 6000, 'C02': 6000, 'C03': 5000, 'C04': 6000, 'C05': 2000, 'C06': 6000, 'C07': 7000, 'C08': 4500, 'C09': 3000, 'C10': 5000,
         'C11': 15000, 'C12': 8000, 'C13': 4000, 'C14': 2500, 'C15': 4000, 'C16': 7000, 'C17': 2000, 'C18': 2500, 'C19': 5000, 'C24': 5000, 'C25': 3500, 'C20': 60000}
# memory accesses inside the optimiser and Eigen are scheduling points, and checked for races, too
FULL = ('C11', 'C13', 'C17', 'C25')
WALL = {'quick': 200, 'thorough': 1300}
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in WALL: tier = 'quick'
    runs = QUICK[prop] * (12 if tier == 'thorough' else 1)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    b = subprocess.run([sys.executable, HERE + '/build.py'])
    if b.returncode: return 3
    build = os.environ.get('SIM_BUILD', HERE + '/build')
    cmd = [build + '/simcheck' + ('-full' if prop in FULL else ''), '--prop', prop, '--tier', tier, '--runs', str(runs), '--wall', str(WALL[tier]), '--jobs', str(max(2, min(16, os.cpu_count() or 8))),
           '--out', build + '/replays', '--evidence', HERE + '/evidence/' + prop + '.json', '--known', HERE + '/known_findings.txt']
    if 'VERIF_SEED' in os.environ: cmd += ['--seed', os.environ['VERIF_SEED']]
    return subprocess.run(cmd).returncode
if __name__ == '__main__': sys.exit(main())
