#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree into build/ (or $SIM_BUILD).
Objects are cached by the hash of everything they are made of."""
import hashlib, os, re, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(HERE, 'build'))
SIM = os.path.join(HERE, 'sim')
CXX = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
M = REPO + '/subpackages/mav_trajectory_generation'
INC = ['-I' + REPO + '/include', '-I' + REPO + '/include/dynamic_trajectory_generator', '-I' + M + '/include', '-I' + M + '/include/mav_trajectory_generation',
       '-I' + M + '/include/mav_msgs', '-isystem', '/usr/include/eigen3']
BASE = ['-std=c++17', '-O2', '-gline-tables-only', '-w', '-fno-pie', '-pthread']
INST = ['-fsanitize=thread', '-fno-omit-frame-pointer']

def read(p):
    with open(p, 'rb') as f: return f.read()

def main():
    os.makedirs(OUT + '/obj', exist_ok=True)
    lock = open(OUT + '/.lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    hdr = hashlib.sha256()
    for root in (REPO + '/include', M + '/include'):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                hdr.update((d + f).encode()); hdr.update(read(os.path.join(d, f)))
    hdr = hdr.hexdigest()
    simh = hashlib.sha256(b''.join(read(p) for p in sorted(glob.glob(SIM + '/*.h') + glob.glob(SIM + '/*.inc') + glob.glob(SIM + '/*.txt')))).hexdigest()
    jobs = []  # (src, flags, dep-hash)
    lib = sorted(glob.glob(REPO + '/src/*.cpp')) + sorted(p for p in glob.glob(M + '/src/**/*.cpp', recursive=True) if not p.endswith('polynomial_timing_evaluation.cpp'))
    variants = {'simcheck': INST + ['-fsanitize-ignorelist=' + SIM + '/ignore_light.txt'], 'simcheck-full': INST + ['-fsanitize-ignorelist=' + SIM + '/ignore.txt']}
    members = {v: [] for v in variants}
    own = []
    for v, fl in variants.items():
        for s in lib: members[v].append((s, BASE + fl + INC, hdr + simh))
        members[v].append((SIM + '/ops.cpp', BASE + fl + INC + ['-I' + SIM], hdr + simh))
        jobs += members[v]
    for s in ('harness.cpp', 'plan.cpp', 'gen.cpp', 'main.cpp'):
        own.append((SIM + '/' + s, BASE + ['-I' + SIM], simh))
    rtj = (SIM + '/rt.cpp', ['-std=c++17', '-O2', '-gline-tables-only', '-w', '-fPIC', '-fvisibility=hidden', '-fvisibility-inlines-hidden'], simh)
    jobs += own + [rtj]
    def comp(j):
        s, fl, dep = j
        k = hashlib.sha256(('\0'.join([CXX, s] + fl) + dep).encode() + read(s)).hexdigest()[:24]
        o = OUT + '/obj/' + os.path.basename(s) + '.' + k + '.o'
        if not os.path.exists(o):
            r = subprocess.run([CXX] + fl + ['-c', s, '-o', o + '.tmp'], capture_output=True, text=True)
            if r.returncode: return o, s + '\n' + r.stderr
            os.rename(o + '.tmp', o)
        return o, None
    # longest first
    jobs.sort(key=lambda j: ('dynamic_trajectory.cpp' not in j[0], 'ops.cpp' not in j[0], 'io.cpp' not in j[0]))
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, jobs))
    bad = [e for _, e in res if e]
    if bad:
        sys.stderr.write('\n'.join(bad)[:8000] + '\nBUILD FAILED\n'); return 3
    obj = {(j[0], tuple(j[1])): o for j, (o, _) in zip(jobs, res)}
    get = lambda j: obj[(j[0], tuple(j[1]))]
    rt = get(rtj)
    key = hashlib.sha256(('\0'.join(sorted(o for o, _ in res))).encode() + read(os.path.abspath(__file__))).hexdigest()[:24]
    stamp = OUT + '/stamp'
    if os.path.exists(stamp) and open(stamp).read() == key and all(os.path.exists(OUT + '/' + v) for v in variants): return 0
    def run(cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: sys.stderr.write(r.stderr[:8000] + '\nLINK FAILED\n')
        return r.returncode
    if run([CXX, '-shared', '-o', OUT + '/libsim.so', rt, '-ldl', '-lpthread']): return 3
    def link(v):
        # instrumented objects first: their copies of shared templates win
        rest = sorted(get(j) for j in members[v]) + sorted(get(j) for j in own)
        out = OUT + '/' + v
        if run([CXX, '-no-pie', '-pthread', '-o', out + '.tmp', '-Wl,--no-as-needed', OUT + '/libsim.so', '-Wl,--as-needed'] + rest +
               ['-lnlopt', '-lglog', '-lyaml-cpp', '-Wl,-rpath,' + OUT, '-ldl']): return 3
        # return addresses of the calls to malloc in Eigen's sparse matrices, which do not all check the result
        d = subprocess.run(['objdump', '-d', '--no-show-raw-insn', out + '.tmp'], capture_output=True, text=True).stdout.split('\n')
        calls = [(d[i].split(':')[0].strip(), d[i + 1].split(':')[0].strip()) for i in range(len(d) - 1) if re.search(r'call.*<(malloc|realloc|calloc)@plt>', d[i])]
        w = subprocess.run(['addr2line', '-e', out + '.tmp'] + ['0x' + a for a, _ in calls], capture_output=True, text=True).stdout.split('\n') if calls else []
        with open(out + '.nofail', 'w') as f:
            for (_, ret), line in zip(calls, w):
                if '/SparseCore/SparseMatrix.h' in line: f.write(ret + '\n')
        os.rename(out + '.tmp', out)
        return 0
    with ThreadPoolExecutor(2) as ex:
        if any(ex.map(link, variants)): return 3
    open(stamp, 'w').write(key)
    return 0
if __name__ == '__main__': sys.exit(main())
