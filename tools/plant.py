#!/usr/bin/env python3
"""plant.py prove ID... : in a scratch copy of /repo, shows that each seeded change builds, passes the tests, and
that its demonstration passes without and fails with it.
plant.py catch ID... : applies each change to /repo, runs the check of its property, and undoes it."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + '/seeded'; W = '/tmp/plantwt'
def sh(c, cwd, t=900):
    try: p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, 'timeout'
CM = ('CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS="-O2 -g -Wno-error" '
      '-DCMAKE_PROJECT_dynamic_trajectory_generator_INCLUDE=/opt/vp/prelude.cmake -DNLopt_DIR=/usr/lib/x86_64-linux-gnu/cmake/nlopt '
      '-DFETCHCONTENT_FULLY_DISCONNECTED=ON -DBUILD_TESTING=ON -Ddynamic_trajectory_generator_TESTS_ENABLED=ON')
def scratch():
    head = sh('git rev-parse HEAD', '/repo')[1].strip()
    if not os.path.exists(W + '/_build/build.ninja'):
        shutil.rmtree(W, ignore_errors=True); sh('git clone -q /repo ' + W, '/')
        for c in (CM, 'ninja -C _build -j8'):
            r, o = sh(c, W)
            if r: sys.exit('scratch build failed\n' + o[-2000:])
    sh('git checkout -q -- . && git fetch -q && git checkout -q ' + head, W)
    r, o = sh('ninja -C _build -j8', W)
    if r: sys.exit(o[-2000:])
def prove(i):
    sh('git checkout -q -- .', W); r, o = sh('ninja -C _build -j8', W)
    t = time.time(); r0, o0 = sh('bash %s/%s/demo.sh' % (S, i), W, 300); t0 = time.time() - t
    r, o = sh('git apply %s/%s/patch.diff' % (S, i), W)
    if r: return 'NOAPPLY ' + o[:300]
    rb, ob = sh('ninja -C _build -j8', W)
    if rb: sh('git checkout -q -- .', W); return 'NOBUILD ' + ob[-1500:]
    rt, ot = sh('ctest --test-dir _build -j8 --timeout 300 -R "^(%s)$"' % '|'.join(TESTS), W)
    t = time.time(); r1, o1 = sh('bash %s/%s/demo.sh' % (S, i), W, 300); t1 = time.time() - t
    sh('git checkout -q -- .', W)
    ok = r0 == 0 and r1 not in (0, 3) and rt == 0
    return '%s clean=%d (%.0fs %s) tests=%d patched=%d (%.0fs %s)' % ('OK' if ok else 'BAD', r0, t0, o0.strip()[-150:] if r0 else '', rt, r1, t1, o1.strip()[-200:])
def catch(i, prop=None):
    prop = prop or json.load(open('%s/%s/meta.json' % (S, i)))['property']
    if sh('git status --porcelain', '/repo')[1].strip(): sys.exit('/repo is not clean')
    r, o = sh('git apply %s/%s/patch.diff' % (S, i), '/repo')
    if r: return 'NOAPPLY'
    try:
        t = time.time(); env = 'VERIF_SEED=1 VERIF_TIER=quick '
        cmd = next(c['quick_cmd'] for c in json.load(open(V + '/MANIFEST.json'))['checks'] if c['property'] == prop) if False else 'python3 check.py ' + prop
        r, o = sh(env + cmd, V)
    finally: sh('git checkout -q -- .', '/repo')
    v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
    return '%s %s rc=%d %.0fs %s' % ('CAUGHT' if r == 1 and v else 'MISSED', prop, r, time.time() - t, (v or [o.strip()[-300:]])[0][:300])
b = json.load(open('/opt/vp/BASELINE.json'))
TESTS = ['TRAJ_TEST', 'dynamic_trajectory_generator_trajectory_test']
if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.listdir(S))
    if sys.argv[1] == 'prove':
        scratch()
        for i in ids: print(i, prove(i), flush=True)
    else:
        for i in ids:
            i, _, p = i.partition(':'); print(i, catch(i, p or None), flush=True)
