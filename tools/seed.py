#!/usr/bin/env python3
"""seed.py ID... : confirm planted bugs in a scratch copy (patch applies, builds, tests pass, demo 0 without / nonzero with) and run the property's check on it.
   seed.py -n ID... : without the check.   Verdicts go to stdout."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.environ.get('SEED_DIR', '/tmp/seed')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
args = sys.argv[1:]
check = True
if args and args[0] == '-n': check = False; args = args[1:]
def fresh():
    sh('mkdir -p %s; rsync -rlpgoD --checksum --delete --exclude _build --exclude _b --exclude .git /repo/ %s/ 2>/dev/null || (cp -a /repo/. %s/)' % (D, D, D))
    if os.path.islink(D + '/_build'): os.unlink(D + '/_build')
    elif os.path.isdir(D + '/_build'): shutil.rmtree(D + '/_build')
    os.makedirs(D + '/_b', exist_ok=True); os.symlink('_b', D + '/_build')
def build():
    r = sh('cd %s && export PATH=/usr/bin:/bin; cmake -S . -B _b -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++-10 -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_SHARED_LIBS=ON -DBUILD_EXAMPLES=ON -DBUILD_TESTING=ON -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C _b src/all examples/all doctest_tests' % D)
    return r.returncode == 0, (r.stdout + r.stderr)[-2500:]
def tests():
    r = sh('cd %s/_b && timeout 60 ./bin/doctest_tests 2>&1 | tail -6' % D)
    return 'Status: SUCCESS' in r.stdout, r.stdout
for i in args:
    s = os.path.join(V, 'seeded', i); meta = json.load(open(s + '/meta.json'))
    fresh()
    dd = '/tmp/demo_' + i; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(s, dd)
    ok, log = build()
    if not ok: print(i, 'BASE BUILD FAILS', log); continue
    r = sh('timeout 300 bash %s/demo.sh' % dd, cwd=D)
    if r.returncode: print(i, 'DEMO FAILS ON CLEAN', r.returncode, (r.stdout + r.stderr)[-1500:]); continue
    r = sh('git apply --directory= %s/patch.diff' % s, cwd=D) if False else sh('patch -p1 --binary < %s/patch.diff' % s, cwd=D)
    if r.returncode: print(i, 'PATCH FAILS', r.stdout, r.stderr); continue
    ok, log = build()
    if not ok: print(i, 'DOES NOT BUILD', log); continue
    ok, log = tests()
    if not ok: print(i, 'TESTS FAIL', log); continue
    r = sh('timeout 300 bash %s/demo.sh' % dd, cwd=D)
    if not r.returncode: print(i, 'DEMO DOES NOT FAIL', r.stdout[-500:]); continue
    print(i, 'valid seed; demo says:', (r.stdout + r.stderr).strip()[-200:].replace('\n', ' | '), flush=True)
    if check:
        r = sh('python3-vt %s/check.py %s quick' % (V, meta['property']), env=dict(os.environ, VERIF_REPO=D, VC_QUIET='1'))
        print('   check', meta['property'], 'exit', r.returncode, '\n     ' + '\n     '.join(x[:300] for x in r.stdout.strip().splitlines()[-4:]), flush=True)
