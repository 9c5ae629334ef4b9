#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: prove the contracts of one property on /repo's current source."""
import sys, os, json, time, tempfile, shutil, subprocess, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vcgen'))
import run as R
from config import CONFIG
REPO = R.REPO
EVID = os.path.join(HERE, 'evidence')

def sh(cmd, timeout=None, env=None, cwd=None):
    try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=cwd, errors='replace')
    except subprocess.TimeoutExpired as e: return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
    return r.returncode, r.stdout, r.stderr

def errors(err):
    l = [x for x in err.splitlines() if 'error' in x]
    return '\n'.join(l[:8])[:1500] if l else err[:1500]

class Driver:
    """the real code, compiled by the project's compiler with sanitizers, driven on generated inputs"""
    def __init__(self, name, scratch, extra=()):
        self.name = name; self.scratch = os.path.join(scratch, 'drv'); self.exe = None; self.err = None; self.extra = list(extra)
        os.makedirs(self.scratch, exist_ok=True)
    def build(self):
        from concurrent.futures import ThreadPoolExecutor
        inc = R.gen_headers(self.scratch)
        san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr'] if '-fsanitize=thread' not in self.extra else []
        base = ['g++-10', '-std=gnu++17', '-O1', '-g1', '-w', '-fno-access-control', '-DNDEBUG', '-I' + REPO + '/include', '-I' + inc, '-I' + REPO + '/src/private', '-I' + REPO + '/src',
                '-I' + os.path.join(HERE, 'contracts'), '-I' + os.path.join(HERE, 'drivers')] + san + self.extra
        srcs = sorted(os.path.join(REPO, 'src', f) for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cpp'))
        jobs = [(s, []) for s in srcs]
        parts = next((int(x[8:]) for x in self.extra if x.startswith('-DPARTS=')), 1)      # a driver in parts: compiled once for each
        jobs = [(os.path.join(HERE, 'drivers', self.name), ['-DPART=%d' % i]) for i in range(parts)] + jobs
        objs = [os.path.join(self.scratch, '%d.o' % i) for i in range(len(jobs))]
        def one(p):
            (s, d), o = p
            return sh(base + d + ['-c', s, '-o', o], 300)
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, zip(jobs, objs)))
        for (rc, out, err), (s, _) in zip(rs, jobs):
            if rc: self.err = '%s: %s' % (s, errors(err)); return False
        exe = os.path.join(self.scratch, 'driver')
        rc, out, err = sh(base + objs + ['-o', exe, '-lpthread'], 300)
        if rc: self.err = errors(err); return False
        self.exe = exe
        return True
    def run(self, seed, seconds):
        """-> (fails, knowns, evals, text)"""
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=0')
        rc, out, err = sh(['timeout', '-k', '5', str(int(seconds * 3 + 60)), self.exe, str(seed), str(seconds)], seconds * 3 + 90, env, self.scratch)
        fails = [l[5:] for l in out.splitlines() if l.startswith('FAIL ')]
        knowns = [l[6:].split(' ', 1) for l in out.splitlines() if l.startswith('KNOWN ')]
        ev = sum(int(l[6:]) for l in out.splitlines() if l.startswith('EVALS '))
        if 'FATAL: ThreadSanitizer' in err: return [], [], 0, err[-2000:]     # the sanitizer itself cannot run here
        if rc != 0 and not fails:
            if rc == 124 or rc == 137: fails = ['the driver does not finish: the code under test hangs (last output: %s)' % out[-300:].replace('\n', ' | ')]
            else: fails = ['the driver ended with status %d: %s' % (rc, (err.strip().splitlines() or [''])[0][:300])]
        return fails, knowns, ev, (out[-6000:] + '\n--- stderr\n' + err[-8000:])

def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = CONFIG[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    ev_path = os.path.join(EVID, prop + '.json'); rep_path = os.path.join(EVID, prop + '.replay.txt')
    for p in (ev_path, rep_path):
        if os.path.exists(p): os.unlink(p)
    scratch = tempfile.mkdtemp(prefix='check-%s-' % prop)
    try:
        return work(prop, tier, seed, cfg, t0, scratch, ev_path, rep_path)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def work(prop, tier, seed, cfg, t0, scratch, ev_path, rep_path):
    limit = 560 if tier == 'quick' else 3000
    deadline = t0 + limit
    units = []
    for u in cfg['units']:
        src, extra = (u, []) if isinstance(u, str) else (u[0], u[1])
        units.append((os.path.join(HERE, 'contracts', src), extra))
    if tier == 'thorough':
        import solver
        solver.cross_check = True; solver.TIMEOUT = 120000
    drv = None
    drv_res = None
    import threading
    box = {}
    def build_driver():
        box['ok'] = box['d'].build()
    th = None
    if cfg.get('driver'):
        box['d'] = Driver(cfg['driver'], scratch, cfg.get('driver_flags', []))
        th = threading.Thread(target=build_driver); th.start(); th.join()
    recs, errs = R.check_units(units, scratch, 8, deadline, per=(420 if tier == 'quick' else 2500), only=cfg.get('only'))
    for (u, n), r in sorted(recs.items()): R.show('%s:%s' % (u, n), r)
    for u, e in errs.items(): print('cannot build contract unit %s: %s' % (u, e[:400].replace('\n', ' | ')))
    failed = [(u, n, f) for (u, n), r in sorted(recs.items()) for f in r['failed'] if f['status'] == 'invalid']
    open_ = ['%s:%s: %s %s' % (u, n, r['status'], (r['tool_limit'] or '; '.join(f['label'] for f in r['failed']))[:300]) for (u, n), r in sorted(recs.items()) if r['status'] not in ('proved', 'failed')]
    open_ += ['%s: does not build: %s' % (u, e[:200].replace('\n', ' ')) for u, e in errs.items()]
    expected = cfg.get('expect', {})
    # known findings that are decided by a contract that is expected to fail
    known = load_known()
    kf_lines = []
    real_failed = []
    for u, n, f in failed:
        k = [x for x in known if x['property'] == prop and x.get('status') != 'fixed' and x.get('contract') == n and (x.get('label') is None or x['label'] == f['label'])]
        if k: kf_lines.append((k[0]['id'], k[0]['what']))
        else: real_failed.append((u, n, f))
    # the compiled code on generated inputs: replays a failed obligation, and stands in (bounded) where the prover gave up
    fails = []; evals = 0; text = ''; drv_note = 'no driver'
    if th is not None:
        d = box['d']
        if d.exe:
            secs = cfg.get('driver_s', 8)
            if real_failed or open_: secs = max(secs * 4, 40)
            if tier == 'thorough': secs = max(secs * 5, 60)
            fails, knowns, evals, text = d.run(seed, secs)
            for key, what in knowns:
                k = [x for x in known if x['property'] == prop and x.get('status') != 'fixed' and x['id'] == key]
                if k: kf_lines.append((k[0]['id'], k[0]['what']))
                else: fails.append('unlisted finding %s: %s' % (key, what))
            drv_note = '%d evaluations of the compiled code under %s' % (evals, 'ThreadSanitizer' if '-fsanitize=thread' in cfg.get('driver_flags', []) else 'AddressSanitizer and UBSan')
        else: drv_note = 'driver does not build: ' + (d.err or '')[:400]
    obl = sum(r['obligations'] for r in recs.values()); dis = sum(r['discharged'] for r in recs.values())
    kf_obl = sum(1 for u, n, f in failed) - len(real_failed)
    backends = {}
    for r in recs.values():
        for b, c in r['backends'].items(): backends[b] = backends.get(b, 0) + c
    funs = sorted({f for r in recs.values() for f in r['functions'] if f.startswith('rtti::') or ' rtti::' in f})
    assum = sorted({a for r in recs.values() for a in r['assumptions']}) + cfg.get('assumptions', [])
    viol = bool(real_failed) or bool(fails)
    rules = []
    bounded = list(cfg.get('bounded', [])) + ['(prover gave up on this run) ' + o for o in open_]
    cov = dict(obligations=obl - kf_obl, discharged=dis, checker_cmd='python3-vt check.py %s %s' % (prop, tier),
               trusted_base=['clang 18 as the front end that gives the real source its meaning (LLVM IR, -O0, after SROA and instruction simplification)',
                             'the verification-condition generator in /verif/vcgen', 'Z3 5.3.2 (python bindings)' + (', cross-checked by cvc5' if tier == 'thorough' else '')] + cfg.get('trusted', []),
               contracts=len(recs), contracts_proved=sum(r['status'] == 'proved' for r in recs.values()),
               paths=sum(r['paths'] for r in recs.values()), distinct_obligation_labels=sum(r.get('labels', 0) for r in recs.values()), discharged_by=backends,
               solver_s=round(sum(r['solver_s'] for r in recs.values()), 1), feasibility_queries=sum(r['feasibility_queries'] for r in recs.values()),
               functions_under_contract=funs, function_count=len(funs), bounded_stand_ins=bounded, driver=drv_note,
               per_contract={('%s:%s' % k): dict(status=r['status'], obligations=r['obligations'], discharged=r['discharged'], paths=r['paths'], seconds=r['seconds'], covers=r['covers'],
                                                 cut_loops=r['loops']) for k, r in sorted(recs.items())})
    if evals: cov['evaluations'] = evals
    if not obl:
        bounded.append('no obligation was generated on this run')
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'proof'), coverage=cov, assumptions=assum, wall_s=round(time.time() - t0, 1), violations=len(real_failed) + len(fails))
    with open(ev_path, 'w') as f: json.dump(ev, f, indent=1)
    for key in sorted({k for k, _ in kf_lines}):
        what = [w for k, w in kf_lines if k == key][0]
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, what))
    for o in open_: print('BOUNDED: %s (decided by the driver only on this run)' % o)
    print('%s %s: %d/%d obligations discharged in %d contracts (%s), driver: %s, %.0f s' % (prop, tier, dis, obl - kf_obl, len(recs), ', '.join('%s %d' % x for x in sorted(backends.items())), drv_note, time.time() - t0))
    if viol:
        with open(rep_path, 'w') as f:
            f.write('property %s\n' % prop)
            for x in fails: f.write('failing input on the compiled code: %s\n' % x)
            if fails: f.write('\nto replay: build drivers/%s against /repo (check.py Driver.build) and run it with arguments %d %s\n\n%s\n' % (cfg.get('driver'), seed, cfg.get('driver_s', 8), text))
            for u, n, o in real_failed:
                f.write('\nfailed obligation: contract %s (%s): %s\n  at %s\n  verifier: %s\n%s\n' % (n, u, o['label'], o['where'], o['status'], '\n'.join('    ' + str(l) for l in (o['detail'] or []))))
        for x in fails[:5]: print('failing input: %s' % x)
        for u, n, o in real_failed[:5]: print('failed obligation: %s:%s: %s at %s' % (u, n, o['label'], o['where']))
        print('VIOLATION property=%s replay=%s%s' % (prop, rep_path, '' if fails else ' no-failing-input-found'))
        return 1
    return 0

if __name__ == '__main__':
    try: rc = main()
    except KeyError as e:
        print('unknown property', e); rc = 0
    sys.stdout.flush()
    os._exit(rc)
