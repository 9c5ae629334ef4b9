"""Build a contract unit from /repo's current sources and check it."""
import sys, os, subprocess, tempfile, shutil, time, json, re, resource, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

EXPORT_H = '''#ifndef RTTI_API_H
#define RTTI_API_H
#ifndef RTTI_API
#define RTTI_API __attribute__((visibility("default")))
#endif
#ifndef RTTI_PRIVATE
#define RTTI_PRIVATE __attribute__((visibility("hidden")))
#endif
#define RTTI_DEPRECATED
#define RTTI_NO_EXPORT
#endif
'''

class BuildError(Exception): pass

def gen_headers(scratch):
    inc = os.path.join(scratch, 'inc')
    os.makedirs(os.path.join(inc, 'rtti'), exist_ok=True)
    with open(os.path.join(inc, 'rtti', 'export.h'), 'w') as f: f.write(EXPORT_H)
    with open(os.path.join(inc, 'rtti', 'version.h'), 'w') as f: f.write('#pragma once\n')
    return inc

def flags(scratch):
    inc = gen_headers(scratch)
    return ['--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/10', '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-rtti',
            '-I' + os.path.join(VERIF, 'contracts'), '-I' + os.path.join(VERIF, 'models'),
            '-I' + REPO + '/include', '-I' + inc, '-I' + REPO + '/src/private', '-I' + REPO + '/src',
            '-include', 'mutex', '-include', 'initializer_list', '-DNDEBUG', '-Drtti_EXPORTS',
            '-S', '-emit-llvm', '-w', '-fno-access-control', '-gline-tables-only', '-fno-discard-value-names', '-ftemplate-depth=2000']

def compile_ir(src, scratch, extra=()):
    out = os.path.join(scratch, os.path.basename(src).replace('.cpp', '') + '.%d' % os.getpid())
    cmd = ['clang++-18'] + flags(scratch) + list(extra) + [src, '-o', out + '.ll']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:3000])
    r = subprocess.run(['opt-18', '-passes=function(sroa,instsimplify,simplifycfg)', '-S', out + '.ll', '-o', out + '.o.ll'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:3000])
    os.unlink(out + '.ll')
    return out + '.o.ll'

def load(ll):
    import irparse
    m = irparse.Module(ll)
    irparse.demangle_all(list(m.fns) + list(m.globtxt))
    return m, sorted(f[len('contract_'):] for f in m.fns if f.startswith('contract_'))

def check_contract(m, short, deadline=None, log=None):
    """one contract with an engine of its own -> record"""
    import irparse, engine, solver
    n = 'contract_' + short
    t1 = time.time()
    solver.stats.__init__()
    eng = engine.Engine(m, log=log, deadline=deadline)
    rec = dict(status='proved', tool_limit=None)
    try:
        eng.run_contract(n)
    except (engine.ToolLimit, irparse.Unsupported) as e:
        rec['tool_limit'] = str(e)[:500]; rec['where'] = getattr(e, 'where', None); rec['status'] = 'tool-limit'
    except RecursionError: rec['tool_limit'] = 'recursion'; rec['status'] = 'tool-limit'
    except MemoryError: rec['tool_limit'] = 'memory'; rec['status'] = 'tool-limit'
    except Exception as e:
        rec['tool_limit'] = 'internal: ' + traceback.format_exc()[-900:]; rec['status'] = 'tool-limit'
    obs = eng.obls
    bad = [o for o in obs if o.status == 'invalid']
    unk = [o for o in obs if o.status not in ('valid', 'invalid')]
    if bad: rec['status'] = 'failed'
    elif unk and rec['status'] == 'proved': rec['status'] = 'unknown'
    cov = eng.covers.get(n, {})
    rec.update(obligations=len(obs), discharged=sum(o.status == 'valid' for o in obs), paths=eng.paths, steps=eng.steps,
               labels=len({o.label for o in obs}), covers=cov, seconds=round(time.time() - t1, 2),
               failed=[dict(label=o.label, where=o.where, detail=o.detail, status=o.status) for o in (bad + unk)[:20]])
    if rec['status'] == 'proved':
        miss = [k for k, v in cov.items() if not v]
        if miss or not cov: rec['status'] = 'vacuous'; rec['tool_limit'] = 'unreached: %s' % miss
    rec['assumptions'] = sorted(eng.assumed)
    rec['functions'] = sorted(irparse.demangle(f) for f in eng.inlined if not f.startswith('contract_'))
    rec['backends'] = dict(solver.stats.by)
    rec['solver_s'] = round(solver.stats.t + solver.stats.feas_t, 2)
    rec['feasibility_queries'] = solver.stats.feas
    rec['loops'] = [str(x) for x in eng.loopstat]
    return rec

def _thread(fn):
    threading.stack_size(512 << 20)
    sys.setrecursionlimit(20000)
    box = {}
    def go():
        try: box['r'] = fn()
        except BaseException as e: box['e'] = e
    t = threading.Thread(target=go); t.start(); t.join()
    if 'e' in box: raise box['e']
    return box['r']

def check_units(units, scratch, jobs=8, deadline=None, per=400, only=None, mem_gb=6):
    """units: [(source, extra flags)] -> (records {(unit, contract): rec}, build errors {unit: text}); one process per contract"""
    from concurrent.futures import ThreadPoolExecutor
    errs = {}; recs = {}
    def comp(u):
        src, extra = u
        d = tempfile.mkdtemp(dir=scratch)
        try: return compile_ir(src, d, extra)
        except BuildError as e: errs[os.path.basename(src)] = str(e); return None
    with ThreadPoolExecutor(jobs) as ex: lls = list(ex.map(comp, units))
    tasks = []
    for (src, extra), ll in zip(units, lls):
        if ll is None: continue
        m, names = load(ll)
        for n in names:
            if only and n not in only: continue
            tasks.append((os.path.basename(src), m, n))
    hints = {}
    hp = os.path.join(VERIF, 'vcgen', 'times.json')
    if os.path.exists(hp):
        try: hints = json.load(open(hp))
        except ValueError: pass
    tasks.sort(key=lambda t: -hints.get(t[0] + ':' + t[2], 5))
    running = {}
    i = 0
    while i < len(tasks) or running:
        while i < len(tasks) and len(running) < jobs:
            u, m, n = tasks[i]; i += 1
            out = os.path.join(scratch, 'r%d.json' % i)
            pid = os.fork()
            if pid == 0:
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
                    dl = time.time() + per
                    if deadline: dl = min(dl, deadline)
                    rec = _thread(lambda: check_contract(m, n, dl))
                    with open(out, 'w') as f: json.dump(rec, f)
                except BaseException:
                    with open(out, 'w') as f: json.dump(dict(status='tool-limit', tool_limit='internal: ' + traceback.format_exc()[-900:], obligations=0, discharged=0,
                        paths=0, steps=0, covers={}, seconds=0, failed=[], assumptions=[], functions=[], backends={}, solver_s=0, feasibility_queries=0, loops=[]), f)
                os._exit(0)
            running[pid] = (u, n, out, time.time())
        try: pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError: pid = 0
        if pid in running:
            u, n, out, _ = running.pop(pid)
            try: recs[(u, n)] = json.load(open(out))
            except Exception: recs[(u, n)] = dead('the prover process died')
        elif pid == 0:
            now = time.time()
            for p, (u, n, out, t0) in list(running.items()):
                if now - t0 > per + 30 or (deadline and now > deadline + 30):
                    os.kill(p, 9); os.waitpid(p, 0); del running[p]; recs[(u, n)] = dead('out of time')
            time.sleep(0.03)
    return recs, errs

def dead(why):
    return dict(status='tool-limit', tool_limit=why, obligations=0, discharged=0, paths=0, steps=0, covers={}, seconds=0, failed=[], assumptions=[], functions=[],
                backends={}, solver_s=0, feasibility_queries=0, loops=[])

def show(short, rec, verbose=False):
    if rec['status'] == 'proved' and os.environ.get('VC_QUIET'): return
    print('%-34s %-10s obl %d/%d paths %d steps %d %.2fs %s' % (short, rec['status'], rec['discharged'], rec['obligations'], rec['paths'], rec['steps'], rec['seconds'], rec['tool_limit'] or ''))
    if rec.get('where'): print('    ', rec['where'])
    seen = set()
    for f in rec['failed']:
        k = (f['label'], str(f['where']))
        if k in seen and not verbose: continue
        seen.add(k)
        print('   ', f['status'], f['label'], f['where'])
        if verbose: print('\n'.join(f['detail'] or []))

if __name__ == '__main__':
    src = sys.argv[1]
    only = [a for a in sys.argv[2:] if not a.startswith('-')] or None
    scratch = tempfile.mkdtemp(prefix='vc')
    extra = [a for a in sys.argv[2:] if a.startswith('-D')]
    try:
        t0 = time.time()
        if '-1' in sys.argv:
            ll = compile_ir(os.path.abspath(src), scratch, extra)
            m, names = load(ll)
            for n in names:
                if only and n not in only: continue
                rec = _thread(lambda: check_contract(m, n, time.time() + 900, log=print))
                show(n, rec, '-v' in sys.argv)
        else:
            recs, errs = check_units([(os.path.abspath(src), extra)], scratch, only=only, per=900)
            for u, e in errs.items(): print(u, e)
            for (u, n), rec in sorted(recs.items()): show(n, rec, '-v' in sys.argv)
            if '-f' in sys.argv: print('\n'.join(sorted({f for r in recs.values() for f in r['functions']})))
            if '-l' in sys.argv: print('\n'.join(sorted({l for r in recs.values() for l in r['loops']}))); print('\n'.join(sorted({a for r in recs.values() for a in r['assumptions']})))
            print('total %.1fs' % (time.time() - t0))
    finally: shutil.rmtree(scratch)
