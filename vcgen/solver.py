"""Discharging of verification conditions: ground instantiation of the quantified facts, then z3 (and cvc5)."""
import time, z3
import terms as T
from terms import to_z3, vars_of

class Stats:
    def __init__(self): self.q = 0; self.t = 0.0; self.by = {}; self.feas = 0; self.feas_t = 0.0; self.feas_q = 0
stats = Stats()

TIMEOUT = 20000
FEAS_TIMEOUT = 3000
cross_check = False

_atoms = {}
def atoms(t):
    """ids of variables, loads and uninterpreted applications below t"""
    r = _atoms.get(t.id)
    if r is not None: return r
    s = set()
    if t.op in ('v', 'ld', 'u'): s.add(t.id)
    for a in kids(t): s |= atoms(a)
    r = frozenset(s)
    _atoms[t.id] = r
    return r

def kids(t):
    if t.op == 'lin': return [a for a, _ in t.aux[0]]
    return t.args

def subterms(ts):
    seen = set(); stack = list(ts); out = []
    while stack:
        x = stack.pop()
        if x.id in seen: continue
        seen.add(x.id); out.append(x)
        stack.extend(kids(x))
    return out

def size_bounds(ts):
    out = []
    seen = set()
    for t in ts:
        for v in vars_of(t):
            if v.id not in seen:
                seen.add(v.id)
                if T.kind(v) == 'size': out.append(z3.ULT(to_z3(v), z3.BitVecVal(1 << 32, v.w)))
                elif T.kind(v) == 'init' and v.w == 64:
                    out.append(z3.ULT(to_z3(v), z3.BitVecVal(1 << 39, 64)))
    return out

# memory initially holds no pointer into a region created later: values loaded from the initial state are below 2^39 when
# they are used as addresses -- the term-level equality already decides those comparisons, so nothing is needed here.

def slice_pc(pc, goal):
    want = set(atoms(goal))
    rest = list(pc); out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for c in rest:
            a = atoms(c)
            if a & want:
                out.append(c); want |= a; changed = True
            else: nr.append(c)
        rest = nr
    return out

_feas = {}
def feasible(pc, c):
    """may pc /\\ c hold?  (over-approximation)"""
    if c.op == 'true': return True
    if c.op == 'false': return False
    sl = slice_pc(pc, c)
    key = (c.id, frozenset(x.id for x in sl))
    r = _feas.get(key)
    if r is not None: return r
    if not sl and c.op in ('eq', 'not', 'ult', 'slt') and False: return True
    t0 = time.time()
    s = z3.SolverFor('QF_UFBV')
    s.set('timeout', FEAS_TIMEOUT)
    for x in sl: s.add(to_z3(x))
    s.add(to_z3(c))
    for b in size_bounds(sl + [c]): s.add(b)
    r = s.check() != z3.unsat
    _feas[key] = r
    stats.feas += 1; stats.feas_t += time.time() - t0
    return r

# ---- quantified facts -------------------------------------------------------------------------------------------
class Schema:
    """forall var. body   (var a free variable term); triggers: subterms of body that contain var"""
    def __init__(self, var, body, name=''):
        self.var = var; self.body = body; self.name = name
        self.trigs = []
        for t in subterms([body]):
            if t.op in ('ld', 'u') and var in vars_of(t):
                # usable if var occurs linearly in one argument
                for i, a in enumerate(t.args):
                    if var in vars_of(a):
                        k = _lin_coef(a, var)
                        if k: self.trigs.append((t, i, k))
        self._inst = {}
    def inst(self, t):
        r = self._inst.get(t.id)
        if r is None:
            r = T.subst(self.body, {self.var: t}); self._inst[t.id] = r
        return r

def _lin_coef(a, v):
    p, c = T.lin_parts(a)
    k = None
    for x, y in p:
        if x is v: k = y
        elif v in vars_of(x): return None
    return k

def match(sch, ground):
    """instances of sch suggested by the ground terms"""
    out = {}
    for trig, i, k in sch.trigs:
        for g in ground.get((trig.op, trig.aux, trig.w), ()):
            if sch.var in vars_of(g): continue
            ok = True
            for j, (x, y) in enumerate(zip(trig.args, g.args)):
                if j == i: continue
                if sch.var in vars_of(x): continue
                if x is not y:
                    if T.is_c(x) and T.is_c(y): ok = False; break
                    # different terms may still be equal: keep, the instance is sound anyway, but only when cheap
                    ok = sch_loose; 
                    if not ok: break
            if not ok: continue
            a, b = trig.args[i], g.args[i]
            base = T.sub(a, T.mulc(sch.var, k))
            ra, rb = T.root(a), T.root(b)
            if ra is not rb: continue
            d = T.sub(b, base)
            if k == 1: out[d.id] = d
            else:
                q = T._exact_div(d, k) if d.w == 64 else (None if d.op != 'c' or d.aux % k else T.const(d.aux // k, d.w))
                if q is not None: out[q.id] = q
    return out
sch_loose = False

def index_ground(ts):
    g = {}
    for t in subterms(ts):
        if t.op in ('ld', 'u'): g.setdefault((t.op, t.aux, t.w), []).append(t)
    return g

def instantiate(facts, schemas, pool, rounds=3, cap=1500):
    facts = list(facts)
    seen = set(f.id for f in facts)
    done = set()
    for r in range(rounds):
        ground = index_ground(facts)
        new = []
        for s in schemas:
            cands = {}
            if r == 0:
                for t in pool:
                    if t.w == s.var.w and not s.triggered_only: cands[t.id] = t
            cands.update(match(s, ground))
            for t in cands.values():
                if (id(s), t.id) in done: continue
                done.add((id(s), t.id))
                f = s.inst(t)
                if f.op != 'true' and f.id not in seen:
                    seen.add(f.id); new.append(f)
        if not new or len(facts) > cap: break
        facts += new
    return facts
Schema.triggered_only = False

class Result:
    __slots__ = ('status', 'model', 'time', 'backend', 'facts')

def prove(pc, schemas, pool, goal, axioms=None, timeout=None):
    """is goal implied?"""
    t0 = time.time()
    r = Result(); r.model = None; r.backend = 'z3'
    stats.q += 1
    if goal.op == 'true' or goal in pc:
        r.status = 'valid'; r.time = 0.0; r.backend = 'simplifier'; stats.by['simplifier'] = stats.by.get('simplifier', 0) + 1
        return r
    neg = T.not_(goal)
    base = list(pc) + [neg]
    # first without the quantified facts (cheap), then with
    facts = instantiate(base, schemas, pool) if schemas else base
    if axioms: facts = axioms(facts)
    bounds = size_bounds(facts)
    zs = [to_z3(x) for x in facts] + list(bounds)
    r.status = 'unknown'
    for logic, ms in (('QF_UFBV', 2500), ('cvc5', 15), ('', 8000), ('QF_UFBV', timeout or TIMEOUT), ('cvc5', 40)):
        if logic == 'cvc5':
            c2 = cvc5_check(facts, ms)
            if c2 == 'unsat': r.status = 'valid'; r.backend = 'cvc5'; break
            continue
        s = z3.SolverFor(logic) if logic else z3.Solver()
        s.set('timeout', ms)
        for x in zs: s.add(x)
        c = s.check()
        if c == z3.unsat: r.status = 'valid'; break
        if c == z3.sat: r.status = 'invalid'; r.model = s.model(); r.facts = facts; break
    if cross_check and r.status == 'valid' and r.backend == 'z3':
        c2 = cvc5_check(facts, 30)
        if c2 == 'unsat': r.backend = 'z3+cvc5'
        elif c2 == 'sat': r.status = 'unknown'; r.backend = 'z3/cvc5 disagree'
    r.time = time.time() - t0
    stats.t += r.time
    stats.by[r.backend] = stats.by.get(r.backend, 0) + 1
    return r

def satisfiable(pc, schemas, pool, axioms=None, timeout=None):
    facts = instantiate(list(pc), schemas, pool) if schemas else list(pc)
    if axioms: facts = axioms(facts)
    s = z3.SolverFor('QF_UFBV')
    s.set('timeout', timeout or TIMEOUT)
    for x in facts: s.add(to_z3(x))
    for b in size_bounds(facts): s.add(b)
    return str(s.check()), s

def cvc5_check(facts, secs):
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    s = z3.Solver()
    for x in facts: s.add(to_z3(x))
    for b in size_bounds(facts): s.add(b)
    smt = '(set-logic QF_UFBV)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    slv = cvc5.Solver()
    slv.setOption('tlimit-per', str(secs * 1000))
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, 'vc')
    sm = p.getSymbolManager()
    res = 'unknown'
    try:
        while True:
            cmd = p.nextCommand()
            if cmd.isNull(): break
            out = cmd.invoke(slv, sm)
            o = str(out).strip()
            if o in ('sat', 'unsat', 'unknown'): res = o
    except Exception as e:
        return 'unknown'
    return res
