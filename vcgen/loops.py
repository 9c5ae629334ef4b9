"""Cutting a loop with an inferred invariant.

The invariant is found by executing one iteration from the loop entry and one from an arbitrary iteration `it`:
 * a location that advances by a constant each iteration is  v0 + c*it,
 * a location no iteration changes keeps its value,
 * a location that is a function of the iteration alone (a flag set in the body, tested at the head) is that function of it - 1,
 * any other location is arbitrary,
 * no earlier iteration took an exit:  forall j < it. (iteration j's continue condition).
It is checked to be inductive before it is used."""
import terms as T
import solver as S
from terms import const, TRUE
import engine as E

def cut(eng, snap, header):
    fr = snap.frames[-1]
    depth = len(snap.frames)
    blocks = eng.loop_info(fr.fn)[header]
    stop = (depth, header, blocks)
    phis = [(i[1], i[2]) for i in fr.fn.blocks[header] if i[0] == 'phi']
    m = T.mark()

    def start(s):
        s.frames[-1].loops[header] = (None, 1)
        return s

    eng.silent += 1
    try:
        outs = eng.run([start(snap.clone())], stop)
        backs = [s for k, s in outs if k == 'back']
        if backs:
            it = T.fresh('it', 64, 'size')
            cls = {}; cands = {}
            widths = {}
            old = {}
            for b in backs:
                for key, v0, v1, w in changes(eng, snap, b, phis, depth, m):
                    old[key] = v0; widths[key] = w
                    cands.setdefault(key, []).append(classify(v0, v1, 1, m))
                check_frame(eng, snap, b, m)
            # cells another path leaves alone count as unchanged there
            for key in list(cands):
                if key[0] in ('phi', 'mem', 'ghost'):
                    for b in backs:
                        v1 = value(eng, b, key, widths[key], depth)
                        cands[key].append(classify(old[key], v1, 1, m))
                    # written with what it held on every path that goes round again ('result = f(); if (result) break')
                    if not isinstance(old[key], tuple): cands[key].append(('same',))
                # candidates are tried in this order; a path that contradicts the last resort of one may be infeasible
                cands[key] = [c for c in sorted(set(cands[key]), key=lambda c: (('stride', 'same', 'havoc').index(c[0]), c)) if c[0] != 'havoc']
                cls[key] = nextcand(cands, key)
            tried = set()
            for rnd in range(16):
                s, cur, m2, varying = make(eng, snap, header, it, cls, old, widths, depth)
                # first without, then (if some location does not behave) with the knowledge that no earlier iteration exited
                for attempt in (0, 1):
                    bad = []; new = {}
                    s1 = s if attempt == 0 else with_history(s.clone(), fr, backs_c(s, m2, backs, it), it)
                    outs = eng.run([start(s1.clone())], stop)
                    backs1 = [b for k, b in outs if k == 'back']
                    if attempt == 0: backs = backs1
                    else: backs1 = [b for b in backs1 if S.prove(b.pc, b.schemas, b.pool, T.FALSE, eng.axioms).status != 'valid']
                    for b in backs1:
                        check_frame(eng, snap, b, m2)
                        for key, v0, v1, w in changes(eng, s1, b, phis, depth, m2, varying):
                            if key not in cls: new[key] = w
                        for key in list(cls):
                            c = cls[key]
                            if c[0] == 'havoc' or key not in cur or key[0] in ('memall', 'ghostall') or key in bad: continue
                            v1 = value(eng, b, key, widths[key], depth)
                            want = expected(old[key], c, T.add(it, const(1, 64)))
                            if v1 is not want and S.prove(b.pc, b.schemas, b.pool, T.eq(v1, want), eng.axioms).status != 'valid': bad.append(key)
                    if not bad and not new: break
                for key in bad: cls[key] = nextcand(cands, key)
                for key, w in new.items():
                    cls[key] = ('havoc',); old[key] = value(eng, snap, key, w, depth) if key[0] in ('phi', 'mem', 'ghost') else None; widths[key] = w
                if not bad and not new:
                    # a location that is still arbitrary may be a function of the iteration before: 'found = f(i)', tested at the head
                    up = False
                    for key, c in list(cls.items()):
                        if c[0] != 'havoc' or key in tried or key[0] in ('memall', 'ghostall') or key not in cur: continue
                        tried.add(key)
                        F = of_iteration(eng, s, backs1, old[key], key, widths[key], depth, m2, it)
                        if F is not None: cls[key] = ('prev', it, F); up = True
                    if not up: break
            else: raise E.ToolLimit('no inductive loop invariant found')
            C = backs_c(s, m2, backs, it)
    finally: eng.silent -= 1

    if not backs:
        outs = eng.run([start(snap.clone())], stop)
        return [finish(s) for k, s in outs if k != 'back']
    with_history(s, fr, C, it)
    s.add_pool(it)
    eng.loopstat.append((fr.fn.name, header, {str(k[:2]): c[0] for k, c in cls.items()}))
    outs = eng.run([start(s)], stop)
    return [finish(x) for k, x in outs if k != 'back']

def backs_c(s, m2, backs, it):
    base = set(s.pcset)
    return T.or_(*[T.and_(*[c for c in b.pc if c.id not in base and not T.born_after(c, m2, (it,))]) for b in backs])

def with_history(s, fr, C, it):
    j = T.fresh('j', 64, 'size')
    body = T.implies(T.ult(j, it), T.subst(C, {it: j}))
    if body.op != 'true':
        s.schemas.append(S.Schema(j, body, 'earlier iterations of the loop in %s did not exit' % fr.fn.name))
    return s

def finish(s): return s

def classify(v0, v1, steps, m):
    if isinstance(v0, tuple) or isinstance(v1, tuple): return ('same',) if v0 == v1 else ('havoc',)
    if v0 is v1: return ('same',)
    if v0.w >= 8:
        d = T.sub(v1, v0)
        if d.op == 'c': return ('stride', d.aux)
    return ('havoc',)

def nextcand(cands, key):
    return cands[key].pop(0) if cands.get(key) else ('havoc',)

def expected(v0, c, it):
    if c[0] == 'same': return v0
    if c[0] == 'prev': return T.ite(T.eq(it, const(0, 64)), v0, T.subst(c[2], {c[1]: T.sub(it, const(1, 64))}))
    i = it if v0.w == 64 else T.extract(it, v0.w - 1, 0) if v0.w < 64 else T.zext(it, v0.w)
    return T.add(v0, T.mulc(i, c[1]))

def of_iteration(eng, s, backs, v0, key, w, depth, m2, it):
    """the location's value after iteration `it`, if it depends on nothing else that varies"""
    if isinstance(v0, tuple): return None
    base = set(s.pcset); F = None
    free = lambda t: not T.born_after(t, m2, (it,))
    for b in backs:
        v = value(eng, b, key, w, depth)
        if not free(v):
            if S.prove(b.pc, b.schemas, b.pool, T.eq(v, v0), eng.axioms).status != 'valid': return None
            v = v0
        F = v if F is None else T.ite(T.and_(*[c for c in b.pc if c.id not in base and free(c)]), v, F)
    return F

def value(eng, st, key, w, depth):
    if key[0] == 'phi': return st.frames[depth - 1].loc[key[1]]
    if key[0] == 'mem':
        r, off = key[1], key[2]
        return eng.read_log(st, st.mem.get(r), r, off, w)
    if key[0] == 'ghost': return eng.gread(st, key[1], key[2], w)

def fresh_obj(t, m, varying):
    """an object created inside the iteration"""
    return t.op == 'v' and t not in varying and T.born_after(t, m)

def changes(eng, s0, b, phis, depth, m, varying=()):
    """cells the iteration s0 -> b may have changed.  `varying`: variables that stand for the iteration; a write whose address
    depends on them makes the whole object (or ghost space) arbitrary"""
    out = []
    def indexed(t): return any(x in varying for x in T.vars_of(t))
    for d, ty in phis:
        v0 = s0.frames[depth - 1].loc[d]; v1 = b.frames[depth - 1].loc[d]
        out.append((('phi', d), v0, v1, v1.w if not isinstance(v1, tuple) else None))
    # ssa values defined outside the loop do not change; allocas of this frame are memory
    for r, log in b.mem.items():
        base = s0.mem.get(r)
        if log is base: continue
        if r is not None and r.op == 'r':
            reg = T.region_of(r)
            if reg.rid > m and reg.kind != 'global': continue
            if reg.rid in b.freed and reg.rid not in s0.freed and b.freed[reg.rid] == 'scope': continue
        n = log; seen = set()
        while n is not base:
            if n is None: raise E.ToolLimit('memory log')
            if n.kind != 'w': raise E.ToolLimit('bulk write inside a loop that is cut')
            if n.a.op != 'c' and T.born_after(n.a, m):
                if r is None and T.born_after(eng.ptr_atom(n.a), m): n = n.prev; continue
                raise E.ToolLimit('indexed write inside a loop that is cut')
            k = ('mem', r, n.a)
            if (k, n.n) not in seen:
                seen.add((k, n.n))
                v0 = eng.read_log(s0, base, r, n.a, n.n); v1 = eng.read_log(b, log, r, n.a, n.n)
                out.append((k, v0, v1, n.n))
            n = n.prev
    for sp, log in b.ghost.items():
        base = s0.ghost.get(sp)
        n = log; seen = set()
        while n is not base:
            if n.kind == 'hv': raise E.ToolLimit('ghost havoc in loop')
            if any(T.born_after(x, m) for x in n.a): n = n.prev; continue
            if n.a not in seen:
                seen.add(n.a)
                out.append((('ghost', sp, n.a), eng.gread(s0, sp, n.a, n.v.w), eng.gread(b, sp, n.a, n.v.w), n.v.w))
            n = n.prev
    return out

def check_frame(eng, s0, b, m):
    if s0.locks != b.locks: raise E.ToolLimit('lock state changes across a loop iteration')
    live0 = set(k for k in s0.heap if k not in s0.freed); live1 = set(k for k in b.heap if k not in b.freed)
    if live0 != live1: raise E.ToolLimit('heap ownership changes across a loop iteration')

def make(eng, snap, header, it, cls, old, widths, depth):
    """the state at the head of an arbitrary iteration"""
    s = snap.clone()
    m2 = T.mark()
    cur = {}
    varying = [it]
    for key, c in cls.items():
        if key[0] == 'memall':
            r = key[1]; eng._hv = getattr(eng, '_hv', 0) + 1
            s.mem[r] = E.Node(s.mem.get(r), 'hv', TRUE, const(0, 64), None, eng._hv)
        elif key[0] == 'ghostall':
            eng._hv = getattr(eng, '_hv', 0) + 1
            s.ghost[key[1]] = E.Node(s.ghost.get(key[1]), 'hv', TRUE, None, None, eng._hv)
    for key, c in cls.items():
        if key[0] == 'memall': continue
        if key[0] == 'ghostall': continue
        if c[0] == 'same':
            cur[key] = old[key]; continue
        if c[0] in ('stride', 'prev'): v = expected(old[key], c, it)
        else:
            o = old[key]
            if isinstance(o, tuple): raise E.ToolLimit('aggregate loop variable')
            v = T.fresh('loopvar', o.w, 'any' if o.w == 64 else None); varying.append(v)
        cur[key] = v
        if key[0] == 'phi': s.frames[depth - 1].loc[key[1]] = v
        elif key[0] == 'mem':
            s.mem[key[1]] = E.Node(s.mem.get(key[1]), 'w', TRUE, key[2], widths[key], v)
        else: eng.gwrite(s, key[1], key[2], v)
    return s, cur, m2, varying
