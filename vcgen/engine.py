"""Symbolic execution of LLVM IR, generating and discharging proof obligations.

A contract is a function  contract_<name>()  of the analysed module: it builds an arbitrary pre-state, assumes the
precondition, calls the real function and asserts the postcondition.  Every path of the contract is explored; loops whose
trip count depends on an unbounded size are cut by an inferred (and then checked) invariant."""
import time, sys, re
import terms as T
from terms import TRUE, FALSE, const
import irparse as IR
from irparse import Unsupported, width
import solver as S
import stdmodel

class ToolLimit(Exception): pass
class PathEnd(Exception): pass
class Restart(Exception): pass

# ---- logs ----------------------------------------------------------------------------------------------------------
class Node:
    __slots__ = ('prev', 'kind', 'g', 'a', 'n', 'v', 'depth', 'x')
    def __init__(self, prev, kind, g, a, n, v, x=None):
        self.prev = prev; self.kind = kind; self.g = g; self.a = a; self.n = n; self.v = v; self.x = x
        self.depth = prev.depth + 1 if prev is not None else 1

class Frame:
    __slots__ = ('fn', 'block', 'prev', 'ip', 'loc', 'dest', 'rty', 'nlab', 'ulab', 'loops', 'onret', 'allocas', 'visits')
    def clone(self):
        f = Frame()
        f.fn = self.fn; f.block = self.block; f.prev = self.prev; f.ip = self.ip; f.loc = dict(self.loc)
        f.dest = self.dest; f.rty = self.rty; f.nlab = self.nlab; f.ulab = self.ulab; f.loops = dict(self.loops); f.onret = self.onret
        f.allocas = self.allocas; f.visits = dict(self.visits)
        return f

class State:
    def __init__(self):
        self.frames = []
        self.pc = []
        self.pcset = set()
        self.schemas = []
        self.pool = []
        self.mem = {}
        self.ghost = {}
        self.freed = {}
        self.heap = {}
        self.locks = {}
        self.guards = []
        self.exc = None
        self.caught = []
        self.trace = ()
        self.repl = {}
        self.opts = {}
        self.nonnull = set()
        self.counter = {}
        self.strfreed = set(); self.recur = {}
    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.pc = list(self.pc); s.pcset = set(self.pcset); s.schemas = list(self.schemas); s.pool = list(self.pool)
        s.mem = dict(self.mem); s.ghost = dict(self.ghost); s.freed = dict(self.freed); s.heap = dict(self.heap)
        s.locks = dict(self.locks); s.guards = list(self.guards)
        s.exc = self.exc; s.caught = list(self.caught); s.trace = self.trace; s.repl = dict(self.repl); s.opts = dict(self.opts)
        s.nonnull = set(self.nonnull); s.counter = dict(self.counter)
        s.strfreed = set(self.strfreed); s.recur = self.recur
        return s
    def assume(self, t):
        for x in (t.args if t.op == 'and' else (t,)):
            if x.op == 'true' or x.id in self.pcset: continue
            self.pcset.add(x.id); self.pc.append(x)
            if x.op == 'eq' : pass
    def holds(self, t):
        """cheap syntactic check"""
        return t.op == 'true' or t.id in self.pcset
    def add_pool(self, t):
        if t not in self.pool: self.pool.append(t)

class Obligation:
    __slots__ = ('label', 'contract', 'status', 'time', 'backend', 'where', 'detail', 'kind')

class Engine:
    def __init__(self, module, log=None, max_steps=3000000, deadline=None):
        self.m = module
        self.obls = []
        self.covers = {}
        self.silent = 0
        self.regions_g = {}
        self.contract = None
        self.steps = 0
        self.max_steps = max_steps
        self.deadline = deadline
        self.log = log
        self.intercepts = {}
        self.pref = []
        self.assumed = set()
        self.inlined = set()
        self.used_ext = set()
        self.paths = 0
        self.loopstat = []
        self.axioms = None
        self._mst = []
        self._pd = {}
        self._icache = {}
        self._strid = {}
        stdmodel.install(self)

    # ---- module access --------------------------------------------------------------------------------------------------
    def fn_term(self, name):
        name = self.m.alias.get(name, name)
        return T.mk('fn', (), 64, name)

    def glob_term(self, name):
        name = self.m.alias.get(name, name)
        if name in self.m.fns: return self.fn_term(name)
        r = self.regions_g.get(name)
        if r is None:
            g = self.m.glob(name)
            try: size = self.m.layout(g['ty']).size
            except Unsupported: size = None
            r = T.new_region(name, 'global', const(size, 64) if size is not None and not g['ext'] else None)
            self.regions_g[name] = r
            r.align = (name, None)
        return r.term

    def const_value(self, ty, v):
        k = v[0]
        if k == 'k':
            if ty.k == 'ptr': return const(v[1], 64)
            return const(v[1], width(ty))
        if k == 'g': return self.glob_term(v[1])
        if k == 'zero':
            if ty.k in ('int', 'ptr', 'float'): return const(0, width(ty))
            if ty.k == 'struct': return tuple(self.const_value(e, v) for e in ty.elems)
            if ty.k == 'arr': return tuple(self.const_value(ty.elems, v) for _ in range(ty.n))
        if k == 'undef':
            if ty.k in ('int', 'ptr', 'float'): return T.fresh('undef', width(ty), 'any' if ty.k == 'ptr' else None)
            if ty.k == 'struct': return tuple(self.const_value(e, v) for e in ty.elems)
            if ty.k == 'arr': return tuple(self.const_value(ty.elems, v) for _ in range(ty.n))
        if k == 'agg': return tuple(self.const_value(t, x) for t, x in v[1])
        if k == 'str': return tuple(const(b, 8) for b in v[1])
        if k == 'cgep':
            sty, args = v[1], v[2]
            base = self.const_value(args[0][0], args[0][1])
            return self.gep(sty, base, [(t, self.const_value(t, x)) for t, x in args[1:]])
        if k == 'ccast':
            _, op, t, x, t2 = v
            return self.cast(op, t, self.const_value(t, x), t2)
        if k == 'cop':
            _, op, args = v
            a = self.const_value(*args[0]); b = self.const_value(*args[1])
            if op == 'sub': return T.sub(a, b)
            if op == 'add': return T.add(a, b)
            if op == 'and': return T.band(a, b)
            if op.startswith('icmp'): return self.icmp(op[5:], a, b)
        raise ToolLimit('constant %s' % (v,))

    # ---- values -----------------------------------------------------------------------------------------------------------
    def val(self, st, ty, v):
        if v[0] == 'l':
            try: return st.frames[-1].loc[v[1]]
            except KeyError: raise ToolLimit('value %s' % v[1])
        return self.const_value(ty, v)

    def gep(self, sty, base, idx):
        t = sty
        first = True
        addr = base
        for ity, iv in idx:
            iv64 = T.sext(iv, 64) if iv.w < 64 else iv
            if first:
                sz = self.m.layout(t).size if t.k != 'opaque' else 1
                addr = T.add(addr, T.mulc(iv64, sz)); first = False; continue
            if t.k == 'struct':
                self.m.layout(t)
                i = iv.aux
                addr = T.add(addr, const(t.offs[i], 64)); t = t.elems[i]
            elif t.k in ('arr', 'vec'):
                t = t.elems
                addr = T.add(addr, T.mulc(iv64, self.m.layout(t).size))
            else: raise ToolLimit('gep')
        return addr

    def cast(self, op, t, v, t2):
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            w = width(t2)
            if v.w == w: return v
            if v.w > w: return T.trunc(v, w)
            return T.zext(v, w)
        w = width(t2)
        if op == 'trunc': return T.trunc(v, w)
        if op == 'zext': return T.zext(v, w)
        if op == 'sext': return T.sext(v, w)
        return T.uf('%s.%d.%d' % (op, v.w, w), (v,), w)

    def icmp(self, p, a, b):
        if p == 'eq': return T.eq(a, b)
        if p == 'ne': return T.not_(T.eq(a, b))
        if a.w == 0: a = T.zext(a, 8); b = T.zext(b, 8)
        return {'ult': lambda: T.ult(a, b), 'ule': lambda: T.ule(a, b), 'ugt': lambda: T.ult(b, a), 'uge': lambda: T.ule(b, a),
                'slt': lambda: T.slt(a, b), 'sle': lambda: T.sle(a, b), 'sgt': lambda: T.slt(b, a), 'sge': lambda: T.sle(b, a)}[p]()

    def binop(self, op, a, b):
        f = {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'and': T.band, 'or': T.bor, 'xor': T.bxor, 'shl': T.shl, 'lshr': T.lshr,
             'ashr': T.ashr, 'udiv': T.udiv, 'sdiv': T.sdiv, 'urem': T.urem, 'srem': T.srem}.get(op)
        if f: return f(a, b)
        if op in ('fadd', 'fmul') and a.id > b.id: a, b = b, a
        return T.uf('%s%d' % (op, a.w), (a, b), a.w)

    # ---- memory -------------------------------------------------------------------------------------------------------------
    def split_addr(self, a):
        """an address that is an ite between places with different roots"""
        if a.op == 'ite': return a.args
        if a.op == 'lin':
            for x, k in a.aux[0]:
                if k == 1 and x.op == 'ite' and (T.root(x.args[1]) is not None or T.root(x.args[2]) is not None or x.args[1].op == 'c' or x.args[2].op == 'c'):
                    rest = T.sub(a, x)
                    return (x.args[0], T.add(x.args[1], rest), T.add(x.args[2], rest))
        return None

    def check_access(self, st, addr, n, what):
        """obligations: the access is inside a live object"""
        r = T.root(addr)
        if r is None:
            if addr.op == 'c':
                self.obligation(st, FALSE, 'memory-safety: %s through null' % what, 'safety')
                raise PathEnd()
            base = self.ptr_atom(addr)
            if base.id in st.nonnull: return
            self.obligation(st, T.not_(T.eq(base, const(0, 64))), 'memory-safety: %s through possibly null pointer' % what, 'safety')
            st.assume(T.not_(T.eq(base, const(0, 64))))
            st.nonnull.add(base.id)
            return
        if r.op == 'fn':
            raise ToolLimit('access to code')
        reg = T.region_of(r)
        if r.aux in st.freed:
            self.obligation(st, FALSE, 'memory-safety: %s of freed memory' % what, 'safety'); raise PathEnd()
        if st.guards: self.check_guard(st, r, addr, n, what)
        if reg.size is not None:
            off = T.sub(addr, r)
            if off.op == 'c' and reg.size.op == 'c':
                if off.aux + n <= reg.size.aux: return
                self.obligation(st, FALSE, 'memory-safety: %s out of bounds of %s' % (what, reg.name), 'safety'); raise PathEnd()
            key = ('b', off.id, n, r.aux)
            if key in st.nonnull: return
            ok = T.and_(T.ule(T.add(off, const(n, 64)), reg.size), T.ult(off, reg.size) if True else TRUE)
            self.obligation(st, ok, 'memory-safety: %s inside its object' % what, 'safety')
            st.assume(ok)
            st.nonnull.add(key)

    def check_guard(self, st, r, addr, n, what):
        for (lock, gr, lo, hi, mode) in st.guards:
            if gr is not r: continue
            off = T.sub(addr, r)
            if off.op == 'c':
                if off.aux + n <= lo or off.aux >= hi: continue
            need = 2 if what == 'write' else 1
            held = st.locks.get(lock.id, 0)
            ok = held == 2 or (held >= 1 and need == 1)
            self.obligation(st, T.boolc(ok), 'lock discipline: %s of guarded state under the %s lock' % (what, 'exclusive' if need == 2 else 'shared or exclusive'), 'lock')

    def ptr_atom(self, a):
        """the pointer an opaque address is based on: the unique atom with coefficient 1 that is not a small integer"""
        if a.op != 'lin': return a
        c = [x for x, k in a.aux[0] if k == 1 and not T.is_small(x)]
        if len(c) == 1: return c[0]
        return a

    def load(self, st, addr, n, what='read'):
        sp = self.split_addr(addr)
        if sp is not None:
            c, a, b = sp
            if st.holds(c): return self.load(st, a, n, what)
            if st.holds(T.not_(c)): return self.load(st, b, n, what)
            fa = S.feasible(st.pc, c); fb = S.feasible(st.pc, T.not_(c))
            if not fa: return self.load(st, b, n, what)
            if not fb: return self.load(st, a, n, what)
            # obligations of either side hold under its condition
            s1 = self.side(st, c); va = self.load(s1, a, n, what); self.unside(st, s1)
            s2 = self.side(st, T.not_(c)); vb = self.load(s2, b, n, what); self.unside(st, s2)
            return self.ite_val(c, va, vb)
        self.check_access(st, addr, n, what)
        r = T.root(addr)
        if r is not None:
            off = T.sub(addr, r)
            log = st.mem.get(r)
        else:
            off = addr; log = st.mem.get(None)
        return self.read_log(st, log, r, off, n)

    def side(self, st, c):
        s = st.clone(); s.assume(c); return s
    def unside(self, st, s): pass

    def ite_val(self, c, a, b):
        if isinstance(a, tuple): return tuple(self.ite_val(c, x, y) for x, y in zip(a, b))
        return T.ite(c, a, b)

    def read_log(self, st, log, r, off, n):
        if n not in (1, 2, 4, 8):
            if n > 8:
                h = 8
                lo = self.read_log(st, log, r, off, h)
                hi = self.read_log(st, log, r, T.add(off, const(h, 64)), n - h)
                return T.concat(hi, lo)
            h = 4 if n > 4 else 2
            return T.concat(self.read_log(st, log, r, T.add(off, const(h, 64)), n - h), self.read_log(st, log, r, off, h))
        pend = []
        res = None
        while log is not None:
            k = log.kind
            if k == 'w':
                rel = self.relate(st, off, n, log.a, log.n, r)
                if rel is None: log = log.prev; continue
                c, sd = rel
                if sd == 'split':
                    h = n // 2
                    lo = self.read_log(st, log, r, off, h)
                    hi = self.read_log(st, log, r, T.add(off, const(h, 64)), h)
                    res = T.concat(hi, lo); break
                v = log.v
                if sd != 0 or n != log.n: v = T.extract(v, sd * 8 + n * 8 - 1, sd * 8)
                g = T.and_(log.g, c)
                if g.op == 'true' or st.holds(g): res = v; break
                if not st.holds(T.not_(g)): pend.append((g, v))
            elif k == 'set' or k == 'copy' or k == 'hv':
                d = T.sub(off, log.a)
                if log.n is None: c = TRUE
                else:
                    c = T.and_(T.ule(T.add(d, const(n, 64)), log.n), T.ult(d, log.n))
                    if c.op not in ('true', 'false'):
                        if self.decide(st, c): c = TRUE
                        elif self.decide(st, T.not_(c)): c = FALSE
                    if c.op == 'false' and d.op == 'c' and log.n.op == 'c':
                        sd = T.sval(d)
                        if sd < log.n.aux and sd + n > 0 and n > 1:
                            h = n // 2
                            res = T.concat(self.read_log(st, log, r, T.add(off, const(h, 64)), h), self.read_log(st, log, r, off, h)); break
                g = T.and_(log.g, c)
                if g.op != 'false':
                    if k == 'set':
                        b = log.v
                        v = b
                        for _ in range(n - 1): v = T.concat(v, b) if b.op == 'c' else T.concat(b, v)
                    elif k == 'copy':
                        slog, sr, soff = log.x
                        v = self.read_log(st, slog, sr, T.add(soff, d), n)
                    else:
                        v = self.canon_init(st, r, off, n, 'hv%d.' % log.v)
                    if g.op == 'true': res = v; break
                    pend.append((g, v))
            log = log.prev
        if res is None: res = self.initial(st, r, off, n)
        for g, v in reversed(pend): res = T.ite(g, v, res)
        return res

    def decide(self, st, t):
        if st.holds(t): return True
        return not S.feasible(st.pc, T.not_(t))

    def relate(self, st, off, n, eoff, en, r):
        """how [off,off+n) relates to [eoff,eoff+en): None disjoint, (cond, byte shift) overlapping when cond, or (_, 'split')"""
        d = T.sub(off, eoff)
        if d.op == 'c':
            sd = T.sval(d)
            if sd >= en or sd <= -n: return None
            if sd >= 0 and sd + n <= en: return (TRUE, sd)
            return (TRUE, 'split')
        if r is None:
            # opaque addresses: pointers are the starts of disjoint objects
            p, q = self.ptr_atom(off), self.ptr_atom(eoff)
            if p is not q:
                dd = T.sub(T.sub(off, p), T.sub(eoff, q))
                if dd.op == 'c':
                    sd = T.sval(dd)
                    if sd >= en or sd <= -n: return None
                    c = T.eq(p, q)
                    if c.op == 'false' or st.holds(T.not_(c)): return None
                    if sd >= 0 and sd + n <= en:
                        if not S.feasible(st.pc, c): return None
                        return (c, sd)
                    if not S.feasible(st.pc, c): return None
                    raise ToolLimit('overlap of opaque objects')
                c = T.eq(p, q)
                if not S.feasible(st.pc, c): return None
                raise ToolLimit('indexed opaque objects')
        # strided
        p, c = T.lin_parts(d)
        g = 0
        import math
        for _, k in p: g = math.gcd(g, k)
        g = math.gcd(g, 1 << 64)
        if g >= max(en, n):
            c0 = c % g
            # bytes overlap iff d in (-n, en); d = g*K + c0
            opts = []
            if c0 < en: opts.append((c0, T.sub(d, const(c0, 64))))
            if c0 - g > -n: opts.append((c0 - g, T.sub(d, const(c0 - g, 64))))
            if not opts: return None
            if len(opts) == 1:
                sd, z = opts[0]
                e = T.eq(z, const(0, 64))
                if e.op == 'false': return None
                if sd >= 0 and sd + n <= en: return (e, sd)
        e = T.ult(T.add(d, const(n - 1, 64)), const(n - 1 + en, 64))    # overlap
        if not S.feasible(st.pc, e): return None
        z = T.eq(d, const(0, 64))
        if n <= en and not S.feasible(st.pc, T.and_(e, T.not_(z))): return (z, 0)
        raise ToolLimit('possibly overlapping accesses: %r vs %r' % (off, eoff))

    def canon_init(self, st, r, off, n, tag):
        """initial content; 8-byte words at a time where the position inside the word is known"""
        addr = T.add(off, r) if r is not None else off
        if n < 8:
            p, c = T.lin_parts(off if r is not None else T.sub(off, self.ptr_atom(off)))
            if all(k % 8 == 0 for _, k in p):
                lo = c % 8
                if lo + n <= 8:
                    wd = T.ld(T.sub(addr, const(lo, 64)), 64, tag)
                    return T.extract(wd, lo * 8 + n * 8 - 1, lo * 8)
        elif n == 8:
            p, c = T.lin_parts(off if r is not None else T.sub(off, self.ptr_atom(off)))
            if all(k % 8 == 0 for _, k in p) and c % 8:
                lo = c % 8
                a = T.ld(T.sub(addr, const(lo, 64)), 64, tag); b = T.ld(T.add(addr, const(8 - lo, 64)), 64, tag)
                return T.extract(T.concat(b, a), lo * 8 + 63, lo * 8)
        return T.ld(addr, n * 8, tag)

    def initial(self, st, r, off, n):
        if r is not None and r.op == 'r':
            reg = T.region_of(r)
            if reg.kind == 'global':
                v = self.global_read(reg, off, n)
                if v is not None: return v
        return self.canon_init(st, r, off, n, '')

    def global_read(self, reg, off, n):
        g = self.m.glob(reg.name)
        if g['ext']: return None
        if off.op != 'c':
            return self.global_read_sym(reg, g, off, n)
        return self.ginit(g['ty'], g['init'], off.aux, n)

    def global_read_sym(self, reg, g, off, n):
        ty = g['ty']
        if reg.size is None or reg.size.aux > 4096: raise ToolLimit('symbolic index into %s' % reg.name)
        p, c = T.lin_parts(off)
        import math
        gg = 0
        for _, k in p: gg = math.gcd(gg, k)
        gg = math.gcd(gg, 1 << 64)
        if gg < n and gg > 1: raise ToolLimit('symbolic index into %s' % reg.name)
        res = None
        o = c % gg
        cases = []
        while o + n <= reg.size.aux:
            cases.append((T.eq(off, const(o, 64)), self.ginit(ty, g['init'], o, n))); o += gg
        res = cases[-1][1]
        for c_, v in reversed(cases[:-1]): res = T.ite(c_, v, res)
        return res

    def ginit(self, ty, v, off, n):
        if v[0] in ('zero',): return const(0, n * 8)
        if v[0] == 'undef': return const(0, n * 8)
        if ty.k in ('int', 'ptr', 'float'):
            t = self.const_value(ty, v)
            if t.w == 0: t = T.zext(t, 8)
            if off == 0 and t.w == n * 8: return t
            if (off + n) * 8 <= t.w: return T.extract(t, (off + n) * 8 - 1, off * 8)
            raise ToolLimit('global scalar read')
        if v[0] == 'str':
            b = v[1][off:off + n]
            return const(int.from_bytes(b, 'little'), n * 8)
        if v[0] == 'agg':
            self.m.layout(ty)
            if ty.k == 'arr':
                es = self.m.layout(ty.elems).size
                i = off // es
                if off + n <= (i + 1) * es: return self.ginit(ty.elems, v[1][i][1], off - i * es, n)
            else:
                for i, o in enumerate(ty.offs):
                    es = self.m.layout(ty.elems[i]).size
                    if o <= off and off + n <= o + es: return self.ginit(ty.elems[i], v[1][i][1], off - o, n)
                if n == 1: return const(0, 8)
            h = n // 2
            if h: return T.concat(self.ginit(ty, v, off + h, h), self.ginit(ty, v, off, h))
            return const(0, 8)
        t = self.const_value(ty, v)
        raise ToolLimit('global initialiser')

    def store(self, st, addr, n, v, g=TRUE):
        sp = self.split_addr(addr)
        if sp is not None:
            c, a, b = sp
            fa = st.holds(c) or S.feasible(st.pc, c); fb = S.feasible(st.pc, T.not_(c))
            if fa and not fb: return self.store(st, a, n, v, g)
            if fb and not fa: return self.store(st, b, n, v, g)
            s1 = self.side(st, c); self.check_access(s1, a, n, 'write') if self.split_addr(a) is None else None
            s2 = self.side(st, T.not_(c)); self.check_access(s2, b, n, 'write') if self.split_addr(b) is None else None
            self.store_raw(st, a, n, v, T.and_(g, c)); self.store_raw(st, b, n, v, T.and_(g, T.not_(c)))
            return
        self.check_access(st, addr, n, 'write')
        self.store_raw(st, addr, n, v, g)

    def store_raw(self, st, addr, n, v, g=TRUE):
        sp = self.split_addr(addr)
        if sp is not None:
            c, a, b = sp
            self.store_raw(st, a, n, v, T.and_(g, c)); self.store_raw(st, b, n, v, T.and_(g, T.not_(c))); return
        r = T.root(addr)
        if r is not None:
            off = T.sub(addr, r)
            if r.op == 'fn': raise ToolLimit('store to code')
            reg = T.region_of(r)
            if reg.kind == 'global' and self.m.glob(reg.name)['const']:
                self.obligation(st, FALSE, 'memory-safety: write to a constant', 'safety'); raise PathEnd()
        else: off = addr
        st.mem[r] = Node(st.mem.get(r), 'w', g, off, n, v)

    def bulk_copy(self, st, dst, src, ln):
        """memmove(dst, src, ln)"""
        sp = self.split_addr(dst)
        if sp is not None or self.split_addr(src) is not None: raise ToolLimit('bulk copy through a choice of pointers')
        if ln.op == 'c' and ln.aux <= 256:
            n = ln.aux; o = 0; vals = []
            while o < n:
                k = 8 if n - o >= 8 else 4 if n - o >= 4 else 2 if n - o >= 2 else 1
                vals.append((o, k, self.load(st, T.add(src, const(o, 64)), k))); o += k
            for o, k, v in vals: self.store(st, T.add(dst, const(o, 64)), k, v)
            return
        self.check_range(st, dst, ln, 'write'); self.check_range(st, src, ln, 'read')
        rs, rd = T.root(src), T.root(dst)
        so = T.sub(src, rs) if rs is not None else src
        do = T.sub(dst, rd) if rd is not None else dst
        st.mem[rd] = Node(st.mem.get(rd), 'copy', TRUE, do, ln, None, (st.mem.get(rs), rs, so))

    def bulk_set(self, st, dst, byte, ln):
        if self.split_addr(dst) is not None: raise ToolLimit('memset through a choice of pointers')
        self.check_range(st, dst, ln, 'write')
        rd = T.root(dst)
        do = T.sub(dst, rd) if rd is not None else dst
        st.mem[rd] = Node(st.mem.get(rd), 'set', TRUE, do, ln, byte)

    def check_range(self, st, a, ln, what):
        r = T.root(a)
        if r is None:
            return
        reg = T.region_of(r)
        if r.aux in st.freed:
            self.obligation(st, FALSE, 'memory-safety: %s of freed memory' % what, 'safety'); raise PathEnd()
        if reg.size is not None:
            off = T.sub(a, r)
            ok = T.or_(T.eq(ln, const(0, 64)), T.and_(T.ule(T.add(off, ln), reg.size), T.ule(off, reg.size)))
            self.obligation(st, ok, 'memory-safety: bulk %s inside its object' % what, 'safety')

    def havoc(self, st, addr, n):
        r = T.root(addr)
        off = T.sub(addr, r) if r is not None else addr
        self._hv = getattr(self, '_hv', 0) + 1
        st.mem[r] = Node(st.mem.get(r), 'hv', TRUE, off, n, self._hv)

    # typed load/store
    def load_ty(self, st, ty, addr):
        if ty.k in ('int', 'ptr', 'float'):
            n = self.m.layout(ty).size
            if ty.k == 'int' and ty.n not in (1, 8, 16, 32, 64, 128): n = (ty.n + 7) // 8
            v = self.load(st, addr, n)
            w = width(ty)
            if w == 0: return T.not_(T.eq(T.extract(v, 0, 0) if False else v, const(0, v.w)))
            if v.w != w: v = T.extract(v, w - 1, 0)
            return v
        self.m.layout(ty)
        if ty.k == 'struct': return tuple(self.load_ty(st, e, T.add(addr, const(o, 64))) for e, o in zip(ty.elems, ty.offs))
        if ty.k == 'arr': return tuple(self.load_ty(st, ty.elems, T.add(addr, const(i * ty.elems.size, 64))) for i in range(ty.n))
        raise ToolLimit('load of %r' % ty)

    def store_ty(self, st, ty, v, addr):
        if ty.k in ('int', 'ptr', 'float'):
            n = self.m.layout(ty).size
            if ty.k == 'int' and ty.n not in (1, 8, 16, 32, 64, 128): n = (ty.n + 7) // 8
            if v.w != n * 8: v = T.zext(v, n * 8)
            if n == 16:
                self.store(st, addr, 8, T.extract(v, 63, 0)); self.store(st, T.add(addr, const(8, 64)), 8, T.extract(v, 127, 64)); return
            self.store(st, addr, n, v); return
        self.m.layout(ty)
        if ty.k == 'struct':
            for e, o, x in zip(ty.elems, ty.offs, v): self.store_ty(st, e, x, T.add(addr, const(o, 64)))
            return
        if ty.k == 'arr':
            for i, x in enumerate(v): self.store_ty(st, ty.elems, x, T.add(addr, const(i * ty.elems.size, 64)))
            return
        raise ToolLimit('store of %r' % ty)

    # ghost spaces: keyed by tuples of terms
    def gread(self, st, space, key, w=64):
        pend = []
        log = st.ghost.get(space)
        res = None
        while log is not None:
            if log.kind == 'hv':
                res = T.uf('ghost.%s.%d' % (space, log.v), key, w); break
            c = T.and_(log.g, *[T.eq(a, b) for a, b in zip(log.a, key)])
            if c.op == 'true' or st.holds(c): res = log.v; break
            if c.op != 'false' and not st.holds(T.not_(c)) and S.feasible(st.pc, c): pend.append((c, log.v))
            log = log.prev
        if res is None:
            d = st.opts.get('gdef.' + space)
            res = d if d is not None else T.uf('ghost.%s' % space, key, w)
        for c, v in reversed(pend): res = T.ite(c, v, res)
        return res
    def gwrite(self, st, space, key, v, g=TRUE):
        st.ghost[space] = Node(st.ghost.get(space), 'w', g, key, None, v)

    # ---- obligations ------------------------------------------------------------------------------------------------------
    def where(self, st):
        out = []
        for f in reversed(st.frames[-6:]):
            blk = f.fn.blocks[f.block]
            ip = min(f.ip, len(blk) - 1)
            # f.ip already points past the current instruction
            d = None
            for k in range(max(ip - 1, 0), -1, -1):
                if blk[k][-1]: d = blk[k][-1]; break
            out.append('%s:%s' % (IR.demangle(f.fn.name)[:100], self.line(d) if d else '?'))
        return out
    def line(self, d):
        m = re.search(r'line: (\d+)', self.m.md.get(d, ''))
        return m.group(1) if m else '?'

    def obligation(self, st, t, label, kind='assert', detail=None):
        if self.silent: return True
        o = Obligation(); o.label = label; o.contract = self.contract; o.kind = kind
        if t.op == 'true' or st.holds(t):
            o.status = 'valid'; o.time = 0.0; o.backend = 'simplifier'; o.where = None; o.detail = None
            S.stats.q += 1; S.stats.by['simplifier'] = S.stats.by.get('simplifier', 0) + 1
            self.obls.append(o); return True
        if t.op == 'false' and kind == 'safety':
            # a definite fault: only matters if the path is feasible
            pass
        r = S.prove(st.pc, st.schemas, st.pool, t, self.axioms)
        o.status = r.status; o.time = r.time; o.backend = r.backend; o.where = None; o.detail = None
        if r.status != 'valid':
            o.where = self.where(st)
            lines = ['goal: %s' % T.show(t, 12)[:1500]]
            lines += ['path: %s' % T.show(c, 8)[:400] for c in st.pc[-60:]]
            if r.model is not None:
                vs = set()
                for c in st.pc + [t]: vs |= T.vars_of(c)
                for v in sorted(vs, key=lambda x: x.id)[:80]:
                    lines.append('  %s = %s' % (v.aux, r.model.eval(T.to_z3(v), model_completion=False)))
            o.detail = lines
            if self.log: self.log('FAIL %s [%s] at %s' % (label, r.status, o.where))
        self.obls.append(o)
        return r.status == 'valid'

    # ---- execution ----------------------------------------------------------------------------------------------------------
    def push(self, st, fn, args, dest=None, rty=None, nlab=None, ulab=None, onret=None):
        if len(st.frames) > 120: raise ToolLimit('recursion through %s' % fn.name)
        if sum(1 for f in st.frames if f.fn is fn) > 6: raise ToolLimit('unbounded recursion of %s' % IR.demangle(fn.name))
        f = Frame(); f.fn = fn; f.block = fn.entry; f.prev = None; f.ip = 0; f.loc = {}; f.dest = dest; f.rty = rty
        f.nlab = nlab; f.ulab = ulab; f.loops = {}; f.onret = onret; f.allocas = (); f.visits = {}
        for (t, nm, a), v in zip(fn.params, args):
            if 'byval' in a and a['byval'] is not True:
                sz = self.m.layout(a['byval']).size
                r = T.new_region('byval', 'local', const(sz, 64))
                self.bulk_copy(st, r.term, v, const(sz, 64)); v = r.term
            f.loc[nm] = v
        st.frames.append(f)
        self.inlined.add(fn.name)

    def finish(self, st, value):
        """return from the top frame with a value"""
        f = st.frames.pop()
        for r in f.allocas: st.freed[r] = 'scope'
        if f.onret: value = f.onret(self, st, value)
        if st.frames and f.dest != 'pure':
            c = st.frames[-1]
            if f.dest is not None: c.loc[f.dest] = value
            if f.nlab is not None: self.jump(st, c, f.nlab)

    def jump(self, st, f, label):
        f.prev = f.block; f.block = label; f.ip = 0
        # phis in parallel
        blk = f.fn.blocks[label]
        if blk and blk[0][0] == 'phi':
            new = []
            for ins in blk:
                if ins[0] != 'phi': break
                for b, v in ins[3]:
                    if b == f.prev: new.append((ins[1], self.val(st, ins[2], v))); break
                else: raise ToolLimit('phi')
            for d, v in new: f.loc[d] = v
            f.ip = len(new)
        self.loop_edge(st, f, label)

    def unwind(self, st):
        while st.frames:
            f = st.frames.pop()
            for r in f.allocas: st.freed[r] = 'scope'
            if not st.frames: break
            if f.dest == 'pure': raise ToolLimit('exception out of a callback that is summarised')
            if f.ulab is not None:
                self.jump(st, st.frames[-1], f.ulab)
                return
        raise UncaughtException()

    def throw(self, st, obj, ti, cur_ulab=None, has_frame=True):
        """start unwinding out of the current call instruction of the top frame"""
        st.exc = (obj, ti)
        if cur_ulab is not None:
            self.jump(st, st.frames[-1], cur_ulab); return
        self.unwind(st)

    def eval_call(self, st, f, ins):
        _, dest, rty, callee, args, nlab, ulab, dbg = ins
        cv = self.val(st, IR.PTR, callee)
        vals = [self.val(st, t, v) if t is not None else None for t, v, a in args]
        if cv.op == 'ite': return self.fork_call(st, f, cv, callee)
        if cv.op != 'fn':
            for slot, stub in st.opts.get('indirect', ()):
                if slot is None: extra = [cv]
                elif self.virtual_slot(cv, vals, slot): extra = []
                else: continue
                fn = self.m.fn(stub)
                if extra and args and args[0][2] and 'sret' in args[0][2]: self.push(st, fn, [vals[0]] + extra + vals[1:], dest, rty, nlab, ulab)
                else: self.push(st, fn, extra + vals, dest, rty, nlab, ulab)
                return
            raise self.indirect(st, cv)
        name = cv.aux
        self.call(st, name, vals, dest, rty, nlab, ulab, args)

    def fork_call(self, st, f, cv, callee):
        """the callee depends on a condition: one path for each"""
        f.ip -= 1
        c, a, b = cv.args
        s2 = st.clone()
        outs = []
        for s, g, v in ((st, c, a), (s2, T.not_(c), b)):
            if not S.feasible(s.pc, g): continue
            s.assume(g); s.frames[-1].loc[callee[1]] = v; outs.append(s)
        if not outs: raise PathEnd()
        if outs[0] is not st: raise PathSplit(outs)
        return outs[1:]

    def virtual_slot(self, cv, vals, slot):
        """the callee is the function at byte `slot` of the table the object (first or, after a result slot, second argument) points to"""
        if cv.op != 'ld': return False
        tab = T.sub(cv.args[0], const(slot, 64))
        return any(v is not None and not isinstance(v, tuple) and tab.op == 'ld' and tab.args[0] is v for v in vals[:2])

    def indirect(self, st, cv):
        if cv.op == 'c' and cv.aux == 0:
            self.obligation(st, FALSE, 'memory-safety: call through a null function pointer', 'safety')
            return PathEnd()
        return ToolLimit('call through an unknown function pointer %r' % cv)

    def call(self, st, name, vals, dest, rty, nlab, ulab, args=None):
        h = self.handler(name)
        rep = st.repl.get(name)
        if rep is None and st.repl:
            for pat, stub in st.repl.items():
                if pat.startswith('~') and IR.demangle(name).startswith(pat[1:]): rep = stub; break
        if rep is None and name in st.recur and any(fr.fn.name == name for fr in st.frames): rep = st.recur[name]
        if rep is not None and not any(fr.fn.name == rep for fr in st.frames):
            fn = self.m.fn(rep)
            self.push(st, fn, vals, dest, rty, nlab, ulab); return
        if h is not None:
            st.opts['_ulab'] = ulab
            try: r = h(self, st, vals, args, name)
            except CppThrow as e:
                self.throw(st, e.obj, e.ti, ulab); return
            except stdmodel.UseBody as e:
                h = None
        if h is not None:
            if r is PUSHED:
                f = st.frames[-1]; f.dest = dest; f.rty = rty; f.nlab = nlab; f.ulab = ulab
                return
            if dest is not None: st.frames[-1].loc[dest] = r
            if nlab is not None: self.jump(st, st.frames[-1], nlab)
            return
        fn = self.m.fn(name)
        if fn is None or fn.decl:
            raise ToolLimit('no body or model for %s' % IR.demangle(name))
        self.push(st, fn, vals, dest, rty, nlab, ulab)

    def handler(self, name):
        if name in self._icache: return self._icache[name]
        h = self.intercepts.get(name)
        if h is None:
            d = IR.demangle(name)
            for pat, fnc in self.pref:
                if pat.match(d): h = fnc; break
        self._icache[name] = h
        return h

    # ---- loops ---------------------------------------------------------------------------------------------------------------
    def loop_info(self, fn):
        if fn._info is None: fn._info = loops_of(fn)
        return fn._info

    def loop_edge(self, st, f, label):
        """called after a jump; keeps the per-frame loop records"""
        info = self.loop_info(f.fn)
        # leaving loops
        if f.loops:
            for h in list(f.loops):
                if label not in info[h]: del f.loops[h]
        if label in info:
            rec = f.loops.get(label)
            if rec is None:
                snap = st.clone()
                f.loops[label] = (snap, 1)
            else:
                f.loops[label] = (rec[0], rec[1] + 1)
                lim = st.opts.get('unroll', 70)
                if rec[1] > lim: raise ToolLimit('loop in %s exceeds the unrolling limit' % IR.demangle(f.fn.name))

    def size_dep(self, t):
        return any(T.kind(v) == 'size' for v in T.vars_of(t))

    def run(self, states, stop=None):
        """explore; returns the outcomes [(kind, state)]; stop = (depth, header, blocks) for a loop body"""
        work = list(states)
        out = []
        while work:
            st = work.pop()
            try:
                while True:
                    if not st.frames:
                        self.paths += 1
                        if st.locks and not self.silent: self.obligation(st, FALSE, 'lock discipline: every lock taken is released', 'lock')
                        out.append(('done', st)); break
                    f = st.frames[-1]
                    if stop is not None:
                        depth = len(st.frames)
                        if depth < stop[0]: out.append(('exit', st)); break
                        if depth == stop[0]:
                            if f.block not in stop[2]: out.append(('exit', st)); break
                            if stop[1] is not None and f.block == stop[1] and f.loops.get(stop[1], (None, 0))[1] > 1:
                                out.append(('back', st)); break
                    self.steps += 1
                    if self.steps % 256 == 0 and self.deadline and time.time() > self.deadline: raise ToolLimit('out of time')
                    if self.steps > self.max_steps: raise ToolLimit('out of steps')
                    more = self.step(st, f)
                    if more: work.extend(more)
            except PathEnd:
                self.paths += 1
            except PathSplit as e:
                work.extend(e.states)
            except UncaughtException:
                if st.locks and not self.silent: self.obligation(st, FALSE, 'lock discipline: every lock taken is released', 'lock')
                self.obligation(st, FALSE, 'no exception leaves the contract', 'assert') if not self.silent else None
                self.paths += 1
            except ToolLimit as e:
                # a tool limit on an infeasible path does not matter
                if not hasattr(e, 'checked'):
                    r, _ = S.satisfiable(st.pc, st.schemas, st.pool, self.axioms)
                    if r == 'unsat': continue
                    e.checked = True
                    e.where = self.where(st) if st.frames else []
                raise
        return out

    def step(self, st, f):
        ins = f.fn.blocks[f.block][f.ip]
        f.ip += 1
        op = ins[0]
        loc = f.loc
        if op == 'load':
            loc[ins[1]] = self.load_ty(st, ins[2], self.val(st, IR.PTR, ins[3])); return
        if op == 'store':
            self.store_ty(st, ins[2], self.val(st, ins[2], ins[3]), self.val(st, IR.PTR, ins[4])); return
        if op == 'gep':
            loc[ins[1]] = self.gep(ins[2], self.val(st, IR.PTR, ins[3]), [(t, self.val(st, t, v)) for t, v in ins[4]]); return
        if op == 'call':
            return self.eval_call(st, f, ins)
        if op == 'jmp':
            self.jump(st, f, ins[2]); return
        if op == 'br':
            return self.branch(st, f, self.val(st, IR.INT(1), ins[2]), ins[3], ins[4])
        if op == 'ret':
            v = self.val(st, ins[2], ins[3]) if ins[2] is not None else None
            self.finish(st, v); return
        if op == 'icmp':
            loc[ins[1]] = self.icmp(ins[2], self.val(st, ins[3], ins[4]), self.val(st, ins[3], ins[5])); return
        if op == 'bin':
            loc[ins[1]] = self.binop(ins[2], self.val(st, ins[3], ins[4]), self.val(st, ins[3], ins[5])); return
        if op == 'cast':
            loc[ins[1]] = self.cast(ins[2], ins[3], self.val(st, ins[3], ins[4]), ins[5]); return
        if op == 'alloca':
            sz = self.m.layout(ins[2]).size
            r = T.new_region((ins[1] or '%alloca').strip('%'), 'local', const(sz, 64))
            if ins[3] is not None:
                n = self.val(st, *ins[3])
                if n.op == 'c': r.size = const(sz * n.aux, 64)
                else: raise ToolLimit('variable-length alloca')
            f.allocas = f.allocas + (r.rid,)
            loc[ins[1]] = r.term; return
        if op == 'select':
            c = self.val(st, IR.INT(1), ins[2])
            loc[ins[1]] = self.ite_val(c, self.val(st, ins[3], ins[4]), self.val(st, ins[3], ins[5])); return
        if op == 'extractvalue':
            v = self.val(st, ins[2], ins[3])
            for i in ins[4]: v = v[i]
            loc[ins[1]] = v; return
        if op == 'insertvalue':
            v = self.val(st, ins[2], ins[3]); x = self.val(st, ins[4], ins[5])
            def put(v, idx):
                v = list(v); v[idx[0]] = x if len(idx) == 1 else put(v[idx[0]], idx[1:])
                return tuple(v)
            loc[ins[1]] = put(v, ins[6]); return
        if op == 'switch':
            v = self.val(st, ins[2], ins[3])
            if v.op == 'c':
                for cv, lab in ins[5]:
                    if self.const_value(ins[2], cv) is v: self.jump(st, f, lab); return
                self.jump(st, f, ins[4]); return
            outs = []
            neg = []
            for cv, lab in ins[5]:
                c = T.eq(v, self.const_value(ins[2], cv))
                neg.append(T.not_(c))
                if c.op != 'false' and S.feasible(st.pc, c):
                    s = st.clone(); s.assume(c); self.jump(s, s.frames[-1], lab); outs.append(s)
            d = T.and_(*neg)
            if d.op != 'false' and S.feasible(st.pc, d):
                s = st.clone(); s.assume(d); self.jump(s, s.frames[-1], ins[4]); outs.append(s)
            self._fork(outs); raise PathSplit(outs)
        if op == 'unreachable':
            self.obligation(st, FALSE, 'control never reaches the end of a non-void function or an unreachable point', 'safety')
            raise PathEnd()
        if op == 'landingpad': return self.landingpad(st, f, ins)
        if op == 'resume':
            self.unwind(st); return
        if op in ('atomicrmw', 'cmpxchg') and st.opts.get('on_atomic') and loc.pop('!atomic', None) is None:
            # interference: what other threads may do right before this step
            stub = st.opts['on_atomic']; st.opts['on_atomic'] = None; loc['!atomic'] = TRUE; f.ip -= 1
            def back(e, s, r): s.opts['on_atomic'] = stub; return None
            self.push(st, self.m.fn(stub), [self.val(st, IR.PTR, ins[3] if op == 'atomicrmw' else ins[2])], onret=back); return
        if op == 'atomicrmw':
            addr = self.val(st, IR.PTR, ins[3]); t = ins[4]
            old = self.load_ty(st, t, addr); v = self.val(st, t, ins[5])
            o = ins[2]
            new = v if o == 'xchg' else T.add(old, v) if o == 'add' else T.sub(old, v) if o == 'sub' else self.binop(o, old, v) if o in ('and', 'or', 'xor') else None
            if new is None: raise ToolLimit('atomicrmw %s' % o)
            self.store_ty(st, t, new, addr); loc[ins[1]] = old; return
        if op == 'cmpxchg':
            addr = self.val(st, IR.PTR, ins[2]); t = ins[3]
            old = self.load_ty(st, t, addr); c = T.eq(old, self.val(st, t, ins[4])); n = self.val(st, t, ins[5])
            self.store_ty(st, t, T.ite(c, n, old), addr); loc[ins[1]] = (old, c); return
        if op == 'fcmp':
            a = self.val(st, ins[3], ins[4]); b = self.val(st, ins[3], ins[5])
            loc[ins[1]] = self.fcmp(ins[2], a, b); return
        if op == 'fneg':
            a = self.val(st, ins[2], ins[3]); loc[ins[1]] = T.uf('fneg%d' % a.w, (a,), a.w); return
        if op == 'nop': return
        raise ToolLimit('instruction %s' % op)

    def fcmp(self, p, a, b):
        un = T.or_(T.uf('isnan%d' % a.w, (a,), 0), T.uf('isnan%d' % a.w, (b,), 0))
        if a.id > b.id: x, y = b, a
        else: x, y = a, b
        e = TRUE if a is b else T.uf('feq%d' % a.w, (x, y), 0)
        if p == 'oeq': return T.and_(T.not_(un), e)
        if p == 'ueq': return T.or_(un, e)
        if p == 'one': return T.and_(T.not_(un), T.not_(e))
        if p == 'une': return T.or_(un, T.not_(e))
        if p == 'uno': return un
        if p == 'ord': return T.not_(un)
        l = T.uf('flt%d' % a.w, (a, b), 0); g = T.uf('flt%d' % a.w, (b, a), 0)
        base = {'lt': l, 'gt': g, 'le': T.or_(l, e), 'ge': T.or_(g, e)}[p[1:]]
        return T.and_(T.not_(un), base) if p[0] == 'o' else T.or_(un, base)

    def _fork(self, outs): pass

    def branch(self, st, f, c, a, b):
        if c.op == 'true': self.jump(st, f, a); return
        if c.op == 'false': self.jump(st, f, b); return
        if st.holds(c): self.jump(st, f, a); return
        nc = T.not_(c)
        if st.holds(nc): self.jump(st, f, b); return
        fa = S.feasible(st.pc, c); fb = S.feasible(st.pc, nc)
        if fa and not fb: st.assume(c); self.jump(st, f, a); return
        if fb and not fa: st.assume(nc); self.jump(st, f, b); return
        if not fa and not fb: raise PathEnd()
        # an undecided loop exit that depends on an unbounded size: cut the loop with an invariant
        if self.size_dep(c):
            info = self.loop_info(f.fn)
            best = None
            for h, (snap, cnt) in f.loops.items():
                if (a in info[h]) != (b in info[h]) and snap is not None:
                    if best is None or len(info[h]) < len(info[best]): best = h
            if best is not None:
                snap = f.loops[best][0]
                if self._mst and len(snap.pc) <= self._mst[-1]: raise ToolLimit('loop cut inside a join')
                raise PathSplit(self.cut_loop(snap, best))
        if st.opts.get('merge') and not self.merge_off(st, f): return self.merge_branch(st, f, c, nc, a, b)
        st2 = st.clone()
        st.assume(c); st2.assume(nc)
        self.jump(st, f, a); self.jump(st2, st2.frames[-1], b)
        return [st2]

    # ---- joining paths: both sides of a branch run to its immediate postdominator and become one state again -----------------
    def merge_off(self, st, f):
        return f.fn.name.startswith('contract_') and not st.opts.get('merge') == 2

    def merge_branch(self, st, f, c, nc, a, b):
        depth = len(st.frames)
        n0 = len(st.pc)
        base_mem, base_ghost = dict(st.mem), dict(st.ghost)
        pd = self.postdom(f.fn)
        join = pd.get(f.block)
        st2 = st.clone()
        st.assume(c); st2.assume(nc)
        st_a, st_b = st, st2
        self.jump(st_a, st_a.frames[-1], a); self.jump(st_b, st_b.frames[-1], b)
        self._mst.append(n0)
        try: outs = self.run([st_b, st_a], stop=(depth, None, _Not(join)))
        finally: self._mst.pop()
        groups = {}
        rest = []
        for k, s in outs:
            if k == 'done': rest.append(s); continue
            key = (tuple((x.fn.name, x.block, x.ip, x.dest) for x in s.frames), s.exc and (s.exc[0].id, s.exc[1].id if s.exc[1] is not None else 0), len(s.caught),
                   tuple(sorted(s.locks.items())), len(s.guards), tuple(sorted((k, str(v)) for k, v in s.heap.items())),
                   tuple(x.id if hasattr(x, 'id') else id(x) for x in s.schemas), tuple(sorted(s.repl.items())),
                   tuple(sorted((h, r[1]) for h, r in s.frames[-1].loops.items())) if s.frames else ())
            groups.setdefault(key, []).append(s)
        new = rest
        for g in groups.values():
            new.append(g[0] if len(g) == 1 else self.merge_states(g, n0, base_mem, base_ghost))
        raise PathSplit(new)

    def merge_states(self, g, n0, base_mem, base_ghost):
        ds = [T.and_(*s.pc[n0:]) for s in g]
        m = g[0].clone()
        m.pc = g[0].pc[:n0]; m.pcset = {x.id for x in m.pc}
        m.assume(T.or_(*ds))
        m.pool = list(m.pool)
        for s in g[1:]:
            for t in s.pool: m.add_pool(t)
            m.nonnull &= s.nonnull
            m.freed.update(s.freed); m.strfreed |= s.strfreed
        def ite(vals):
            v = vals[-1]
            for d, x in zip(reversed(ds[:-1]), reversed(vals[:-1])):
                v = v if v is x else self.ite_val(d, x, v)
            return v
        for i, fr in enumerate(m.frames):
            for k in list(fr.loc):
                vals = [s.frames[i].loc.get(k) for s in g]
                if any(v is None for v in vals):
                    if k in fr.loc: del fr.loc[k]
                    continue
                if all(v is vals[0] for v in vals): continue
                fr.loc[k] = ite(vals)
        for which, base in (('mem', base_mem), ('ghost', base_ghost)):
            tgt = getattr(m, which)
            keys = set()
            for s in g: keys |= set(getattr(s, which))
            for k in keys:
                logs = [getattr(s, which).get(k) for s in g]
                if all(l is logs[0] for l in logs): continue
                b = base.get(k)
                cur = b
                for d, l in zip(ds, logs):
                    chain = []
                    while l is not b and l is not None:
                        chain.append(l); l = l.prev
                    if l is not b: raise ToolLimit('join of unrelated histories')
                    for nd in reversed(chain):
                        cur = Node(cur, nd.kind, T.and_(nd.g, d), nd.a, nd.n, nd.v, nd.x)
                tgt[k] = cur
        return m

    def postdom(self, fn):
        r = self._pd.get(fn.name)
        if r is None:
            r = self._pd[fn.name] = postdominators(fn)
        return r

    # ---- exceptions -------------------------------------------------------------------------------------------------------------
    def ti_name(self, t):
        if t.op == 'r': return T.region_of(t).name
        return None

    def ti_matches(self, thrown, catch):
        if thrown == catch: return True
        for b in self.ti_bases(thrown):
            if self.ti_matches(b, catch): return True
        return False
    STDTI = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
             '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12system_error': ['_ZTISt13runtime_error'],
             '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt17bad_function_call': ['_ZTISt9exception'],
             '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'], '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error']}
    def ti_bases(self, n):
        if n in self.STDTI: return self.STDTI[n]
        if n is None or n not in self.m.globtxt: return []
        g = self.m.glob(n)
        if g['ext']: return []
        out = []
        for t, v in g['init'][1][2:]:
            if v[0] == 'g' and v[1].startswith('_ZTI'): out.append(v[1])
        return out

    def landingpad(self, st, f, ins):
        obj, ti = st.exc
        tin = self.ti_name(ti) if ti is not None else None
        sel = 0; hit = False
        for cl in ins[3]:
            if cl[0] == 'cleanup': hit = True
            elif cl[0] == 'catch':
                c = self.const_value(IR.PTR, cl[1])
                cn = self.ti_name(c)
                if cn is None or (tin is not None and self.ti_matches(tin, cn)):
                    hit = True; sel = self.typeid_for(c); break
            elif cl[0] == 'filter':
                ty, v = cl[1]
                if v[0] == 'zero' or (v[0] == 'agg' and not v[1]): hit = True; sel = -1; break
                raise ToolLimit('exception filter')
        if not hit:
            self.unwind(st); return
        f.loc[ins[1]] = (obj, const(sel, 32))
        return

    def typeid_for(self, t):
        if t.op == 'c': return 1
        ids = self.__dict__.setdefault('_tids', {})
        return ids.setdefault(t.id, len(ids) + 2)

    # ---- calling a function from a model, collecting its results without side effects -----------------------------------------
    def summarize(self, st, fnterm, args, ret_w=0, extra=None):
        """pure call: [(added path condition, value)] -- the callee may only read"""
        if fnterm.op != 'fn': raise ToolLimit('summarize')
        s = st.clone()
        if extra is not None: s.assume(extra)
        n0 = len(s.pc)
        base = set(s.pcset)
        fn = self.m.fn(fnterm.aux)
        results = []
        depth = len(s.frames) + 1
        def onret(eng, s2, v):
            s2.opts['_ret'] = v
        self.push(s, fn, args, dest='pure', onret=onret)
        self.silent += 1
        try:
            outs = self.run_until(s, depth)
        finally: self.silent -= 1
        for o in outs:
            v = o.opts['_ret']
            delta = T.and_(*[c for c in o.pc if c.id not in base])
            results.append((delta, v, o))
        return results

    def run_until(self, st, depth):
        """run until the frame at `depth` has returned"""
        outs = self.run([st], stop=(depth, None, _All()))
        return [s for k, s in outs if k == 'exit' or k == 'done']

    def predicate(self, st, fnterm, args, extra=None):
        """the boolean a pure callee returns, as a term"""
        rs = self.summarize(st, fnterm, args, extra=extra)
        return T.or_(*[T.and_(d, v if v.w == 0 else T.not_(T.eq(v, const(0, v.w)))) for d, v, o in rs])

    # ---- loop cutting -----------------------------------------------------------------------------------------------------------
    def cut_loop(self, snap, header):
        import loops
        return loops.cut(self, snap, header)

    # ---- top level --------------------------------------------------------------------------------------------------------------
    def run_contract(self, name):
        self.contract = name
        self.covers.setdefault(name, {})
        st = State()
        fn = self.m.fn(name)
        self.push(st, fn, [])
        n0 = len(self.obls)
        outs = self.run([st])
        for k, s in outs:
            if k == 'done':
                # the contract body is reachable to its end on some path
                self.covers[name].setdefault('end', None)
                if self.covers[name]['end'] is not True:
                    r, _ = S.satisfiable(s.pc, s.schemas, s.pool, self.axioms)
                    if r == 'sat': self.covers[name]['end'] = True
                    elif r != 'unsat': self.covers[name]['end'] = 'undecided'
        return self.obls[n0:]

class _All:
    def __contains__(self, x): return True

class _Not:
    def __init__(self, x): self.x = x
    def __contains__(self, y): return y != self.x

class UncaughtException(Exception): pass
class CppThrow(Exception):
    def __init__(self, obj, ti): self.obj = obj; self.ti = ti
class PathSplit(Exception):
    def __init__(self, states): self.states = states
class _P: pass
PUSHED = _P()

def successors(fn, unwind=True):
    succ = {}
    for b in fn.order:
        t = fn.blocks[b][-1]
        o = t[0]
        if o == 'jmp': s = [t[2]]
        elif o == 'br': s = [t[3], t[4]]
        elif o == 'switch': s = [t[4]] + [l for _, l in t[5]]
        elif o == 'call': s = [x for x in ((t[5], t[6]) if unwind else (t[5],)) if x]
        else: s = []
        succ[b] = s
    return succ

def postdominators(fn):
    """immediate postdominator of every block, over the blocks that reach a return without unwinding; absent: the exit"""
    succ = successors(fn, False)
    rets = [b for b in fn.order if fn.blocks[b][-1][0] == 'ret']
    live = set(rets); ch = True
    while ch:
        ch = False
        for b in fn.order:
            if b not in live and any(x in live for x in succ[b]): live.add(b); ch = True
    full = set(live)
    pdom = {b: ({b} if b in rets else set(full)) for b in live}
    ch = True
    while ch:
        ch = False
        for b in fn.order:
            if b not in live or b in rets: continue
            ss = [pdom[x] for x in succ[b] if x in live]
            n = set.intersection(*ss) | {b}
            if n != pdom[b]: pdom[b] = n; ch = True
    out = {}
    for b in live:
        c = pdom[b] - {b}
        for x in c:
            if all(x is y or y in pdom[x] for y in c): out[b] = x
    return out

def loops_of(fn):
    """natural loops: {header: set(blocks)}"""
    succ = successors(fn)
    pred = {b: [] for b in fn.order}
    for b in succ:
        for s in succ[b]: pred[s].append(b)
    # back edges by DFS
    color = {}; back = []
    stack = [(fn.entry, iter(succ[fn.entry]))]
    color[fn.entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s, 0) == 0:
                color[s] = 1; stack.append((s, iter(succ[s]))); break
            elif color[s] == 1: back.append((b, s))
        else:
            color[b] = 2; stack.pop()
    loops = {}
    for t, h in back:
        body = loops.setdefault(h, {h})
        st = [t]
        while st:
            x = st.pop()
            if x in body: continue
            body.add(x); st.extend(pred[x])
    return loops
