"""Models (assumed contracts) of the functions the real code calls but the analysed module does not define: the vc_* intrinsics of
the contracts, the C++ runtime, pthread, and the parts of libstdc++ that are only declared (extern templates) or are replaced by
their contract (std::__find_if, vector relocation, std::string members)."""
import re
import terms as T
from terms import TRUE, FALSE, const
import irparse as IR
import solver as S

NOTES = {
 'heap': 'operator new returns a fresh exclusive block or (when the contract asks for it) throws std::bad_alloc; operator delete frees it',
 'string': 'std::string members behave as documented; contents are compared through an identity of (bytes, length) and change only through std::string members',
 'find_if': 'std::find_if/std::find on a random-access range returns the first position satisfying the predicate',
 'relocate': 'std::vector reallocation moves its elements bitwise (libstdc++ relocation of trivially relocatable elements)',
 'rwlock': 'pthread_rwlock_{rd,wr,un}lock succeed and provide the documented mutual exclusion',
 'eh': 'Itanium C++ exception ABI: landing pads and __cxa_* behave as specified',
 'map': 'std::unordered_map behaves as a finite map keyed by key equality (contract model in models/unordered_map)',
 'ostream': 'std::ostream insertion appends the given text; the sequence of inserted texts is recorded',
 'memfun': 'memcmp/memcpy/memmove/memset/strlen as documented',
}

def install(eng):
    I = eng.intercepts
    P = eng.pref
    for n, f in list(globals().items()):
        if n.startswith('i_'): I[n[2:]] = f
    def pat(rx, f): P.append((re.compile(rx), f))
    pat(r'std::__relocate_a_1<|.*std::__relocate_a_1<', relocate)
    pat(r'.*std::__relocate_a<', relocate)
    pat(r'.*std::__find_if<', find_if)
    pat(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::', string_member)
    pat(r'std::allocator<char>::(allocator|~allocator)', nop)
    pat(r'std::__cxx11::to_string\((unsigned|int|long)', to_string)
    pat(r'std::(runtime_error|logic_error|exception|bad_cast|bad_alloc)::(runtime_error|logic_error|exception|bad_cast|bad_alloc|~)', nop)
    pat(r'std::__throw_', std_throw)
    pat(r'std::basic_ostream<char, std::char_traits<char>>& std::(__ostream_insert|operator<<)<', ostream_insert)
    pat(r'std::ostream::operator<<\(', ostream_num)
    pat(r'std::__cxx11::(basic_ostringstream<char, std::char_traits<char>, std::allocator<char>>|ostringstream)::', ostringstream)
    pat(r'std::_Hash_bytes\(', hash_bytes)
    pat(r'std::ios_base::Init::', nop)

def used(eng, k): eng.assumed.add(NOTES[k])

# ---- strings / contents -------------------------------------------------------------------------------------------
_lits = {}
def lit_id(b):
    if b not in _lits: _lits[b] = const((1 << 40) + len(_lits), 64) if b else const(1, 64)
    return _lits[b]
_litby = {}

def lit_bytes(eng, st, p, n):
    """the bytes at p[0..n) if they are a known constant"""
    r = T.root(p)
    if r is None or r.op != 'r' or n.op != 'c': return None
    reg = T.region_of(r)
    off = T.sub(p, r)
    if off.op != 'c': return None
    if reg.kind == 'global' and eng.m.glob(reg.name)['const'] and not eng.m.glob(reg.name)['ext']:
        out = bytearray()
        for i in range(n.aux):
            c = eng.global_read(reg, const(off.aux + i, 64), 1)
            if c is None or c.op != 'c': return None
            out.append(c.aux)
        return bytes(out)
    if reg.kind == 'lit': return reg.name_bytes[off.aux:off.aux + n.aux]
    return None

def sid(eng, st, p, n):
    """identity of the byte string [p, p+n)"""
    if n.op == 'c' and n.aux == 0: return lit_id(b'')
    if st.strfreed and T.root(p) is None and eng.ptr_atom(p).id in st.strfreed:
        eng.obligation(st, T.eq(n, const(0, 64)), 'memory-safety: no use of the buffer of a destroyed string', 'safety')
    if p.op == 'ite':
        if st.holds(p.args[0]): return sid(eng, st, p.args[1], n)
        if st.holds(T.not_(p.args[0])): return sid(eng, st, p.args[2], n)
    b = lit_bytes(eng, st, p, n)
    if b is not None:
        c = lit_id(b); _litby[c.aux] = b
        return c
    if p.id in CONTENT and CONTENT[p.id][1] is n: return CONTENT[p.id][0]
    t = T.uf('sid', (p, n), 64)
    fact(st, T.eq(T.uf('slen', (t,), 64), n))
    fact(st, T.implies(T.eq(n, const(0, 64)), T.eq(t, lit_id(b''))))
    # split at a known inner position:  p = base + k
    base = eng.ptr_atom(p) if T.root(p) is None else None
    if base is not None and base is not p and base.w == 64:
        k = T.sub(p, base)
        if not has_ptr(k):
            whole = T.uf('sid', (base, T.add(k, n)), 64)
            left = T.uf('sid', (base, k), 64)
            cat_fact(st, whole, left, k, t, n)
    return t

def has_ptr(k): return T.root(k) is not None

def cat_fact(st, whole, left, ln, right, rn):
    c = T.uf('cat', (left, right), 64)
    fact(st, T.eq(whole, c))
    fact(st, T.eq(T.uf('slen', (whole,), 64), T.add(ln, rn)))
    fact(st, T.eq(T.uf('slen', (left,), 64), ln))
    fact(st, T.eq(T.uf('slen', (right,), 64), rn))
    fact(st, T.eq(T.uf('catl', (whole, ln), 64), left))
    fact(st, T.eq(T.uf('catr', (whole, ln), 64), right))
    e = lit_id(b'')
    fact(st, T.implies(T.eq(ln, const(0, 64)), T.and_(T.eq(left, e), T.eq(whole, right))))
    fact(st, T.implies(T.eq(rn, const(0, 64)), T.and_(T.eq(right, e), T.eq(whole, left))))

def cat(eng, st, a, an, b, bn):
    if a.op == 'c' and b.op == 'c' and (a.aux in _litby or a.aux == 1) and (b.aux in _litby or b.aux == 1):
        s = _litby.get(a.aux, b'') + _litby.get(b.aux, b'')
        c = lit_id(s); _litby[c.aux] = s; return c
    if an.op == 'c' and an.aux == 0: return b
    if bn.op == 'c' and bn.aux == 0: return a
    if a.op == 'u' and a.aux == 'cat':        # concatenations are kept to the right
        x, y = a.args
        xn, yn = (const(len(_litby[k.aux]), 64) if k.op == 'c' and k.aux in _litby else T.uf('slen', (k,), 64) for k in (x, y))
        return cat(eng, st, x, xn, cat(eng, st, y, yn, b, bn), T.add(yn, bn))
    w = T.uf('cat', (a, b), 64)
    cat_fact(st, w, a, an, b, bn)
    return w

def fact(st, t):
    st.assume(t)

def set_string(eng, st, s, p, n):
    eng.store(st, s, 8, p); eng.store(st, T.add(s, const(8, 64)), 8, n)

OWNED = set(); CONTENT = {}
def new_content(eng, st, cid, n):
    """a fresh buffer holding contents cid of length n"""
    q = T.fresh('chars', 64, 'init'); OWNED.add(q.id); CONTENT[q.id] = (cid, n)
    fact(st, T.not_(T.eq(q, const(0, 64))))
    st.nonnull.add(q.id)
    fact(st, T.eq(T.uf('sid', (q, n), 64), cid))
    fact(st, T.eq(T.uf('slen', (cid,), 64), n)) if cid.op != 'c' else None
    return q

def str_parts(eng, st, s):
    return eng.load(st, s, 8), eng.load(st, T.add(s, const(8, 64)), 8)

def str_of(eng, st, s):
    p, n = str_parts(eng, st, s)
    return sid(eng, st, p, n), n, p

def cstrlen(eng, st, p):
    r = T.root(p)
    if r is not None and r.op == 'r':
        reg = T.region_of(r); off = T.sub(p, r)
        if reg.kind == 'global' and off.op == 'c' and not eng.m.glob(reg.name)['ext']:
            k = 0
            while True:
                c = eng.global_read(reg, const(off.aux + k, 64), 1)
                if c is None or c.op != 'c': break
                if c.aux == 0: return const(k, 64)
                k += 1
    n = T.uf('strlen', (p,), 64)
    fact(st, T.ult(n, const(1 << 32, 64)))
    return n

def string_member(eng, st, v, args, name):
    used(eng, 'string')
    d = IR.demangle(name)
    rest = d[len('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'):]
    C8 = const(8, 64)
    ctor = rest.startswith('basic_string')
    def drop(s):
        p = eng.load(st, s, 8)
        if T.root(p) is None and p.op != 'c': st.strfreed.add(eng.ptr_atom(p).id)
    def assign(s, cid, n, keep=None):
        if not ctor: drop(s)
        q = keep if keep is not None else new_content(eng, st, cid, n)
        set_string(eng, st, s, q, n)
    this = v[0]
    if rest.startswith('basic_string'):
        sig = rest[len('basic_string'):]
        if sig.startswith('<std::allocator<char>>(char const*, '): sig = sig[len('<std::allocator<char>>'):]
        if sig.startswith('<'):
            raise_body(eng)
        if sig.startswith('()') or sig.startswith('(std::allocator<char> const&)'):
            assign(this, lit_id(b''), const(0, 64)); return None
        if sig.startswith('(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)') :
            c, n, p = str_of(eng, st, v[1]); assign(this, c, n); return None
        if sig.startswith('(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>&&)'):
            c, n, p = str_of(eng, st, v[1]); assign(this, c, n); drop(v[1]); assign(v[1], lit_id(b''), const(0, 64)); return None
        if sig.startswith('(char const*, std::allocator<char> const&)'):
            n = cstrlen(eng, st, v[1]); assign(this, sid(eng, st, v[1], n), n); return None
        if sig.startswith('(char const*, unsigned long, std::allocator<char> const&)'):
            assign(this, sid(eng, st, v[1], v[2]), v[2]); return None
        if sig.startswith('(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::__sv_wrapper'):
            # passed as {len, ptr}
            n, p = v[1], v[2]
            assign(this, sid(eng, st, p, n), n); return None
    if rest.startswith('~basic_string'): drop(this); return None
    if rest.startswith('__sv_wrapper::__sv_wrapper'):
        eng.store(st, this, 8, v[1]); eng.store(st, T.add(this, C8), 8, v[2]); return None
    if rest.startswith('_S_to_string_view'): return (v[0], v[1])
    if rest.startswith('operator std::basic_string_view'):
        p, n = str_parts(eng, st, this); return (n, p)
    if rest.startswith('get_allocator'): return None
    if re.match(r'(size|length)\(\) const', rest): return str_parts(eng, st, this)[1]
    if re.match(r'empty\(\) const', rest): return T.eq(str_parts(eng, st, this)[1], const(0, 64))
    if re.match(r'(data|c_str|_M_data|begin|cbegin)\(\)( const)?', rest): return str_parts(eng, st, this)[0]
    if re.match(r'reserve\(', rest): return None
    if rest.startswith('clear('): assign(this, lit_id(b''), const(0, 64)); return None
    if rest.startswith('_S_compare('):
        dlt = T.sub(v[0], v[1])
        return T.ite(T.eq(v[0], v[1]), const(0, 32), T.ite(T.ult(v[0], v[1]), const(-1, 32), const(1, 32)))
    S_ = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
    if re.match(r'(append|operator\+=|push_back)\(', rest):
        a, an, _ = str_of(eng, st, this)
        sig = rest[rest.index('('):]
        if sig.startswith('(char const*, unsigned long)'): b, bn = sid(eng, st, v[1], v[2]), v[2]
        elif sig.startswith('(char const*)'): bn = cstrlen(eng, st, v[1]); b = sid(eng, st, v[1], bn)
        elif re.match(r'\(' + S_ + r' const&\)', sig): b, bn, _ = str_of(eng, st, v[1])
        elif sig.startswith('(char)'):
            bn = const(1, 64)
            b = char_id(v[1])
        else: raise_limit(d)
        assign(this, cat(eng, st, a, an, b, bn), T.add(an, bn))
        return this
    if re.match(r'operator=\(|assign\(', rest):
        sig = rest[rest.index('('):]
        if re.match(r'\(' + S_ + r' const&\)', sig): c, n, _ = str_of(eng, st, v[1]); assign(this, c, n); return this
        if re.match(r'\(' + S_ + r'&&\)', sig):
            c, n, p = str_of(eng, st, v[1])
            assign(v[1], lit_id(b''), const(0, 64)); assign(this, c, n); return this
        if sig.startswith('(char const*)'): n = cstrlen(eng, st, v[1]); assign(this, sid(eng, st, v[1], n), n); return this
        if sig.startswith('(char const*, unsigned long)'): assign(this, sid(eng, st, v[1], v[2]), v[2]); return this
    if rest.startswith('swap('):
        a = str_parts(eng, st, this); b = str_parts(eng, st, v[1])
        set_string(eng, st, this, *b); set_string(eng, st, v[1], *a); return None
    if rest.startswith('insert(unsigned long, char const*)'):
        a, an, _ = str_of(eng, st, this); bn = cstrlen(eng, st, v[2]); b = sid(eng, st, v[2], bn)
        if v[1].op == 'c' and v[1].aux == 0: assign(this, cat(eng, st, b, bn, a, an), T.add(an, bn)); return this
    if re.match(r'insert\(unsigned long, ' + S_ + r' const&\)', rest):
        a, an, _ = str_of(eng, st, this); b, bn, _ = str_of(eng, st, v[2])
        if v[1].op == 'c' and v[1].aux == 0: assign(this, cat(eng, st, b, bn, a, an), T.add(an, bn)); return this
    if re.match(r'capacity\(\) const', rest):
        c = T.fresh('capacity', 64); fact(st, T.not_(T.ult(c, str_parts(eng, st, this)[1]))); return c
    if rest.startswith('find(char, unsigned long) const'):
        p, n = str_parts(eng, st, this)
        return str_find_char(eng, st, p, n, v[1], v[2])
    if rest.startswith('compare('):
        sig = rest[rest.index('('):]
        if re.match(r'\(' + S_ + r' const&\) const', sig):
            p, n = str_parts(eng, st, this); q, k = str_parts(eng, st, v[1]); return str_compare(eng, st, p, n, q, k)
        if sig.startswith('(char const*) const'):
            p, n = str_parts(eng, st, this); k = cstrlen(eng, st, v[1]); return str_compare(eng, st, p, n, v[1], k)
    if rest.startswith('substr('):
        p, n = str_parts(eng, st, v[1]); pos, ln = v[2], v[3]
        m = T.ite(T.ult(T.sub(n, pos), ln), T.sub(n, pos), ln)
        q = T.add(p, pos)
        assign(v[0], sid(eng, st, q, m), m); return None
    if re.match(r'operator\[\]\(unsigned long\)|at\(', rest):
        p, n = str_parts(eng, st, this); return T.add(p, v[1])
    raise_body(eng, d)

def raise_limit(d):
    from engine import ToolLimit
    raise ToolLimit('std::string member %s' % d)
class UseBody(Exception): pass
def raise_body(eng, d=''):
    raise UseBody(d)

def str_compare(eng, st, p, n, q, k):
    a = sid(eng, st, p, n); b = sid(eng, st, q, k)
    return T.ite(T.eq(a, b), const(0, 32), nonzero(T.uf('strcmp', (a, b), 32)))

def nonzero(t):
    return T.ite(T.eq(t, const(0, t.w)), const(1, t.w), t)

def str_find_char(eng, st, p, n, ch, pos):
    b = lit_bytes(eng, st, p, n)
    if b is not None and ch.op == 'c' and pos.op == 'c':
        return const(b.find(bytes([ch.aux]), pos.aux), 64)
    s = sid(eng, st, p, n)
    f = T.uf('sfind', (s, ch, pos), 64)
    npos = const(-1, 64)
    fact(st, T.or_(T.eq(f, npos), T.and_(T.ult(f, n), T.not_(T.ult(f, pos)))))
    return f

def to_string(eng, st, v, args, name):
    used(eng, 'string')
    c = T.uf('dec', (T.zext(v[1], 64),), 64)
    n = T.uf('slen', (c,), 64)
    fact(st, T.ult(n, const(32, 64))); fact(st, T.ult(const(0, 64), n))
    set_string(eng, st, v[0], new_content(eng, st, c, n), n)
    return None

def i_memcmp(eng, st, v, args, name):
    used(eng, 'memfun')
    a, b, n = v
    ra, rb = T.root(a), T.root(b)
    if n.op == 'c' and 0 < n.aux <= 128 and all(r is not None and r.op == 'r' and T.region_of(r).kind in ('local', 'heap', 'input') and T.region_of(r).size is not None for r in (ra, rb)):
        # objects, not text: byte for byte
        eq = T.TRUE; off = 0
        while off < n.aux:
            k = next(k for k in (8, 4, 2, 1) if k <= n.aux - off)
            eq = T.and_(eq, T.eq(eng.load(st, T.add(a, const(off, 64)), k), eng.load(st, T.add(b, const(off, 64)), k))); off += k
        d = T.fresh('memcmp', 32); st.assume(T.not_(T.eq(d, const(0, 32))))
        return T.ite(eq, const(0, 32), d)
    return str_compare(eng, st, a, n, b, n)
i_bcmp = i_memcmp
i___builtin_memcmp = i_memcmp
def i_strlen(eng, st, v, args, name):
    used(eng, 'memfun'); return cstrlen(eng, st, v[0])
def i_memchr(eng, st, v, args, name):
    used(eng, 'memfun')
    f = str_find_char(eng, st, v[0], v[2], T.extract(v[1], 7, 0), const(0, 64))
    none = T.eq(f, const(-1, 64)); at = T.add(v[0], f)
    fact(st, T.or_(none, T.not_(T.eq(at, const(0, 64)))))     # an array does not reach over the null address
    return T.ite(none, const(0, 64), at)

def lit_search(find):
    def f(eng, st, v, args, name):
        from engine import ToolLimit
        used(eng, 'memfun')
        n = cstrlen(eng, st, v[0])
        if n.op != 'c': raise ToolLimit('%s of a string that is not a literal' % name)
        h = lit_bytes(eng, st, v[0], n); k = find(eng, st, h, v[1])
        return const(0, 64) if k < 0 else T.add(v[0], const(k, 64))
    return f
i_strstr = lit_search(lambda eng, st, h, x: h.find(cstr(eng, st, x).encode()))
i_strchr = lit_search(lambda eng, st, h, x: h.find(bytes([x.aux & 255])))
i_strrchr = lit_search(lambda eng, st, h, x: h.rfind(bytes([x.aux & 255])))

def hash_bytes(eng, st, v, args, name):
    return T.uf('hash', (sid(eng, st, v[0], v[1]), v[2]), 64)

# ---- llvm / runtime ---------------------------------------------------------------------------------------------------
def nop(eng, st, v, args, name): return None

def memcpy_(eng, st, v, args, name):
    used(eng, 'memfun')
    if v[2].op == 'c' and v[2].aux == 0: return v[0]
    eng.bulk_copy(st, v[0], v[1], v[2]); return v[0]
globals()['i_llvm.memcpy.p0.p0.i64'] = memcpy_
globals()['i_llvm.memmove.p0.p0.i64'] = memcpy_
i_memcpy = memcpy_
i_memmove = memcpy_
def memset_(eng, st, v, args, name):
    used(eng, 'memfun')
    b = v[1] if v[1].w == 8 else T.extract(v[1], 7, 0)
    eng.bulk_set(st, v[0], b, v[2]); return v[0]
globals()['i_llvm.memset.p0.i64'] = memset_
i_memset = memset_
globals()['i_llvm.lifetime.start.p0'] = nop
globals()['i_llvm.lifetime.end.p0'] = nop
globals()['i_llvm.assume'] = nop
globals()['i_llvm.experimental.noalias.scope.decl'] = nop
def trap(eng, st, v, args, name):
    from engine import PathEnd
    eng.obligation(st, FALSE, 'no trap', 'safety'); raise PathEnd()
globals()['i_llvm.trap'] = trap
globals()['i_llvm.is.constant.i64'] = lambda eng, st, v, a, n: FALSE
globals()['i_llvm.eh.typeid.for'] = lambda eng, st, v, a, n: const(eng.typeid_for(v[0]), 32)
globals()['i_llvm.eh.typeid.for.p0'] = globals()['i_llvm.eh.typeid.for']
def minmax(op):
    def f(eng, st, v, args, name):
        a, b = v[0], v[1]
        c = {'umin': T.ult(a, b), 'umax': T.ult(b, a), 'smin': T.slt(a, b), 'smax': T.slt(b, a)}[op]
        return T.ite(c, a, b)
    return f
for _o in ('umin', 'umax', 'smin', 'smax'):
    for _w in (8, 16, 32, 64): globals()['i_llvm.%s.i%d' % (_o, _w)] = minmax(_o)
def ovf(op):
    def f(eng, st, v, args, name):
        a, b = v
        w = a.w
        if op == 'umul':
            r = T.mul(T.zext(a, 2 * w), T.zext(b, 2 * w)); return (T.extract(r, w - 1, 0), T.not_(T.eq(T.extract(r, 2 * w - 1, w), const(0, w))))
        if op == 'uadd':
            r = T.add(T.zext(a, w + 1), T.zext(b, w + 1)); return (T.extract(r, w - 1, 0), T.eq(T.extract(r, w, w), const(1, 1)))
    return f
globals()['i_llvm.umul.with.overflow.i64'] = ovf('umul')
globals()['i_llvm.uadd.with.overflow.i64'] = ovf('uadd')

def cur_ins(st):
    fr = st.frames[-1]
    return fr.fn.blocks[fr.block][fr.ip - 1]

def resume_with(eng, s, val):
    """finish the current call instruction with a value"""
    fr = s.frames[-1]; ins = cur_ins(s)
    if ins[1] is not None: fr.loc[ins[1]] = val
    if ins[5] is not None: eng.jump(s, fr, ins[5])

def resume_throw(eng, s, ti):
    """finish the current call instruction by throwing; False if nothing catches it"""
    from engine import UncaughtException
    ins = cur_ins(s)
    obj = T.new_region('exception', 'exc', None).term
    try: eng.throw(s, obj, ext_region(eng, ti), ins[6])
    except UncaughtException:
        eng.obligation(s, FALSE, 'no exception leaves the contract'); return False
    return True

def op_new(eng, st, v, args, name):
    used(eng, 'heap')
    from engine import PathSplit
    def block(s):
        r = T.new_region('heap', 'heap', v[0])
        s.heap[r.rid] = ('new[]' if name.startswith('_Znam') else 'new') + ('@%d' % v[1].aux if 'align_val_t' in name and v[1].op == 'c' else '')
        s.opts['news'] = s.opts.get('news', 0) + 1
        return r.term
    if st.opts.get('alloc_fail') and 'nothrow' not in name:
        s2 = st.clone()
        outs = [st]
        resume_with(eng, st, block(st))
        s2.opts['threw'] = True
        if resume_throw(eng, s2, '_ZTISt9bad_alloc'): outs.append(s2)
        raise PathSplit(outs)
    return block(st)
i__Znwm = op_new
i__Znam = op_new
i__ZnwmSt11align_val_t = op_new
i__ZnamSt11align_val_t = op_new
globals()['i__ZnwmRKSt9nothrow_t'] = op_new

def op_delete(eng, st, v, args, name):
    used(eng, 'heap')
    from engine import PathEnd
    free(eng, st, v[0], ('[]' if name.startswith('_ZdaPv') else '') + ('@%d' % v[-1].aux if 'align_val_t' in name and v[-1].op == 'c' else ''))
    return None
for _n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvmSt11align_val_t'):
    globals()['i_' + _n] = op_delete

def free(eng, st, p, kind):
    from engine import PathEnd, ToolLimit, PathSplit
    if p.op == 'c' and p.aux == 0: return
    sp = eng.split_addr(p)
    if sp is not None:
        c, a, b = sp
        fa = S.feasible(st.pc, c); fb = S.feasible(st.pc, T.not_(c))
        if fa and not fb: return free(eng, st, a, kind)
        if fb and not fa: return free(eng, st, b, kind)
        raise_fork(eng, st, c)
    r = T.root(p)
    if r is None:
        # an object of the arbitrary pre-state: ghost record
        base = p
        st.opts.setdefault('gdef.freed', const(0, 8))
        eng.obligation(st, T.or_(T.eq(p, const(0, 64)), T.eq(eng.gread(st, 'freed', (base,), 8), const(0, 8))), 'memory-safety: no double free', 'safety')
        eng.gwrite(st, 'freed', (base,), T.ite(T.eq(p, const(0, 64)), const(0, 8), const(1, 8)))
        return
    reg = T.region_of(r)
    if r.aux in st.freed:
        eng.obligation(st, FALSE, 'memory-safety: no double free', 'safety'); raise PathEnd()
    if reg.kind not in ('heap', 'input') or T.sub(p, r).op != 'c' or T.sub(p, r).aux != 0:
        eng.obligation(st, FALSE, 'memory-safety: only heap blocks are freed', 'safety'); raise PathEnd()
    if reg.kind == 'heap':
        want = st.heap.get(r.aux, 'new')
        if want != 'new' + kind and want != 'map':
            eng.obligation(st, FALSE, 'memory-safety: matching new/delete forms', 'safety')
    st.freed[r.aux] = 'delete'

def raise_fork(eng, st, c):
    """re-execute the current call instruction under c and under not c"""
    from engine import PathSplit
    s2 = st.clone()
    st.assume(c); s2.assume(T.not_(c))
    st.frames[-1].ip -= 1; s2.frames[-1].ip -= 1
    raise PathSplit([st, s2])

def i___cxa_allocate_exception(eng, st, v, args, name):
    used(eng, 'eh')
    r = T.new_region('exception', 'exc', v[0]); return r.term
def i___cxa_free_exception(eng, st, v, args, name): return None
def i___cxa_throw(eng, st, v, args, name):
    from engine import CppThrow
    used(eng, 'eh')
    raise CppThrow(v[0], v[1])
def i___cxa_begin_catch(eng, st, v, args, name):
    st.caught.append(st.exc); return v[0]
def i___cxa_end_catch(eng, st, v, args, name):
    if st.caught: st.caught.pop()
    return None
def i___cxa_rethrow(eng, st, v, args, name):
    from engine import CppThrow
    obj, ti = st.caught[-1]
    raise CppThrow(obj, ti)
def i___cxa_get_exception_ptr(eng, st, v, args, name): return v[0]
def i___clang_call_terminate(eng, st, v, args, name):
    from engine import PathEnd
    eng.obligation(st, FALSE, 'std::terminate is not reached', 'assert'); raise PathEnd()
i__ZSt9terminatev = i___clang_call_terminate
def i_abort(eng, st, v, args, name):
    from engine import PathEnd
    eng.obligation(st, FALSE, 'abort is not reached', 'assert'); raise PathEnd()
i___assert_fail = i_abort
i___cxa_pure_virtual = i_abort
def i__ZSt17current_exceptionv(eng, st, v, args, name):
    from engine import ToolLimit
    raise ToolLimit('current_exception')
def i__ZSt18uncaught_exceptionv(eng, st, v, args, name): return FALSE

STDEXC = {'std::__throw_bad_alloc': '_ZTISt9bad_alloc', 'std::__throw_length_error': '_ZTISt12length_error', 'std::__throw_out_of_range': '_ZTISt12out_of_range',
          'std::__throw_bad_function_call': '_ZTISt17bad_function_call', 'std::__throw_system_error': '_ZTISt12system_error',
          'std::__throw_logic_error': '_ZTISt11logic_error', 'std::__throw_invalid_argument': '_ZTISt16invalid_argument',
          'std::__throw_out_of_range_fmt': '_ZTISt12out_of_range', 'std::__throw_bad_array_new_length': '_ZTISt20bad_array_new_length', 'std::__throw_bad_cast': '_ZTISt8bad_cast',
          'std::__throw_bad_optional_access': '_ZTISt19bad_optional_access'}
def std_throw(eng, st, v, args, name):
    from engine import CppThrow, ToolLimit
    d = IR.demangle(name); d = d[:d.index('(')]
    if d not in STDEXC: raise ToolLimit(d)
    raise CppThrow(T.new_region('exception', 'exc', None).term, ext_region(eng, STDEXC[d]))

def ext_region(eng, name):
    r = eng.regions_g.get(name)
    if r is None:
        if name in eng.m.globtxt: return eng.glob_term(name)
        r = T.new_region(name, 'ext', None); eng.regions_g[name] = r
    return r.term

def i___cxa_guard_acquire(eng, st, v, args, name):
    b = eng.load(st, v[0], 1)
    if b.op == 'c': return const(0 if b.aux else 1, 32)
    return T.ite(T.eq(b, const(0, 8)), const(1, 32), const(0, 32))
def i___cxa_guard_release(eng, st, v, args, name):
    eng.store(st, v[0], 1, const(1, 8)); return None
def i___cxa_guard_abort(eng, st, v, args, name): return None
def i___cxa_atexit(eng, st, v, args, name): return const(0, 32)

# locks
def acquire(eng, st, lock, mode):
    used(eng, 'rwlock')
    if st.locks.get(lock.id, 0):
        eng.obligation(st, FALSE, 'lock discipline: no re-acquisition of a held lock', 'lock')
    st.locks[lock.id] = mode
    log_lock(eng, st, lock, mode)
    stub = st.opts.get('on_lock')
    if stub:
        from engine import PUSHED
        eng.push(st, eng.m.fn(stub), [lock, const(mode, 32)], onret=lambda e, s, r: const(0, 32))
        return PUSHED
    return const(0, 32)
def release(eng, st, lock):
    if not st.locks.get(lock.id, 0):
        eng.obligation(st, FALSE, 'lock discipline: only a held lock is released', 'lock')
    st.locks.pop(lock.id, None)
    return const(0, 32)
def i_pthread_rwlock_wrlock(eng, st, v, args, name): return acquire(eng, st, v[0], 2)
def i_pthread_rwlock_rdlock(eng, st, v, args, name): return acquire(eng, st, v[0], 1)
def i_pthread_rwlock_unlock(eng, st, v, args, name): return release(eng, st, v[0])
def i_pthread_mutex_lock(eng, st, v, args, name): return acquire(eng, st, v[0], 2)
def i_pthread_mutex_unlock(eng, st, v, args, name): return release(eng, st, v[0])
def i_vc_on_lock(eng, st, v, args, name):
    """stub(lock, mode) runs whenever a lock was just taken: what other threads may have done meanwhile"""
    st.opts['on_lock'] = v[0].aux if v[0].op == 'fn' else None; return None
def i_vc_on_atomic(eng, st, v, args, name):
    """stub(address) runs right before each atomic read-modify-write: a point where other threads may have run"""
    st.opts['on_atomic'] = v[0].aux if v[0].op == 'fn' else None; return None
def log_lock(eng, st, a, mode):
    c = st.counter.get('locks', 0); st.counter['locks'] = c + 1
i_pthread_rwlock_destroy = lambda eng, st, v, a, n: const(0, 32)
i_pthread_rwlock_init = lambda eng, st, v, a, n: const(0, 32)

# ostream: a ghost sequence of texts
def ostream_insert(eng, st, v, args, name):
    used(eng, 'ostream')
    d = IR.demangle(name)
    if len(v) == 3:
        # (stream, ptr, len) or (stream, string_view{len, ptr})
        if '__ostream_insert' in d: p, n = v[1], v[2]
        else: n, p = v[1], v[2]
        emit(eng, st, v[0], sid(eng, st, p, n), n); return v[0]
    if len(v) == 2:
        if 'char const*' in d:
            n = cstrlen(eng, st, v[1]); emit(eng, st, v[0], sid(eng, st, v[1], n), n); return v[0]
        if 'basic_string<char' in d:
            c, n, p = str_of(eng, st, v[1]); emit(eng, st, v[0], c, n); return v[0]
        if v[1].w == 8: emit(eng, st, v[0], char_id(v[1]), const(1, 64)); return v[0]
    from engine import ToolLimit
    raise ToolLimit('ostream insertion %s' % d)
def ostream_num(eng, st, v, args, name):
    used(eng, 'ostream')
    c = T.uf('dec', (T.zext(v[1], 64),), 64)
    emit(eng, st, v[0], c, T.uf('slen', (c,), 64)); return v[0]
def char_id(c):
    if c.op != 'c': return T.uf('sid1', (c,), 64)
    b = bytes([c.aux]); i = lit_id(b); _litby[i.aux] = b
    return i
def emit(eng, st, stream, cid, length):
    n = eng.gread(st, 'outn', (stream,), 64)
    eng.gwrite(st, 'out', (stream, n), cid)
    eng.gwrite(st, 'outn', (stream,), T.add(n, const(1, 64)))
    eng.gwrite(st, 'outcnt', (stream, cid), T.add(eng.gread(st, 'outcnt', (stream, cid), 64), const(1, 64)))
    if 'outtext' in st.ghost:
        t, l = eng.gread(st, 'outtext', (stream,), 64), eng.gread(st, 'outlen', (stream,), 64)
        eng.gwrite(st, 'outtext', (stream,), cat(eng, st, t, l, cid, length)); eng.gwrite(st, 'outlen', (stream,), T.add(l, length))
def ostringstream(eng, st, v, args, name):
    """a string stream is a stream that also keeps the concatenation of the texts"""
    used(eng, 'ostream')
    rest = re.split(r'::(?=~?basic_ostringstream\(|str\()', IR.demangle(name), 1)[-1]
    if rest.startswith('basic_ostringstream()'):
        eng.gwrite(st, 'outn', (v[0],), const(0, 64))
        eng.gwrite(st, 'outtext', (v[0],), lit_id(b'')); eng.gwrite(st, 'outlen', (v[0],), const(0, 64)); return None
    if rest.startswith('~basic_ostringstream'): return None
    if rest.startswith('str() const'):
        t, l = eng.gread(st, 'outtext', (v[1],), 64), eng.gread(st, 'outlen', (v[1],), 64)
        set_string(eng, st, v[0], new_content(eng, st, t, l), l); return None
    from engine import ToolLimit
    raise ToolLimit('string stream %s' % rest)

# ---- libstdc++ algorithms ----------------------------------------------------------------------------------------------
def relocate(eng, st, v, args, name):
    """__relocate_a(first, last, result, alloc): bitwise move of the elements"""
    used(eng, 'relocate')
    first, last, res = v[0], v[1], v[2]
    n = T.sub(last, first)
    if n.op == 'c' and n.aux == 0: return res
    eng.bulk_copy(st, res, first, n)
    return T.add(res, n)

def find_if(eng, st, v, args, name):
    from engine import PathSplit, ToolLimit
    fn = eng.m.fn(name)
    if len(v) >= 4 and 'iterator_tag' in IR.demangle(name): pass
    else:
        # the dispatching overload: let its body call the tagged one
        if not any(i[0] == 'call' and '__ops::_Iter' in IR.demangle(i[3][1]) for b in fn.blocks.values() for i in b if i[0] == 'call' and i[3][0] == 'g'):
            raise UseBody()
    used(eng, 'find_if')
    predfn = None; stride = None
    for b in fn.order:
        for i in fn.blocks[b]:
            if i[0] == 'call' and i[3][0] == 'g':
                d = IR.demangle(i[3][1])
                if '__ops::_Iter' in d and '::operator()' in d: predfn = i[3][1]
                if 'operator++()' in d and stride is None: stride = inc_stride(eng, i[3][1])
            if i[0] == 'gep' and stride is None and len(i[4]) == 1 and i[4][0][1] == ('k', 1): stride = eng.m.layout(i[2]).size
    if predfn is None or stride is None: raise UseBody()
    first, last = v[0], v[1]
    pp = fn.params[2]
    if pp[0] is IR.PTR and ('byval' in pp[2]): predaddr = v[2]
    else:
        r = T.new_region('pred', 'local', const(16, 64)); predaddr = r.term
        eng.store(st, predaddr, max(1, v[2].w // 8), v[2])
        if len(v) > 3 and v[3] is not None and v[3].w == 64 and len(fn.params) == 5: eng.store(st, T.add(predaddr, const(8, 64)), 8, v[3])
    d = T.sub(last, first)
    n = T._exact_div(d, stride)
    if n is None: raise UseBody()
    pool_n(st, n)
    j = T.fresh('j', 64, 'size')
    predterm = eng.predicate(st, eng.fn_term(predfn), [predaddr, T.add(first, T.mulc(j, stride))], extra=T.ult(j, n))
    # not found
    outs = []
    k = T.fresh('found', 64, 'size')
    s1 = st.clone(); s2 = st
    none = T.implies(T.ult(j, n), T.not_(predterm))
    s1.schemas.append(S.Schema(j, none, 'find_if: no element satisfies the predicate'))
    hit = T.subst(predterm, {j: k})
    s2.assume(T.ult(k, n)); s2.assume(hit)
    s2.schemas.append(S.Schema(j, T.implies(T.ult(j, k), T.not_(predterm)), 'find_if: no earlier element satisfies the predicate'))
    s2.add_pool(k)
    res = []
    for s, val in ((s1, last), (s2, T.add(first, T.mulc(k, stride)))):
        fr = s.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.ip - 1]
        if ins[1] is not None: fr.loc[ins[1]] = val
        if ins[5] is not None: eng.jump(s, fr, ins[5])
        res.append(s)
    raise PathSplit(res)

def inc_stride(eng, fname):
    f = eng.m.fn(fname)
    if f.decl: return None
    for b in f.order:
        for i in f.blocks[b]:
            if i[0] == 'gep' and len(i[4]) == 1 and i[4][0][1] == ('k', 1): return eng.m.layout(i[2]).size
    return None

def pool_n(st, n): st.add_pool(n)

# ---- contract intrinsics ---------------------------------------------------------------------------------------------------
def cstr(eng, st, p):
    n = cstrlen(eng, st, p)
    return lit_bytes(eng, st, p, n).decode()

def i_vc_assume(eng, st, v, args, name):
    from engine import PathEnd
    c = v[0]
    if c.op == 'false': raise PathEnd()
    st.assume(c)
    if not S.feasible(st.pc, TRUE if c.op == 'true' else c): raise PathEnd()
    return None
def i_vc_assert(eng, st, v, args, name):
    eng.obligation(st, v[0], cstr(eng, st, v[1]))
    st.assume(v[0])
    from engine import PathEnd
    if v[0].op == 'false': raise PathEnd()
    return None
def i_vc_cover(eng, st, v, args, name):
    l = cstr(eng, st, v[0])
    cov = eng.covers.setdefault(eng.contract, {})
    if cov.get(l) is not True and not eng.silent:
        r, _ = S.satisfiable(st.pc, st.schemas, st.pool, eng.axioms)
        cov[l] = True if r == 'sat' else False if r == 'unsat' else cov.get(l) or 'undecided'
    return None
def anyint(w, kind=None):
    def f(eng, st, v, args, name):
        t = T.fresh('any%d' % w, w, kind); 
        return t
    return f
i_vc_any64 = anyint(64, 'any')
i_vc_any32 = anyint(32)
i_vc_any16 = anyint(16)
i_vc_any8 = anyint(8)
i_vc_any_bool = anyint(0)
def i_vc_any_size(eng, st, v, args, name):
    t = T.fresh('n', 64, 'size'); st.add_pool(t); return t
def i_vc_any_ptr(eng, st, v, args, name):
    return T.fresh('p', 64, 'init')
def i_vc_any_obj(eng, st, v, args, name):
    t = T.fresh('obj', 64, 'init'); st.assume(T.not_(T.eq(t, const(0, 64)))); st.nonnull.add(t.id); return t
def i_vc_alloc(eng, st, v, args, name):
    r = T.new_region('input', 'input', v[0]); return r.term
def i_vc_heap(eng, st, v, args, name):
    r = T.new_region('heapin', 'heap', v[0]); st.heap[r.rid] = 'new'; return r.term
def i_vc_node(eng, st, v, args, name):
    r = T.new_region('node', 'heap', v[0]); return r.term
def i_vc_havoc(eng, st, v, args, name):
    eng.havoc(st, v[0], v[1]); return None
def i_vc_uf(eng, st, v, args, name):
    return T.uf('u%d' % v[0].aux, v[1:], 64)
def i_vc_ufb(eng, st, v, args, name):
    return T.uf('b%d' % v[0].aux, v[1:], 0)
def i_vc_peek(eng, st, v, args, name):
    """ghost read: memory as it is, even if released"""
    r = T.root(v[0])
    return eng.read_log(st, st.mem.get(r), r, T.sub(v[0], r) if r is not None else v[0], 8)
def i_vc_gld(eng, st, v, args, name):
    return eng.gread(st, 'g%d' % v[0].aux, (v[1],), 64)
def i_vc_gst(eng, st, v, args, name):
    eng.gwrite(st, 'g%d' % v[0].aux, (v[1],), v[2]); return None
def i_vc_gdefault(eng, st, v, args, name):
    st.opts['gdef.g%d' % v[0].aux] = v[1]; return None
def i_vc_sid(eng, st, v, args, name):
    return sid(eng, st, v[0], v[1])
def i_vc_slen(eng, st, v, args, name):
    t = T.uf('slen', (v[0],), 64)
    fact(st, T.ult(t, const(1 << 32, 64))); return t
def i_vc_str_axiom(eng, st, v, args, name):
    """split [p, p+n) at k"""
    p, k, n = v
    whole = sid(eng, st, p, n); left = sid(eng, st, p, k); right = sid(eng, st, T.add(p, k), T.sub(n, k))
    cat_fact(st, whole, left, k, right, T.sub(n, k)); return None
def i_vc_cat(eng, st, v, args, name):
    a, b = v
    an = T.uf('slen', (a,), 64) if a.op != 'c' else const(len(_litby.get(a.aux, b'')), 64)
    bn = T.uf('slen', (b,), 64) if b.op != 'c' else const(len(_litby.get(b.aux, b'')), 64)
    return cat(eng, st, a, an, b, bn)
def i_vc_stop(eng, st, v, args, name):
    from engine import PathEnd
    raise PathEnd()
def i_vc_choice(eng, st, v, args, name):
    return T.fresh('choice', 0)
def i_vc_hint(eng, st, v, args, name):
    st.add_pool(v[0]); return None
def i_vc_map_new(eng, st, v, args, name):
    return T.new_region('map', 'map', const(0, 64)).term
def i_vc_map_get(eng, st, v, args, name):
    used(eng, 'map')
    return map_get(eng, st, v[0], v[1], v[2])
def map_get(eng, st, m, lo, hi):
    key = (m, lo, hi)
    pend = []; log = st.ghost.get('map'); res = None
    while log is not None:
        c = T.and_(log.g, *[T.eq(a, b) for a, b in zip(log.a, key)])
        if c.op == 'true' or st.holds(c): res = log.v; break
        if c.op != 'false' and not st.holds(T.not_(c)) and S.feasible(st.pc, c): pend.append((c, log.v))
        log = log.prev
    if res is None:
        res = const(0, 64) if T.root(m) is not None else T.uf('map', key, 64)
    for c, x in reversed(pend): res = T.ite(c, x, res)
    return res
def i_vc_map_put(eng, st, v, args, name):
    st.ghost['map'] = node(eng, st.ghost.get('map'), (v[0], v[1], v[2]), v[3]); return None
def node(eng, prev, key, val):
    from engine import Node
    return Node(prev, 'w', TRUE, key, None, val)
def i_vc_map_key(eng, st, v, args, name): return None

def i_vc_assume_forall(eng, st, v, args, name):
    """(n, pred, ctx): assume  forall j < n. pred(ctx, j)"""
    n, fn, ctx = v
    st.add_pool(n) if n.op != 'c' else None
    j = T.fresh('j', 64, 'size')
    p = eng.predicate(st, fn, [ctx, j], extra=T.ult(j, n))
    st.schemas.append(S.Schema(j, T.implies(T.ult(j, n), p), 'assumed'))
    return None
def i_vc_assume_forall64(eng, st, v, args, name):
    """(pred, ctx): assume  forall k (64 bit). pred(ctx, k)"""
    fn, ctx = v
    j = T.fresh('k', 64)
    p = eng.predicate(st, fn, [ctx, j])
    s = S.Schema(j, p, 'assumed'); s.triggered_only = False
    st.schemas.append(s)
    return None
def i_vc_replace(eng, st, v, args, name):
    """(name, stub): calls to the named function use its contract (the stub)"""
    n = cstr(eng, st, v[0])
    target = None
    for f in list(eng.m.fns):
        if f.startswith('_Z') and IR.demangle(f).startswith(n) : target = f; st.repl[f] = v[1].aux
    if target is None: st.repl['~' + n] = v[1].aux
    return None
def i_vc_recursive(eng, st, v, args, name):
    """(name, stub): calls of the named function from itself (at any depth) use its contract (the stub)"""
    n = cstr(eng, st, v[0]); st.recur = dict(st.recur)
    hit = False
    for f in list(eng.m.fns):
        if f.startswith('_Z') and IR.demangle(f).startswith(n): st.recur[f] = v[1].aux; hit = True
    if not hit: raise_limit('vc_recursive: no function ' + n)
    return None
def i_vc_indirect(eng, st, v, args, name):
    """(stub): calls through unknown function pointers: stub(pointer, arguments...)"""
    st.opts['indirect'] = st.opts.get('indirect', ()) + ((None, v[0].aux),); return None
def i_vc_virtual(eng, st, v, args, name):
    """(slot, stub): virtual calls of that slot on objects of unknown dynamic type use the stub (the interface's contract)"""
    st.opts['indirect'] = ((v[0].aux * 8, v[1].aux),) + st.opts.get('indirect', ()); return None
def i_vc_unreplace(eng, st, v, args, name):
    n = cstr(eng, st, v[0])
    for f in list(st.repl):
        if f == '~' + n or (f[0] != '~' and IR.demangle(f).startswith(n)): del st.repl[f]
    return None
def i_vc_guard(eng, st, v, args, name):
    """(mutex, addr, size): addr[0..size) may only be accessed under the mutex (reads: shared, writes: exclusive)"""
    lock, a, n = v
    r = T.root(a); off = T.sub(a, r)
    if off.op == 'c' and n.op == 'c': st.guards.append((lock, r, off.aux, off.aux + n.aux, None))
    else: st.guards.append((lock, r, 0, 1 << 63, None))
    return None
def i_vc_unguard(eng, st, v, args, name):
    st.guards = []; return None
def i_vc_lock_state(eng, st, v, args, name):
    return const(st.locks.get(v[0].id, 0), 32)
def i_vc_locks_held(eng, st, v, args, name):
    return const(len(st.locks), 32)
def i_vc_lock_ops(eng, st, v, args, name):
    return const(st.counter.get('locks', 0), 32)
def i_vc_set_lock(eng, st, v, args, name):
    if v[1].aux: st.locks[v[0].id] = v[1].aux
    else: st.locks.pop(v[0].id, None)
    return None
def i_vc_live_heap(eng, st, v, args, name):
    return const(sum(1 for k in st.heap if k not in st.freed), 64)
def i_vc_is_freed(eng, st, v, args, name):
    r = T.root(v[0])
    if r is None:
        return T.not_(T.eq(eng.gread(st, 'freed', (v[0],), 8), const(0, 8)))
    return T.boolc(r.aux in st.freed)
def i_vc_is_heap(eng, st, v, args, name):
    r = T.root(v[0])
    if v[0].op == 'ite': return T.ite(v[0].args[0], i_vc_is_heap(eng, st, [v[0].args[1]], None, None), i_vc_is_heap(eng, st, [v[0].args[2]], None, None))
    return T.boolc(r is not None and r.op == 'r' and T.region_of(r).kind == 'heap')
def i_vc_alloc_may_fail(eng, st, v, args, name):
    st.opts['alloc_fail'] = bool(T.cval(v[0])); return None
def i_vc_may_throw(eng, st, v, args, name):
    return T.fresh('throws', 0) if st.opts.get('alloc_fail') else FALSE
def i_vc_align(eng, st, v, args, name):
    """alignment guaranteed by the allocation function that gave the block starting here; 0: not the start of such a block"""
    r = T.root(v[0])
    if r is None or r.aux not in st.heap or T.sub(v[0], r).op != 'c' or T.sub(v[0], r).aux != 0: return const(0, 64)
    k = st.heap[r.aux]
    return const(int(k.split('@')[1]) if '@' in k else 16, 64)
def i_vc_node_free(eng, st, v, args, name):
    r = T.root(v[0])
    if r is not None: st.freed[r.aux] = 'map'
    return None
def i_vc_str_freed(eng, st, v, args, name):
    return T.boolc(eng.ptr_atom(v[0]).id in st.strfreed)
def i_vc_merge(eng, st, v, args, name):
    st.opts['merge'] = T.cval(v[0]); return None
def i_vc_unroll(eng, st, v, args, name):
    st.opts['unroll'] = v[0].aux; return None
def i_vc_same_region(eng, st, v, args, name):
    return T.boolc(T.root(v[0]) is not None and T.root(v[0]) is T.root(v[1]))
def i_vc_out_count(eng, st, v, args, name):
    return T.as_sum(eng.gread(st, 'outcnt', (v[0], v[1]), 64))
def i_vc_out_n(eng, st, v, args, name):
    return T.as_sum(eng.gread(st, 'outn', (v[0],), 64))
def i_vc_out_at(eng, st, v, args, name):
    return eng.gread(st, 'out', (v[0], v[1]), 64)
def i_vc_note(eng, st, v, args, name):
    eng.assumed.add(cstr(eng, st, v[0])); return None
def i_vc_show(eng, st, v, args, name):
    print('SHOW', cstr(eng, st, v[0]), T.show(v[1], 12)); return None
def i_vc_set_nonnull(eng, st, v, args, name):
    st.assume(T.not_(T.eq(v[0], const(0, 64)))); return None
def i_vc_guard_done(eng, st, v, args, name):
    """(demangled name of a guard variable): the static is already initialised"""
    n = cstr(eng, st, v[0])
    hit = False
    for g in list(eng.m.globtxt):
        if g.startswith('_ZGV') and n in IR.demangle(g):
            st.mem[eng.glob_term(g)] = None
            eng.store(st, eng.glob_term(g), 8 if eng.m.layout(eng.m.glob(g)['ty']).size >= 8 else 1, const(1, 64 if eng.m.layout(eng.m.glob(g)['ty']).size >= 8 else 8)); hit = True
    return T.boolc(hit)
def i_vc_global(eng, st, v, args, name):
    """address of a global found by demangled name"""
    from engine import ToolLimit
    n = cstr(eng, st, v[0])
    for g in list(eng.m.globtxt):
        if IR.demangle(g) == n: return eng.glob_term(g)
    raise ToolLimit('global %s' % n)
def i_vc_static_init(eng, st, v, args, name):
    """run the translation unit's dynamic initialisation"""
    from engine import PUSHED, ToolLimit
    fs = [f for f in eng.m.fns if f.startswith('_GLOBAL__sub_I')]
    if not fs: return None
    fn = eng.m.fn(fs[0])
    eng.push(st, fn, [], None, None, None, None)
    return PUSHED
def i_vc_str_is_copy(eng, st, v, args, name):
    """the characters are a buffer made by a std::string of the code under contract"""
    return T.boolc(eng.ptr_atom(v[0]).id in OWNED)
