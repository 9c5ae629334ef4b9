"""Hash-consed terms over booleans (w == 0) and bit-vectors (w > 0), with a light simplifier and a z3 lowering.

Address arithmetic is kept in a linear normal form  sum(coef * atom) + const  (mod 2^w), so that pointers into one
memory region are compared by their offsets.  A region base is an atom of kind 'r'."""
import itertools

class T:
    __slots__ = ('op', 'args', 'w', 'id', 'aux', '_vars')
    def __repr__(self): return show(self)

_tab = {}
_ids = itertools.count()

def mk(op, args, w, aux=None):
    key = (op, args, w, aux)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = args; t.w = w; t.aux = aux; t.id = next(_ids); t._vars = None
        _tab[key] = t
    return t

TRUE = mk('true', (), 0)
FALSE = mk('false', (), 0)

def boolc(b): return TRUE if b else FALSE

def const(v, w):
    if w == 0: return boolc(v & 1)
    return mk('c', (), w, v & ((1 << w) - 1))

def is_c(t): return t.op == 'c' or t.op == 'true' or t.op == 'false'
def cval(t):
    if t.op == 'c': return t.aux
    return 1 if t.op == 'true' else 0
def sval(t):
    v = t.aux
    return v - (1 << t.w) if v >> (t.w - 1) else v

# ---- variables -------------------------------------------------------------------------------------------------
class Region:
    __slots__ = ('rid', 'kind', 'name', 'size', 'term', 'align')
_regions = {}
_vkind = {}
_fresh = itertools.count()

def var(name, w, kind=None):
    t = mk('v', (), w, name)
    if kind: _vkind[t.id] = kind
    return t

_born = {}
def fresh(prefix, w, kind=None):
    n = next(_fresh)
    v = var('%s!%d' % (prefix, n), w, kind)
    _born[v.id] = n
    return v
def mark(): return next(_fresh)
def born_after(t, m, allow=()):
    """does t mention a variable or region created after mark m?"""
    seen = set(); stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen or x in allow: continue
        seen.add(x.id)
        if x.op == 'v' and _born.get(x.id, -1) > m: return True
        if x.op == 'r' and x.aux > m and _regions[x.aux].kind != 'global': return True
        stack.extend(a for a, _ in x.aux[0]) if x.op == 'lin' else stack.extend(x.args)
    return False

def kind(t): return _vkind.get(t.id)

def new_region(name, kind, size=None, align=16):
    r = Region(); r.rid = next(_fresh); r.kind = kind; r.name = name; r.size = size; r.align = align
    r.term = mk('r', (), 64, r.rid)
    _regions[r.rid] = r
    return r

def region_of(t):
    return _regions[t.aux]

def vars_of(t):
    """ids of 'v' atoms and 'r' atoms below t (frozenset of terms)"""
    if t._vars is not None: return t._vars
    stack = [t]
    while stack:
        x = stack[-1]
        if x._vars is not None: stack.pop(); continue
        todo = [a for a in x.args if isinstance(a, T) and a._vars is None]
        if x.op == 'lin':
            todo += [a for a, _ in x.aux[0] if a._vars is None]
        if todo: stack.extend(todo); continue
        if x.op == 'v': x._vars = frozenset((x,))
        else:
            s = frozenset()
            for a in x.args:
                if isinstance(a, T): s = s | a._vars
            if x.op == 'lin':
                for a, _ in x.aux[0]: s = s | a._vars
            x._vars = s
        stack.pop()
    return t._vars

# ---- linear forms ----------------------------------------------------------------------------------------------
def lin_parts(t):
    if t.op == 'lin': return t.aux
    if t.op == 'c': return ((), t.aux)
    return (((t, 1),), 0)

def mk_lin(parts, c, w):
    m = (1 << w) - 1
    parts = tuple(sorted(((a, k & m) for a, k in parts if k & m), key=lambda x: x[0].id))
    c &= m
    if not parts: return const(c, w)
    if c == 0 and len(parts) == 1 and parts[0][1] == 1: return parts[0][0]
    return mk('lin', (), w, (parts, c))

_addc = {}
def add(a, b):
    w = a.w
    assert w == b.w, (a, b)
    if w == 0: return bxor(a, b)
    if a.op == 'c' and b.op == 'c': return const(a.aux + b.aux, w)
    if b.op == 'c' and b.aux == 0: return a
    if a.op == 'c' and a.aux == 0: return b
    if a.op == 'ite' and b.op == 'c':
        r = _addc.get((a.id, b.id))
        if r is None: r = _addc[(a.id, b.id)] = ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
        return r
    pa, ca = lin_parts(a); pb, cb = lin_parts(b)
    d = {}
    for x, k in pa: d[x] = d.get(x, 0) + k
    for x, k in pb: d[x] = d.get(x, 0) + k
    return mk_lin(d.items(), ca + cb, w)

def mulc(a, k):
    if a.w == 0: return a if k & 1 else FALSE
    p, c = lin_parts(a)
    return mk_lin([(x, y * k) for x, y in p], c * k, a.w)

def neg(a): return mulc(a, -1)
def sub(a, b): return add(a, mulc(b, -1)) if a.w else bxor(a, b)

def mul(a, b):
    if a.op == 'c': return mulc(b, a.aux)
    if b.op == 'c': return mulc(a, b.aux)
    if a.id > b.id: a, b = b, a
    return mk('mul', (a, b), a.w)

_rootc = {}
def root(t):
    """region atom of an address, if the address is <region> + offset"""
    r = _rootc.get(t.id, 0)
    if r != 0: return r
    r = None
    if t.op == 'r' or t.op == 'fn': r = t
    elif t.op == 'lin':
        for a, k in t.aux[0]:
            if a.op in ('r', 'fn'):
                if k == 1 and r is None: r = a
                else: r = None; break
    _rootc[t.id] = r
    return r

def is_small(t):
    """an integer known to be small (container size or index): |t| < 2^33"""
    if t.op == 'c': v = sval(t); return -(1 << 33) < v < (1 << 33)
    if t.op == 'v': return kind(t) == 'size'
    if t.op == 'zext': return t.args[0].w <= 32
    if t.op == 'ite': return is_small(t.args[1]) and is_small(t.args[2])
    return False

def lin_small(t):
    p, c = lin_parts(t)
    m = 1 << t.w
    for a, k in p:
        k = k - m if k >> (t.w - 1) else k
        if not is_small(a) or abs(k) > (1 << 12): return False
    c = c - m if c >> (t.w - 1) else c
    return abs(c) < (1 << 40)

# ---- bit-vector operations --------------------------------------------------------------------------------------
def shl(a, b):
    if b.op == 'c':
        return mulc(a, 1 << b.aux) if b.aux < a.w else const(0, a.w)
    if a.op == 'c' and a.aux == 0: return a
    return mk('shl', (a, b), a.w)

def _exact_div(a, k):
    """a == k * result, for a linear form of small integers"""
    p, c = lin_parts(a)
    m = 1 << a.w
    out = []
    for x, y in p:
        y = y - m if y >> (a.w - 1) else y
        if y % k: return None
        if not is_small(x): return None
        out.append((x, y // k))
    c = c - m if c >> (a.w - 1) else c
    if c % k: return None
    return mk_lin(out, c // k, a.w)

def lshr(a, b):
    if b.op == 'c':
        if b.aux == 0: return a
        if b.aux >= a.w: return const(0, a.w)
        if a.op == 'c': return const(a.aux >> b.aux, a.w)
        return zext(extract(a, a.w - 1, b.aux), a.w)
    return mk('lshr', (a, b), a.w)

def ashr(a, b):
    if b.op == 'c':
        if b.aux == 0: return a
        if a.op == 'c': return const(sval(a) >> min(b.aux, a.w - 1), a.w)
        r = _exact_div(a, 1 << b.aux) if a.w == 64 else None
        if r is not None: return r
    return mk('ashr', (a, b), a.w)

def sdiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.aux:
        x, y = sval(a), sval(b)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.w)
    if b.op == 'c' and a.w == 64:
        r = _exact_div(a, sval(b))
        if r is not None: return r
    return mk('sdiv', (a, b), a.w)

def udiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.aux: return const(a.aux // b.aux, a.w)
    if b.op == 'c' and b.aux == 1: return a
    return mk('udiv', (a, b), a.w)
def urem(a, b):
    if a.op == 'c' and b.op == 'c' and b.aux: return const(a.aux % b.aux, a.w)
    return mk('urem', (a, b), a.w)
def srem(a, b):
    if a.op == 'c' and b.op == 'c' and b.aux:
        x, y = sval(a), sval(b); r = abs(x) % abs(y)
        return const(r if x >= 0 else -r, a.w)
    return mk('srem', (a, b), a.w)

def band(a, b):
    if a.w == 0: return and_(a, b)
    if a.op == 'c' and b.op == 'c': return const(a.aux & b.aux, a.w)
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        if b.aux == 0: return b
        if b.aux == (1 << a.w) - 1: return a
        if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]): return ite(a.args[0], band(a.args[1], b), band(a.args[2], b))
        if a.op == 'zext' and b.aux == (1 << a.args[0].w) - 1: return a
        if a.op == 'band' and a.args[1].op == 'c': return band(a.args[0], const(a.args[1].aux & b.aux, a.w))
    elif a is b: return a
    elif a.id > b.id: a, b = b, a
    return mk('band', (a, b), a.w)

def bor(a, b):
    if a.w == 0: return or_(a, b)
    if a.op == 'c' and b.op == 'c': return const(a.aux | b.aux, a.w)
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        if b.aux == 0: return a
        if b.aux == (1 << a.w) - 1: return b
    elif a is b: return a
    elif a.id > b.id: a, b = b, a
    return mk('bor', (a, b), a.w)

def bxor(a, b):
    if a.w == 0:
        if a.op == 'true': return not_(b)
        if b.op == 'true': return not_(a)
        if a.op == 'false': return b
        if b.op == 'false': return a
        return not_(eq(a, b))
    if a.op == 'c' and b.op == 'c': return const(a.aux ^ b.aux, a.w)
    if a.op == 'c': a, b = b, a
    if b.op == 'c' and b.aux == 0: return a
    if b.op == 'c' and b.aux == (1 << a.w) - 1: return sub(b, a)
    if a is b: return const(0, a.w)
    return mk('bxor', (a, b), a.w)

def zext(a, w):
    if a.w == w: return a
    if a.w == 0: return ite(a, const(1, w), const(0, w))
    if a.op == 'c': return const(a.aux, w)
    if a.op == 'zext': return zext(a.args[0], w)
    if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]): return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    return mk('zext', (a,), w)

def sext(a, w):
    if a.w == w: return a
    if a.w == 0: return ite(a, const(-1, w), const(0, w))
    if a.op == 'c': return const(sval(a), w)
    if a.op == 'zext': return zext(a.args[0], w)
    return mk('sext', (a,), w)

def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w: return a
    if a.op == 'c': return const(a.aux >> lo, w)
    if a.op == 'extract': return extract(a.args[0], a.aux + hi, a.aux + lo)
    if a.op == 'zext':
        b = a.args[0]
        if lo >= b.w: return const(0, w)
        if hi < b.w: return extract(b, hi, lo)
        if lo == 0: return zext(b, w)
    if a.op == 'sext' and hi < a.args[0].w: return extract(a.args[0], hi, lo)
    if a.op == 'concat':
        h, l = a.args
        if hi < l.w: return extract(l, hi, lo)
        if lo >= l.w: return extract(h, hi - l.w, lo - l.w)
        return concat(extract(h, hi - l.w, 0), extract(l, l.w - 1, lo))
    if a.op == 'ite': return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if lo == 0 and a.op == 'lin':
        return mk_lin_trunc(a, w)
    if a.op in ('band', 'bor', 'bxor'):
        f = {'band': band, 'bor': bor, 'bxor': bxor}[a.op]
        return f(extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    return mk('extract', (a,), w, lo)

def mk_lin_trunc(a, w):
    p, c = a.aux
    r = const(c, w)
    for x, k in p: r = add(r, mulc(extract(x, w - 1, 0), k))
    return r

def trunc(a, w):
    if w == 0:
        return eq(extract(a, 0, 0), const(1, 1))
    return extract(a, w - 1, 0)

def concat(h, l):
    if h.op == 'c' and l.op == 'c': return const((h.aux << l.w) | l.aux, h.w + l.w)
    if h.op == 'c' and h.aux == 0: return zext(l, h.w + l.w)
    if h.op == 'extract' and l.op == 'extract' and h.args[0] is l.args[0] and h.aux == l.aux + l.w:
        return extract(h.args[0], h.aux + h.w - 1, l.aux)
    return mk('concat', (h, l), h.w + l.w)

# ---- booleans ---------------------------------------------------------------------------------------------------
def not_(a):
    if a.op == 'true': return FALSE
    if a.op == 'false': return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 0)

def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x.op == 'false': return FALSE
        if x.op == 'true': continue
        for y in (x.args if x.op == 'and' else (x,)):
            if y.id not in seen: seen.add(y.id); out.append(y)
    for y in out:
        if y.op == 'not' and y.args[0].id in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(sorted(out, key=lambda t: t.id)), 0)

def or_(*xs): return not_(and_(*[not_(x) for x in xs]))
def implies(a, b): return or_(not_(a), b)

def ite(c, a, b):
    if c.op == 'true': return a
    if c.op == 'false': return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.w == 0:
        if a.op == 'true': return or_(c, b)
        if a.op == 'false': return and_(not_(c), b)
        if b.op == 'true': return or_(not_(c), a)
        if b.op == 'false': return and_(c, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk('ite', (c, a, b), a.w)

_sums = {}
def as_sum(t):
    """the same value, with cases that differ by a constant written as sums: if c then x + 1 else x is x + (if c then 1 else 0)"""
    r = _sums.get(t.id)
    if r is not None: return r[1]
    if t.op == 'ite':
        a, b = as_sum(t.args[1]), as_sum(t.args[2]); d = sub(a, b)
        if d.op != 'c': r = ite(t.args[0], a, b)
        elif d.aux >> (t.w - 1): r = add(a, mulc(ite(t.args[0], const(0, t.w), const(1, t.w)), -d.aux))
        else: r = add(b, mulc(ite(t.args[0], const(1, t.w), const(0, t.w)), d.aux))
    else:
        p, c = lin_parts(t)
        if len(p) == 1 and p[0][0] is t: r = t
        else:
            r = const(c, t.w)
            for x, k in p: r = add(r, mulc(as_sum(x), k))
    _sums[t.id] = (t, r)
    return r

def _opaque(t):
    """an address with no region in it"""
    return root(t) is None

def eq(a, b):
    if a is b: return TRUE
    if a.w == 0:
        if a.op == 'true': return b
        if b.op == 'true': return a
        if a.op == 'false': return not_(b)
        if b.op == 'false': return not_(a)
    else:
        if a.op == 'c' and b.op == 'c': return boolc(a.aux == b.aux)
        if a.op == 'ite' and b.op != 'ite' and (is_c(b) or root(a.args[1]) is not None or root(a.args[2]) is not None):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b.op == 'ite' and a.op != 'ite' and (is_c(a) or root(b.args[1]) is not None or root(b.args[2]) is not None):
            return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
        if a.w == 64:
            ra, rb = root(a), root(b)
            if ra is not None or rb is not None:
                if ra is not rb and ra is not None and rb is not None: return FALSE
                if ra is not rb:
                    x, r, o = (a, ra, b) if ra is not None else (b, rb, a)
                    if o.op == 'c': return FALSE                  # region addresses are neither null nor small constants
                    if not has_region(o): return FALSE            # an opaque pointer never points into a fresh region
        # a single bit that is set is a bit that is not clear
        if a.op == 'c' and b.op == 'band' and a.aux and a.aux & (a.aux - 1) == 0 and a in b.args: return not_(eq(const(0, a.w), b))
        if b.op == 'c' and a.op == 'band' and b.aux and b.aux & (b.aux - 1) == 0 and b in a.args: return not_(eq(a, const(0, a.w)))
        if a.op == 'zext' and b.op == 'c':
            x = a.args[0]
            if b.aux >> x.w: return FALSE
            return eq(x, const(b.aux, x.w))
        if b.op == 'zext' and a.op == 'c': return eq(b, a)
        if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w: return eq(a.args[0], b.args[0])
        if a.op == 'concat' and b.op == 'concat' and a.args[0].w == b.args[0].w:
            return and_(eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]))
        if a.op == 'concat' and b.op == 'c':
            h, l = a.args
            return and_(eq(h, const(b.aux >> l.w, h.w)), eq(l, const(b.aux, l.w)))
        if b.op == 'concat' and a.op == 'c': return eq(b, a)
        if a.op == 'lin' or b.op == 'lin':
            d = sub(a, b)
            if d.op == 'c': return boolc(d.aux == 0)
            # normalise  d == 0
            p, c = lin_parts(d)
            if len(p) == 1 and p[0][1] == 1 and d.op == 'lin':
                return eq(p[0][0], const(-c, a.w))
            if len(p) == 1 and p[0][1] == (1 << a.w) - 1:
                return eq(p[0][0], const(c, a.w))
            # strip a common power-of-two factor when everything is small
            if a.w == 64 and lin_small(d):
                m = 1 << 64
                g = c
                for _, k in p: g |= k
                low = (g & -g)
                if low > 1:
                    dd = _exact_div(d, low)
                    if dd is not None and dd is not d: return eq(dd, const(0, 64))
            dn = neg(d)
            if dn.id < d.id and dn.op == 'lin': d = dn
            return mk('eq', (d, const(0, a.w)), 0)
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 0)

def has_region(t):
    return _has_region(t)
_hr = {}
def _has_region(t):
    v = _hr.get(t.id)
    if v is not None: return v
    if t.op in ('r', 'fn'): v = True
    elif t.op == 'lin': v = any(_has_region(a) for a, _ in t.aux[0])
    elif t.op == 'ite': v = _has_region(t.args[1]) or _has_region(t.args[2])
    elif t.op in ('band', 'bor', 'bxor', 'zext', 'extract', 'concat', 'mul', 'shl', 'lshr', 'ashr'):
        v = any(_has_region(a) for a in t.args)
    elif t.op == 'v' and kind(t) == 'any': v = True     # may be anything, including a fresh region
    else: v = False
    _hr[t.id] = v
    return v

def _same_root_off(a, b):
    ra, rb = root(a), root(b)
    if ra is not None and ra is rb:
        return sub(a, ra), sub(b, ra)
    return None

def ult(a, b):
    if a.op == 'c' and b.op == 'c': return boolc(a.aux < b.aux)
    if a is b: return FALSE
    if b.op == 'c' and b.aux == 0: return FALSE
    if b.op == 'c' and b.aux == 1: return eq(a, const(0, a.w))
    if a.op == 'ite' and is_c(b) and is_c(a.args[1]) and is_c(a.args[2]): return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if a.w == 64:
        so = _same_root_off(a, b)
        if so: a, b = so; return ult(a, b)
        d = sub(b, a)
        if d.op == 'c' and lin_small(a) and lin_small(b) and nonneg(a) and nonneg(b): return boolc(sval(d) > 0)
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w: return ult(a.args[0], b.args[0])
    if a.op == 'zext' and b.op == 'c':
        x = a.args[0]
        if b.aux >> x.w: return TRUE
        return ult(x, const(b.aux, x.w))
    return mk('ult', (a, b), 0)

def nonneg(t):
    p, c = lin_parts(t)
    h = 1 << (t.w - 1)
    return c < h and all(k < h for _, k in p)

def ule(a, b): return not_(ult(b, a))

def slt(a, b):
    if a.op == 'c' and b.op == 'c': return boolc(sval(a) < sval(b))
    if a is b: return FALSE
    if a.w == 64:
        so = _same_root_off(a, b)
        if so: a, b = so
    if a.op == 'ite' and is_c(b) and is_c(a.args[1]) and is_c(a.args[2]): return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if a.op == 'zext' and b.op == 'c' and sval(b) >= 0: return ult(a, b)
    if a.op == 'zext' and b.op == 'c' and sval(b) < 0: return FALSE
    if a.op == 'zext' and b.op == 'zext': return ult(a, b)
    return mk('slt', (a, b), 0)
def sle(a, b): return not_(slt(b, a))

def uf(name, args, w): return mk('u', tuple(args), w, name)
def ld(addr, w, tag=''): return mk('ld', (addr,), w, tag)

# ---- substitution -------------------------------------------------------------------------------------------------
def subst(t, m, cache=None):
    """replace atoms (keys of m: terms) by terms"""
    if cache is None: cache = {}
    def go(x):
        if x in m: return m[x]
        r = cache.get(x.id)
        if r is not None: return r
        if x.op in ('c', 'true', 'false', 'v', 'r', 'fn'): r = x
        elif x.op == 'lin':
            p, c = x.aux
            r = const(c, x.w)
            for a, k in p: r = add(r, mulc(go(a), k))
        else:
            na = tuple(go(a) for a in x.args)
            r = x if na == x.args else rebuild(x, na)
        cache[x.id] = r
        return r
    return go(t)

_reb = {}
def rebuild(x, a):
    op = x.op
    if op == 'not': return not_(a[0])
    if op == 'and': return and_(*a)
    if op == 'ite': return ite(*a)
    if op == 'eq': return eq(*a)
    if op == 'ult': return ult(*a)
    if op == 'slt': return slt(*a)
    if op == 'zext': return zext(a[0], x.w)
    if op == 'sext': return sext(a[0], x.w)
    if op == 'extract': return extract(a[0], x.aux + x.w - 1, x.aux)
    if op == 'concat': return concat(*a)
    f = {'mul': mul, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'sdiv': sdiv, 'udiv': udiv, 'urem': urem, 'srem': srem,
         'band': band, 'bor': bor, 'bxor': bxor}.get(op)
    if f: return f(*a)
    return mk(op, a, x.w, x.aux)

# ---- printing -----------------------------------------------------------------------------------------------------
def show(t, depth=6):
    if t.op == 'c': return str(sval(t)) if t.w > 8 else str(t.aux)
    if t.op in ('true', 'false'): return t.op
    if t.op == 'v': return t.aux
    if t.op == 'r': r = _regions[t.aux]; return '&%s#%d' % (r.name, r.rid)
    if t.op == 'fn': return '@' + t.aux
    if depth == 0: return '..'
    if t.op == 'lin':
        m = 1 << t.w
        s = []
        for a, k in t.aux[0]:
            k = k - m if k >> (t.w - 1) else k
            s.append(show(a, depth - 1) if k == 1 else '%d*%s' % (k, show(a, depth - 1)))
        c = t.aux[1]
        c = c - m if c >> (t.w - 1) else c
        if c: s.append(str(c))
        return '(' + ' + '.join(s) + ')'
    a = ', '.join(show(x, depth - 1) for x in t.args)
    if t.op == 'u': return '%s(%s)' % (t.aux, a)
    if t.op == 'ld': return 'mem%s%d[%s]' % (t.aux, t.w, a)
    if t.op == 'extract': return '%s[%d:%d]' % (a, t.aux + t.w - 1, t.aux)
    return '%s(%s)' % (t.op, a)

# ---- lowering to z3 ---------------------------------------------------------------------------------------------
import z3
_z = {}
_zf = {}
_fnaddr = {}

def _region_addr(r):
    return (1 << 46) + (r.rid << 16 << 18) % (1 << 63) if False else ((1 << 44) + r.rid * (1 << 36))

def zfun(name, ws, w):
    key = (name, ws, w)
    f = _zf.get(key)
    if f is None:
        srt = [z3.BoolSort() if x == 0 else z3.BitVecSort(x) for x in ws]
        out = z3.BoolSort() if w == 0 else z3.BitVecSort(w)
        f = z3.Function('%s/%s' % (name, '.'.join(map(str, ws + (w,)))), *(srt + [out]))
        _zf[key] = f
    return f

def to_z3(t):
    r = _z.get(t.id)
    if r is not None: return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _z: stack.pop(); continue
        kids = [a for a in x.args if isinstance(a, T)]
        if x.op == 'lin': kids = [a for a, _ in x.aux[0]]
        todo = [a for a in kids if a.id not in _z]
        if todo: stack.extend(todo); continue
        _z[x.id] = _lower(x)
        stack.pop()
    return _z[t.id]

def _lower(t):
    op = t.op
    A = [_z[a.id] for a in t.args]
    if op == 'c': return z3.BitVecVal(t.aux, t.w)
    if op == 'true': return z3.BoolVal(True)
    if op == 'false': return z3.BoolVal(False)
    if op == 'v': return z3.Bool(t.aux) if t.w == 0 else z3.BitVec(t.aux, t.w)
    if op == 'r': return z3.BitVecVal(_region_addr(_regions[t.aux]), 64)
    if op == 'fn':
        if t.aux not in _fnaddr: _fnaddr[t.aux] = (1 << 40) + 4096 * (len(_fnaddr) + 1)
        return z3.BitVecVal(_fnaddr[t.aux], 64)
    if op == 'lin':
        m = 1 << t.w
        e = None
        for a, k in t.aux[0]:
            z = _z[a.id]
            neg_ = False
            if k >> (t.w - 1): k = m - k; neg_ = True
            if k != 1:
                z = z << z3.BitVecVal(k.bit_length() - 1, t.w) if k & (k - 1) == 0 else z * z3.BitVecVal(k, t.w)
            if e is None: e = -z if neg_ else z
            else: e = e - z if neg_ else e + z
        if t.aux[1]: e = e + z3.BitVecVal(t.aux[1], t.w)
        return e
    if op == 'not': return z3.Not(A[0])
    if op == 'and': return z3.And(*A)
    if op == 'ite': return z3.If(*A)
    if op == 'eq': return A[0] == A[1]
    if op == 'ult': return z3.ULT(*A)
    if op == 'slt': return A[0] < A[1]
    if op == 'zext': return z3.ZeroExt(t.w - t.args[0].w, A[0])
    if op == 'sext': return z3.SignExt(t.w - t.args[0].w, A[0])
    if op == 'extract': return z3.Extract(t.aux + t.w - 1, t.aux, A[0])
    if op == 'concat': return z3.Concat(*A)
    if op == 'mul': return A[0] * A[1]
    if op == 'shl': return A[0] << A[1]
    if op == 'lshr': return z3.LShR(*A)
    if op == 'ashr': return A[0] >> A[1]
    if op == 'udiv': return z3.UDiv(*A)
    if op == 'sdiv': return A[0] / A[1]
    if op == 'urem': return z3.URem(*A)
    if op == 'srem': return z3.SRem(*A)
    if op == 'band': return A[0] & A[1]
    if op == 'bor': return A[0] | A[1]
    if op == 'bxor': return A[0] ^ A[1]
    if op == 'u':
        if not A: return z3.Bool(t.aux) if t.w == 0 else z3.BitVec('uf_' + t.aux, t.w)
        return zfun(t.aux, tuple(a.w for a in t.args), t.w)(*A)
    if op == 'ld': return zfun('mem' + t.aux, (64,), t.w)(*A)
    raise Exception('lower ' + op)
