"""Parser for the textual LLVM IR that clang emits for the real sources (opaque pointers, LLVM 18)."""
import re, subprocess

# ---- types ---------------------------------------------------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'n', 'elems', 'packed', 'size', 'align', 'offs')
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.elems)
        if self.k == 'struct': return '{%s}' % ', '.join(map(repr, self.elems))
        return self.k

def _mk(k, **kw):
    t = Ty(); t.k = k; t.n = kw.get('n'); t.elems = kw.get('elems'); t.packed = kw.get('packed', False)
    t.size = t.align = t.offs = None
    return t

PTR = _mk('ptr'); PTR.size = 8; PTR.align = 8
VOID = _mk('void'); VOID.size = 0; VOID.align = 1
_ints = {}
def INT(n):
    if n not in _ints:
        t = _mk('int', n=n)
        b = (n + 7) // 8
        s = 1
        while s < b: s *= 2
        t.size = s; t.align = min(s, 16)
        _ints[n] = t
    return _ints[n]

def width(t):
    if t.k == 'int': return 0 if t.n == 1 else t.n
    if t.k == 'ptr': return 64
    if t.k == 'float': return t.n
    raise Unsupported('width of %r' % t)

class Unsupported(Exception): pass

TOK = re.compile(r'''\s*(?:
 (?P<str>c"[^"]*")
|(?P<qstr>"[^"]*")
|(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
|(?P<attr>\#\d+)
|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
|(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
|(?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
|(?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<dots>\.\.\.)
|(?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        # hex before num
        m = HEX.match(s, i)
        if m:
            out.append(('hex', m.group(1))); i = m.end(); continue
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise Unsupported('token: %r' % s[i:i + 40])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out
HEX = re.compile(r'\s*(0x[KLMHR]?[0-9A-Fa-f]+)')

ATTRWORDS = {'noundef', 'zeroext', 'signext', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'returned', 'immarg',
             'inreg', 'nest', 'noreturn', 'nounwind', 'dso_local', 'hidden', 'internal', 'private', 'linkonce_odr', 'weak_odr', 'external', 'weak',
             'linkonce', 'available_externally', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'comdat', 'personality', 'mustprogress',
             'dead_on_unwind', 'writable', 'common', 'protected', 'default', 'dso_preemptable', 'appending', 'extern_weak', 'thread_local',
             'constant', 'global', 'inbounds', 'nuw', 'nsw', 'exact', 'tail', 'musttail', 'notail', 'swiftself', 'disjoint', 'nneg', 'noinline', 'coldcc', 'volatile', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
PARENATTR = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'preallocated', 'inalloca', 'elementtype', 'range', 'nofpclass', 'memory', 'allocsize', 'captures'}

class Fn:
    __slots__ = ('name', 'params', 'ret', 'text', 'blocks', 'entry', 'decl', 'linkage', 'byval', 'dbg', 'varargs', 'loops', '_info', '_pd', 'order')

class Module:
    def __init__(self, path):
        self.types = {}
        self._typetxt = {}
        self.fns = {}
        self.globtxt = {}
        self.globals = {}
        self.alias = {}
        self.md = {}
        self._read(path)

    # -- reading -------------------------------------------------------------------------------------------------------
    def _read(self, path):
        lines = open(path).read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                m = FNAME.search(l)
                nm = m.group(1) or m.group(2)
                f = Fn(); f.name = nm; f.text = (l, lines[i + 1:j]); f.blocks = None; f.decl = False; f.params = None; f._info = None; f.loops = None
                self.fns[nm] = f
                i = j + 1; continue
            if l.startswith('declare '):
                m = FNAME.search(l)
                nm = m.group(1) or m.group(2)
                f = Fn(); f.name = nm; f.text = (l, None); f.decl = True; f.blocks = None; f.params = None; f._info = None; f.loops = None
                self.fns[nm] = f
            elif l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                self._typetxt[m.group(1)] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'@((?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                nm = m.group(1).strip('"')
                if re.search(r'(^|\s)alias\s', m.group(2)):
                    a = re.search(r'alias .*@((?:"[^"]*"|[-a-zA-Z$._0-9]+))', m.group(2))
                    self.alias[nm] = a.group(1).strip('"')
                else:
                    self.globtxt[nm] = m.group(2)
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', l)
                if m: self.md[m.group(1)] = m.group(2)
            i += 1

    # -- types -----------------------------------------------------------------------------------------------------------
    def named(self, n):
        t = self.types.get(n)
        if t is None:
            txt = self._typetxt.get(n)
            if txt is None or txt.strip() == 'opaque':
                t = _mk('opaque'); self.types[n] = t; return t
            p = P(self, tokenize(txt))
            t = p.type()
            self.types[n] = t
        return t

    def layout(self, t):
        if t.size is not None: return t
        if t.k == 'arr':
            e = self.layout(t.elems); t.size = e.size * t.n; t.align = e.align
        elif t.k == 'struct':
            off = 0; al = 1; offs = []
            for e in t.elems:
                self.layout(e)
                a = 1 if t.packed else e.align
                off = (off + a - 1) // a * a
                offs.append(off); off += e.size; al = max(al, a)
            t.size = (off + al - 1) // al * al; t.align = al; t.offs = offs
        elif t.k == 'float':
            t.size = t.n // 8 if t.n != 80 else 16; t.align = t.size
        else:
            raise Unsupported('size of %r' % t)
        return t

    def fn(self, name):
        name = self.alias.get(name, name)
        f = self.fns.get(name)
        if f is None: return None
        if f.params is None: parse_header(self, f)
        if not f.decl and f.blocks is None: parse_body(self, f)
        return f

    def glob(self, name):
        g = self.globals.get(name)
        if g is None:
            g = parse_global(self, name, self.globtxt[name])
            self.globals[name] = g
        return g

FNAME = re.compile(r'@(?:"([^"]*)"|([-a-zA-Z$._0-9]+))\s*\(')

# ---- token-stream parser ----------------------------------------------------------------------------------------------
class P:
    def __init__(self, m, toks): self.m = m; self.t = toks; self.i = 0
    def peek(self, o=0): return self.t[self.i + o] if self.i + o < len(self.t) else (None, None)
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v: self.i += 1; return True
        return False
    def expect(self, v):
        x = self.next()
        if x[1] != v: raise Unsupported('expected %s got %s in %s' % (v, x, self.t))
    def type(self):
        t = self.basetype()
        while self.peek()[1] == '(' :       # function type: only in call with varargs
            self.skip_parens(); t = ('fnty', t)
            return t
        return t
    def skip_parens(self):
        d = 0
        while True:
            x = self.next()[1]
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: return
    def basetype(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr': return PTR
            if v == 'void': return VOID
            if re.match(r'i\d+$', v): return INT(int(v[1:]))
            if v == 'double': return _mkf(64)
            if v == 'float': return _mkf(32)
            if v == 'half': return _mkf(16)
            if v == 'x86_fp80': return _mkf(80)
            if v in ('label', 'metadata', 'token'): return _mk(v)
            raise Unsupported('type %s' % v)
        if k == 'loc': return self.m.named(v)
        if v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.basetype(); self.expect(']')
            return _mk('arr', n=n, elems=e)
        if v == '{' or v == '<':
            packed = False
            if v == '<':
                if self.peek()[0] == 'num':
                    n = int(self.next()[1]); self.expect('x'); e = self.basetype(); self.expect('>')
                    return _mk('vec', n=n, elems=e)
                self.expect('{'); packed = True
            es = []
            if not self.accept('}'):
                while True:
                    es.append(self.basetype())
                    if self.accept('}'): break
                    self.expect(',')
            if packed: self.expect('>')
            return _mk('struct', elems=es, packed=packed)
        raise Unsupported('type token %s' % v)
    def attrs(self):
        out = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARENATTR:
                self.next()
                if self.peek()[1] == '(':
                    if v in ('sret', 'byval'):
                        self.next(); out[v] = self.basetype(); self.expect(')')
                    else: self.skip_parens()
                elif v == 'align': self.next()
                out.setdefault(v, True)
            elif k == 'word' and v in ATTRWORDS: self.next(); out[v] = True
            elif k == 'attr': self.next()
            elif k == 'qstr':
                self.next()
                if self.accept('='): self.next()
            else: return out
    def value(self, ty):
        k, v = self.next()
        if k == 'loc': return ('l', v)
        if k == 'glob': return ('g', v[1:].strip('"'))
        if k == 'num':
            if '.' in v:
                import struct
                return ('k', struct.unpack('<Q', struct.pack('<d', float(v)))[0] if ty.n == 64 else struct.unpack('<I', struct.pack('<f', float(v)))[0])
            return ('k', int(v))
        if k == 'hex':
            x = int(re.sub(r'^0x[KLMHR]?', '', v), 16)
            if ty.k == 'float' and ty.n == 32:
                import struct
                x = struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', x))[0]))[0]
            return ('k', x)
        if k == 'str':
            return ('str', unescape(v[2:-1]))
        if k == 'word':
            if v == 'true': return ('k', 1)
            if v == 'false': return ('k', 0)
            if v == 'null': return ('k', 0)
            if v == 'zeroinitializer': return ('zero',)
            if v in ('undef', 'poison'): return ('undef',)
            if v in ('getelementptr',):
                inb = self.attrs()
                self.expect('(')
                sty = self.basetype(); self.expect(',')
                args = self.tvlist(')')
                return ('cgep', sty, args)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t = self.basetype(); x = self.value(t); self.expect('to'); t2 = self.basetype(); self.expect(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'icmp', 'select'):
                self.attrs()
                if v == 'icmp': v = 'icmp ' + self.next()[1]
                self.expect('(')
                args = self.tvlist(')')
                return ('cop', v, args)
            if v == 'dso_local_equivalent' or v == 'no_cfi': return self.value(ty)
        if v == '{' or v == '[' or v == '<':
            if v == '<' and self.peek()[1] == '{': self.next(); es = self.tvlist('}'); self.expect('>')
            else: es = self.tvlist({'{': '}', '[': ']', '<': '>'}[v])
            return ('agg', es)
        raise Unsupported('value %s %s in %s' % (k, v, self.t[max(0, self.i - 8):self.i + 4]))
    def tvlist(self, end):
        out = []
        if self.accept(end): return out
        while True:
            if self.peek()[1] == 'inrange': self.next()
            t = self.basetype(); self.attrs(); out.append((t, self.value(t)))
            if self.accept(end): return out
            self.expect(',')
    def tv(self):
        t = self.basetype(); self.attrs()
        return t, self.value(t)

_fl = {}
def _mkf(n):
    if n not in _fl:
        t = _mk('float', n=n); t.size = n // 8 if n != 80 else 16; t.align = t.size; _fl[n] = t
    return _fl[n]

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2; continue
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

def parse_global(m, name, txt):
    p = P(m, tokenize(re.sub(r', comdat.*$|, align \d+.*$|, !dbg.*$', '', txt)))
    const = False; ext = False
    while True:
        k, v = p.peek()
        if k == 'word' and v in ('constant', 'global'):
            const = v == 'constant'; p.next(); break
        if v == 'external': ext = True
        if v == '(': p.skip_parens(); continue
        p.next()
    t = p.basetype()
    init = None
    if p.i < len(p.t) and not ext and p.peek()[1] not in (',', None) and p.peek()[0] != 'meta':
        init = p.value(t)
    return dict(name=name, ty=t, init=init, const=const, ext=init is None)

def parse_header(m, f):
    l = f.text[0]
    mm = FNAME.search(l)
    pre = l[:mm.start()]; rest = l[mm.end() - 1:]
    f.linkage = 'internal' if ' internal ' in pre else 'external'
    p = P(m, tokenize(pre)); p.next(); p.attrs()
    f.ret = p.basetype()
    d = re.search(r'!dbg !(\d+)', rest); f.dbg = d.group(1) if d else None
    # parameter list
    p = P(m, tokenize(_paren(rest)))
    p.expect('(')
    f.params = []; f.varargs = False
    if not p.accept(')'):
        while True:
            if p.peek()[0] == 'dots': p.next(); f.varargs = True; p.expect(')'); break
            t = p.basetype(); a = p.attrs(); nm = None
            if p.peek()[0] == 'loc': nm = p.next()[1]
            f.params.append((t, nm, a))
            if p.accept(')'): break
            p.expect(',')
    for i, (t, nm, a) in enumerate(f.params):
        if nm is None: f.params[i] = (t, '%%%d' % i, a)

def _paren(s):
    d = 0; q = False
    for i, c in enumerate(s):
        if c == '"': q = not q
        if q: continue
        if c == '(': d += 1
        elif c == ')':
            d -= 1
            if d == 0: return s[:i + 1]
    return s

DBG = re.compile(r',? ?!dbg !(\d+)')
BLK = re.compile(r'^(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):')

def parse_body(m, f):
    blocks = {}; order = []
    nargs = sum(1 for t, nm, a in f.params if re.match(r'%\d+$', nm))
    cur = None
    lines = f.text[1]
    i = 0
    while i < len(lines):
        l = lines[i]; i += 1
        if not l.strip(): continue
        if not l.startswith(' '):
            b = BLK.match(l)
            if b:
                cur = '%' + (('"%s"' % b.group(1)) if b.group(1) is not None else b.group(2))
                blocks[cur] = []; order.append(cur); continue
            raise Unsupported('line %r' % l)
        if cur is None:
            # the implicit entry label takes the next value number
            cur = '%%%d' % nargs
            blocks[cur] = []; order.append(cur)
        s = l.strip()
        if s.startswith('switch') or ' = switch' in s:
            while ']' not in s: s += ' ' + lines[i].strip(); i += 1
        if s.startswith('invoke ') or ' = invoke ' in s:
            s += ' ' + lines[i].strip(); i += 1
        if ' = landingpad ' in s:
            while i < len(lines) and re.match(r'\s{10}(cleanup|catch|filter)', lines[i]): s += ' ' + lines[i].strip(); i += 1
        d = DBG.search(s); dbg = d.group(1) if d else None
        s = re.sub(r',? ?![-a-zA-Z.]+ !\d+', '', s)
        s = re.sub(r', !srcloc .*$', '', s)
        if 'call void @llvm.dbg.' in s: continue
        ins = parse_inst(m, s)
        blocks[cur].append(ins + (dbg,))
    f.blocks = blocks; f.order = order; f.entry = order[0]

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'freeze'}

def parse_inst(m, s):
    """-> (opcode, dest, fields...)"""
    p = P(m, tokenize(s))
    dest = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dest = p.next()[1]; p.next()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'): op = p.next()[1]
    if op == 'ret':
        t = p.basetype()
        if t.k == 'void': return ('ret', None, None, None)
        return ('ret', None, t, p.value(t))
    if op == 'br':
        if p.accept('label'): return ('jmp', None, p.next()[1])
        t = p.basetype(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next()[1]; p.expect(','); p.expect('label'); b = p.next()[1]
        return ('br', None, c, a, b)
    if op == 'switch':
        t, v = p.tv(); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('[')
        cs = []
        while not p.accept(']'):
            ct, cv = p.tv(); p.expect(','); p.expect('label'); cs.append((cv, p.next()[1]))
        return ('switch', None, t, v, d, cs)
    if op == 'unreachable': return ('unreachable', None)
    if op == 'alloca':
        t = p.basetype(); n = None
        if p.accept(',') and p.peek()[1] != 'align':
            nt = p.basetype(); n = (nt, p.value(nt))
        return ('alloca', dest, t, n)
    if op == 'load':
        atomic = p.accept('atomic'); p.attrs()
        t = p.basetype(); p.expect(','); pt, pv = p.tv()
        return ('load', dest, t, pv, atomic)
    if op == 'store':
        atomic = p.accept('atomic'); p.attrs()
        t, v = p.tv(); p.expect(','); pt, pv = p.tv()
        return ('store', None, t, v, pv, atomic)
    if op == 'getelementptr':
        p.attrs()
        t = p.basetype(); p.expect(',')
        bt, bv = p.tv(); idx = []
        while p.accept(','): idx.append(p.tv())
        return ('gep', dest, t, bv, idx)
    if op in BIN:
        p.attrs(); t = p.basetype(); a = p.value(t); p.expect(','); b = p.value(t)
        return ('bin', dest, op, t, a, b)
    if op in CAST:
        p.attrs(); t = p.basetype(); a = p.value(t)
        if op == 'freeze': return ('cast', dest, 'freeze', t, a, t)
        p.expect('to'); t2 = p.basetype()
        return ('cast', dest, op, t, a, t2)
    if op in ('icmp', 'fcmp'):
        p.attrs() if op == 'fcmp' else None
        pr = p.next()[1]; t = p.basetype(); a = p.value(t); p.expect(','); b = p.value(t)
        return (op, dest, pr, t, a, b)
    if op == 'select':
        p.attrs()
        ct, c = p.tv(); p.expect(','); t, a = p.tv(); p.expect(','); t2, b = p.tv()
        return ('select', dest, c, t, a, b)
    if op == 'phi':
        p.attrs(); t = p.basetype(); ins = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); b = p.next()[1]; p.expect(']'); ins.append((b, v))
            if not p.accept(','): break
        return ('phi', dest, t, ins)
    if op == 'extractvalue':
        t, v = p.tv(); idx = []
        while p.accept(','): idx.append(int(p.next()[1]))
        return ('extractvalue', dest, t, v, idx)
    if op == 'insertvalue':
        t, v = p.tv(); p.expect(','); t2, v2 = p.tv(); idx = []
        while p.accept(','): idx.append(int(p.next()[1]))
        return ('insertvalue', dest, t, v, t2, v2, idx)
    if op in ('call', 'invoke'):
        p.attrs()
        t = p.basetype()
        if p.peek()[1] == '(' : p.skip_parens()      # explicit function type
        if p.peek()[1] == 'asm':
            raise Unsupported('inline asm')
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                if p.peek()[1] == 'metadata':
                    while p.peek()[1] not in (',', ')'): p.next()
                    args.append((None, ('undef',), {}))
                else:
                    at = p.basetype(); aa = p.attrs(); args.append((at, p.value(at), aa))
                if p.accept(')'): break
                p.expect(',')
        nounwind = False
        if op == 'invoke':
            p.attrs()
            if p.accept('['): 
                while not p.accept(']'): p.next()
            p.expect('to'); p.expect('label'); a = p.next()[1]; p.expect('unwind'); p.expect('label'); b = p.next()[1]
            return ('call', dest, t, callee, args, a, b)
        return ('call', dest, t, callee, args, None, None)
    if op == 'landingpad':
        t = p.basetype(); cl = []
        while p.i < len(p.t):
            w = p.next()[1]
            if w == 'cleanup': cl.append(('cleanup',))
            elif w == 'catch': cl.append(('catch', p.tv()[1]))
            elif w == 'filter': cl.append(('filter', p.tv()))
            else: raise Unsupported('landingpad %s' % w)
        return ('landingpad', dest, t, cl)
    if op == 'resume':
        t, v = p.tv(); return ('resume', None, t, v)
    if op == 'atomicrmw':
        p.accept('volatile'); o = p.next()[1]; pt, pv = p.tv(); p.expect(','); t, v = p.tv()
        return ('atomicrmw', dest, o, pv, t, v)
    if op == 'cmpxchg':
        p.accept('weak'); p.accept('volatile')
        pt, pv = p.tv(); p.expect(','); t, c = p.tv(); p.expect(','); t2, n = p.tv()
        return ('cmpxchg', dest, pv, t, c, n)
    if op == 'fneg':
        p.attrs(); t = p.basetype(); return ('fneg', dest, t, p.value(t))
    if op == 'fence': return ('nop', None)
    raise Unsupported('instruction %s' % op)

_dem = {}
def demangle_all(names):
    names = [n for n in names if n not in _dem]
    if not names: return
    out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    for n, d in zip(names, out): _dem[n] = d
def demangle(n):
    if n not in _dem: demangle_all([n])
    return _dem[n]

if __name__ == '__main__':
    import sys, time
    t0 = time.time(); m = Module(sys.argv[1]); print(len(m.fns), time.time() - t0)
    bad = {}
    for n in m.fns:
        try: m.fn(n)
        except Exception as e: bad[n] = e
    for n in m.globtxt:
        try: m.glob(n)
        except Exception as e: bad['@' + n] = e
    print(time.time() - t0, len(bad))
    for n, e in list(bad.items())[:20]: print(n, repr(e)[:300])
