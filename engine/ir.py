"""Parser for textual LLVM 18 IR (opaque pointers), as emitted by clang -S -emit-llvm."""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'packed', '_size', '_align', '_offs', 'name')
    def __init__(self, k, w=0, el=None, n=0, packed=False, name=None):
        self.k, self.w, self.el, self.n, self.packed, self.name = k, w, el, n, packed, name
        self._size = self._align = self._offs = None
    def __repr__(self):
        if self.k == 'i': return 'i%d' % self.w
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.el or []))
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.el)
        return self.k

VOID, PTR, LABEL, META = Ty('void'), Ty('ptr'), Ty('label'), Ty('metadata')
_ints = {}
def I(w):
    t = _ints.get(w)
    if t is None: t = _ints[w] = Ty('i', w)
    return t
FLOATS = {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 80, 'fp128': 128}

class Layout:
    def __init__(self, s):
        self.s = s
        self.big = s.startswith('E') or '-E-' in s
        self.ptr_bits, self.ptr_align = 64, 8
        self.int_align = {1: 1, 8: 1, 16: 2, 32: 4, 64: 4}
        for part in s.split('-'):
            m = re.match(r'p(?:0)?:(\d+):(\d+)', part)
            if m: self.ptr_bits, self.ptr_align = int(m.group(1)), int(m.group(2)) // 8
            m = re.match(r'i(\d+):(\d+)', part)
            if m: self.int_align[int(m.group(1))] = int(m.group(2)) // 8
    def size(self, t):
        if t._size is None: self._calc(t)
        return t._size
    def align(self, t):
        if t._align is None: self._calc(t)
        return t._align
    def offs(self, t):
        if t._offs is None: self._calc(t)
        return t._offs
    def _calc(self, t):
        k = t.k
        if k == 'i':
            a = self.int_align.get(t.w)
            nb = (t.w + 7) // 8
            if a is None:
                ws = sorted(self.int_align)
                c = [w for w in ws if w >= t.w]
                a = self.int_align[c[0]] if c else self.int_align[ws[-1]]
                if t.w > 64: a = max(a, 8)
            t._align = a; t._size = (nb + a - 1) // a * a
        elif k == 'ptr':
            t._size = self.ptr_bits // 8; t._align = self.ptr_align
        elif k == 'float':
            t._size = t.w // 8 if t.w != 80 else 16; t._align = min(t._size, 16)
        elif k in ('arr', 'vec'):
            t._size = t.n * self.size(t.el); t._align = self.align(t.el)
        elif k == 'struct':
            off = 0; al = 1; offs = []
            if t.el is None: raise IRError('opaque struct %s' % t.name)
            for e in t.el:
                a = 1 if t.packed else self.align(e)
                al = max(al, a)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(e)
            t._offs = offs; t._align = al
            t._size = (off + al - 1) // al * al
        else:
            raise IRError('size of %s' % k)

class IRError(Exception): pass

# ---------------------------------------------------------------- tokenizer
TOK = re.compile(r'''
   (?P<ws>\s+|;[^\n]*)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)
 | (?P<comdat>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|0x[0-9A-FKLMHR]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_.][-a-zA-Z0-9_.$]*)
 | (?P<p>[=,(){}\[\]<>*|:])
''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s); m = TOK.match
    while i < n:
        g = m(s, i)
        if not g: raise IRError('tokenize: %r' % s[i:i + 60])
        i = g.end()
        k = g.lastgroup
        if k != 'ws': out.append((k, g.group()))
    return out

# ---------------------------------------------------------------- values
# constants:  ('int', ty, v) ('null',) ('undef', ty) ('zero', ty) ('glob', name)
#             ('agg', ty, [vals]) ('bytes', b) ('ce', op, ...)   registers: ('reg', name)
PARAM_ATTRS = set('''noundef nonnull zeroext signext inreg noalias nocapture returned readonly writeonly readnone
 immarg nest swiftself swifterror nofree noreturn nounwind willreturn allocptr dead_on_unwind writable nosync mustprogress'''.split())
PAREN_ATTRS = set('dereferenceable dereferenceable_or_null byval sret byref preallocated inalloca elementtype align alignstack range initializes captures nofpclass memory allocsize vscale_range'.split())

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'line', 'rng')
    def __init__(self, op, res=None, ty=None, a=None, flags=()):
        self.op, self.res, self.ty, self.a, self.flags = op, res, ty, a, flags
        self.line = None; self.rng = None

class Func:
    __slots__ = ('name', 'ret', 'params', 'pattrs', 'blocks', 'order', 'decl', 'body', 'vararg', 'ipd', 'dbg')

class P:
    """Cursor parser over a token list."""
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0
    def peek(self): return self.t[self.i][1] if self.i < len(self.t) else None
    def kind(self): return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def acc(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1; return True
        return False
    def exp(self, s):
        if not self.acc(s): raise IRError('expected %r got %r in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t[:60])))
    def skip_parens(self):
        self.exp('('); d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1
    # ---- types
    def type(self):
        k = self.kind(); v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): t = I(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.acc('addrspace'): self.skip_parens()
            elif v == 'void': t = VOID
            elif v in FLOATS: t = Ty('float', FLOATS[v])
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'opaque': t = Ty('struct', el=None)
            else: raise IRError('type %r' % v)
        elif k == 'loc':
            t = self.m.named(v)
        elif v == '[':
            n = int(self.next()); self.exp('x'); e = self.type(); self.exp(']'); t = Ty('arr', el=e, n=n)
        elif v == '{':
            t = self._struct('}', False)
        elif v == '<':
            if self.acc('{'):
                t = self._struct('}', True); self.exp('>')
            else:
                n = int(self.next()); self.exp('x'); e = self.type(); self.exp('>'); t = Ty('vec', el=e, n=n)
        else: raise IRError('type token %r' % v)
        while True:
            if self.peek() == '(':      # function type
                j = self.i; self.exp('('); args = []
                va = False
                while not self.acc(')'):
                    if self.acc('...'): va = True
                    else: args.append(self.type())
                    self.acc(',')
                t = Ty('fn', el=[t] + args, n=1 if va else 0)
            else: break
        return t
    def _struct(self, close, packed):
        els = []
        if not self.acc(close):
            while True:
                els.append(self.type())
                if self.acc(close): break
                self.exp(',')
        return Ty('struct', el=els, packed=packed)
    # ---- values
    def value(self, ty):
        k = self.kind(); v = self.next()
        if k == 'loc': return ('reg', v)
        if k == 'glob': return ('glob', v)
        if k == 'num':
            if ty.k == 'float': return ('fp', ty, v)
            return ('int', ty, int(v) & ((1 << ty.w) - 1))
        if k == 'cstr': return ('bytes', unescape(v[2:-1]))
        if v == 'true': return ('int', ty, 1)
        if v == 'false': return ('int', ty, 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef', ty)
        if v == 'zeroinitializer': return ('zero', ty)
        if v == 'none': return ('null',)
        if v in ('[', '{', '<'):
            packed = False
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.acc('{'): close = '}'; packed = True
            els = []
            if not self.acc(close):
                while True:
                    t = self.type(); els.append((t, self.value(t)))
                    if self.acc(close): break
                    self.exp(',')
            if packed: self.exp('>')
            return ('agg', ty, els)
        if v == 'getelementptr':
            inb = False
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                inb = inb or self.peek() == 'inbounds'; self.next()
            if self.acc('inrange'): self.skip_parens()
            self.exp('('); t = self.type(); self.exp(',')
            pt = self.type(); base = self.value(pt); idx = []
            while self.acc(','):
                self.acc('inrange')
                it = self.type(); idx.append((it, self.value(it)))
            self.exp(')')
            return ('ce', 'gep', t, base, idx)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast', 'zext', 'sext'):
            self.exp('('); t = self.type(); x = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
            return ('ce', v, t, x, t2)
        if v in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor', 'lshr', 'ashr'):
            while self.peek() in ('nuw', 'nsw', 'exact'): self.next()
            self.exp('('); t = self.type(); a = self.value(t); self.exp(','); t2 = self.type(); b = self.value(t2); self.exp(')')
            return ('ce', v, t, a, b)
        if v in ('icmp',):
            pred = self.next(); self.exp('('); t = self.type(); a = self.value(t); self.exp(','); t2 = self.type(); b = self.value(t2); self.exp(')')
            return ('ce', 'icmp', pred, t, a, b)
        if v in ('dso_local_equivalent', 'no_cfi'): return self.value(ty)
        raise IRError('value %r' % v)
    def tv(self):
        t = self.type(); return t, self.value(t)
    def param_attrs(self):
        at = {}
        while True:
            p = self.peek()
            if p is None: return at
            if p in ('align',):
                self.next()
                if self.peek() == '(': self.skip_parens()
                else: at['align'] = int(self.next())
            elif p in ('byval', 'sret', 'byref', 'inalloca', 'preallocated', 'elementtype'):
                self.next(); self.exp('('); at[p] = self.type(); self.exp(')')
            elif p in ('dereferenceable', 'dereferenceable_or_null'):
                self.next(); self.exp('('); at[p] = int(self.next()); self.exp(')')
            elif p in PAREN_ATTRS:
                self.next()
                if self.peek() == '(': self.skip_parens()
            elif p in PARAM_ATTRS:
                at[p] = True; self.next()
            elif self.kind() == 'str' and self.i + 1 < len(self.t):
                self.next()
                if self.acc('='): self.next()
            else: return at

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

LINKAGE = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external
 dso_local dso_preemptable hidden protected default dllimport dllexport thread_local local_unnamed_addr unnamed_addr
 externally_initialized fastcc coldcc ccc'''.split())

class Module:
    def __init__(self, text):
        self.types = {}; self.typetext = {}; self.globals = {}; self.funcs = {}; self.aliases = {}
        self.meta = {}; self.layout = Layout('e-i64:64'); self.triple = ''
        # address spaces carry no meaning for the targets used here (AVR program memory): dropped
        self._parse(re.sub(r' addrspace\(\d+\)', '', text) if 'addrspace(' in text else text)
    def named(self, n):
        t = self.types.get(n)
        if t is None:
            t = self.types[n] = Ty('struct', el=None, name=n)
            s = self.typetext.get(n)
            if s is not None and s.strip() != 'opaque':
                b = P(self, tokenize(s)).type()
                t.el, t.packed = b.el, b.packed
        return t
    def _parse(self, text):
        lines = text.split('\n'); i = 0; n = len(lines)
        # first pass: types
        for l in lines:
            if l.startswith('%'):
                k, _, v = l.partition(' = type ')
                self.typetext[k] = v
        while i < n:
            l = lines[i]
            if l.startswith('target datalayout'):
                self.layout = Layout(l.split('"')[1])
            elif l.startswith('target triple'): self.triple = l.split('"')[1]
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                f = self._head(l, False)
                f.body = lines[i + 1:j]
                i = j
            elif l.startswith('declare'):
                self._head(l, True)
            elif l.startswith('!'):
                k, _, v = l.partition(' = ')
                self.meta[k] = v
            i += 1
    def _global(self, l):
        p = P(self, tokenize(l))
        name = p.next(); p.exp('=')
        while p.peek() in LINKAGE:
            x = p.next()
            if x == 'thread_local' and p.peek() == '(': p.skip_parens()
        if p.peek() in ('alias', 'ifunc'):
            p.next(); p.type(); p.exp(','); t, v = p.tv()
            self.aliases[name] = v; return
        ext = False
        if p.acc('addrspace'): p.skip_parens()
        const = p.next() == 'constant'
        t = p.type()
        init = None
        if p.peek() is not None and p.peek() != ',':
            init = p.value(t)
        al = None
        while p.acc(','):
            w = p.next()
            if w == 'align': al = int(p.next())
            elif w == 'comdat':
                if p.peek() == '(': p.skip_parens()
            elif w == 'section': p.next()
            elif w.startswith('!'):
                if p.kind() == 'meta': p.next()
        self.globals[name] = (t, init, const, al)
    def _head(self, l, decl):
        p = P(self, tokenize(l))
        p.next()
        while p.peek() in LINKAGE or (p.kind() == 'meta'): 
            if p.kind() == 'meta': p.next(); p.next(); continue
            p.next()
        p.param_attrs()
        f = Func(); f.decl = decl; f.blocks = None; f.vararg = False; f.ipd = None
        f.ret = p.type() if True else None
        # 'type' may have swallowed a function type if name follows; names are globals so fine
        f.name = p.next(); f.params = []; f.pattrs = []
        p.exp('(')
        while not p.acc(')'):
            if p.acc('...'): f.vararg = True; continue
            t = p.type(); at = p.param_attrs()
            nm = None
            if p.kind() == 'loc': nm = p.next()
            f.params.append((t, nm)); f.pattrs.append(at)
            p.acc(',')
        f.dbg = None
        self.funcs[f.name] = f
        return f
    # ------------------------------------------------ function bodies (lazy)
    def body(self, f):
        if f.blocks is None: self._body(f)
        return f
    def _body(self, f):
        blocks = {}; order = []
        cnt = 0
        # unnamed params take numbers 0.. ; entry label takes the next number
        for k, (t, nm) in enumerate(f.params):
            if nm is None: f.params[k] = (t, '%' + str(k))
        # implicit entry label
        cur = None
        lines = f.body
        j = 0
        while j < len(lines):
            l = lines[j].strip(); j += 1
            if not l or l[0] == ';': continue
            m = re.match(r'^([-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*"):', lines[j - 1])
            if m:
                cur = '%' + m.group(1); blocks[cur] = []; order.append(cur); continue
            if cur is None:
                cur = '%<entry>'; blocks[cur] = []; order.append(cur)
            # multi-line switch
            if l.startswith('switch') and l.rstrip().endswith('['):
                while not lines[j].strip().startswith(']'):
                    l += ' ' + lines[j].strip(); j += 1
                l += ' ' + lines[j].strip(); j += 1
            # an invoke spans two lines
            if 'invoke ' in l and j < len(lines) and lines[j].strip().startswith('to label'):
                l += ' ' + lines[j].strip(); j += 1
            ins = self._instr(l)
            if ins is not None: blocks[cur].append(ins)
        f.blocks, f.order = blocks, order
        # entry may be referenced by number in phis
        nparams = len(f.params)
        if order[0] == '%<entry>':
            real = '%' + str(nparams)
            blocks[real] = blocks.pop('%<entry>'); order[0] = real
        self._ipdom(f)
    def _ipdom(self, f):
        succ = {}
        EXIT = None
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == 'br': succ[b] = [x for x in t.a[1:] if x is not None] if t.a[0] is not None else [t.a[1]]
            elif t.op == 'switch': succ[b] = [t.a[2]] + [x[1] for x in t.a[3]]
            elif t.op == 'invoke': succ[b] = [t.a[-2]]
            elif t.op == 'unreachable': succ[b] = []      # does not constrain post-dominance
            else: succ[b] = [EXIT]
        # iterative postdom sets on small graphs
        allb = set(f.order) | {EXIT}
        pd = {b: None for b in f.order}; pd[EXIT] = {EXIT}
        changed = True
        rev = list(reversed(f.order))
        while changed:
            changed = False
            for b in rev:
                ss = [pd[s] for s in succ[b] if pd[s] is not None]
                if not ss:
                    continue
                new = set.intersection(*ss) | {b}
                if new != pd[b]: pd[b] = new; changed = True
        ip = {}
        for b in f.order:
            if pd[b] is None: ip[b] = EXIT; continue
            c = pd[b] - {b}
            # immediate postdominator: the one whose own postdom set is largest
            best = EXIT; bl = 0
            for x in c:
                if x is EXIT: continue
                if len(pd[x]) > bl: best, bl = x, len(pd[x])
            ip[b] = best
        f.ipd = ip
    def _dbg(self, toks):
        return None
    BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
    CAST = set('trunc zext sext ptrtoint inttoptr bitcast addrspacecast freeze fptosi fptoui sitofp uitofp fpext fptrunc'.split())
    def _instr(self, l):
        # split off metadata suffix
        meta = {}
        k = l.find(', !')
        if k >= 0:
            for mm in re.finditer(r', !([a-zA-Z_.]+) (![0-9]+|!\{\})', l[k:]): meta[mm.group(1)] = mm.group(2)
            l = l[:k]
        p = P(self, tokenize(l))
        res = None
        if p.kind() == 'loc':
            res = p.next(); p.exp('=')
        op = p.next()
        ins = None
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op == 'load':
            p.acc('volatile'); p.acc('atomic')
            t = p.type(); p.exp(','); pt, a = p.tv()
            al = 1
            while p.acc(','):
                if p.acc('align'): al = int(p.next())
            ins = Instr('load', res, t, (a, al))
            if 'range' in meta: ins.rng = self._range(meta['range'])
        elif op == 'store':
            p.acc('volatile'); p.acc('atomic')
            t, v = p.tv(); p.exp(','); pt, a = p.tv(); al = 1
            while p.acc(','):
                if p.acc('align'): al = int(p.next())
            ins = Instr('store', None, t, (v, a, al))
        elif op == 'alloca':
            p.acc('inalloca')
            t = p.type(); cnt = None; al = None
            while p.acc(','):
                if p.acc('align'): al = int(p.next())
                elif p.acc('addrspace'): p.skip_parens()
                else: cnt = p.tv()
            ins = Instr('alloca', res, t, (cnt, al))
        elif op == 'getelementptr':
            inb = False
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                inb = inb or p.peek() == 'inbounds'; p.next()
            t = p.type(); p.exp(','); pt, base = p.tv(); idx = []
            while p.acc(','): idx.append(p.tv())
            ins = Instr('gep', res, t, (base, idx, inb))
        elif op in self.BIN:
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): fl.append(p.next())
            t, a = p.tv(); p.exp(','); b = p.value(t)
            ins = Instr(op, res, t, (a, b), tuple(fl))
        elif op in self.CAST:
            fl = []
            while p.peek() in ('nneg', 'nuw', 'nsw'): fl.append(p.next())
            t, a = p.tv()
            t2 = t
            if p.acc('to'): t2 = p.type()
            ins = Instr(op, res, t2, (a, t), tuple(fl))
        elif op == 'icmp':
            p.acc('samesign')
            pred = p.next(); t, a = p.tv(); p.exp(','); b = p.value(t)
            ins = Instr('icmp', res, t, (pred, a, b))
        elif op == 'select':
            tc, c = p.tv(); p.exp(','); t, a = p.tv(); p.exp(','); t2, b = p.tv()
            ins = Instr('select', res, t, (c, a, b))
        elif op == 'phi':
            t = p.type(); inc = []
            while True:
                p.exp('['); v = p.value(t); p.exp(','); b = p.next(); p.exp(']'); inc.append((v, b))
                if not p.acc(','): break
            ins = Instr('phi', res, t, dict((b, v) for v, b in inc))
        elif op == 'br':
            if p.acc('label'): ins = Instr('br', None, None, (None, p.next(), None))
            else:
                t, c = p.tv(); p.exp(','); p.exp('label'); a = p.next(); p.exp(','); p.exp('label'); b = p.next()
                ins = Instr('br', None, None, (c, a, b))
        elif op == 'switch':
            t, v = p.tv(); p.exp(','); p.exp('label'); d = p.next(); p.exp('['); cs = []
            while not p.acc(']'):
                ct, cv = p.tv(); p.exp(','); p.exp('label'); cs.append((cv[2], p.next()))
            ins = Instr('switch', None, t, (v, t, d, cs))
        elif op == 'ret':
            t = p.type()
            ins = Instr('ret', None, t, (None if t is VOID else p.value(t),))
        elif op == 'unreachable': ins = Instr('unreachable')
        elif op in ('call', 'invoke'):
            while p.peek() in LINKAGE or p.peek() in ('fast', 'nnan', 'ninf', 'nsz'): p.next()
            p.param_attrs()
            t = p.type()
            if t.k == 'fn': t = t.el[0]
            callee = p.value(PTR) if p.peek() != 'asm' else None
            if callee is None: raise IRError('inline asm')
            p.exp('('); args = []
            while not p.acc(')'):
                at = p.type(); pa = p.param_attrs()
                if at.k == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        d += (x in '({[') - (x in ')}]')
                    args.append((at, None, pa))
                else: args.append((at, p.value(at), pa))
                p.acc(',')
            if op == 'invoke':
                while not p.acc('to'): p.next()
                p.exp('label'); n1 = p.next(); p.exp('unwind'); p.exp('label'); n2 = p.next()
                ins = Instr('invoke', res, t, (callee, args, n1, n2))
            else:
                ins = Instr('call', res, t, (callee, args))
        elif op == 'extractvalue':
            t, v = p.tv(); ix = []
            while p.acc(','): ix.append(int(p.next()))
            ins = Instr(op, res, t, (v, ix))
        elif op == 'insertvalue':
            t, v = p.tv(); p.exp(','); t2, v2 = p.tv(); ix = []
            while p.acc(','): ix.append(int(p.next()))
            ins = Instr(op, res, t, (v, v2, ix, t2))
        elif op in ('fence', 'landingpad', 'resume'):
            ins = Instr(op)
        else:
            ins = Instr('unsupported', res, None, (l,))
        if 'dbg' in meta: ins.line = meta['dbg']
        return ins
    def _range(self, m):
        s = self.meta.get(m)
        v = [int(x) for x in re.findall(r'i\d+ (-?\d+)', s)]
        return [(v[i], v[i + 1]) for i in range(0, len(v), 2)]
    # ------------------------------------------------ debug locations
    def loc(self, d, depth=0):
        """Human readable location of a !DILocation."""
        s = self.meta.get(d)
        if not s: return '?'
        m = re.search(r'line: (\d+)', s); ln = m.group(1) if m else '?'
        sc = re.search(r'scope: (!\d+)', s)
        fn = self._file(sc.group(1)) if sc else '?'
        return '%s:%s' % (fn, ln)
    def _file(self, sc):
        for _ in range(20):
            s = self.meta.get(sc)
            if not s: return '?'
            m = re.search(r'file: (!\d+)', s)
            if m:
                f = self.meta.get(m.group(1), '')
                g = re.search(r'filename: "([^"]*)"', f)
                return g.group(1) if g else '?'
            m = re.search(r'scope: (!\d+)', s)
            if not m: return '?'
            sc = m.group(1)
        return '?'
