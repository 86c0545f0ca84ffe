"""Deductive VC generation over LLVM IR: weakest-precondition style symbolic execution with
path merging at post-dominators.  Every possible undefined behaviour, every library-contract
precondition and every `vp_assert` becomes a proof obligation discharged by z3.

Nothing is bounded: a loop is executed until its exit condition is *proved*; if that never
happens within LOOP_LIMIT visits of one block the obligation `loop-terminates` fails."""
import sys, time, z3
from ir import Module, IRError, PTR, VOID, I, Ty

sys.setrecursionlimit(200000)

class Unsupported(Exception): pass
class Fork(Exception):
    def __init__(self, reg, ptr, vals, und=None): self.reg, self.ptr, self.vals = reg, ptr, vals
class Dead(Exception): pass
class Budget(Exception): pass
class Enough(Exception): pass

NULL = ('P', 0, 0)
def isptr(v): return type(v) is tuple and v[0] in ('P', 'F')

# ---------------------------------------------------------------- expressions
def mask(w): return (1 << w) - 1
def sx(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v
def bv(x, w):
    if type(x) is int: return z3.BitVecVal(x, w)
    return x
def tobool(x):
    if type(x) is int: return z3.BoolVal(bool(x))
    return x
def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e
def vnot(b):
    if type(b) is int: return 1 - b
    return z3.Not(b)
def ite(c, a, b, w):
    """c python int or z3 Bool; a,b values of width w (w==1 -> bool)."""
    if type(c) is int: return a if c else b
    if type(a) is int and type(b) is int and a == b: return a
    if w == 1:
        if type(a) is int and type(b) is int: return c if a else z3.Not(c)
        return z3.If(c, tobool(a), tobool(b))
    if not (type(a) is int) and not (type(b) is int) and a.eq(b): return a
    return z3.If(c, bv(a, w), bv(b, w))

class Obj:
    __slots__ = ('size', 'cells', 'align', 'kind', 'name', 'own')
    def __init__(s, size, cells, align, kind, name, own):
        s.size, s.cells, s.align, s.kind, s.name, s.own = size, cells, align, kind, name, own

class State:
    __slots__ = ('mem', 'pc', 'tok', 'nd', 'tags', 'repl', 'frame', 'ghost', 'covers', 'freed', 'trace', 'contracts')
    def __init__(s):
        s.mem = {}; s.pc = []; s.tok = object(); s.nd = []; s.tags = (); s.repl = {}
        s.frame = None; s.ghost = 0; s.covers = frozenset(); s.contracts = 0
    def clone(s):
        n = State.__new__(State)
        n.mem = dict(s.mem); n.pc = list(s.pc); n.nd = list(s.nd); n.tags = s.tags; n.repl = s.repl
        n.frame = s.frame; n.ghost = s.ghost; n.covers = s.covers; n.contracts = s.contracts
        n.tok = object(); s.tok = object()
        return n

class Failure:
    def __init__(s, kind, label, loc, tape, info=''):
        s.kind, s.label, s.loc, s.tape, s.info = kind, label, loc, tape, info
    def d(s): return dict(kind=s.kind, label=s.label, loc=s.loc, tape=s.tape, info=s.info)

class Engine:
    LOOP_LIMIT = 6000
    def __init__(self, mod, modular=True, time_limit=600, dump=None):
        self.m = mod; self.L = mod.layout; self.modular = modular
        self.pb = self.L.ptr_bits; self.PB = self.pb // 8
        self.next_id = 1
        self.gid = {}; self.ginit = {}; self.gname = {}
        self.nsym = 0
        self.stats = dict(obligations=0, trivial=0, solver=0, failed=0, undecided=0, queries=0, qtime=0.0, steps=0, paths=0, merges=0, contracts=0)
        self.kinds = {}
        self.failures = []; self.undecided = []
        self.covers = {}
        self.solver = z3.SolverFor('QF_BV'); self.spc = []
        self.cc = {}
        self.deadline = time.time() + time_limit
        self.seen_fail = set()
        self.enough = lambda fs: False
        self.contract_names = {}
        self.undef_used = False
        self.hascache = {}
        self.dump = dump; self.dumped = []
        self.funcs_seen = set()
    # ---------------------------------------------------------- solver
    def _sync(self, pc):
        s = self.spc; k = 0
        n = min(len(s), len(pc))
        while k < n and s[k] is pc[k]: k += 1
        if len(s) > k:
            self.solver.pop(len(s) - k); del s[k:]
        for c in pc[k:]:
            self.solver.push(); self.solver.add(c); s.append(c)
    def sat(self, pc, *extra):
        if time.time() > self.deadline: raise Budget('time limit')
        self.stats['queries'] += 1
        t = time.time()
        self._sync(pc)
        self.solver.push()
        for e in extra: self.solver.add(e)
        self.solver.set('timeout', 60000)
        r = self.solver.check()
        self.lastmodel = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unknown:
            s2 = z3.Solver(); s2.set('timeout', 120000)
            for c in pc: s2.add(c)
            for e in extra: s2.add(e)
            r = s2.check()
            self.lastmodel = s2.model() if r == z3.sat else None
        self.stats['qtime'] += time.time() - t
        return r
    def feasible(self, pc, c):
        r = self.sat(pc, c)
        return r != z3.unsat
    # ---------------------------------------------------------- obligations
    def oblige(self, st, cond, kind, label, loc):
        """Prove cond in st; record a failure otherwise; continue under cond."""
        S = self.stats
        S['obligations'] += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if type(cond) is int:
            if cond: S['trivial'] += 1; return
            # unconditional failure on this path: is the path reachable?
            r = self.sat(st.pc)
            if r == z3.unsat: S['solver'] += 1; raise Dead()
            self._fail(st, kind, label, loc, r)
            raise Dead()
        r = self.sat(st.pc, z3.Not(cond))
        if r == z3.unsat:
            S['solver'] += 1
            if self.dump is not None: self._dump(st, cond, kind, label)
            return
        self._fail(st, kind, label, loc, r)
        st.pc.append(cond)
        if self.sat(st.pc) == z3.unsat: raise Dead()
    def _dump(self, st, cond, kind, label):
        if len(self.dumped) < self.dump:
            s = z3.Solver()
            for c in st.pc: s.add(c)
            s.add(z3.Not(cond))
            self.dumped.append((kind, label, s.to_smt2()))
    def _fail(self, st, kind, label, loc, r):
        if r == z3.unknown:
            self.stats['undecided'] += 1
            self.undecided.append((kind, label, loc)); return
        self.stats['failed'] += 1
        key = (kind, label, loc)
        if key in self.seen_fail and len(self.failures) > 20: return
        self.seen_fail.add(key)
        self.failures.append(Failure(kind, label, loc, self.tape(st, self.lastmodel)))
        if self.enough(self.failures): raise Enough()
    def tape(self, st, model):
        out = []
        for g, name, syms, ghost in st.nd:
            if ghost: continue
            if g is not None and not z3.is_true(model.eval(g, model_completion=True)): continue
            bs = []
            for s in syms:
                v = model.eval(s, model_completion=True).as_long() if not type(s) is int else s
                bs.append(v)
            out.append([name, bytes(bs).hex()])
        return out
    def fresh(self, w, name):
        self.nsym += 1
        return z3.BitVec('%s!%d' % (name, self.nsym), w)
    # ---------------------------------------------------------- memory
    def new_obj(self, st, size, align, kind, name, cells=None):
        i = self.next_id; self.next_id += 1
        st.mem[i] = Obj(size, cells if cells is not None else [None] * size, align, kind, name, st.tok)
        return ('P', i, 0)
    def wobj(self, st, i):
        o = st.mem[i]
        if o.own is not st.tok:
            o = Obj(o.size, list(o.cells), o.align, o.kind, o.name, st.tok); st.mem[i] = o
        return o
    def global_ptr(self, st, name):
        i = self.gid.get(name)
        if i is None:
            i = self.gid[name] = self.next_id; self.next_id += 1; self.gname[i] = name
        if i not in st.mem: self.materialize(st, i)
        return ('P', i, 0)
    def materialize(self, st, i):
        name = self.gname[i]
        if i not in self.ginit:
            t, init, const, al = self.m.globals[name]
            size = self.L.size(t)
            cells = [0] * size if init is not None else [None] * size
            self.ginit[i] = (size, cells, al or self.L.align(t), 'const' if const else 'global')
            if init is not None: self.init_cells(st, cells, 0, t, init)
        size, cells, al, kind = self.ginit[i]
        st.mem[i] = Obj(size, cells, al, kind, name, None)
    def init_cells(self, st, cells, off, t, v):
        k = v[0]
        if k == 'zero' or k == 'null':
            for j in range(self.L.size(t)): cells[off + j] = 0
            if k == 'null' or t.k == 'ptr': pass
        elif k == 'undef': 
            for j in range(self.L.size(t)): cells[off + j] = 0
        elif k == 'bytes':
            for j, b in enumerate(v[1]): cells[off + j] = b
        elif k == 'agg':
            if t.k == 'struct':
                for (et, ev), o in zip(v[2], self.L.offs(t)): self.init_cells(st, cells, off + o, et, ev)
            else:
                es = self.L.size(t.el)
                for j, (et, ev) in enumerate(v[2]): self.init_cells(st, cells, off + j * es, et, ev)
        else:
            x = self.const(st, v)
            n = self.L.size(t) if t.k != 'i' else (t.w + 7) // 8
            for j, c in enumerate(self.split(x, n)): cells[off + j] = c
    def split(self, x, n):
        """cells (in address order) of value x occupying n bytes."""
        big = self.L.big
        if type(x) is int:
            r = [(x >> (8 * k)) & 255 for k in range(n)]
        elif isptr(x):
            if x == NULL: return [0] * n
            return [('p', x, k, n) for k in range(n)]     # never byte-reversed: fragment order = address order
        elif type(x) is tuple and x[0] == 'PI':
            return [('p', x[1], k, n) for k in range(n)]
        elif z3.is_bool(x):
            e = z3.If(x, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n)); r = [('x', e, k, n) for k in range(n)]
        else:
            w = x.size()
            if w < 8 * n: x = z3.ZeroExt(8 * n - w, x)
            r = [('x', x, k, n) for k in range(n)]
        if big: r.reverse()
        return r
    def cell_bv(self, c):
        if type(c) is int: return z3.BitVecVal(c, 8)
        if c[0] == 'x':
            if c[3] == 1: return c[1]
            return z3.Extract(8 * c[2] + 7, 8 * c[2], c[1])
        raise Unsupported('pointer byte used as number')
    def join(self, cells, want_ptr=False):
        """cells in address order -> value of 8*len bits (int, BV, or pointer)."""
        c0 = cells[0]
        n = len(cells)
        if type(c0) is tuple and c0[0] == 'p':
            p = c0[1]
            if c0[3] == n and all(type(c) is tuple and c[0] == 'p' and c[1] == p and c[2] == k for k, c in enumerate(cells)):
                return p if want_ptr else ('PI', p)
            raise Unsupported('partial pointer read')
        if self.L.big: cells = cells[::-1]; c0 = cells[0]
        if all(type(c) is int for c in cells):
            v = 0
            for k, c in enumerate(cells): v |= c << (8 * k)
            if want_ptr:
                if v == 0: return NULL
                return ('P', -1, v)
            return v
        if type(c0) is tuple and c0[0] == 'x':
            e, k0 = c0[1], c0[2]
            if all(type(c) is tuple and c[0] == 'x' and c[2] == k0 + k and (c[1] is e or c[1].eq(e)) for k, c in enumerate(cells)):
                if k0 == 0 and c0[3] == n: r = e
                else: r = z3.Extract(8 * (k0 + n) - 1, 8 * k0, e)
                if want_ptr: raise Unsupported('symbolic integer used as pointer')
                return r
        if want_ptr: raise Unsupported('symbolic integer used as pointer')
        if n == 1: return self.cell_bv(c0)
        # group
        parts = []; k = 0
        while k < n:
            c = cells[k]; j = k + 1
            if type(c) is int:
                v = c
                while j < n and type(cells[j]) is int: v |= cells[j] << (8 * (j - k)); j += 1
                parts.append(z3.BitVecVal(v, 8 * (j - k)))
            else:
                if c[0] != 'x': raise Unsupported('pointer byte used as number')
                while j < n and type(cells[j]) is tuple and cells[j][0] == 'x' and cells[j][2] == c[2] + (j - k) and (cells[j][1] is c[1] or cells[j][1].eq(c[1])): j += 1
                parts.append(z3.Extract(8 * (c[2] + j - k) - 1, 8 * c[2], c[1]) if c[1].size() != 8 * (j - k) else c[1])
            k = j
        parts.reverse()
        return z3.Concat(*parts) if len(parts) > 1 else parts[0]
    def deref(self, st, p, n, what, loc, al=1, reg=None, write=False):
        """bounds/liveness obligations; returns (objid, concrete or symbolic offset)."""
        if p[0] == 'F': self.oblige(st, 0, 'memory', '%s through a function pointer' % what, loc)
        i, off = p[1], p[2]
        if i == 0: self.oblige(st, 0, 'memory', '%s through a null pointer' % what, loc)
        o = st.mem.get(i)
        if o is None:
            if i in self.gname: self.materialize(st, i); o = st.mem[i]
            else: self.oblige(st, 0, 'memory', '%s outside the lifetime of the object' % what, loc)
        if o.kind == 'dead': self.oblige(st, 0, 'memory', '%s of an object after the end of its lifetime' % what, loc)
        if write and o.kind == 'const': self.oblige(st, 0, 'memory', 'write to constant object %s' % o.name, loc)
        if type(off) is int:
            o2 = sx(off, self.pb)
            ok = 0 <= o2 and o2 + n <= o.size
            if not ok: self.oblige(st, 0, 'memory', '%s out of bounds (offset %d, %d bytes, object of %d bytes)' % (what, o2, n, o.size), loc)
            else:
                self.stats['obligations'] += 1; self.stats['trivial'] += 1; self.kinds['memory'] = self.kinds.get('memory', 0) + 1
            if al > 1 and (off % al or (o.align % al)): self.oblige(st, 0, 'memory', 'misaligned %s' % what, loc)
        else:
            if n > o.size: self.oblige(st, 0, 'memory', '%s out of bounds' % what, loc)
            self.oblige(st, z3.ULE(off, o.size - n), 'memory', '%s out of bounds (object of %d bytes)' % (what, o.size), loc)
        return i, off
    def values_of(self, st, e, limit=600):
        """All feasible values of a symbolic bit-vector in st (complete enumeration)."""
        vals = []; ex = []
        while True:
            r = self.sat(st.pc, *ex)
            if r == z3.unsat: return vals
            if r == z3.unknown: raise Unsupported('enumeration')
            v = self.lastmodel.eval(e, model_completion=True).as_long()
            vals.append(v); ex.append(e != v)
            if len(vals) > limit: raise Unsupported('more than %d feasible addresses' % limit)
    def rd(self, st, o, i, off, n):
        cells = o.cells[off:off + n]
        if None in cells:
            o = self.wobj(st, i)
            for k in range(off, off + n):
                if o.cells[k] is None:
                    o.cells[k] = ('x', self.fresh(8, 'undef'), 0, 1); self.undef_used = True
            cells = o.cells[off:off + n]
        return cells
    def load(self, st, p, t, loc, al, reg):
        w = t.w if t.k == 'i' else self.pb if t.k == 'ptr' else None
        if w is None:
            if t.k in ('struct', 'arr'):
                out = []
                if t.k == 'struct':
                    for e, o in zip(t.el, self.L.offs(t)): out.append(self.load(st, self.padd(p, o), e, loc, 1, reg))
                else:
                    es = self.L.size(t.el)
                    for k in range(t.n): out.append(self.load(st, self.padd(p, k * es), t.el, loc, 1, reg))
                return out
            raise Unsupported('load of %r' % t)
        n = (w + 7) // 8
        i, off = self.deref(st, p, n, 'read', loc, al)
        o = st.mem[i]
        if type(off) is not int:
            vals = sorted(self.values_of(st, off))
            if len(vals) == 1: off = vals[0]
            else:
                numeric = all(type(c) is int or (type(c) is tuple and c[0] == 'x') for v in vals for c in o.cells[v:v + n])
                if not numeric or t.k == 'ptr':
                    raise Fork(reg, p, vals)
                r = None
                for v in vals:
                    x = self.join(o.cells[v:v + n])
                    r = x if r is None else ite(off == v, x, r, 8 * n)
                return self.narrow(r, w, 8 * n)
        r = self.join(self.rd(st, o, i, off, n), t.k == 'ptr')
        if t.k == 'ptr': return r
        return self.narrow(r, w, 8 * n)
    def narrow(self, r, w, full):
        if w == full: return r
        if type(r) is int: return r & mask(w)
        if w == 1: return simp(z3.Extract(0, 0, r) == 1)
        return z3.Extract(w - 1, 0, r)
    def padd(self, p, k):
        if p[0] != 'P': raise Unsupported('arithmetic on function pointer')
        off = p[2]
        if type(off) is int and type(k) is int: return ('P', p[1], (off + k) & mask(self.pb))
        return ('P', p[1], simp(bv(off, self.pb) + bv(k, self.pb)))
    def store(self, st, p, t, x, loc, al, reg):
        if type(x) is list:
            if t.k == 'struct':
                for e, o, v in zip(t.el, self.L.offs(t), x): self.store(st, self.padd(p, o), e, v, loc, 1, reg)
            else:
                es = self.L.size(t.el)
                for k, v in enumerate(x): self.store(st, self.padd(p, k * es), t.el, v, loc, 1, reg)
            return
        n = (t.w + 7) // 8 if t.k == 'i' else self.PB
        if t.k not in ('i', 'ptr'): raise Unsupported('store of %r' % t)
        i, off = self.deref(st, p, n, 'write', loc, al, write=True)
        cells = self.split(x, n)
        if type(off) is not int:
            vals = sorted(self.values_of(st, off))
            if len(vals) == 1: off = vals[0]
            else:
                o = st.mem[i]
                numeric = all(type(c) is int or c is None or (type(c) is tuple and c[0] == 'x') for v in vals for c in o.cells[v:v + n]) and \
                    all(type(c) is int or c[0] == 'x' for c in cells)
                if not numeric: raise Fork(reg, p, vals)
                o = self.wobj(st, i)
                for v in vals:
                    old = self.rd(st, o, i, v, n)
                    e = ite(off == v, self.join(cells), self.join(old), 8 * n)
                    o.cells[v:v + n] = self.split(e, n)
                return
        self.wobj(st, i).cells[off:off + n] = cells
    # ---------------------------------------------------------- constants
    def const(self, st, v):
        k = v[0]
        if k == 'int': return v[2]
        if k == 'null': return NULL
        if k == 'glob':
            n = v[1]
            if n in self.m.aliases: return self.const(st, self.m.aliases[n])
            if n in self.m.funcs: return ('F', n)
            if n not in self.m.globals: raise Unsupported('unknown symbol ' + n)
            return self.global_ptr(st, n)
        if k == 'undef': return self.undef(v[1])
        if k == 'zero': return self.zero(v[1])
        if k == 'agg': return [self.const(st, x) for _, x in v[2]]
        if k == 'bytes': return list(v[1])
        if k == 'ce':
            op = v[1]
            if op == 'gep': return self.gep(st, v[2], self.const(st, v[3]), [(t, self.const(st, x)) for t, x in v[4]], False, '?')
            if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.cast(st, op, self.const(st, v[3]), v[2], v[4])
            if op == 'icmp': return self.icmp(st, v[2], v[3], self.const(st, v[4]), self.const(st, v[5]), '?')
            return self.binop(st, op, v[2], self.const(st, v[3]), self.const(st, v[4]), (), '?')
        raise Unsupported('constant %r' % (v,))
    def undef(self, t):
        if t.k == 'i':
            self.undef_used = True
            if t.w == 1: return self.fresh(1, 'undef') == 1
            return self.fresh(t.w, 'undef')
        if t.k == 'ptr': return ('P', -2, 0)
        if t.k == 'struct': return [self.undef(e) for e in t.el]
        if t.k == 'arr': return [self.undef(t.el) for _ in range(t.n)]
        raise Unsupported('undef %r' % t)
    def zero(self, t):
        if t.k == 'i': return 0
        if t.k == 'ptr': return NULL
        if t.k == 'struct': return [self.zero(e) for e in t.el]
        if t.k == 'arr': return [self.zero(t.el) for _ in range(t.n)]
        raise Unsupported('zero %r' % t)
    # ---------------------------------------------------------- operators
    def gep(self, st, t, base, idx, inb, loc):
        if base[0] == 'F': 
            if all(type(v) is int and v == 0 for _, v in idx): return base
            raise Unsupported('gep on function')
        off = 0; cur = t; first = True
        for it, v in idx:
            if type(v) is tuple: raise Unsupported('pointer index')
            if first:
                es = self.L.size(cur); first = False
            elif cur.k == 'struct':
                off = self.addo(off, self.L.offs(cur)[v], st); cur = cur.el[v]; continue
            else:
                cur = cur.el; es = self.L.size(cur)
            if type(v) is int: off = self.addo(off, sx(v, it.w) * es, st)
            else:
                vv = v
                if it.w < self.pb: vv = z3.SignExt(self.pb - it.w, v)
                elif it.w > self.pb: vv = z3.Extract(self.pb - 1, 0, v)
                off = self.addo(off, vv * es if es != 1 else vv, st)
        if type(off) is int and off == 0: return base
        r = self.padd(base, off & mask(self.pb) if type(off) is int else off)
        if inb and base[1] > 0:
            o = st.mem.get(base[1])
            if o is None and base[1] in self.gname: self.materialize(st, base[1]); o = st.mem[base[1]]
            if o is not None:
                ro = r[2]
                if type(ro) is int:
                    if not 0 <= ro <= o.size: self.oblige(st, 0, 'memory', 'pointer arithmetic leaves the object (offset %d of %d bytes)' % (sx(ro, self.pb), o.size), loc)
                else: self.oblige(st, z3.ULE(ro, o.size), 'memory', 'pointer arithmetic leaves the object', loc)
        elif inb and base[1] == 0:
            self.oblige(st, 0 if type(off) is int else off == 0, 'memory', 'arithmetic on a null pointer', loc)
        return r
    def addo(self, a, b, st):
        if type(a) is int and type(b) is int: return a + b
        return bv(a & mask(self.pb) if type(a) is int else a, self.pb) + bv(b & mask(self.pb) if type(b) is int else b, self.pb)
    def binop(self, st, op, t, a, b, fl, loc):
        if t.k != 'i': raise Unsupported('%s on %r' % (op, t))
        w = t.w
        if type(a) is tuple or type(b) is tuple: return self.pi_op(st, op, w, a, b)
        if w == 1 and (z3.is_bool(a) if type(a) is not int else True) and (z3.is_bool(b) if type(b) is not int else True):
            if type(a) is int and type(b) is int: pass
            else:
                if op == 'xor':
                    if type(b) is int: return z3.Not(a) if b else a
                    if type(a) is int: return z3.Not(b) if a else b
                    return z3.Xor(a, b)
                if op == 'and': return z3.And(tobool(a), tobool(b))
                if op == 'or': return z3.Or(tobool(a), tobool(b))
                raise Unsupported('i1 ' + op)
        ca, cb = type(a) is int, type(b) is int
        if ca and cb:
            M = mask(w)
            if op == 'add':
                r = a + b
                if fl and (('nsw' in fl and not -(1 << w - 1) <= sx(a, w) + sx(b, w) < 1 << w - 1) or ('nuw' in fl and r > M)):
                    self.oblige(st, 0, 'overflow', 'integer overflow in addition', loc)
                return r & M
            if op == 'sub':
                if fl and (('nsw' in fl and not -(1 << w - 1) <= sx(a, w) - sx(b, w) < 1 << w - 1) or ('nuw' in fl and b > a)):
                    self.oblige(st, 0, 'overflow', 'integer overflow in subtraction', loc)
                return (a - b) & M
            if op == 'mul':
                if fl and (('nsw' in fl and not -(1 << w - 1) <= sx(a, w) * sx(b, w) < 1 << w - 1) or ('nuw' in fl and a * b > M)):
                    self.oblige(st, 0, 'overflow', 'integer overflow in multiplication', loc)
                return a * b & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w: self.oblige(st, 0, 'shift', 'shift by %d of a %d-bit value' % (b, w), loc)
                if op == 'shl':
                    if 'nsw' in fl and sx((a << b) & M, w) >> b != sx(a, w): self.oblige(st, 0, 'overflow', 'overflow in left shift', loc)
                    return a << b & M
                if op == 'lshr': return a >> b
                return (sx(a, w) >> b) & M
            if b == 0: self.oblige(st, 0, 'overflow', 'division by zero', loc)
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            sa, sb = sx(a, w), sx(b, w)
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            if op == 'sdiv':
                if q >= 1 << w - 1: self.oblige(st, 0, 'overflow', 'division overflow', loc)
                return q & M
            return (sa - q * sb) & M
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            if 'nsw' in fl: self.oblige(st, z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B)), 'overflow', 'integer overflow in addition', loc)
            if 'nuw' in fl: self.oblige(st, z3.BVAddNoOverflow(A, B, False), 'overflow', 'integer overflow in addition', loc)
            if cb and b == 0: return a
            return A + B
        if op == 'sub':
            if 'nsw' in fl: self.oblige(st, z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True)), 'overflow', 'integer overflow in subtraction', loc)
            if 'nuw' in fl: self.oblige(st, z3.ULE(B, A), 'overflow', 'integer overflow in subtraction', loc)
            return A - B
        if op == 'mul':
            if 'nsw' in fl: self.oblige(st, z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B)), 'overflow', 'integer overflow in multiplication', loc)
            if 'nuw' in fl: self.oblige(st, z3.BVMulNoOverflow(A, B, False), 'overflow', 'integer overflow in multiplication', loc)
            return A * B
        if op == 'and':
            if cb and b == 0 or ca and a == 0: return 0
            return A & B
        if op == 'or':
            if cb and b == 0: return a
            if ca and a == 0: return b
            return A | B
        if op == 'xor': return A ^ B
        if op in ('shl', 'lshr', 'ashr'):
            if not cb: self.oblige(st, z3.ULT(B, w), 'shift', 'shift amount not smaller than the width', loc)
            elif b >= w: self.oblige(st, 0, 'shift', 'shift by %d of a %d-bit value' % (b, w), loc)
            if cb and b == 0: return a
            if op == 'shl':
                r = A << B
                if 'nsw' in fl: self.oblige(st, (r >> B) == A, 'overflow', 'overflow in left shift', loc)
                if 'nuw' in fl: self.oblige(st, z3.LShR(r, B) == A, 'overflow', 'overflow in left shift', loc)
                return r
            if op == 'lshr': return z3.LShR(A, B)
            return A >> B
        self.oblige(st, B != 0 if not cb else int(b != 0), 'overflow', 'division by zero', loc)
        if op == 'udiv': return z3.UDiv(A, B)
        if op == 'urem': return z3.URem(A, B)
        self.oblige(st, z3.Not(z3.And(A == 1 << (w - 1), B == mask(w))), 'overflow', 'division overflow', loc)
        if op == 'sdiv': return A / B
        return z3.SRem(A, B)
    def pi_op(self, st, op, w, a, b):
        pa, pb_ = type(a) is tuple, type(b) is tuple
        if op == 'and' and pa and type(b) is int:
            p = a[1]
            if p[0] == 'F' and b in (1, 3): return 0
            if p[0] == 'P' and p[1] in st.mem and type(p[2]) is int and b < st.mem[p[1]].align: return p[2] & b
        if op == 'sub' and pa and pb_:
            p, q = a[1], b[1]
            if p[0] == 'P' and q[0] == 'P' and p[1] == q[1]:
                if type(p[2]) is int and type(q[2]) is int: return (p[2] - q[2]) & mask(w)
                return simp(bv(p[2], w) - bv(q[2], w))
            raise Unsupported('difference of unrelated pointers')
        if op == 'add' and pa and type(b) is not tuple: return ('PI', self.padd(a[1], b))
        if op == 'sub' and pa and type(b) is int: return ('PI', self.padd(a[1], -b & mask(w)))
        raise Unsupported('integer operation on pointer: ' + op)
    def icmp(self, st, pred, t, a, b, loc):
        if t.k == 'ptr' or type(a) is tuple or type(b) is tuple:
            if type(a) is tuple and a[0] == 'PI': a = a[1]
            if type(b) is tuple and b[0] == 'PI': b = b[1]
            if type(a) is int and a == 0: a = NULL
            if type(b) is int and b == 0: b = NULL
            if not (isptr(a) and isptr(b)): raise Unsupported('comparison of pointer with integer')
            if a[0] == 'F' or b[0] == 'F' or a[1] != b[1]:
                if pred == 'eq': return int(a == b)
                if pred == 'ne': return int(a != b)
                if (a == NULL) != (b == NULL) and a[0] != 'F' and b[0] != 'F':
                    an = a == NULL
                    return int({'ult': an, 'ule': an, 'ugt': not an, 'uge': not an}[pred])
                self.oblige(st, 0, 'memory', 'ordering of pointers into different objects', loc)
            return self.icmp(st, pred, I(self.pb), a[2], b[2], loc)
        w = t.w
        if type(a) is int and type(b) is int:
            if pred == 'eq': return int(a == b)
            if pred == 'ne': return int(a != b)
            if pred[0] == 's': a, b = sx(a, w), sx(b, w)
            p = pred[1:]
            return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
        if w == 1:
            A, B = tobool(a), tobool(b)
            if pred == 'eq': return simp(A == B)
            if pred == 'ne': return simp(A != B)
            A, B = z3.If(A, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), z3.If(B, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        else: A, B = bv(a, w), bv(b, w)
        if pred == 'eq': r = A == B
        elif pred == 'ne': r = A != B
        elif pred == 'ult': r = z3.ULT(A, B)
        elif pred == 'ule': r = z3.ULE(A, B)
        elif pred == 'ugt': r = z3.UGT(A, B)
        elif pred == 'uge': r = z3.UGE(A, B)
        elif pred == 'slt': r = A < B
        elif pred == 'sle': r = A <= B
        elif pred == 'sgt': r = A > B
        else: r = A >= B
        return simp(r)
    def cast(self, st, op, x, t, t2):
        if op == 'freeze' or op == 'bitcast' or op == 'addrspacecast': return x
        if op == 'ptrtoint':
            if x == NULL: return 0
            if x[0] == 'P' and x[1] == -1: return x[2]
            if t2.w != self.pb: raise Unsupported('ptrtoint width')
            return ('PI', x)
        if op == 'inttoptr':
            if type(x) is int: return NULL if x == 0 else ('P', -1, x)
            if type(x) is tuple: return x[1]
            raise Unsupported('inttoptr of symbolic value')
        if type(x) is tuple:
            if t.w == t2.w: return x
            raise Unsupported('cast of pointer value')
        w, w2 = t.w, t2.w
        if type(x) is int:
            if op == 'trunc': return x & mask(w2)
            if op == 'zext': return x
            return sx(x, w) & mask(w2)
        if w == 1:
            return z3.If(x, z3.BitVecVal(1 if op == 'zext' else mask(w2), w2), z3.BitVecVal(0, w2))
        if op == 'trunc':
            if w2 == 1: return simp(z3.Extract(0, 0, x) == 1)
            return self.trunc(x, w2)
        if op == 'zext': return z3.ZeroExt(w2 - w, x)
        if op == 'sext': return z3.SignExt(w2 - w, x)
        raise Unsupported(op)
    def trunc(self, x, w2):
        d = x.decl().kind()
        if d in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            y = x.arg(0)
            if y.size() == w2: return y
            if y.size() > w2: return z3.Extract(w2 - 1, 0, y)
        return z3.Extract(w2 - 1, 0, x)
    # ---------------------------------------------------------- undef tracking
    def has_undef(self, e):
        if not self.undef_used or type(e) is int: return False
        k = e.get_id()
        r = self.hascache.get(k)
        if r is not None and r[0].eq(e): return r[1]
        stack = [e]; seen = set(); res = False
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('undef!'):
                res = True; break
            stack.extend(x.children())
        self.hascache[k] = (e, res)
        return res
    # ---------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b: return a
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            return a if a == b else None        # widths handled by caller
        if ta is tuple or tb is tuple:
            return a if a == b else None
        if ta is list: return None
        return None
    def merge_reg(self, c, a, b):
        """Merge two register values; raises KeyError when impossible."""
        if a is b: return a
        ta, tb = type(a), type(b)
        if ta is list and tb is list: return [self.merge_reg(c, x, y) for x, y in zip(a, b)]
        if ta is tuple or tb is tuple:
            if ta is tb:
                if a[0] == 'P' and b[0] == 'P' and a[1] == b[1]:
                    if type(a[2]) is int and type(b[2]) is int and a[2] == b[2]: return a
                    return ('P', a[1], ite(c, a[2], b[2], self.pb))
                if a[0] == 'PI' and b[0] == 'PI': return ('PI', self.merge_reg(c, a[1], b[1]))
                if a[0] == 'F' and a == b: return a
            raise KeyError
        if ta is int and tb is int:
            if a == b: return a
            return ('INT', a, b)
        e = a if ta is not int else b
        if z3.is_bool(e): return z3.If(c, tobool(a), tobool(b)) if not (ta is not int and tb is not int and a.eq(b)) else a
        if ta is not int and tb is not int and a.eq(b): return a
        w = e.size()
        return z3.If(c, bv(a, w), bv(b, w))
    def typed_merge(self, c, a, b, t):
        if type(a) is int and type(b) is int:
            if a == b: return a
            if t is None or t.k != 'i': raise KeyError
            return ite(c, a, b, t.w)
        r = self.merge_reg(c, a, b)
        if type(r) is tuple and r and r[0] == 'INT': raise KeyError
        if type(r) is list and any(type(x) is tuple and x and x[0] == 'INT' for x in r):
            if t is None or t.k not in ('struct', 'arr'): raise KeyError
            r = [self.typed_merge(c, x, y, (t.el[k] if t.k == 'struct' else t.el)) for k, (x, y) in enumerate(zip(a, b))]
        return r
    def merge(self, A, B):
        """Merge two outcomes (state, regs-or-None, retval, rettype, regtypes). Returns merged or None."""
        sa, ra, va = A[0], A[1], A[2]; sb, rb, vb = B[0], B[1], B[2]
        if sa.tags != sb.tags or sa.repl is not sb.repl or sa.frame is not sb.frame or sa.ghost != sb.ghost: return None
        # selector
        k = 0; n = min(len(sa.pc), len(sb.pc))
        while k < n and sa.pc[k] is sb.pc[k]: k += 1
        pa, pb_ = sa.pc[k:], sb.pc[k:]
        if not pa or not pb_: return None
        ca = pa[0] if len(pa) == 1 else z3.And(*pa)
        cb = pb_[0] if len(pb_) == 1 else z3.And(*pb_)
        t = A[3]
        try:
            rv = None
            if va is not None or vb is not None: rv = self.typed_merge(ca, va, vb, t)
            regs = None
            if ra is not None:
                regs = {}
                types = A[4]
                for r, x in ra.items():
                    if r == '#allocas':
                        regs[r] = list(dict.fromkeys(x + rb.get(r, []))); continue
                    y = rb.get(r, x)      # a register only defined on one arm is dead after the join
                    if x is y: regs[r] = x
                    else:
                        try: regs[r] = self.typed_merge(ca, x, y, types.get(r))
                        except KeyError:
                            if r in A[5]: raise
            mem = self.merge_mem(ca, sa, sb)
            if mem is None: return None
        except KeyError: return None
        s = State.__new__(State)
        s.mem = mem; s.tok = object(); sa.tok = object(); sb.tok = object()
        s.tags, s.repl, s.frame, s.ghost = sa.tags, sa.repl, sa.frame, sa.ghost
        s.covers = sa.covers | sb.covers; s.contracts = max(sa.contracts, sb.contracts)
        comp = (len(pa) == 1 and len(pb_) == 1 and (z3.is_not(pb_[0]) and pb_[0].arg(0).eq(pa[0]) or z3.is_not(pa[0]) and pa[0].arg(0).eq(pb_[0])))
        s.pc = sa.pc[:k] + ([] if comp else [z3.Or(ca, cb)])
        j = 0; n = min(len(sa.nd), len(sb.nd))
        while j < n and sa.nd[j] is sb.nd[j]: j += 1
        s.nd = sa.nd[:j] + [(ca if g is None else z3.And(ca, g), x, y, gh) for g, x, y, gh in sa.nd[j:]] \
                         + [(cb if g is None else z3.And(cb, g), x, y, gh) for g, x, y, gh in sb.nd[j:]]
        self.stats['merges'] += 1
        return (s, regs, rv) + tuple(A[3:])
    def merge_mem(self, c, sa, sb):
        mem = {}
        for i, o in sa.mem.items():
            p = sb.mem.get(i)
            if p is None:
                if i in self.gname: self.materialize(sb, i); p = sb.mem[i]
                else: mem[i] = o; continue
            if p is o: mem[i] = o; continue
            if o.kind == 'dead': mem[i] = o; continue
            if p.kind == 'dead': mem[i] = p; continue
            if p.cells is o.cells: mem[i] = o; continue
            a, b = o.cells, p.cells
            n = o.size
            out = list(a); k = 0; ch = False
            while k < n:
                x, y = a[k], b[k]
                if x is y or (type(x) is int and type(y) is int and x == y): k += 1; continue
                if type(x) is tuple and type(y) is tuple and x[0] == y[0] and x[2:] == y[2:]:
                    if x[0] == 'p':
                        if x[1] == y[1]: k += 1; continue
                    elif x[1] is y[1] or x[1].eq(y[1]): k += 1; continue
                # differing run: cover whole fragments
                j = k + 1
                lo = k
                for z in (x, y):
                    if type(z) is tuple and z[0] == 'x':
                        kk = z[2] if not self.L.big else z[3] - 1 - z[2]
                        j = max(j, k - kk + z[3])
                j = min(j, n)
                if type(x) is tuple and x[0] == 'p' or type(y) is tuple and y[0] == 'p':
                    # pointer cells: mergeable only if same object or one side dead (None)
                    if x is None or y is None: return None
                    if type(x) is tuple and type(y) is tuple and x[0] == 'p' and y[0] == 'p' and x[2] == 0 and y[2] == 0 and x[1][0] == 'P' and y[1][0] == 'P' and x[1][1] == y[1][1]:
                        nn = x[3]
                        q = ('P', x[1][1], ite(c, x[1][2], y[1][2], self.pb))
                        out[k:k + nn] = [('p', q, m, nn) for m in range(nn)]
                        k += nn; ch = True; continue
                    return None
                m = lo; seg = []
                # shrink run to cells that are numeric/None
                e = lo
                while e < j:
                    if any(type(z) is tuple and z[0] == 'p' for z in (a[e], b[e])): break
                    e += 1
                xs = [self.cell_or_fresh(z) for z in a[lo:e]]; ys = [self.cell_or_fresh(z) for z in b[lo:e]]
                w = 8 * (e - lo)
                ex = ite(c, self.join(xs), self.join(ys), w)
                out[lo:e] = self.split(ex, e - lo)
                k = e; ch = True
            if ch: mem[i] = Obj(n, out, o.align, o.kind, o.name, None)
            else: mem[i] = o
        for i, p in sb.mem.items():
            if i not in sa.mem:
                if i in self.gname:
                    self.materialize(sa, i)
                    o = sa.mem[i]
                    if p.cells is o.cells: mem[i] = p; continue
                    r = self.merge_mem_one(c, o, p)
                    if r is None: return None
                    mem[i] = r
                else: mem[i] = p
        return mem
    def merge_mem_one(self, c, o, p):
        class S: pass
        A = S(); B = S(); A.mem = {1: o}; B.mem = {1: p}
        g = self.gname; self.gname = {}
        try: r = self.merge_mem(c, A, B)
        finally: self.gname = g
        return None if r is None else r[1]
    def cell_or_fresh(self, z):
        if z is None:
            self.undef_used = True
            return ('x', self.fresh(8, 'undef'), 0, 1)
        return z
    def merge_all(self, outs):
        if len(outs) < 2: return outs
        res = []
        for o in outs:
            done = False
            for k in range(len(res) - 1, -1, -1):
                m = self.merge(res[k], o)
                if m is not None: res[k] = m; done = True; break
            if not done: res.append(o)
        if len(res) < len(outs) and len(res) > 1: return self.merge_all(res)
        return res
    # ---------------------------------------------------------- execution
    def call(self, st, name, args, loc, argtys=None):
        """Execute function; list of (state, retval)."""
        if self.modular and name in st.repl:
            stub = st.repl[name]
            st.contracts += 1; self.stats['contracts'] += 1
            self.contract_names[name] = self.contract_names.get(name, 0) + 1
            st.ghost += 1
            outs = self.call(st, stub, args, loc)
            for s, _ in outs: s.ghost -= 1
            return outs
        f = self.m.funcs.get(name)
        if f is None or f.decl:
            return self.builtin(st, name, args, loc, f)
        self.m.body(f)
        self.funcs_seen.add(name)
        regs = {}
        if len(args) < len(f.params): self.oblige(st, 0, 'call', 'call with a wrong number of arguments', loc)
        locals_ = []
        for (t, nm), a, at in zip(f.params, args, f.pattrs):
            if 'byval' in at:
                bt = at['byval']; n = self.L.size(bt)
                i, off = self.deref(st, a, n, 'read', loc)
                if type(off) is not int: raise Unsupported('byval symbolic address')
                a = self.new_obj(st, n, at.get('align', self.L.align(bt)), 'stack', nm, list(st.mem[i].cells[off:off + n]))
                locals_.append(a[1])
            if 'nonnull' in at or 'dereferenceable' in at:
                if a == NULL: self.oblige(st, 0, 'memory', 'null reference', loc)
            regs[nm] = a
        base_ids = set()
        outs = self.region(st, f, regs, f.order[0], None, None, loc)
        res = []
        for kind, s, r, v in outs:
            for i in r.get('#allocas', ()): s.mem.pop(i, None)
            for i in locals_: s.mem.pop(i, None)
            res.append((s, None, v, f.ret))
        if len(res) > 1: res = self.merge_all(res)
        return [(x[0], x[2]) for x in res]

    def regtypes(self, f):
        t = self.cc.get(f.name)
        if t is None:
            t = {}
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.res is not None:
                        if ins.op == 'icmp': t[ins.res] = I(1)
                        elif ins.op in ('gep', 'alloca'): t[ins.res] = PTR
                        elif ins.op in ('extractvalue', 'insertvalue'): t[ins.res] = None
                        else: t[ins.res] = ins.ty
            for (ty, nm) in f.params: t[nm] = ty
            self.cc[f.name] = t
        return t

    def live_after(self, f, block):
        """Registers used in blocks reachable from `block` (over-approximation of liveness)."""
        key = (f.name, block)
        r = self.cc.get(key)
        if r is not None: return r
        seen = set(); st = [block]; used = set()
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            for ins in f.blocks[b]:
                self._uses(ins, used)
                if ins.op == 'br': st.extend(x for x in ins.a[1:] if x)
                elif ins.op == 'switch': st.append(ins.a[2]); st.extend(x[1] for x in ins.a[3])
                elif ins.op == 'invoke': st.append(ins.a[2])
        self.cc[key] = used
        return used
    def _uses(self, ins, used):
        def go(x):
            if type(x) is tuple:
                if len(x) == 2 and x[0] == 'reg': used.add(x[1]); return
                for y in x: go(y)
            elif type(x) is list:
                for y in x: go(y)
            elif type(x) is dict:
                for y in x.values(): go(y)
        go(ins.a)

    def region(self, st, f, regs, block, prev, stop, loc0, idx=0, counts=None):
        """Run from `block`; returns list of (kind, state, regs, retval); kind 'at' (arrived at stop) or 'ret'."""
        blocks = f.blocks
        V = self.m
        if counts is None: counts = {}
        while True:
            if idx == 0:
                code = blocks[block]
                c = counts.get(block, 0) + 1; counts[block] = c
                if c > self.LOOP_LIMIT:
                    self.oblige(st, 0, 'termination', 'loop does not terminate within %d iterations' % self.LOOP_LIMIT, self.iloc(code[-1]))
                # phis
                if code[0].op == 'phi':
                    vals = []
                    for ins in code:
                        if ins.op != 'phi': break
                        vals.append((ins.res, self.val(st, ins.a[prev], regs)))
                        idx += 1
                    for r, v in vals: regs[r] = v
                if block == stop: return [('at', st, regs, None)]
            else: code = blocks[block]
            n = len(code)
            jumped = False
            while idx < n:
                ins = code[idx]
                op = ins.op
                self.stats['steps'] += 1
                try:
                    if op == 'load':
                        p = self.val(st, ins.a[0], regs)
                        t = ins.ty
                        v = self.load(st, p, t, ins.line, ins.a[1], ins.a[0])
                        if ins.rng is not None: self.range_check(st, v, t, ins)
                        regs[ins.res] = v
                    elif op == 'store':
                        p = self.val(st, ins.a[1], regs)
                        self.store(st, p, ins.ty, self.val(st, ins.a[0], regs), ins.line, ins.a[2], ins.a[1])
                    elif op == 'gep':
                        a = ins.a
                        regs[ins.res] = self.gep(st, ins.ty, self.val(st, a[0], regs), [(t, self.val(st, x, regs)) for t, x in a[1]], a[2], ins.line)
                    elif op == 'call' or op == 'invoke':
                        outs = self.do_call(st, ins, regs)
                        if op == 'invoke':
                            prev_, block_ = block, ins.a[2]
                        if not outs: return []
                        if len(outs) == 1:
                            st, v = outs[0]
                            if ins.res is not None: regs[ins.res] = v
                        else:
                            res = []
                            for s, v in outs:
                                r2 = dict(regs)
                                if '#allocas' in r2: r2['#allocas'] = list(r2['#allocas'])
                                if ins.res is not None: r2[ins.res] = v
                                if op == 'invoke': res += self.region(s, f, r2, block_, prev_, stop, loc0, 0, dict(counts))
                                else: res += self.region(s, f, r2, block, prev, stop, loc0, idx + 1, dict(counts))
                            return self.join_region(f, stop, res)
                        if op == 'invoke':
                            prev, block = prev_, block_; idx = 0; jumped = True; break
                    elif op == 'br':
                        c, a, b = ins.a
                        if c is None:
                            prev, block, idx, jumped = block, a, 0, True
                            break
                        cv = self.val(st, c, regs)
                        if type(cv) is not int: cv = simp(cv)
                        if type(cv) is int:
                            prev, block, idx, jumped = block, (a if cv else b), 0, True
                            break
                        if self.undef_used and self.has_undef(cv): self.oblige(st, 0, 'indeterminate', 'control depends on an indeterminate value', ins.line)
                        fa = self.feasible(st.pc, cv)
                        fb = self.feasible(st.pc, z3.Not(cv)) if fa else True
                        if not fa or not fb:
                            prev, block, idx, jumped = block, (a if fa else b), 0, True
                            break
                        arms = [(cv, a), (z3.Not(cv), b)]
                        r = self.fork(st, f, regs, block, stop, arms, loc0, counts)
                        if type(r) is list: return r
                        st, regs, block = r
                        prev = None; idx = self.nphi(blocks[block]); jumped = True
                        if block == stop: return [('at', st, regs, None)]
                        break
                    elif op == 'alloca':
                        t = ins.ty; cnt, al = ins.a
                        k = 1
                        if cnt is not None: k = self.val(st, cnt[1], regs)
                        if type(k) is not int: raise Unsupported('variable-size alloca')
                        p = self.new_obj(st, self.L.size(t) * k, al or self.L.align(t), 'stack', ins.res)
                        regs.setdefault('#allocas', []).append(p[1])
                        regs[ins.res] = p
                    elif op == 'ret':
                        v = None if ins.a[0] is None else self.val(st, ins.a[0], regs)
                        return [('ret', st, regs, v)]
                    elif op == 'icmp':
                        a = ins.a
                        regs[ins.res] = self.icmp(st, a[0], ins.ty, self.val(st, a[1], regs), self.val(st, a[2], regs), ins.line)
                    elif op in V.BIN:
                        regs[ins.res] = self.binop(st, op, ins.ty, self.val(st, ins.a[0], regs), self.val(st, ins.a[1], regs), ins.flags, ins.line)
                    elif op in V.CAST:
                        regs[ins.res] = self.cast(st, op, self.val(st, ins.a[0], regs), ins.a[1], ins.ty)
                    elif op == 'select':
                        c, a, b = (self.val(st, x, regs) for x in ins.a)
                        if type(c) is int: regs[ins.res] = a if c else b
                        else:
                            try: regs[ins.res] = self.typed_merge(c, a, b, ins.ty)
                            except KeyError:
                                res = []
                                for cc, v in ((c, a), (z3.Not(c), b)):
                                    if not self.feasible(st.pc, cc): continue
                                    s2 = st.clone(); s2.pc.append(cc); r2 = dict(regs)
                                    if '#allocas' in r2: r2['#allocas'] = list(r2['#allocas'])
                                    r2[ins.res] = v
                                    res += self.region(s2, f, r2, block, prev, stop, loc0, idx + 1, dict(counts))
                                return self.join_region(f, stop, res)
                    elif op == 'switch':
                        v = self.val(st, ins.a[0], regs); t = ins.a[1]
                        cs = ins.a[3]; d = ins.a[2]
                        if type(v) is not int: v = simp(v)
                        if type(v) is int:
                            tgt = d
                            for cv, b in cs:
                                if cv == v: tgt = b; break
                            prev, block, idx, jumped = block, tgt, 0, True
                            break
                        arms = []; rest = []
                        for cv, b in cs:
                            if self.feasible(st.pc, v == cv): arms.append((v == cv, b))
                            rest.append(v != cv)
                        rc = z3.And(*rest) if rest else z3.BoolVal(True)
                        if self.feasible(st.pc, rc): arms.append((rc, d))
                        r = self.fork(st, f, regs, block, stop, arms, loc0, counts)
                        if type(r) is list: return r
                        st, regs, block = r
                        prev = None; idx = self.nphi(blocks[block]); jumped = True
                        if block == stop: return [('at', st, regs, None)]
                        break
                    elif op == 'extractvalue':
                        v = self.val(st, ins.a[0], regs)
                        for k in ins.a[1]: v = v[k]
                        regs[ins.res] = v
                    elif op == 'insertvalue':
                        v = self.val(st, ins.a[0], regs)
                        x = self.val(st, ins.a[1], regs)
                        regs[ins.res] = self.insert(v, x, ins.a[2])
                    elif op == 'unreachable':
                        self.oblige(st, 0, 'unreachable', 'control reaches a point declared unreachable', self.iloc(ins) or loc0)
                        return []
                    elif op == 'fence': pass
                    else: raise Unsupported('instruction %s %s' % (op, ins.a if op == 'unsupported' else ''))
                except Dead: return []
                except Fork as fk:
                    res = []
                    for v in fk.vals:
                        s2 = st.clone(); s2.pc.append(fk.ptr[2] == v); r2 = dict(regs)
                        if '#allocas' in r2: r2['#allocas'] = list(r2['#allocas'])
                        if fk.reg[0] != 'reg': raise Unsupported('symbolic constant address')
                        r2[fk.reg[1]] = ('P', fk.ptr[1], v)
                        res += self.region(s2, f, r2, block, prev, stop, loc0, idx, dict(counts))
                    return self.join_region(f, stop, res)
                idx += 1
            if not jumped: raise Unsupported('block without terminator')
    def nphi(self, code):
        k = 0
        while code[k].op == 'phi': k += 1
        return k
    def join_region(self, f, stop, res):
        if len(res) < 2: return res
        ats = [x for x in res if x[0] == 'at']; rets = [x for x in res if x[0] == 'ret']
        out = []
        if ats:
            live = self.live_after(f, stop) if stop is not None else set()
            ty = self.regtypes(f)
            m = self.merge_all([(s, self.prune(r, live), None, None, ty, live) for _, s, r, _ in ats])
            out += [('at', x[0], x[1], None) for x in m]
        if rets:
            out += [('ret', s, r, v) for _, s, r, v in rets]
        return out
    def prune(self, regs, live):
        r = {k: v for k, v in regs.items() if k in live}
        if '#allocas' in regs: r['#allocas'] = regs['#allocas']
        return r
    def fork(self, st, f, regs, block, stop, arms, loc0, counts):
        """Run all arms up to the immediate post-dominator and merge.  Returns either a list of final
        outcomes of the region, or (state, regs, block) to continue with a single merged state."""
        ip = f.ipd[block]
        res = []
        for k, (c, tgt) in enumerate(arms):
            s2 = st.clone() if k < len(arms) - 1 else st
            s2.pc.append(c); r2 = dict(regs)
            if '#allocas' in r2: r2['#allocas'] = list(r2['#allocas'])
            self.stats['paths'] += 1
            res += self.region(s2, f, r2, tgt, block, ip, loc0, 0, dict(counts))
        fin = [x for x in res if x[0] == 'ret']
        ats = [x for x in res if x[0] == 'at']
        if ip is None: return fin + ats
        merged = self.join_region(f, ip, ats)
        if not merged: return fin
        # allocas created inside arms
        if len(merged) == 1 and not fin:
            _, s, r, _ = merged[0]
            return (s, r, ip)
        out = list(fin)
        for _, s, r, _ in merged:
            if ip == stop: out.append(('at', s, r, None))
            else:
                k = self.nphi(f.blocks[ip])
                if k: out += self.region(s, f, r, ip, None, stop, loc0, k, dict(counts))
                else: out += self.region(s, f, r, ip, None, stop, loc0, 0, dict(counts))
        return self.join_region(f, stop, out) if stop is not None else out
    def insert(self, v, x, ix):
        v = list(v)
        if len(ix) == 1: v[ix[0]] = x
        else: v[ix[0]] = self.insert(v[ix[0]], x, ix[1:])
        return v
    def iloc(self, ins): return ins.line
    def range_check(self, st, v, t, ins):
        if type(v) is int:
            ok = any((lo <= v < hi) if lo < hi else (v >= lo or v < hi) for lo, hi in [(a & mask(t.w), b & mask(t.w)) for a, b in ins.rng])
            if ok: self.stats['obligations'] += 1; self.stats['trivial'] += 1
            else: self.oblige(st, 0, 'range', 'invalid value for the type', ins.line)
        elif type(v) is not tuple:
            cs = []
            for a, b in ins.rng:
                a &= mask(t.w); b &= mask(t.w)
                cs.append(z3.And(z3.UGE(v, a), z3.ULT(v, b)) if a < b else z3.Or(z3.UGE(v, a), z3.ULT(v, b)))
            self.oblige(st, z3.Or(*cs), 'range', 'value of a bool/enum object outside its range', ins.line)
    def val(self, st, v, regs):
        if v[0] == 'reg': return regs[v[1]]
        if v[0] == 'int': return v[2]
        return self.const(st, v)
    def do_call(self, st, ins, regs):
        callee, args = ins.a[0], ins.a[1]
        f = self.val(st, callee, regs)
        if f[0] != 'F':
            if f == NULL: self.oblige(st, 0, 'call', 'call through a null function pointer', ins.line)
            self.oblige(st, 0, 'call', 'call through an invalid function pointer', ins.line)
        name = f[1]
        if name.startswith('@llvm.dbg') or name.startswith('@llvm.experimental.noalias'): return [(st, None)]
        if name.startswith('@llvm.lifetime'):
            p = self.val(st, args[1][1], regs)
            if p[0] == 'P' and p[1] in st.mem and p[2] == 0:
                o = self.wobj(st, p[1]); o.cells = [None] * o.size
                o.kind = 'dead' if '.end' in name else 'stack'
            return [(st, None)]
        vals = [None if a is None else self.val(st, a, regs) for _, a, _ in args]
        self.cur_args = args
        outs = self.call(st, name, vals, ins.line)
        # non-void results undefined by builtin are normalised by builtin itself
        return outs
    # ---------------------------------------------------------- builtins
    def cstr(self, st, p):
        if p == NULL: return ''
        o = st.mem[p[1]]; k = p[2]; s = ''
        while o.cells[k] != 0: s += chr(o.cells[k]); k += 1
        return s
    def conc(self, st, v, w):
        if type(v) is int: return v
        vals = self.values_of(st, v, 2)
        if len(vals) == 1: return vals[0]
        raise Unsupported('symbolic size')
    def builtin(self, st, name, args, loc, f):
        n = name[1:]
        ret = f.ret if f is not None else None
        h = getattr(self, 'b_' + n, None)
        if h is not None: return h(st, args, loc)
        if n.startswith('llvm.'):
            return self.intrinsic(st, n, args, loc, ret)
        if n in ('_Znwm', '_Znwj', '_Znam', '_Znaj', 'malloc'):
            k = self.conc(st, args[0], self.pb)
            return [(st, self.new_obj(st, k, 16, 'heap', 'heap'))]
        if n in ('_ZdlPv', '_ZdlPvm', '_ZdlPvj', '_ZdaPv', '_ZdaPvm', 'free'):
            p = args[0]
            if p == NULL: return [(st, None)]
            o = st.mem.get(p[1]) if p[0] == 'P' else None
            if o is None or o.kind != 'heap' or p[2] != 0: self.oblige(st, 0, 'memory', 'invalid deallocation', loc)
            if n.endswith('m') and n != 'free' and len(args) > 1:
                if args[1] != o.size: self.oblige(st, 0, 'memory', 'deallocation with a wrong size', loc)
            del st.mem[p[1]]
            return [(st, None)]
        if n in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2], loc); return [(st, args[0])]
        if n == 'memset':
            self.memset(st, args[0], args[1], args[2], loc); return [(st, args[0])]
        if n == 'memcmp': return self.memcmp(st, args, loc)
        if n == '__cxa_pure_virtual':
            self.oblige(st, 0, 'call', 'pure virtual call', loc); return []
        if n in ('__cxa_atexit',): return [(st, 0)]
        if n in ('_ZSt9terminatev', 'abort', '__cxa_throw', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt17__throw_bad_allocv', '__assert_fail') or n.startswith('_ZSt') and 'throw' in n:
            self.oblige(st, 0, 'abort', 'call of ' + n, loc); return []
        raise Unsupported('external function ' + n)
    def memcpy(self, st, d, s, n, loc):
        n = self.conc(st, n, self.pb)
        if n == 0: return
        si, so = self.deref(st, s, n, 'read', loc)
        if type(so) is not int:
            v = self.values_of(st, so)
            if len(v) != 1:
                # byte-wise symbolic copy
                bs = [self.load(st, self.padd(s, k), I(8), loc, 1, None) for k in range(n)]
                for k, b in enumerate(bs): self.store(st, self.padd(d, k), I(8), b, loc, 1, None)
                return
            so = v[0]
        cells = list(st.mem[si].cells[so:so + n])
        di, do = self.deref(st, d, n, 'write', loc, write=True)
        if type(do) is not int:
            v = self.values_of(st, do)
            if len(v) != 1:
                for k, c in enumerate(cells):
                    self.store(st, self.padd(d, k), I(8), c if type(c) is int else self.cell_bv(self.cell_or_fresh(c)), loc, 1, None)
                return
            do = v[0]
        self.wobj(st, di).cells[do:do + n] = cells
    def memset(self, st, d, v, n, loc):
        n = self.conc(st, n, self.pb)
        if n == 0: return
        if type(v) is not int: v = z3.Extract(7, 0, v) if v.size() > 8 else v; c = ('x', v, 0, 1)
        else: c = v & 255
        i, off = self.deref(st, d, n, 'write', loc, write=True)
        if type(off) is not int: raise Unsupported('memset at symbolic address')
        self.wobj(st, i).cells[off:off + n] = [c] * n
    def memcmp(self, st, args, loc):
        n = self.conc(st, args[2], self.pb)
        r = 0
        bs = [(self.load(st, self.padd(args[0], k), I(8), loc, 1, None), self.load(st, self.padd(args[1], k), I(8), loc, 1, None)) for k in range(n)]
        r = z3.BitVecVal(0, 32)
        for a, b in reversed(bs):
            A, B = bv(a, 8), bv(b, 8)
            r = z3.If(A == B, r, z3.ZeroExt(24, A) - z3.ZeroExt(24, B))
        return [(st, simp(r))]
    def intrinsic(self, st, n, a, loc, ret):
        p = n.split('.')
        k = p[1]
        if k in ('memcpy', 'memmove'): self.memcpy(st, a[0], a[1], a[2], loc); return [(st, None)]
        if k == 'memset': self.memset(st, a[0], a[1], a[2], loc); return [(st, None)]
        if k == 'assume':
            self.oblige(st, a[0], 'assume', 'compiler assumption violated', loc); return [(st, None)]
        if k == 'expect': return [(st, a[0])]
        if k == 'is' and p[2] == 'constant': return [(st, 0)]
        if k == 'objectsize': return [(st, mask(int(p[2][1:])))]
        if k in ('trap', 'ubsantrap', 'debugtrap'):
            self.oblige(st, 0, 'trap', 'trap reached', loc); return []
        if k == 'launder' or k == 'strip': return [(st, a[0])]
        if k == 'stacksave': return [(st, NULL)]
        if k == 'stackrestore' or k in ('invariant', 'donothing', 'prefetch', 'sideeffect'): return [(st, None)]
        if k in ('umin', 'umax', 'smin', 'smax'):
            w = ret.w; x, y = bv(a[0], w), bv(a[1], w)
            c = {'umin': z3.ULT(x, y), 'umax': z3.UGT(x, y), 'smin': x < y, 'smax': x > y}[k]
            return [(st, simp(z3.If(c, x, y)))]
        if k == 'abs':
            w = ret.w; x = bv(a[0], w)
            if a[1] == 1: self.oblige(st, simp(x != 1 << (w - 1)), 'overflow', 'abs overflow', loc)
            return [(st, simp(z3.If(x < 0, -x, x)))]
        if k == 'bswap':
            w = ret.w; x = bv(a[0], w)
            return [(st, simp(z3.Concat(*[z3.Extract(8 * j + 7, 8 * j, x) for j in range(w // 8)])))]
        if k == 'bitreverse':
            w = ret.w; x = bv(a[0], w)
            return [(st, simp(z3.Concat(*[z3.Extract(j, j, x) for j in range(w)])))]
        if k in ('ctpop', 'ctlz', 'cttz'):
            w = ret.w; x = bv(a[0], w)
            if k == 'ctpop':
                r = z3.BitVecVal(0, w)
                for j in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(j, j, x))
            else:
                r = z3.BitVecVal(w, w)
                rng = range(w) if k == 'ctlz' else range(w - 1, -1, -1)
                for j in rng: r = z3.If(z3.Extract(j, j, x) == 1, z3.BitVecVal(w - 1 - j if k == 'ctlz' else j, w), r)
                if a[1] == 1: self.oblige(st, simp(x != 0), 'overflow', 'count of zero bits of 0', loc)
            return [(st, simp(r))]
        if k in ('fshl', 'fshr'):
            w = ret.w; x, y, s = bv(a[0], w), bv(a[1], w), z3.URem(bv(a[2], w), z3.BitVecVal(w, w))
            z = z3.Concat(x, y); s2 = z3.ZeroExt(w, s)
            return [(st, simp(z3.Extract(2 * w - 1, w, z << s2) if k == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(z, s2))))]
        if len(p) > 3 and p[2] == 'with' and p[3] == 'overflow':
            w = int(p[4][1:]); x, y = bv(a[0], w), bv(a[1], w)
            sg = k[0] == 's'
            if k[1:] == 'add': r = x + y; o = z3.Not(z3.And(z3.BVAddNoOverflow(x, y, sg), z3.BVAddNoUnderflow(x, y) if sg else z3.BoolVal(True)))
            elif k[1:] == 'sub': r = x - y; o = z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))) if sg else z3.ULT(x, y)
            else: r = x * y; o = z3.Not(z3.And(z3.BVMulNoOverflow(x, y, sg), z3.BVMulNoUnderflow(x, y) if sg else z3.BoolVal(True)))
            return [(st, [simp(r), simp(o)])]
        raise Unsupported('intrinsic ' + n)
    # ---- contract language
    def b_vp_nondet(self, st, a, loc):
        n = self.conc(st, a[1], self.pb); name = self.cstr(st, a[2])
        if n == 0: return [(st, None)]
        i, off = self.deref(st, a[0], n, 'write', loc, write=True)
        if type(off) is not int: raise Unsupported('nondet at symbolic address')
        # one symbol per object so that words stay words
        base = name + ('$g' if st.ghost else '')
        e = self.fresh(8 * n, base)
        cells = self.split(e, n)
        syms = [self.cell_bv(c) for c in cells]
        st.nd.append((None, name, syms, st.ghost > 0))
        self.wobj(st, i).cells[off:off + n] = cells
        return [(st, None)]
    def b_vp_nondet_bytes(self, st, a, loc):
        n = self.conc(st, a[1], self.pb); name = self.cstr(st, a[2])
        if n == 0: return [(st, None)]
        i, off = self.deref(st, a[0], n, 'write', loc, write=True)
        cells = [('x', self.fresh(8, name), 0, 1) for _ in range(n)]
        st.nd.append((None, name, [c[1] for c in cells], st.ghost > 0))
        self.wobj(st, i).cells[off:off + n] = cells
        return [(st, None)]
    def b_vp_assume(self, st, a, loc):
        c = a[0]
        if type(c) is int:
            if not c: raise Dead()
            return [(st, None)]
        c = simp(c)
        if type(c) is int:
            if not c: raise Dead()
            return [(st, None)]
        if self.sat(st.pc, c) == z3.unsat: raise Dead()
        st.pc.append(c)
        return [(st, None)]
    def b_vp_assert(self, st, a, loc):
        c = a[0]
        if type(c) is not int: c = simp(c)
        self.oblige(st, c, 'contract', self.cstr(st, a[1]), loc)
        return [(st, None)]
    def b_vp_cover(self, st, a, loc):
        l = self.cstr(st, a[0])
        if not self.covers.get(l):
            self.covers[l] = self.sat(st.pc) == z3.sat
        return [(st, None)]
    def b_vp_split(self, st, a, loc):
        v = a[0]
        if type(v) is int: return [(st, v)]
        vals = sorted(self.values_of(st, v))
        out = []
        for k, x in enumerate(vals):
            s = st.clone() if k < len(vals) - 1 else st
            s.pc.append(v == x); s.tags = s.tags + (x,)
            out.append((s, x))
        return out
    def b_vp_symbolic(self, st, a, loc): return [(st, 1)]
    def b_vp_replace(self, st, a, loc):
        # a[0]: address of a (member) function pointer object; a[1]: stub
        i, off = self.deref(st, a[0], self.PB, 'read', loc)
        real = self.join(st.mem[i].cells[off:off + self.PB], True)
        i, off = self.deref(st, a[1], self.PB, 'read', loc)
        stub = self.join(st.mem[i].cells[off:off + self.PB], True)
        if real[0] != 'F' or stub[0] != 'F': raise Unsupported('vp_replace of a non-function')
        st.repl = dict(st.repl); st.repl[real[1]] = stub[1]
        return [(st, None)]
    def b_vp_frame_begin(self, st, a, loc):
        st.frame = (dict(st.mem), [])
        st.tok = object()
        return [(st, None)]
    def b_vp_frame_allow(self, st, a, loc):
        n = self.conc(st, a[1], self.pb)
        off = a[0][2]
        if type(off) is not int: off = self.conc(st, off, self.pb)
        st.frame = (st.frame[0], st.frame[1] + [(a[0][1], off, n)])
        return [(st, None)]
    def b_vp_frame_end(self, st, a, loc):
        label = self.cstr(st, a[0])
        old, allow = st.frame
        st.frame = None
        for i, o in old.items():
            p = st.mem.get(i)
            if p is o: continue
            if p is None: 
                if o.kind == 'stack': continue
                self.oblige(st, 0, 'frame', label + ': object deallocated', loc); continue
            if p.cells is o.cells: continue
            ok = set()
            for j, off, n in allow:
                if j == i: ok.update(range(off, off + n))
            for k in range(o.size):
                x, y = o.cells[k], p.cells[k]
                if x is y or k in ok or x == y if type(x) is int and type(y) is int else x is y or k in ok: continue
                if x is None: 
                    if type(y) is tuple and y[0] == 'x' and z3.is_const(y[1]) and y[1].decl().name().startswith('undef!'): continue
                    if o.kind == 'stack' : 
                        self.oblige(st, 0, 'frame', label + ': byte %d of %s changed' % (k, o.name), loc); continue
                if type(x) is tuple and type(y) is tuple and x[0] == 'p' and y[0] == 'p':
                    self.oblige(st, int(x[1] == y[1] and x[2] == y[2]), 'frame', label + ': byte %d of %s changed' % (k, o.name), loc); continue
                if any(type(z) is tuple and z[0] == 'p' for z in (x, y)) or x is None:
                    self.oblige(st, 0, 'frame', label + ': byte %d of %s changed' % (k, o.name), loc); continue
                c = simp(self.cell_bv(x) == self.cell_bv(y))
                self.oblige(st, c, 'frame', label + ': byte %d of %s changed' % (k, o.name), loc)
        return [(st, None)]
    # ---------------------------------------------------------- entry
    def run(self, fname):
        st = State()
        # dynamic initialisers
        g = self.m.globals.get('@llvm.global_ctors')
        states = [st]
        if g is not None and g[1] is not None and g[1][0] == 'agg':
            ctors = sorted(((x[1][2][0][1][2], x[1][2][1][1][1]) for x in g[1][2]), key=lambda x: x[0])
            for _, c in ctors:
                nxt = []
                for s in states:
                    try: nxt += [o[0] for o in self.call(s, c, [], '?')]
                    except Dead: pass
                states = nxt
        ends = 0
        for s in states:
            try: outs = self.call(s, fname, [], '?')
            except Dead: outs = []
            for o, _ in outs:
                if ends == 0 or True:
                    if self.sat(o.pc) == z3.sat: ends += 1
        self.stats['ends'] = ends
        return ends
