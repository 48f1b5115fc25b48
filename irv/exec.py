"""Symbolic executor for LLVM IR: generates and discharges the obligations of a contract."""
import z3, time, re, sys
from ir import Module, PTR, VOID, Unsupported as IrUnsupported
import ir
from mem import *
import solver
from solver import Inc, Fact, prove, apps, syms, div_axioms, linform, TABLES

MASK64 = (1 << 64) - 1
TRUE = z3.BoolVal(True)

class Frame:
    __slots__ = ('fn', 'env', 'blk', 'idx', 'prev', 'call', 'allocas', 'modes')
    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.env = dict(self.env); f.blk = self.blk; f.idx = self.idx; f.prev = self.prev; f.call = self.call
        f.allocas = list(self.allocas); f.modes = self.modes
        return f

class State:
    __slots__ = ('frames', 'mem', 'owned', 'pc', 'seen', 'facts', 'model', 'nondet', 'live', 'wlog', 'exc', 'dead', 'steps', 'terms', 'next_id', 'ghost', 'skolems', 'templates', 'insts')
    def __init__(self):
        self.frames = []; self.mem = {}; self.owned = set(); self.pc = []; self.seen = {}; self.facts = []; self.model = None
        self.nondet = []; self.live = frozenset(); self.wlog = None; self.exc = None; self.dead = None; self.steps = 0; self.terms = []
        self.next_id = [1 << 12]; self.ghost = {}; self.skolems = []; self.templates = []; self.insts = {}
    def fork(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]; s.mem = dict(self.mem); s.owned = set(); self.owned = set()
        s.pc = list(self.pc); s.seen = dict(self.seen); s.facts = list(self.facts); s.model = self.model; s.nondet = list(self.nondet)
        s.live = self.live; s.wlog = list(self.wlog) if self.wlog is not None else None; s.exc = self.exc; s.dead = self.dead; s.steps = self.steps
        s.terms = list(self.terms); s.next_id = list(self.next_id); s.ghost = dict(self.ghost); s.skolems = list(self.skolems); s.templates = list(self.templates); s.insts = dict(self.insts)
        return s
    def wobj(self, id):
        o = self.mem[id]
        if id not in self.owned:
            o = o.clone(); self.mem[id] = o; self.owned.add(id)
        return o

class PathEnd(Exception): pass
class Fork(Exception):
    def __init__(self, alts): self.alts = alts      # list of conditions; the instruction is re-executed in each

class Failure:
    def __init__(self, name, kind, loc, state, model, status, cond): 
        self.name = name; self.kind = kind; self.loc = loc; self.model = model; self.status = status
        self.nondet = list(state.nondet); self.pc = list(state.pc); self.cond = cond

BIN = {
 'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
 'shl': lambda a, b: a << b, 'lshr': z3.LShR, 'ashr': lambda a, b: a >> b, 'udiv': z3.UDiv, 'sdiv': lambda a, b: a / b, 'urem': z3.URem, 'srem': z3.SRem,
}

def sgn(v, n): return v - (1 << n) if v >> (n - 1) else v

def lift(e):
    """a 64 bit term that equals the narrower e if nothing wraps; None if there is nothing to gain"""
    r = lift_(e, 0)
    return None if r is None else z3.simplify(r)
def lift_(e, depth):
    w = e.size()
    if z3.is_bv_value(e): return bv(sgn(e.as_long(), w) & MASK64, 64)
    d = e.decl().kind()
    if d == z3.Z3_OP_EXTRACT:
        hi, lo = e.params(); x = e.arg(0)
        if lo == 0 and x.size() == 64: return x
        return None
    if d == z3.Z3_OP_BADD:
        r = None
        for c in e.children():
            l = lift_(c, depth + 1)
            if l is None: l = z3.SignExt(64 - w, c)
            r = l if r is None else r + l
        return r
    if d == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
        l = lift_(e.arg(1), depth + 1)
        if l is None: l = z3.SignExt(64 - w, e.arg(1))
        return bv(sgn(e.arg(0).as_long(), w) & MASK64, 64) * l
    if d == z3.Z3_OP_CONCAT and e.num_args() == 2:
        a, b_ = e.children()
        if z3.is_bv_value(b_) and b_.as_long() == 0:
            l = lift_(a, depth + 1)
            if l is not None: return l * bv(1 << b_.size(), 64)
            return None
        if z3.is_bv_value(a) and a.as_long() == 0 and b_.size() >= 16:
            return lift_(b_, depth + 1)
    if d == z3.Z3_OP_ZERO_EXT or d == z3.Z3_OP_SIGN_EXT: return lift_(e.arg(0), depth + 1)
    return None

class Stopped(Exception): pass
class Engine:
    def __init__(self, module, entry, opts=None):
        self.m = module; self.entry = entry; self.o = dict(timeout=300, unroll=5, budget=30.0, maxpaths=20000, after_refuted=25.0); self.t_bad = None; self.stopped = False
        if opts: self.o.update(opts)
        self.inc = Inc(); self.failures = []; self.obl = {}      # name -> [count, discharged, folded]
        self.suppress = 0; self.gids = {}; self.gobjs = {}; self.gnames = {}
        self.covers = set(); self.fns_seen = set(); self.paths = 0; self.t0 = time.time(); self.assumed = set(); self.loops_cut = []; self.unrolled = 0
        self.backends = {}; self.maxsolve = 0.0; self.instrs = 0; self.nexec = 0; self.slow = []
        self.replaced = {}
        self.builtins = dict(BUILTINS)
        self.known_bad = {}; self.cutset = set(); self.defs = {}; self.defax = {}; self.cover_names = set()

    # ------------------------------------------------------------ globals
    def gid(self, name):
        i = self.gids.get(name)
        if i is None:
            i = len(self.gids) + 1; self.gids[name] = i; self.gnames[i] = name
        return i
    def gobj(self, st, id):
        o = st.mem.get(id)
        if o is not None: return o
        if id not in self.gnames: return None
        o = self.gobjs.get(id)
        if o is None:
            name = self.gnames[id]
            if name in self.m.globals:
                ty, init, const = self.m.globals[name]
                try: size = self.m.sizeof(ty)
                except IrUnsupported: size = 8
                o = Obj(id, 'global', name, size); o.ro = const
                if init is not None: self.init_cells(o, 0, ty, init)
            else:
                o = Obj(id, 'fn', name, 1); o.ro = True
            self.gobjs[id] = o
        st.mem[id] = o
        return o
    def init_cells(self, o, off, ty, v):
        t = self.m.resolve(ty)
        k = v[0]
        if k == 'zero' or (k == 'const' and v[1] == 0) or k == 'null':
            n = self.m.sizeof(ty)
            if t[0] in ('i',): o.cells[off] = (n, 0); return
            if t[0] == 'ptr': o.cells[off] = (8, NULL); return
            if t[0] == 'fp': o.cells[off] = (n, Fp(0.0, t[1])); return
            if t[0] == 'struct':
                for i, e in enumerate(t[1]): self.init_cells(o, off + self.m.field_off(t, i), e, ('zero',))
                # padding
                return
            if t[0] in ('array', 'vec'):
                es = self.m.sizeof(t[2])
                for i in range(t[1]): self.init_cells(o, off + i * es, t[2], ('zero',))
                return
            return
        if k == 'undef': return
        if k == 'bytes':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if t[0] == 'struct':
                for i, (et, ev) in enumerate(v[1]): self.init_cells(o, off + self.m.field_off(t, i), et, ev)
            else:
                es = self.m.sizeof(t[2])
                for i, (et, ev) in enumerate(v[1]): self.init_cells(o, off + i * es, et, ev)
            return
        val = self.constant(ty, v)
        o.cells[off] = (self.m.sizeof(ty), val)

    def constant(self, ty, v):
        k = v[0]
        if k == 'const': 
            t = self.m.resolve(ty)
            return mask(v[1], t[1])
        if k == 'null': return NULL
        if k == 'global':
            n = v[1]
            if n in self.m.aliases: return self.constant(PTR, self.m.aliases[n])
            return Ptr(self.gid(n), 0)
        if k == 'undef': return self.undef(ty)
        if k == 'zero': return self.zero(ty)
        if k == 'gep':
            b = self.constant(PTR, v[2])
            return self.gep(v[1], b, [(t, self.constant(t, x)) for t, x in v[3]])
        if k == 'cast':
            x = self.constant(v[2], v[3])
            return self.cast(v[1], v[2], x, v[4])
        if k == 'bin': return self.binop(v[1], v[2], self.constant(v[2], v[3]), self.constant(v[2], v[4]))
        if k == 'cicmp': return self.icmp(v[1], v[2], self.constant(v[2], v[3]), self.constant(v[2], v[4]))
        if k == 'fpc':
            s = v[1]
            if s.startswith('0x') and s[2] not in 'KLMHR':
                import struct
                return Fp(struct.unpack('>d', bytes.fromhex(s[2:].zfill(16)))[0], ty[1])
            if s.startswith('0x'): return Fp(None, ty[1])
            return Fp(float(s), ty[1])
        if k == 'agg': return [self.constant(t, x) for t, x in v[1]]
        if k == 'bytes': return list(v[1])
        raise Unsupported('constant %s' % (v,))
    def zero(self, ty):
        t = self.m.resolve(ty)
        if t[0] == 'i': return 0
        if t[0] == 'ptr': return NULL
        if t[0] == 'fp': return Fp(0.0, t[1])
        if t[0] == 'struct': return [self.zero(e) for e in t[1]]
        if t[0] in ('array', 'vec'): return [self.zero(t[2]) for _ in range(t[1])]
        return UNDEF
    def undef(self, ty):
        t = self.m.resolve(ty)
        if t[0] == 'struct': return [self.undef(e) for e in t[1]]
        if t[0] in ('array', 'vec'): return [self.undef(t[2]) for _ in range(t[1])]
        return UNDEF

    # ------------------------------------------------------------ values
    def val(self, st, ty, v):
        k = v[0]
        if k == 'local':
            try: return st.frames[-1].env[v[1]]
            except KeyError: raise Unsupported('undefined local %s in %s' % (v[1], st.frames[-1].fn.name))
        if k == 'const':
            return mask(v[1], ty[1]) if ty[0] == 'i' else self.constant(ty, v)
        return self.constant(ty, v)

    def num(self, st, v, bits):
        """integer view of a value"""
        if isinstance(v, int): return v
        if isinstance(v, Ptr):
            a = add64((v.obj << ADDR_SHIFT) & MASK64, v.off)
            if bits < 64: return mask(a, bits) if isinstance(a, int) else z3.Extract(bits - 1, 0, a)
            return a
        if v is UNDEF: return z3.BitVec(fresh_name('undef'), bits)
        if isinstance(v, Fp): return v.asbits()
        return v
    def toptr(self, st, v):
        if isinstance(v, Ptr): return v
        if v is UNDEF: return Ptr(0, z3.BitVec(fresh_name('undefp'), 64))
        if isinstance(v, int):
            o = v >> ADDR_SHIFT
            if o and (o in st.mem or o in self.gnames): return Ptr(o, v & ((1 << ADDR_SHIFT) - 1))
            return Ptr(0, v)
        e = z3.simplify(v)
        if z3.is_bv_value(e): return self.toptr(st, e.as_long())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_BADD:
            for c in e.children():
                if z3.is_bv_value(c):
                    o = c.as_long() >> ADDR_SHIFT
                    if o in st.mem or o in self.gnames:
                        return Ptr(o, sub64(e, o << ADDR_SHIFT))
        return Ptr(0, e)

    def binop(self, op, ty, a, b, st=None):
        t = self.m.resolve(ty) if ty[0] == 'named' else ty
        if t[0] == 'vec':
            return [self.binop(op, t[2], x, y, st) for x, y in zip(a, b)]
        n = t[1]
        # pointer arithmetic on integers
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return sub64(a.off, b.off)
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr) and b is not UNDEF: return Ptr(a.obj, add64(a.off, b))
            if op == 'add' and isinstance(b, Ptr) and not isinstance(a, Ptr) and a is not UNDEF: return Ptr(b.obj, add64(b.off, a))
            if op == 'sub' and isinstance(a, Ptr) and not isinstance(b, Ptr) and b is not UNDEF: return Ptr(a.obj, sub64(a.off, b))
            a = self.num(st, a, n); b = self.num(st, b, n)
        if a is UNDEF: a = z3.BitVec(fresh_name('undef'), n)
        if b is UNDEF: b = z3.BitVec(fresh_name('undef'), n)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << b if b < n else 0
            elif op == 'lshr': r = a >> b if b < n else 0
            elif op == 'ashr': r = sgn(a, n) >> min(b, n - 1)
            elif op == 'udiv': r = a // b if b else 0
            elif op == 'urem': r = a % b if b else 0
            elif op in ('sdiv', 'srem'):
                x, y = sgn(a, n), sgn(b, n)
                if y == 0: return 0
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                r = q if op == 'sdiv' else x - q * y
            else: raise Unsupported(op)
            return mask(r, n)
        if isinstance(b, int):
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == 0: return a
            if op in ('and', 'mul') and b == 0: return 0
            if op == 'and' and b == (1 << n) - 1: return a
            if op in ('mul', 'udiv', 'sdiv') and b == 1: return a
            if op == 'shl':
                if b >= n: return 0
                k = a.decl().kind()
                if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_EXTRACT, z3.Z3_OP_UNINTERPRETED) and n >= 16: return cst(z3.simplify(a * z3.BitVecVal(1 << b, n)))
            if op == 'lshr' and b < n:
                q = self.exact_div(st, a, 1 << b, n)
                if q is not None: return q
            if op == 'ashr' and b < n - 1:
                q = self.exact_div(st, a, 1 << b, n)
                if q is not None and self.implied(st, bv(a, n) >= 0): return q
            if op == 'udiv' and b: return self.udivc(st, a, b, n)
            if op == 'urem' and b:
                q = self.udivc(st, a, b, n)
                return cst(z3.simplify(a - bv(q, n) * z3.BitVecVal(b, n))) if not (b & (b - 1) == 0) or self.exact_div(st, a, b, n) is not None else urem_const(a, b, n)
            if op in ('sdiv', 'srem') and b and not (b >> (n - 1)):
                return self.sdivc(st, op, a, b, n)
        if isinstance(a, int):
            if op in ('and', 'mul') and a == 0: return 0
            if op in ('add', 'or', 'xor') and a == 0: return b
        if op == 'xor' and not isinstance(a, int) and not isinstance(b, int) and a.eq(b): return 0
        r = BIN[op](bv(a, n), bv(b, n))
        r = z3.simplify(r)
        return cst(r)
    def sdivc(self, st, op, a, c, n):
        s = z3.simplify(z3.Extract(n - 1, n - 1, a))
        nonneg = z3.is_bv_value(s) and s.as_long() == 0
        if not nonneg and st is not None:
            nonneg = self.implied(st, a >= 0)
        if nonneg:
            q = self.udivc(st, a, c, n)
            return q if op == 'sdiv' else cst(z3.simplify(a - bv(q, n) * z3.BitVecVal(c, n)))
        # general: via absolute value
        neg = a < 0
        ab = z3.If(neg, -a, a)
        q = self.udivc(st, ab, c, n)
        q = z3.If(neg, -bv(q, n), bv(q, n))
        if op == 'sdiv': return q
        return a - q * bv(c, n)

    def exact_div(self, st, a, c, n):
        """a / c when a is a linear term whose coefficients are multiples of c and nothing wraps"""
        if st is None: return None
        e = z3.simplify(a)
        if z3.is_bv_value(e): return e.as_long() // c
        if n < 64:
            l = lift(e)
            if l is None: return None
            q = self.exact_div(st, l, c, 64)
            if q is None: return None
            if not self.implied(st, z3.ZeroExt(64 - n, e) == l): return None
            return q if isinstance(q, int) else cst(z3.simplify(z3.Extract(n - 1, 0, q)))
        if n > 64: return None
        k, ts = linform(e)
        ks = k if k < 1 << 63 else k - (1 << 64)
        if not ts: return None
        for co, t in ts:
            if (co if co < 1 << 63 else co - (1 << 64)) % c: return None
        r = ks % c
        q = bv(((ks - r) // c) % (1 << 64), 64)
        for co, t in ts: q = q + t * bv((co if co < 1 << 63 else co - (1 << 64)) // c % (1 << 64), 64)
        q = z3.simplify(q)
        if z3.is_bv_value(q): return q.as_long()
        if not self.implied(st, z3.ULE(q, bv(((1 << 64) - 1 - r) // c, 64))): return None
        return q
    def udivc(self, st, a, c, n):
        q = self.exact_div(st, a, c, n)
        if q is not None: return q
        if n < 64 and c & (c - 1):
            e = z3.simplify(a)
            l = lift(e)
            z = z3.simplify(z3.ZeroExt(64 - n, e))
            if l is not None and st is not None and self.implied(st, z == l): z = l
            q = udiv_const(z, c, 64)
            return q if isinstance(q, int) else cst(z3.simplify(z3.Extract(n - 1, 0, q)))
        return udiv_const(a, c, n)

    def icmp(self, pred, ty, a, b, st=None):
        t = self.m.resolve(ty) if ty[0] == 'named' else ty
        if t[0] == 'vec': return [self.icmp(pred, t[2], x, y, st) for x, y in zip(a, b)]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a = a if isinstance(a, Ptr) else self.toptr(st, a)
            b = b if isinstance(b, Ptr) else self.toptr(st, b)
            if a.obj == b.obj: x, y = a.off, b.off
            else:
                if pred == 'eq': return 0
                if pred == 'ne': return 1
                x, y = a.obj, b.obj
            return self.cmp(pred, x, y, 64)
        n = 64 if t[0] == 'ptr' else t[1]
        if a is UNDEF: a = z3.BitVec(fresh_name('undef'), n)
        if b is UNDEF: b = z3.BitVec(fresh_name('undef'), n)
        return self.cmp(pred, a, b, n)
    def cmp(self, pred, a, b, n):
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's': a, b = sgn(a, n), sgn(b, n)
            r = {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred if len(pred) == 2 else pred[1:]]
            return int(r)
        x, y = bv(a, n), bv(b, n)
        if x.eq(y): return 1 if pred in ('eq', 'ule', 'uge', 'sle', 'sge') else 0
        c = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'sgt': lambda: x > y, 'sge': lambda: x >= y, 'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        return self.b2i(c)
    def b2i(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return 1
        if z3.is_false(c): return 0
        return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    def i2b(self, v):
        if isinstance(v, int): return bool(v & 1)
        if v is UNDEF: v = z3.BitVec(fresh_name('undef'), 1)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = v.children()
            if z3.is_bv_value(x) and z3.is_bv_value(y) and x.as_long() == 1 and y.as_long() == 0: return c
        r = z3.simplify(v == z3.BitVecVal(1, 1))
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return r

    def cast(self, op, ft, v, tt, st=None):
        f = self.m.resolve(ft); t = self.m.resolve(tt)
        if f[0] == 'vec' and op in ('trunc', 'zext', 'sext'): return [self.cast(op, f[2], x, t[2], st) for x in v]
        if op == 'ptrtoint':
            if t[1] == 64: return v if isinstance(v, Ptr) and v.obj else (v.off if isinstance(v, Ptr) else v)
            return self.num(st, v, t[1])
        if op == 'inttoptr': return self.toptr(st, v)
        if op in ('bitcast', 'addrspacecast'):
            if f == t: return v
            if f[0] == 'fp' and t[0] == 'i': return self.num(st, v, t[1])
            if f[0] == 'i' and t[0] == 'fp': return self.asfp(v, t[1])
            if f[0] == 'fp' or t[0] == 'fp': raise Unsupported('bitcast fp')
            if t[0] == 'vec' or f[0] == 'vec': return self.bitcast_vec(st, f, v, t)
            return v
        if op in ('trunc', 'zext', 'sext'):
            a, b = f[1], t[1]
            v = self.num(st, v, a) if not isinstance(v, (int,)) else v
            if isinstance(v, int):
                if op == 'trunc': return mask(v, b)
                if op == 'zext': return v
                return mask(sgn(v, a), b)
            if op == 'trunc': return cst(z3.simplify(z3.Extract(b - 1, 0, v)))
            r = cst(z3.simplify(z3.ZeroExt(b - a, v) if op == 'zext' else z3.SignExt(b - a, v)))
            if b == 64 and a >= 16 and not isinstance(r, int) and st is not None:
                l = lift(z3.simplify(v))
                if l is not None and not l.eq(r) and self.implied(st, r == l): return cst(l)
            return r
        if op in ('sitofp', 'uitofp'):
            v = self.num(st, v, f[1])
            if isinstance(v, int): return Fp(float(sgn(v, f[1]) if op[0] == 's' else v), t[1])
            return Fp(None, t[1])
        if op in ('fptosi', 'fptoui'):
            if v.v is not None: return mask(int(v.v), t[1])
            return z3.BitVec(fresh_name('fp2i'), t[1])
        if op in ('fpext', 'fptrunc'): return Fp(v.v, t[1])
        raise Unsupported(op)
    def bitcast_vec(self, st, f, v, t):
        # little endian
        def bits(ty, x):
            if ty[0] == 'vec':
                out = []
                for e in x: out += bits(ty[2], e)
                return out
            n = ty[1]; x = self.num(st, x, n)
            return [(n, x)]
        parts = bits(f, v)
        tot = parts[0][1] if len(parts) == 1 else cst(z3.simplify(z3.Concat(*[bv(x, n) for n, x in reversed(parts)])))
        if t[0] == 'i': return tot
        if t[0] == 'vec':
            n = t[2][1]
            return [ (tot >> (i * n)) & ((1 << n) - 1) if isinstance(tot, int) else cst(z3.simplify(z3.Extract(i * n + n - 1, i * n, tot))) for i in range(t[1])]
        raise Unsupported('bitcast')

    def gep(self, ty, base, idx, st=None):
        if not isinstance(base, Ptr): base = self.toptr(st, base)
        off = base.off
        first = True
        t = ty
        for it, iv in idx:
            if first:
                off = add64(off, self.scale(st, it, iv, self.m.sizeof(t))); first = False; continue
            r = self.m.resolve(t)
            if r[0] == 'struct':
                off = add64(off, self.m.field_off(r, iv)); t = r[1][iv]
            else:
                t = r[2]
                off = add64(off, self.scale(st, it, iv, self.m.sizeof(t)))
        if off is base.off: return base
        return Ptr(base.obj, off)
    def scale(self, st, it, iv, size):
        n = it[1]
        if isinstance(iv, Ptr) or iv is UNDEF: iv = self.num(st, iv, n)
        if isinstance(iv, int): return (sgn(iv, n) * size) & MASK64
        if n < 64: iv = z3.SignExt(64 - n, iv)
        elif n > 64: iv = z3.Extract(63, 0, iv)
        return cst(z3.simplify(iv * z3.BitVecVal(size, 64))) if size != 1 else cst(z3.simplify(iv))

    # ------------------------------------------------------------ path conditions
    def assume(self, st, c):
        if c is True: return
        if c is False: raise PathEnd()
        if z3.is_and(c):
            for x in c.children(): self.assume(st, x)
            return
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd()
        st.pc.append(c)
        if st.model is not None:
            try:
                if not z3.is_true(st.model.eval(c, model_completion=True)): st.model = None
            except z3.Z3Exception: st.model = None
        self.close(st, c)
    def close(self, st, c, depth=0, skip=()):
        """instantiate division axioms and universal facts for the new applications in c"""
        for i, a in apps(c).items():
            if i in st.seen: continue
            d = self.defs.get(a.decl().name())
            if d is not None:
                # unfold a specification function where it is used, but not its own unfolding more than once
                if skip.count(a.decl().name()) > self.o.get('unfold', 1): continue
                x = z3.simplify(a == z3.substitute(d[1], (d[0], a.arg(0)))); self.defax[x.get_id()] = x
                st.seen[i] = a
                self.learn(st, x, depth, skip + (a.decl().name(),))
            st.seen[i] = a
            for x in div_axioms(a): self.learn(st, x, depth, skip)
            for f in st.facts:
                if f.key in skip: continue
                for t in f.matches(a): self.instance(st, f, t, depth, skip)
    def instance(self, st, f, t, depth, skip):
        k = (f.key, t if isinstance(t, int) else -1 - t.get_id())
        if k in st.insts: return
        st.insts = st.insts | {k} if False else st.insts
        st.insts[k] = t
        self.learn(st, f.inst(t), depth, skip + (f.key,))
    def learn(self, st, x, depth, skip):
        x = z3.simplify(x)
        if z3.is_true(x): return
        st.pc.append(x); st.model = None
        if depth < 4: self.close(st, x, depth + 1, skip)
    def add_fact(self, st, f):
        for g in st.facts:
            if g is f: return
        st.facts.append(f)
        for a in list(st.seen.values()):
            for t in f.matches(a): self.instance(st, f, t, 0, ())
    def closed(self, st, c):
        """axioms for an expression that is only queried"""
        n0 = len(st.pc); seen0 = None
        a = apps(c)
        if all(i in st.seen for i in a): return []
        seen0 = dict(st.seen); m0 = st.model
        self.close(st, c)
        ex = st.pc[n0:]
        # keep them: they are valid facts
        if not ex: st.model = m0
        return ex
    def feasible(self, st, c):
        if c is True: return True
        if c is False: return False
        self.closed(st, c)
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c, model_completion=True)): return True
            except z3.Z3Exception: pass
        r, m = self.inc.check(st.pc, (c,))
        if r == z3.unsat: return False
        if r == z3.sat: st.model = None; self._lastmodel = m; return True
        self._lastmodel = None
        if solver.index_proof(solver.relevant(st.pc, c), c, 2): return False
        s = z3.Solver(); s.set('timeout', 4000)
        for x in solver.relevant(st.pc, c): s.add(x)
        s.add(c)
        return s.check() != z3.unsat
    def implied(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        self.closed(st, c)
        if st.model is not None:
            try:
                if z3.is_false(st.model.eval(c, model_completion=True)): return False
            except z3.Z3Exception: pass
        r, m = self.inc.check(st.pc, (z3.Not(c),))
        return r == z3.unsat or (r == z3.unknown and solver.index_proof(solver.relevant(st.pc, c), z3.Not(c), 2))
    def decide(self, st, c):
        """True / False if the condition is decided on this path, else None"""
        if isinstance(c, bool): return c
        t = self.feasible(st, c); mt = getattr(self, '_lastmodel', None)
        if not t: return False
        if not self.feasible(st, z3.Not(c)): return True
        return None

    # ------------------------------------------------------------ obligations
    def loc(self, st, inst=None):
        if inst is None:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk]
            inst = ins[min(fr.idx, len(ins) - 1)]
        d = inst.dbg
        return self.dbgloc(d) if d else st.frames[-1].fn.name
    def dbgloc(self, d):
        r = getattr(self.m, '_dl', None)
        if r is None: r = self.m._dl = {}
        x = r.get(d)
        if x: return x
        t = self.m.md.get(d, '')
        line = re.search(r'line: (\d+)', t); sc = re.search(r'scope: (![0-9]+)', t)
        f = self.scopefile(sc.group(1)) if sc else ('?', '?')
        x = '%s:%s (%s)' % (f[0], line.group(1) if line else '?', f[1])
        r[d] = x
        return x
    def scopefile(self, s):
        for _ in range(50):
            t = self.m.md.get(s, '')
            if 'DISubprogram' in t:
                fm = re.search(r'file: (![0-9]+)', t); nm = re.search(r'name: "([^"]*)"', t)
                fn = self.m.md.get(fm.group(1), '') if fm else ''
                q = re.search(r'filename: "([^"]*)"', fn)
                return (q.group(1) if q else '?', nm.group(1) if nm else '?')
            m = re.search(r'scope: (![0-9]+)', t)
            if not m: return ('?', '?')
            s = m.group(1)
        return ('?', '?')
    def note_inline(self, d):
        """collect the functions of /repo that the executed instruction belongs to (through inlining)"""
        sn = getattr(self, '_inl', None)
        if sn is None: sn = self._inl = set()
        while d and d not in sn:
            sn.add(d)
            t = self.m.md.get(d, '')
            sc = re.search(r'scope: (![0-9]+)', t)
            if sc:
                f, n = self.scopefile(sc.group(1))
                if '/repo/' in f or f.startswith('include/nbdl'): self.fns_seen.add('%s:%s' % (f.replace('/repo/', ''), n))
            m = re.search(r'inlinedAt: (![0-9]+)', t)
            d = m.group(1) if m else None

    def oblige(self, st, cond, name, kind, loc=None, fatal=False):
        """cond must hold here; afterwards it is assumed"""
        if isinstance(cond, bool): c = cond
        else:
            c = z3.simplify(cond)
            if z3.is_true(c): c = True
            elif z3.is_false(c): c = False
        if self.suppress:
            if c is True: return
            if c is False: raise PathEnd()
            self.assume(st, c); return
        loc = loc or self.loc(st)
        key = name if kind == 'assert' else '%s @ %s' % (name, loc)
        rec = self.obl.setdefault(key, [0, 0, 0, kind])
        rec[0] += 1
        if c is True:
            rec[1] += 1; rec[2] += 1; self.backends['constant folding'] = self.backends.get('constant folding', 0) + 1
            return
        if c is False:
            r, m = self.inc.check(st.pc)
            if r == z3.unsat: 
                rec[1] += 1; self.backends['z3'] = self.backends.get('z3', 0) + 1; raise PathEnd()
            if r != z3.sat:
                res, be, m, dt = prove(st.pc, z3.BoolVal(False), self.o['budget'])
                if res == 'unsat':
                    rec[1] += 1; self.backends[be] = self.backends.get(be, 0) + 1; raise PathEnd()
                r = z3.sat if res == 'sat' else z3.unknown
            self.fail(st, key, kind, loc, m, 'sat' if r == z3.sat else 'unknown', z3.BoolVal(False))
            raise PathEnd()
        self.closed(st, c)
        nb = self.known_bad.get(key, 0)
        if nb >= 3:        # already refuted on several paths: do not spend the budget again
            self.assume(st, c); return
        res, be, m, dt = prove(st.pc, c, self.o['budget'])
        self.maxsolve = max(self.maxsolve, dt)
        if dt > 5: self.slow.append((key, round(dt, 1)))
        if self.o.get('trace') and dt > 0.3: print('   slow', key, res, be, round(dt, 2), str(c)[:600].replace(chr(10), ' '), flush=True)
        if res == 'unsat':
            rec[1] += 1; self.backends[be] = self.backends.get(be, 0) + 1
        else:
            self.fail(st, key, kind, loc, m, res, c)
        if not self.feasible(st, c): raise PathEnd()
        self.assume(st, c)
    def fail(self, st, key, kind, loc, model, status, cond):
        self.known_bad[key] = self.known_bad.get(key, 0) + 1
        self.failures.append(Failure(key, kind, loc, st, model, status, cond))
        if status == 'sat' and self.t_bad is None: self.t_bad = time.time()

    # ------------------------------------------------------------ memory access
    def obj(self, st, p, n, what):
        if not isinstance(p, Ptr): p = self.toptr(st, p)
        if p.obj == 0:
            self.oblige(st, False, '%s through a null or invalid pointer' % what, 'memory')
        o = st.mem.get(p.obj) or self.gobj(st, p.obj)
        if o is None: self.oblige(st, False, '%s through an invalid pointer' % what, 'memory')
        if not o.alive: self.oblige(st, False, '%s after the end of lifetime of %s' % (what, o.kind), 'memory')
        if o.kind == 'fn': raise Unsupported('access to function memory')
        if what == 'write' and o.ro and o.kind == 'global': self.oblige(st, False, 'write to a constant', 'memory')
        if isinstance(p.off, int) and isinstance(o.size, int) and isinstance(n, int):
            ok = p.off + n <= o.size
            if not ok: self.oblige(st, False, '%s outside %s object' % (what, o.kind), 'memory')
            else: self.oblige(st, True, '%s inside bounds' % what, 'memory')
        else:
            sz = bv(o.size, 64); nn = bv(n, 64)
            self.oblige(st, z3.And(z3.ULE(nn, sz), z3.ULE(bv(p.off, 64), sz - nn)), '%s inside bounds' % what, 'memory')
        return o, p

    def byte(self, st, o, k, w=None):
        """byte k of a cell-mode object"""
        c = o.cells.get(k)
        if c is not None and c[0] == 1: 
            v = c[1]
            if isinstance(v, (Ptr, Fp)): raise Unsupported('byte of pointer')
            return v
        for back in range(0, 17):
            c = o.cells.get(k - back)
            if c is not None:
                if c[0] > back:
                    v = c[1]
                    if isinstance(v, Ptr):
                        if v.obj == 0 and isinstance(v.off, int): return (v.off >> (8 * back)) & 0xFF
                        return ('pb', v, back)
                    if isinstance(v, Fp):
                        if v.ty not in ('double', 'float'): return ('fb', v, back)
                        v = v.asbits()
                    if isinstance(v, tuple): return v
                    if isinstance(v, int): return (v >> (8 * back)) & 0xFF
                    return cst(z3.simplify(z3.Extract(8 * back + 7, 8 * back, v)))
                # smaller cell in front: keep looking (cells never overlap)
                if c[0] + (k - back) <= k: pass
        # uninitialised
        v = z3.BitVec(fresh_name('uninit'), 8)
        o2 = st.wobj(o.id); o2.cells[k] = (1, v)
        if o2 is not o: o.cells = dict(o.cells) if False else o.cells
        return v

    def load_n(self, st, p, n, ty):
        o, p = self.obj(st, p, n, 'read')
        t = self.m.resolve(ty)
        if o.arr is not None:
            bs = [o.arr.read(self, add64(p.off, i)) for i in range(n)]
            if t[0] == 'ptr' : 
                if all(isinstance(x, int) and x == 0 for x in bs): return NULL
                raise Unsupported('pointer load from byte array')
            return self.join(bs)
        if isinstance(p.off, int): return self.load_cell(st, o, p.off, n, t)
        return self.load_sym(st, o, p, n, t)
    def join(self, bs):
        if len(bs) == 1: return bs[0]
        if all(isinstance(x, int) for x in bs):
            r = 0
            for i, x in enumerate(bs): r |= x << (8 * i)
            return r
        if any(isinstance(x, tuple) for x in bs):
            # whole pointer or float copied bytewise
            x = bs[0]
            if isinstance(x, tuple) and all(isinstance(y, tuple) and y[0] == x[0] and y[1] is x[1] and y[2] == i for i, y in enumerate(bs)): return x[1]
            raise Unsupported('partial pointer bytes')
        return cst(z3.simplify(z3.Concat(*[bv(x, 8) for x in reversed(bs)])))
    def load_cell(self, st, o, off, n, t):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if t[0] == 'ptr' and not isinstance(v, Ptr): return self.toptr(st, v)
            if t[0] == 'fp' and not isinstance(v, Fp):
                if isinstance(v, int):
                    import struct
                    return Fp(struct.unpack('<d' if n == 8 else '<f', v.to_bytes(n, 'little'))[0], t[1])
                return Fp(None, t[1], v if not isinstance(v, (Ptr, tuple)) and v is not UNDEF else None)
            if t[0] == 'i' and isinstance(v, Fp): return v.asbits()
            return v
        # no cell at all in the range: one fresh value
        if not any(k in o.cells for k in range(off - 15, off + n)) :
            if t[0] == 'ptr': v = Ptr(0, z3.BitVec(fresh_name('uninitp'), 64))
            elif t[0] == 'fp': v = Fp(None, t[1])
            else: v = z3.BitVec(fresh_name('uninit'), 8 * n)
            st.wobj(o.id).cells[off] = (n, v)
            return v
        bs = [self.byte(st, st.mem[o.id], off + i) for i in range(n)]
        v = self.join(bs)
        if t[0] == 'ptr' and not isinstance(v, Ptr): return self.toptr(st, v)
        if t[0] == 'fp' and not isinstance(v, Fp): return self.asfp(v, t[1])
        return v
    def asfp(self, v, ty):
        import struct
        if isinstance(v, int): return Fp(struct.unpack('<d' if ty == 'double' else '<f', v.to_bytes(8 if ty == 'double' else 4, 'little'))[0], ty) if ty in ('double', 'float') else Fp(None, ty)
        return Fp(None, ty, None if isinstance(v, (Ptr, tuple)) else v)
    def sym_offsets(self, st, o, p, n):
        """(k, d): the offset is congruent d modulo 2^k"""
        k = 0
        while k < 6:
            e = z3.simplify(z3.Extract(k, 0, p.off))
            if not z3.is_bv_value(e): break
            k += 1
        d = z3.simplify(z3.Extract(k - 1, 0, p.off)).as_long() if k else 0
        return k, d
    def load_sym(self, st, o, p, n, t):
        k, d = self.sym_offsets(st, o, p, n)
        step = 1 << k
        cand = list(range(d, o.size - n + 1, step))
        if o.size <= 64 and len(cand) > 2 and not o.ro and any(c[0] > n for c in o.cells.values()):
            lo, hi = self.offset_range(st, o, p.off, n); cand = [c for c in cand if lo <= c <= hi]
            if cand: d = cand[0]
        if len(cand) <= 4096 and t[0] == 'i':
            try:
                vals = []; junk = None
                for c in cand:
                    try: v = self.load_cell(st, st.mem[o.id], c, n, t)
                    except Unsupported: v = NULL
                    if isinstance(v, (Ptr, Fp, tuple)):
                        if self.feasible(st, p.off == bv(c, 64)): vals = None; break
                        v = None
                    vals.append(v)
                if vals is not None and any(v is not None for v in vals):
                    first = next(v for v in vals if v is not None)
                    for i in range(len(vals)):
                        if vals[i] is None: vals[i] = vals[i - 1] if i and vals[i - 1] is not None else first
                    idx = z3.simplify(z3.LShR(p.off - bv(d, 64), k)) if k else z3.simplify(p.off - bv(d, 64))
                    if o.ro and len(vals) >= 32 and all(isinstance(v, int) for v in vals):
                        # constant table: a function symbol, defined only where a proof needs it
                        ib = max(1, (len(vals) - 1).bit_length())
                        nm = 'T_%s_%d_%d' % (o.name, d, n)
                        if nm not in TABLES: TABLES[nm] = (z3.Function(nm, z3.BitVecSort(ib), z3.BitVecSort(8 * n)), vals, 8 * n)
                        return TABLES[nm][0](z3.simplify(z3.Extract(ib - 1, 0, idx)))
                    r = mux(vals, idx, 8 * n)
                    return r if isinstance(r, int) else cst(z3.simplify(r))
            except Unsupported: pass
        raise Fork(self.enum(st, p.off, 70))
    def enum(self, st, e, limit):
        """conditions e == v for every feasible v"""
        self.closed(st, e)
        out = []; ex = []
        while True:
            r, m = self.inc.check(st.pc, tuple(ex))
            if r == z3.unsat: break
            if r != z3.sat or len(out) >= limit: raise Unsupported('cannot enumerate the values of an address')
            v = m.eval(e, model_completion=True)
            out.append(e == v); ex.append(e != v)
        if not out: raise PathEnd()
        return out

    def load(self, st, ty, p):
        t = self.m.resolve(ty)
        if t[0] == 'struct':
            p = self.toptr(st, p)
            return [self.load(st, e, Ptr(p.obj, add64(p.off, self.m.field_off(t, i)))) for i, e in enumerate(t[1])]
        if t[0] in ('array', 'vec'):
            p = self.toptr(st, p); es = self.m.sizeof(t[2])
            return [self.load(st, t[2], Ptr(p.obj, add64(p.off, i * es))) for i in range(t[1])]
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            v = self.load_n(st, p, n, t)
            if t[1] % 8 and not isinstance(v, (Ptr, Fp)):
                v = mask(v, t[1]) if isinstance(v, int) else cst(z3.simplify(z3.Extract(t[1] - 1, 0, v)))
            return v
        return self.load_n(st, p, self.m.sizeof(t), t)

    def clear(self, o, off, n, st):
        """remove the cells overlapping [off, off+n), splitting partial ones"""
        cells = o.cells
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is None or k + c[0] <= off: continue
            del cells[k]
            if k < off or k + c[0] > off + n:
                v = c[1]
                for j in range(c[0]):
                    if off <= k + j < off + n: continue
                    if isinstance(v, (Ptr, Fp)): b = ('pb', v, j) if isinstance(v, Ptr) else ('fb', v, j)
                    elif isinstance(v, int): b = (v >> (8 * j)) & 0xFF
                    else: b = cst(z3.simplify(z3.Extract(8 * j + 7, 8 * j, v)))
                    cells[k + j] = (1, b)
    def store(self, st, ty, v, p):
        t = self.m.resolve(ty)
        if t[0] == 'struct':
            p = self.toptr(st, p)
            for i, e in enumerate(t[1]): self.store(st, e, v[i], Ptr(p.obj, add64(p.off, self.m.field_off(t, i))))
            return
        if t[0] in ('array', 'vec'):
            p = self.toptr(st, p); es = self.m.sizeof(t[2])
            for i in range(t[1]): self.store(st, t[2], v[i], Ptr(p.obj, add64(p.off, i * es)))
            return
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            if t[1] % 8 and not isinstance(v, (Ptr, Fp)) and v is not UNDEF: v = v if isinstance(v, int) else cst(z3.simplify(z3.ZeroExt(8 * n - t[1], v)))
        else: n = self.m.sizeof(t)
        self.store_n(st, p, n, v)
    def store_n(self, st, p, n, v):
        o, p = self.obj(st, p, n, 'write')
        if v is UNDEF: v = z3.BitVec(fresh_name('undef'), 8 * n)
        o = st.wobj(o.id)
        if o.arr is not None:
            if isinstance(v, Ptr): v = self.num(st, v, 64)
            if isinstance(v, Fp): raise Unsupported('fp store to byte array')
            for i in range(n):
                b = (v >> (8 * i)) & 0xFF if isinstance(v, int) else (v if n == 1 else cst(z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))))
                if st.wlog is not None: st.wlog.append(('a', o.id, add64(p.off, i), b, len(st.pc)))
                o.arr = AStore(o.arr, add64(p.off, i), b)
            return
        if isinstance(p.off, int):
            if st.wlog is not None: st.wlog.append(('c', o.id, p.off, n))
            c = o.cells.get(p.off)
            if c is None or c[0] != n: self.clear(o, p.off, n, st)
            o.cells[p.off] = (n, v)
            return
        # symbolic offset in a small object
        if isinstance(v, (Ptr, Fp)): raise Fork(self.enum(st, p.off, 40))
        if o.size > 600: raise Fork(self.enum(st, p.off, 40))
        bs = [(v >> (8 * i)) & 0xFF if isinstance(v, int) else cst(z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))) for i in range(n)]
        self.sym_update(st, o, p.off, n, lambda j_expr, k: None, bs)
    def offset_range(self, st, o, off, n):
        """(lo, hi): smallest interval around the feasible offsets"""
        key = ('range', o.size - n, off.get_id())
        r = st.ghost.get(key)
        if r is not None: return r[0], r[1]
        top = o.size - n
        def search(lo, hi, test, up):
            while lo < hi:
                mid = (lo + hi + (0 if up else 1)) // 2
                if self.feasible(st, test(mid)):
                    if up: hi = mid
                    else: lo = mid
                elif up: lo = mid + 1
                else: hi = mid - 1
            return lo
        lo = search(0, top, lambda v: z3.ULE(off, bv(v, 64)), True)
        hi = search(lo, top, lambda v: z3.UGE(off, bv(v, 64)), False)
        st.ghost[key] = (lo, hi, off)
        return lo, hi
    def sym_update(self, st, o, off, n, fn, bs):
        k, d = self.sym_offsets(st, o, Ptr(o.id, off), n)
        step = 1 << k
        lo, hi = 0, o.size
        if any(c[0] > n for c in o.cells.values()): lo, hi = self.offset_range(st, o, off, n)
        # bytes that may be hit
        for pos in range(o.size):
            conds = []
            for i in range(n):
                q = pos - i
                if q < lo or q > hi or q + n > o.size or (q - d) % step: continue
                conds.append((q, i))
            if not conds: continue
            c = z3.Or([off == bv(q, 64) for q, _ in conds])
            old = self.byte(st, o, pos)
            o = st.wobj(o.id)
            if isinstance(old, tuple):
                if self.feasible(st, c): raise Fork(self.enum(st, off, 40))
                continue
            new = old
            for q, i in conds: new = ite(simp_b(off == bv(q, 64)), bs[i], new, 8)
            if st.wlog is not None: st.wlog.append(('c', o.id, pos, 1))
            self.clear(o, pos, 1, st)
            o.cells[pos] = (1, new)

    def new_obj(self, st, kind, name, size):
        i = st.next_id[0]; st.next_id[0] += 1
        o = Obj(i, kind, name, size)
        if not isinstance(size, int) or size > 65536: o.arr = ABase(name)
        st.mem[i] = o; st.owned.add(i)
        return o

    def view(self, st, o):
        """the content of an object as a byte array"""
        if o.arr is not None: return o.arr
        return ACells([self.byte(st, st.mem[o.id], i) for i in range(o.size)])

    def memset(self, st, p, v, n):
        if isinstance(n, int) and n == 0: return
        if not isinstance(n, int) :
            d = self.decide_zero(st, n)
            if d == 0: return
        o, p = self.obj(st, p, n, 'write')
        o = st.wobj(o.id)
        if v is UNDEF: v = z3.BitVec(fresh_name('undef'), 8)
        if o.arr is not None:
            if st.wlog is not None: st.wlog.append(('r', o.id))
            o.arr = ASet(o.arr, p.off, n, v); return
        if isinstance(n, int) and isinstance(p.off, int):
            if st.wlog is not None: st.wlog.append(('c', o.id, p.off, n))
            self.clear(o, p.off, n, st)
            # use word cells for pointers set to null etc.
            i = 0
            while i < n:
                if isinstance(v, int) and (p.off + i) % 8 == 0 and n - i >= 8:
                    o.cells[p.off + i] = (8, v * 0x0101010101010101); i += 8
                else: o.cells[p.off + i] = (1, v); i += 1
            return
        src = None
        self.sym_range(st, o, p.off, n, lambda j: v)
    def decide_zero(self, st, n):
        c = n == z3.BitVecVal(0, 64)
        if not self.feasible(st, c): return 1
        if not self.feasible(st, z3.Not(c)): return 0
        raise Fork([c, z3.Not(c)])
    def sym_range(self, st, o, off, n, fn):
        """o[off+j] = fn(j) for j<n in a small cell-mode object"""
        if o.size > 600: raise Unsupported('symbolic range write to a large object')
        last = None
        if isinstance(off, int) and off <= o.size:
            # j < n is possible up to some j only
            lo, hi = 0, o.size - off
            while lo < hi:
                mid = (lo + hi) // 2
                c = simp_b(z3.ULT(bv(mid, 64), bv(n, 64)))
                if c is True or (c is not False and self.feasible(st, c)): lo = mid + 1
                else: hi = mid
            last = off + lo
        for pos in range(o.size):
            if last is not None and not off <= pos < last: continue
            j = sub64(pos, off)
            c = simp_b(z3.ULT(bv(j, 64), bv(n, 64)))
            if c is False: continue
            old = self.byte(st, st.mem[o.id], pos)
            o = st.wobj(o.id)
            if isinstance(old, tuple):
                if c is True or self.feasible(st, c): raise Unsupported('symbolic range write over a pointer')
                continue
            if last is None and c is not True and not self.feasible(st, c): continue
            new = ite(c, fn(j), old, 8)
            if st.wlog is not None: st.wlog.append(('c', o.id, pos, 1))
            self.clear(o, pos, 1, st); o.cells[pos] = (1, new)
    def memcpy(self, st, dp, sp, n):
        if isinstance(n, int) and n == 0: return
        if not isinstance(n, int):
            if self.decide_zero(st, n) == 0: return
        so, sp = self.obj(st, sp, n, 'read')
        do, dp = self.obj(st, dp, n, 'write')
        do = st.wobj(do.id)
        so = st.mem[so.id]
        if do.arr is not None:
            src = self.view(st, so)
            if st.wlog is not None: st.wlog.append(('r', do.id))
            do.arr = ACopy(do.arr, dp.off, n, src, sp.off); return
        if isinstance(n, int) and isinstance(dp.off, int):
            if so.arr is None and isinstance(sp.off, int):
                # cell copy
                a, b = sp.off, sp.off + n
                new = []
                k = a
                for q in sorted(x for x in so.cells if a - 15 <= x < b):
                    c = so.cells[q]
                    if q + c[0] <= a: continue
                    if q >= a and q + c[0] <= b: new.append((q, c))
                    else:
                        for j in range(c[0]):
                            if a <= q + j < b: new.append((q + j, (1, self.byte(st, so, q + j))))
                if st.wlog is not None: st.wlog.append(('c', do.id, dp.off, n))
                self.clear(do, dp.off, n, st)
                for q, c in new: do.cells[q - a + dp.off] = c
                return
            src = self.view(st, so)
            do = st.wobj(do.id)
            bs = [src.read(self, add64(sp.off, i)) for i in range(n)]
            if st.wlog is not None: st.wlog.append(('c', do.id, dp.off, n))
            self.clear(do, dp.off, n, st)
            for i, b in enumerate(bs): do.cells[dp.off + i] = (1, b)
            return
        if isinstance(n, int) and n <= 8 and so.arr is None:
            raise Fork(self.enum(st, dp.off, 40))
        src = self.view(st, so)
        self.sym_range(st, do, dp.off, n, lambda j: src.read(self, add64(sp.off, j)))

    def subst_read(self, e, nsym, m):
        if isinstance(e, int): return e
        return cst(z3.simplify(z3.substitute(e, (nsym, bv(m, 64)))))

    # ------------------------------------------------------------ execution
    def start(self):
        fn = self.m.function(self.entry)
        if fn is None: raise Unsupported('no contract function ' + self.entry)
        st = State()
        fr = Frame(); fr.fn = fn; fr.env = {}; fr.blk = fn.entry; fr.idx = 0; fr.prev = None; fr.call = None; fr.allocas = []; fr.modes = {}
        st.frames.append(fr)
        return st
    def verify(self):
        # run static constructors that the optimiser left is not needed: contracts use constexpr objects only
        self.run([self.start()], None)

    def run(self, states, watch):
        """explore; returns [(kind, state)] of the states that reached the back edge or left the watched loop"""
        work = list(states); out = []
        while work:
            if self.t_bad is not None and time.time() - self.t_bad > self.o['after_refuted']: self.stopped = True; raise Stopped()
            if time.time() - self.t0 > self.o['timeout']: raise Unsupported('time limit of the symbolic execution')
            st = work.pop()
            self.nexec += 1
            if self.nexec > self.o['maxpaths']: raise Unsupported('path limit')
            r = self.exec_path(st, watch, work)
            if r is not None: out.append(r)
        return out

    def fork_on(self, st, conds, work):
        """keep the feasible alternatives; st continues with the last one"""
        feas = []
        for c in conds:
            if c is True: feas.append(c)
            elif c is not False and self.feasible(st, c): feas.append(c)
        return feas

    def exec_path(self, st, watch, work):
        m = self.m
        try:
            while True:
                fr = st.frames[-1]
                ins = fr.fn.blocks[fr.blk]
                # straight-line part
                i = fr.idx; n = len(ins)
                while i < n:
                    I = ins[i]
                    fr.idx = i
                    op = I.op
                    self.instrs += 1
                    if I.dbg is not None: self.note_inline(I.dbg)
                    if op == 'phi':
                        i = self.do_phis(st, fr, ins); continue
                    h = SIMPLE.get(op)
                    if h is not None:
                        try:
                            fr.env[I.res] = h(self, st, I)
                        except Fork as f:
                            return self.refork(st, f, watch, work)
                        i += 1; continue
                    if op == 'store':
                        try: self.store(st, I.ty, self.val(st, I.ty, I.a[0]), self.val(st, PTR, I.a[1]))
                        except Fork as f: return self.refork(st, f, watch, work)
                        i += 1; continue
                    break
                # control flow or call
                op = I.op
                if op in ('call', 'invoke'):
                    if (self.instrs & 0xFF) == 0 and time.time() - self.t0 > self.o['timeout']: raise Unsupported('time limit of the symbolic execution')
                    try: r = self.do_call(st, fr, I, work)
                    except Fork as f: return self.refork(st, f, watch, work)
                    if r == 'done': return None
                    if r == 'next':
                        fr = st.frames[-1]
                        if op == 'call': fr.idx = i + 1
                        else:
                            rr = self.goto(st, I.a[2], watch, work)
                            if rr is not None: return rr if rr != 'stop' else None
                    elif r == 'thrown':
                        rr = self.unwind(st, watch, work)
                        if rr is not None: return rr if rr != 'stop' else None
                    continue
                if op == 'ret':
                    v = self.val(st, I.ty, I.a[0]) if I.a[0] is not None else None
                    for a in fr.allocas:
                        if a in st.mem: st.wobj(a).alive = False
                    st.frames.pop()
                    if not st.frames:
                        self.paths += 0 if self.suppress else 1
                        return None
                    pf = st.frames[-1]; C = fr.call
                    if C.res is not None: pf.env[C.res] = v
                    if watch is not None and len(st.frames) < watch[0]:
                        if C.op == 'call': pf.idx += 1
                        else:
                            pf.prev = pf.blk; pf.blk = C.a[2]; pf.idx = 0
                            if pf.blk in pf.fn.loops: raise Unsupported('loop header after return out of a loop')
                        return ('exit', st)
                    if C.op == 'call': pf.idx += 1
                    else:
                        rr = self.goto(st, C.a[2], watch, work)
                        if rr is not None: return rr if rr != 'stop' else None
                    continue
                if op == 'br':
                    if len(I.a) == 1: tgt = I.a[0]
                    else:
                        c = self.i2b(self.val(st, ('i', 1), I.a[0]))
                        if isinstance(c, bool): tgt = I.a[1] if c else I.a[2]
                        else:
                            ft = self.feasible(st, c); nc = z3.Not(c)
                            ff = self.feasible(st, nc) if ft else True
                            if ft and ff:
                                s2 = st.fork()
                                try:
                                    self.assume(s2, nc)
                                    self.push_goto(s2, I.a[2], watch, work)
                                except PathEnd: pass
                                self.assume(st, c); tgt = I.a[1]
                            elif ft:
                                self.assume_implied(st, c); tgt = I.a[1]
                            else:
                                self.assume_implied(st, nc); tgt = I.a[2]
                    rr = self.goto(st, tgt, watch, work)
                    if rr is not None: return rr if rr != 'stop' else None
                    continue
                if op == 'switch':
                    v = self.val(st, I.ty, I.a[0]); bits = I.ty[1]
                    v = self.num(st, v, bits)
                    if isinstance(v, int):
                        tgt = I.a[1]
                        for cv, b in I.a[2]:
                            if mask(cv[1], bits) == v: tgt = b; break
                    else:
                        alts = []
                        byblk = {}
                        for cv, b in I.a[2]: byblk.setdefault(b, []).append(v == bv(mask(cv[1], bits), bits))
                        dc = z3.And([z3.Not(x) for l in byblk.values() for x in l])
                        for b, l in byblk.items():
                            if b != I.a[1]: alts.append((l[0] if len(l) == 1 else z3.Or(l), b))
                            else: dc = z3.Or([dc] + l)
                        alts.append((dc, I.a[1]))
                        alts = [(c, b) for c, b in alts if self.feasible(st, c)]
                        if not alts: return None
                        for c, b in alts[:-1]:
                            s2 = st.fork()
                            try:
                                self.assume(s2, c); self.push_goto(s2, b, watch, work)
                            except PathEnd: pass
                        self.assume(st, alts[-1][0]); tgt = alts[-1][1]
                    rr = self.goto(st, tgt, watch, work)
                    if rr is not None: return rr if rr != 'stop' else None
                    continue
                if op == 'unreachable':
                    self.oblige(st, False, 'unreachable code is not reached', 'ub'); return None
                if op == 'resume':
                    rr = self.unwind(st, watch, work, resume=True)
                    if rr is not None: return rr if rr != 'stop' else None
                    continue
                raise Unsupported('instruction %s' % op)
        except PathEnd:
            return None

    def assume_implied(self, st, c):
        # keep the simplified knowledge: cheap and helps syntactic decisions later
        self.assume(st, c)

    def refork(self, st, f, watch, work):
        feas = [c for c in f.alts if c is not False and (c is True or self.feasible(st, c))]
        for c in feas:
            s2 = st.fork()
            try: self.assume(s2, c)
            except PathEnd: continue
            work.append(s2)
        return None

    def do_phis(self, st, fr, ins):
        vals = []; i = 0
        while i < len(ins) and ins[i].op == 'phi':
            I = ins[i]
            for v, b in I.a[0]:
                if b == fr.prev: vals.append((I.res, self.val(st, I.ty, v))); break
            else: raise Unsupported('phi without edge')
            i += 1
        for r, v in vals: fr.env[r] = v
        fr.idx = i
        return i

    def push_goto(self, st, tgt, watch, work):
        """like goto but the state is put on the work list (marked so that loops are handled when popped)"""
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.blk]
        # represent by a pending jump
        st.ghost['_jump'] = tgt
        work.append(JumpState(self, st, tgt))

    def goto(self, st, tgt, watch, work):
        fr = st.frames[-1]
        fr.prev = fr.blk
        src = fr.blk
        fr.blk = tgt; fr.idx = 0
        if watch is not None and len(st.frames) == watch[0]:
            if tgt == watch[1]: return ('back', st)
            if tgt not in watch[2]: return ('exit', st)
        loops = fr.fn.loops
        if tgt in loops and src not in loops[tgt]:
            exits = self.handle_loop(st, fr.fn, tgt)
            for e in exits: 
                r = self.after_loop_exit(e, watch, work)
            return 'stop'
        return None

    def after_loop_exit(self, e, watch, work):
        """an exit state of an inner loop sits at the first instruction of its exit block; it may at the same time leave the outer loop"""
        work.append(ExitState(self, e))

    # exit/jump states are resolved when they are popped
    def resume_jump(self, st, tgt, watch, work): return self.goto(st, tgt, watch, work)

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, I, work):
        callee = I.a[0]
        if callee[0] == 'asm':
            if callee[1] in ('""',) : 
                if I.res is not None: raise Unsupported('asm')
                return 'next'
            raise Unsupported('inline asm')
        if callee[0] == 'global': name = callee[1]
        else:
            p = self.val(st, PTR, callee)
            p = self.toptr(st, p)
            if p.obj == 0:
                self.oblige(st, False, 'call through a null or invalid function pointer', 'memory')
            name = self.gnames.get(p.obj)
            if name is None or (isinstance(p.off, int) and p.off != 0): raise Unsupported('indirect call')
        while name in self.m.aliases:
            a = self.m.aliases[name]
            if a[0] != 'global': break
            name = a[1]
        b = self.builtins.get(name)
        if b is None and name.startswith('llvm.'): b = llvm_builtin(name)
        if b is None and name not in self.m.fns:
            b = pattern_builtin(name)
        if b is not None:
            args = [self.val(st, t if t[0] != 'byval' else PTR, v) if v is not None else None for t, v in I.a[1]]
            r = b(self, st, args, I)
            if r is THROWN: return 'thrown'
            if r is not FALLBACK:
                if I.res is not None: fr.env[I.res] = r
                return 'next'
        fn = self.m.function(name)
        if fn is None: fn = self.m.function('irvm_' + name)      # model of a C library function, part of the contract unit
        if fn is None: raise Unsupported('call of external function ' + name)
        if len(st.frames) > 400: raise Unsupported('call depth')
        nf = Frame(); nf.fn = fn; nf.env = {}; nf.blk = fn.entry; nf.idx = 0; nf.prev = None; nf.call = I; nf.allocas = []; nf.modes = {}
        args = I.a[1]
        for k, (pt, pn) in enumerate(fn.params):
            at, av = args[k]
            v = self.val(st, at if at[0] != 'byval' else PTR, av)
            if at[0] == 'byval':
                sz = self.m.sizeof(at[1]); o = self.new_obj(st, 'stack', 'byval', sz); nf.allocas.append(o.id)
                self.memcpy(st, Ptr(o.id, 0), v, sz); v = Ptr(o.id, 0)
            nf.env[pn] = v
        st.frames.append(nf)
        if fn.entry in fn.loops: raise Unsupported('entry block is a loop header')
        return 'entered'

    # ------------------------------------------------------------ exceptions
    def unwind(self, st, watch, work, resume=False):
        """st.exc = (Ptr to object, typeinfo global name, dtor)"""
        first = True
        while st.frames:
            fr = st.frames[-1]
            I = fr.fn.blocks[fr.blk][fr.idx]
            if I.op == 'invoke' and not (first and resume):
                tgt = I.a[3]
                rr = self.goto(st, tgt, watch, work)
                return rr if rr is not None else None
            if 'nounwind' in fr.fn.attrs and False: pass
            for a in fr.allocas:
                if a in st.mem: st.wobj(a).alive = False
            st.frames.pop(); first = False
            if watch is not None and len(st.frames) < watch[0]: raise Unsupported('exception leaves a loop')
        # uncaught
        st.frames.append(fr)
        self.oblige(st, False, 'no uncaught exception leaves the contract', 'exception')

    def typeinfo_bases(self, name):
        out = [name]
        g = self.m.globals.get(name)
        if g and g[1] and g[1][0] == 'agg':
            for t, v in g[1][1][2:]:
                if v[0] == 'global' and v[1].startswith('_ZTI'): out += self.typeinfo_bases(v[1])
        return out

THROWN = object()
FALLBACK = object()

class JumpState:
    """a state that still has to take a jump (so that loop handling happens lazily)"""
    def __init__(self, eng, st, tgt): self.st = st; self.tgt = tgt
class ExitState:
    def __init__(self, eng, st): self.st = st

def _exec_path(self, st, watch, work):
    if isinstance(st, JumpState):
        s = st.st
        try: rr = self.goto(s, st.tgt, watch, work)
        except PathEnd: return None
        if rr is not None: return rr if rr != 'stop' else None
        return Engine._exec_path0(self, s, watch, work)
    if isinstance(st, ExitState):
        s = st.st; fr = s.frames[-1]
        if watch is not None:
            if len(s.frames) < watch[0]: return ('exit', s)
            if len(s.frames) == watch[0] and fr.idx == 0 and fr.blk not in watch[2]: return ('exit', s)
            if len(s.frames) == watch[0] and fr.idx == 0 and fr.blk == watch[1]: return ('back', s)
        if fr.idx == 0 and fr.blk in fr.fn.loops and fr.prev is not None and fr.prev not in fr.fn.loops[fr.blk]:
            try: exits = self.handle_loop(s, fr.fn, fr.blk)
            except PathEnd: return None
            for e in exits: work.append(ExitState(self, e))
            return None
        return Engine._exec_path0(self, s, watch, work)
    return Engine._exec_path0(self, st, watch, work)
Engine._exec_path0 = Engine.exec_path
Engine.exec_path = _exec_path

# ---------------------------------------------------------------- simple instructions
def _bin(e, st, I): return e.binop(I.op, I.ty, e.val(st, I.ty, I.a[0]), e.val(st, I.ty, I.a[1]), st)
def _icmp(e, st, I):
    a = e.val(st, I.ty, I.a[1]); b = e.val(st, I.ty, I.a[2])
    return e.icmp(I.a[0], I.ty, a, b, st)
def _alloca(e, st, I):
    n = 1
    if I.a[0] is not None:
        n = e.val(st, *I.a[0])
    size = e.m.sizeof(I.ty)
    if not isinstance(n, int): raise Unsupported('variable length array')
    o = e.new_obj(st, 'stack', I.res or 'alloca', size * n)
    st.frames[-1].allocas.append(o.id)
    return Ptr(o.id, 0)
def _load(e, st, I): return e.load(st, I.ty, e.val(st, PTR, I.a[0]))
def _gep(e, st, I):
    b = e.val(st, PTR, I.a[0])
    if isinstance(b, list): raise Unsupported('vector gep')
    return e.gep(I.ty, b, [(t, e.val(st, t, v)) for t, v in I.a[1]], st)
def _select(e, st, I):
    c = e.val(st, ('i', 1), I.a[0])
    if isinstance(c, list): 
        a = e.val(st, I.ty, I.a[1]); b = e.val(st, I.ty, I.a[2])
        n = e.m.resolve(I.ty)[2][1]
        return [ite(e.i2b(x), y, z, n) for x, y, z in zip(c, a, b)]
    c = e.i2b(c)
    a = e.val(st, I.ty, I.a[1]); b = e.val(st, I.ty, I.a[2])
    if c is True: return a
    if c is False: return b
    if a is b: return a
    t = e.m.resolve(I.ty)
    if t[0] == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
        a2 = e.toptr(st, a); b2 = e.toptr(st, b)
        if a2.obj == b2.obj:
            return Ptr(a2.obj, ite(c, a2.off, b2.off, 64))
        ft = e.feasible(st, c)
        if not ft: return b
        if not e.feasible(st, z3.Not(c)): return a
        raise Fork([c, z3.Not(c)])
    if t[0] == 'i':
        n = t[1]
        a = e.num(st, a, n); b = e.num(st, b, n)
        if n == 1:
            x = e.i2b(a); y = e.i2b(b)
            x = z3.BoolVal(x) if isinstance(x, bool) else x
            y = z3.BoolVal(y) if isinstance(y, bool) else y
            return e.b2i(z3.If(c, x, y))
        return ite(c, a, b, n)
    ft = e.feasible(st, c)
    if not ft: return b
    if not e.feasible(st, z3.Not(c)): return a
    raise Fork([c, z3.Not(c)])
def _cast(e, st, I): return e.cast(I.op, I.a[0], e.val(st, I.a[0], I.a[1]), I.ty, st)
def _ev(e, st, I):
    v = e.val(st, I.ty, I.a[0])
    for i in I.a[1]: v = UNDEF if v is UNDEF else v[i]
    return v
def _iv(e, st, I):
    v = e.val(st, I.ty, I.a[0]); w = I.a[1]
    def put(x, ix):
        x = list(x)
        if len(ix) == 1: x[ix[0]] = neww
        else: x[ix[0]] = put(x[ix[0]], ix[1:])
        return x
    # type of the inserted value
    t = e.m.resolve(I.ty)
    for i in I.a[2]: t = e.m.resolve(t[1][i] if t[0] == 'struct' else t[2])
    neww = e.val(st, t, w)
    return put(v, I.a[2])
def _freeze(e, st, I):
    v = e.val(st, I.ty, I.a[0])
    if v is UNDEF and I.ty[0] == 'i': return z3.BitVec(fresh_name('undef'), I.ty[1])
    return v
def _landing(e, st, I):
    exc, ti, dtor = st.exc
    sel = 0
    names = e.typeinfo_bases(ti) if ti else []
    for kind, c in I.a[1]:
        if kind == 'catch':
            if c[0] in ('null', 'zero'): sel = e.typeid('catch-all'); break
            if c[0] == 'global' and c[1] in names: sel = e.typeid(c[1]); break
    return [exc, sel]
def _typeid(self, name):
    d = getattr(self, '_tids', None)
    if d is None: d = self._tids = {}
    return d.setdefault(name, len(d) + 1)
Engine.typeid = _typeid
def _rmw(e, st, I):
    op, p, v = I.a
    p = e.val(st, PTR, p); v = e.val(st, I.ty, v)
    old = e.load(st, I.ty, p)
    if op == 'xchg': new = v
    else: new = e.binop({'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor'}[op], I.ty, old, v, st)
    e.store(st, I.ty, new, p)
    return old
def _cmpx(e, st, I):
    p, c, n = I.a
    p = e.val(st, PTR, p); c = e.val(st, I.ty, c); n = e.val(st, I.ty, n)
    old = e.load(st, I.ty, p)
    r = e.icmp('eq', I.ty, old, c, st)
    b = e.i2b(r)
    if not isinstance(b, bool):
        raise Fork([b, z3.Not(b)]) if e.decide(st, b) is None else Unsupported('cmpxchg')
    if b: e.store(st, I.ty, n, p)
    return [old, int(b)]
def _ee(e, st, I):
    v = e.val(st, I.ty, I.a[0]); i = e.val(st, ('i', 64), I.a[1]); return v[i]
def _ie(e, st, I):
    v = list(e.val(st, I.ty, I.a[0])); i = e.val(st, ('i', 64), I.a[2]); v[i] = e.val(st, e.m.resolve(I.ty)[2], I.a[1]); return v
def _sv(e, st, I):
    a = e.val(st, I.ty, I.a[0]); b = e.val(st, I.ty, I.a[1])
    a = list(a) if isinstance(a, list) else [UNDEF] * I.ty[1]
    b = list(b) if isinstance(b, list) else [UNDEF] * I.ty[1]
    ab = a + b; mk = I.a[3]
    if mk[0] == 'zero': ix = [0] * I.a[2][1]
    elif mk[0] == 'undef': ix = [0] * I.a[2][1]
    else: ix = [x[1][1] if x[1][0] == 'const' else 0 for x in mk[1]]
    return [ab[i] for i in ix]
def _fbin(e, st, I):
    a = e.val(st, I.ty, I.a[0]); b = e.val(st, I.ty, I.a[1])
    if a.v is None or b.v is None: return Fp(None, a.ty)
    try: return Fp({'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y, 'fdiv': lambda x, y: x / y}[I.op](a.v, b.v), a.ty)
    except ZeroDivisionError: return Fp(None, a.ty)
def _fcmp(e, st, I):
    a = e.val(st, I.ty, I.a[1]); b = e.val(st, I.ty, I.a[2]); p = I.a[0]
    if a.v is None or b.v is None:
        if a.ty not in ('double', 'float'): return z3.BitVec(fresh_name('fcmp'), 1)
        n, m = (64, 52) if a.ty == 'double' else (32, 23)
        x, y = bv(a.asbits(), n), bv(b.asbits(), n)
        sign = 1 << (n - 1); inf = ((1 << (n - 1 - m)) - 1) << m
        mag = lambda z: z & bv(sign - 1, n)
        nan = z3.Or(z3.UGT(mag(x), bv(inf, n)), z3.UGT(mag(y), bv(inf, n)))
        eq = z3.Or(x == y, z3.And(mag(x) == 0, mag(y) == 0))
        key = lambda z: z3.If(z3.Extract(n - 1, n - 1, z) == 1, -mag(z), mag(z))
        lt = key(x) < key(y)
        base = {'eq': eq, 'ne': z3.Not(eq), 'gt': z3.And(z3.Not(lt), z3.Not(eq)), 'ge': z3.Not(lt), 'lt': lt, 'le': z3.Or(lt, eq), 'rd': z3.BoolVal(True), 'no': z3.BoolVal(False)}[p[1:]]
        r = nan if p == 'uno' else z3.Not(nan) if p == 'ord' else z3.And(z3.Not(nan), base) if p[0] == 'o' else z3.Or(nan, base)
        return cst(z3.simplify(z3.If(r, bv(1, 1), bv(0, 1))))
    x, y = a.v, b.v
    nan = x != x or y != y
    r = {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'rd': not nan, 'no': nan}[p[1:]]
    if p[0] == 'u' and nan: r = True
    if p[0] == 'o' and nan: r = False
    return int(r)
SIMPLE = {'icmp': _icmp, 'alloca': _alloca, 'load': _load, 'getelementptr': _gep, 'select': _select, 'extractvalue': _ev, 'insertvalue': _iv, 'freeze': _freeze,
          'landingpad': _landing, 'atomicrmw': _rmw, 'cmpxchg': _cmpx, 'extractelement': _ee, 'insertelement': _ie, 'shufflevector': _sv, 'fcmp': _fcmp}
for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'): SIMPLE[_o] = _bin
for _o in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'addrspacecast'): SIMPLE[_o] = _cast
for _o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): SIMPLE[_o] = _fbin

from builtins_irv import BUILTINS, llvm_builtin, pattern_builtin
import loops   # adds Engine.handle_loop
