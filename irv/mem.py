"""Values and memory of the symbolic executor."""
import z3, itertools

ADDR_SHIFT = 44           # every object lives at id << 44, so objects are assumed smaller than 16 TiB
_ctr = itertools.count()

def fresh_name(base): return "%s!%d" % (base, next(_ctr))

class Unsupported(Exception): pass

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return "Ptr(%s,%s)" % (self.obj, self.off)

NULL = Ptr(0, 0)

class Fp:
    """floating point value: concrete python float or opaque"""
    __slots__ = ('v', 'ty', 'bits')
    def __init__(self, v, ty, bits=None): self.v = v; self.ty = ty; self.bits = bits
    def asbits(self):
        """the representation as an integer"""
        import struct
        if self.ty not in ('double', 'float'): raise Unsupported('representation of ' + self.ty)
        n = 64 if self.ty == 'double' else 32
        if self.v is not None: return int.from_bytes(struct.pack('<d' if n == 64 else '<f', self.v), 'little')
        if self.bits is None: self.bits = z3.BitVec(fresh_name('fp'), n)
        return self.bits

class Undef:
    __slots__ = ()
UNDEF = Undef()

def is_c(v): return isinstance(v, int)

def mask(v, n): return v & ((1 << n) - 1)

_bvcache = {}
def bv(v, n):
    if isinstance(v, int):
        k = (v, n)
        r = _bvcache.get(k)
        if r is None:
            r = z3.BitVecVal(v, n)
            if len(_bvcache) < 200000: _bvcache[k] = r
        return r
    return v

def cst(e):
    """python int if the z3 expression is a numeral"""
    if isinstance(e, int): return e
    if z3.is_bv_value(e): return e.as_long()
    return e

def zx(v, fr, to):
    if isinstance(v, int): return v
    if to == fr: return v
    return z3.ZeroExt(to - fr, v)

def simp(e):
    if isinstance(e, int): return e
    e = z3.simplify(e)
    return cst(e)

def add64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & 0xFFFFFFFFFFFFFFFF
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return norm_add(bv(a, 64) + bv(b, 64))

def norm_add(e):
    # cheap normal form keeps offsets syntactically comparable
    return cst(z3.simplify(e, som=False, arith_lhs=False))

def sub64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a - b) & 0xFFFFFFFFFFFFFFFF
    if isinstance(b, int) and b == 0: return a
    return norm_add(bv(a, 64) - bv(b, 64))

def mul64(a, c):
    if isinstance(a, int): return (a * c) & 0xFFFFFFFFFFFFFFFF
    if c == 1: return a
    return norm_add(a * bv(c, 64))

# ------------------------------------------------------------------ division by constants
class Divs:
    """udiv/urem by a constant are uninterpreted functions with instantiated axioms (see solver.axioms)"""
    fns = {}
    @classmethod
    def q(cls, x, c, w):
        k = (c, w)
        f = cls.fns.get(k)
        if f is None:
            f = z3.Function('udiv%d_%d' % (w, c), z3.BitVecSort(w), z3.BitVecSort(w)); cls.fns[k] = f
        return f(x)

def udiv_const(x, c, w):
    if isinstance(x, int): return x // c
    if c & (c - 1) == 0:
        s = c.bit_length() - 1
        return cst(z3.LShR(x, s)) if s else x
    x = z3.simplify(x)
    if z3.is_bv_value(x): return x.as_long() // c
    return Divs.q(x, c, w)

def urem_const(x, c, w):
    if isinstance(x, int): return x % c
    if c & (c - 1) == 0: return simp(x & bv(c - 1, w))
    q = udiv_const(x, c, w)
    if isinstance(q, int): return simp(x - q * c)
    return x - q * bv(c, w)

# ------------------------------------------------------------------ unbounded byte arrays
BASEFNS = {}
class Arr:
    """immutable byte array state; read(i) returns an 8 bit value"""
    __slots__ = ('memo',)
    def __init__(self): self.memo = {}
    def read(self, ex, i):
        k = i if isinstance(i, int) else i.get_id()
        r = self.memo.get(k)
        if r is None:
            v = self._read(ex, i)
            r = (v, i)        # keep i alive so that ids stay unique
            self.memo[k] = r
        return r[0]

class ABase(Arr):
    __slots__ = ('f', 'name')
    def __init__(self, name):
        Arr.__init__(self); self.name = name
        self.f = z3.Function(fresh_name('M_' + name), z3.BitVecSort(64), z3.BitVecSort(8))
        BASEFNS[self.f.name()] = self.f
    def read(self, ex, i): return self.f(bv(i, 64))

def _cmp(a, b):
    """-1/0/1 if decidable syntactically, else None (only equality/inequality by constant offset is decided)"""
    if isinstance(a, int) and isinstance(b, int): return (a > b) - (a < b)
    d = sub64(a, b)
    if isinstance(d, int): return 0 if d == 0 else 2     # 2: different
    return None

class AStore(Arr):
    __slots__ = ('p', 'i', 'v')
    def __init__(self, p, i, v): Arr.__init__(self); self.p = p; self.i = i; self.v = v
    def _read(self, ex, i):
        c = _cmp(i, self.i)
        if c == 0: return self.v
        r = self.p.read(ex, i)
        if c is not None: return r
        return ite(bv(i, 64) == bv(self.i, 64), self.v, r, 8)

class ASet(Arr):
    __slots__ = ('p', 'lo', 'n', 'v')
    def __init__(self, p, lo, n, v): Arr.__init__(self); self.p = p; self.lo = lo; self.n = n; self.v = v
    def _read(self, ex, i):
        c = simp_b(z3.ULT(bv(sub64(i, self.lo), 64), bv(self.n, 64)))
        if c is True: return self.v
        r = self.p.read(ex, i)
        if c is False: return r
        return ite(c, self.v, r, 8)

class ACopy(Arr):
    __slots__ = ('p', 'lo', 'n', 'src', 'slo')
    def __init__(self, p, lo, n, src, slo): Arr.__init__(self); self.p = p; self.lo = lo; self.n = n; self.src = src; self.slo = slo
    def _read(self, ex, i):
        d = sub64(i, self.lo)
        c = simp_b(z3.ULT(bv(d, 64), bv(self.n, 64)))
        if c is False: return self.p.read(ex, i)
        s = self.src.read(ex, add64(self.slo, d))
        if c is True: return s
        return ite(c, s, self.p.read(ex, i), 8)

class AAccel(Arr):
    """after n iterations that each wrote bytes a0+c*m+d (d in vals) := vals[d][m/nsym]"""
    __slots__ = ('p', 'a0', 'c', 'n', 'nsym', 'vals')
    def __init__(self, p, a0, c, n, nsym, vals):
        Arr.__init__(self); self.p = p; self.a0 = a0; self.c = c; self.n = n; self.nsym = nsym; self.vals = vals
    def _read(self, ex, i):
        d = sub64(i, self.a0)
        inr = simp_b(z3.ULT(bv(d, 64), bv(mul64(self.n, self.c), 64)))
        if inr is False: return self.p.read(ex, i)
        m = udiv_const(d, self.c, 64); r = urem_const(d, self.c, 64)
        v = None
        old = None
        def at(dd):
            x = self.vals.get(dd)
            if x is None: return self.p.read(ex, i)
            return ex.subst_read(x, self.nsym, m)
        if isinstance(r, int): v = at(r)
        else:
            v = at(self.c - 1)
            for dd in range(self.c - 2, -1, -1):
                v = ite(r == bv(dd, 64), at(dd), v, 8)
        if inr is True: return v
        return ite(inr, v, self.p.read(ex, i), 8)

class ACells(Arr):
    """view of a small concrete object (snapshot of bytes)"""
    __slots__ = ('bytes',)
    def __init__(self, bytes_): Arr.__init__(self); self.bytes = bytes_
    def _read(self, ex, i):
        if isinstance(i, int):
            if 0 <= i < len(self.bytes): return self.bytes[i]
            return z3.BitVec(fresh_name('oob'), 8)
        if any(isinstance(x, tuple) for x in self.bytes):      # bytes of an address: some value
            self.bytes = [z3.BitVec(fresh_name('adr'), 8) if isinstance(x, tuple) else x for x in self.bytes]
        return mux(self.bytes, i)

def simp_b(c):
    if isinstance(c, bool): return c
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return c

def ite(c, a, b, n):
    if c is True: return a
    if c is False: return b
    if isinstance(a, int) and isinstance(b, int) and a == b: return a
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b): return a
    return z3.If(c, bv(a, n), bv(b, n))

def mux(vals, i, n=8):
    """vals[i] as a balanced multiplexer over the bits of i; equal halves are merged"""
    def same(a, b):
        if isinstance(a, int) and isinstance(b, int): return a == b
        if isinstance(a, int) or isinstance(b, int): return False
        return a.eq(b)
    L = len(vals); k = max(1, (L - 1).bit_length())
    vals = list(vals) + [vals[-1]] * ((1 << k) - L)
    lvl = vals
    for b in range(k):
        bit = None
        nxt = []
        for j in range(0, len(lvl), 2):
            x, y = lvl[j], lvl[j+1]
            if same(x, y): nxt.append(x)
            else:
                if bit is None: bit = z3.Extract(b, b, i) == z3.BitVecVal(1, 1)
                nxt.append(z3.If(bit, bv(y, n), bv(x, n)))
        lvl = nxt
    return lvl[0]

# ------------------------------------------------------------------ objects
class Obj:
    """per path object state (copied on write)"""
    __slots__ = ('id', 'kind', 'name', 'size', 'cells', 'arr', 'alive', 'ro', 'align')
    def __init__(self, id, kind, name, size):
        self.id = id; self.kind = kind; self.name = name; self.size = size
        self.cells = {}; self.arr = None; self.alive = True; self.ro = False; self.align = 16
    def clone(self):
        o = Obj.__new__(Obj)
        o.id = self.id; o.kind = self.kind; o.name = self.name; o.size = self.size
        o.cells = dict(self.cells); o.arr = self.arr; o.alive = self.alive; o.ro = self.ro; o.align = self.align
        return o
