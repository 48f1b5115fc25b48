"""Refutation of bit-vector queries in linear integer arithmetic.

Every bit-vector term is translated to an integer term equal to its unsigned value (a sum becomes L - 2^w*k with a fresh k),
every constraint that has a translation is kept and the others are dropped, so every model of the bit-vector constraints is a
model of the translated ones: 'unsat' here is 'unsat' there.  Nothing is concluded from 'sat'."""
import z3, itertools
_ctr = itertools.count()
TERM = {}       # ast id -> (term, int expression)
BOOL = {}
SIDE = {}       # name of a fresh integer -> its defining constraints
FN = {}
class No(Exception): pass
def fresh(b):
    x = z3.Int('%s?%d' % (b, next(_ctr))); return x
def define(b, cs):
    """fresh integer x with constraints cs(x)"""
    x = fresh(b); SIDE[x.decl().name()] = cs(x); return x
def sg(v, w): return v - (1 << w) if v >> (w - 1) else v

def lin(t, w):
    """linear form of a term: (k, {id: [coefficient, term]})"""
    k = 0; ts = {}; stack = [(t, 1)]
    while stack:
        x, co = stack.pop()
        if z3.is_bv_value(x): k += co * sg(x.as_long(), w); continue
        d = x.decl().kind()
        if d == z3.Z3_OP_BADD:
            for c in x.children(): stack.append((c, co))
        elif d == z3.Z3_OP_BSUB:
            ch = x.children(); stack.append((ch[0], co))
            for c in ch[1:]: stack.append((c, -co))
        elif d == z3.Z3_OP_BNEG: stack.append((x.arg(0), -co))
        elif d == z3.Z3_OP_BMUL and z3.is_bv_value(x.arg(0)) and x.num_args() == 2:
            stack.append((x.arg(1), co * sg(x.arg(0).as_long(), w)))
        else:
            o = ts.setdefault(x.get_id(), [0, x]); o[0] += co
    return k, ts

def term(t):
    r = TERM.get(t.get_id())
    if r is not None: return r[1]
    w = t.size(); M = 1 << w
    if z3.is_bv_value(t): e = z3.IntVal(t.as_long())
    else:
        d = t.decl().kind(); ch = t.children()
        if d in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG) or (d == z3.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0])):
            k, ts = lin(t, w)
            L = z3.IntVal(k)
            parts = [(co, term(x)) for co, x in ts.values() if co]
            for co, x in parts: L = L + co * x
            lo = k + sum((M - 1) * co for co, _ in parts if co < 0); hi = k + sum((M - 1) * co for co, _ in parts if co > 0)
            klo, khi = lo // M, hi // M
            q = define('k', lambda q: [q >= klo, q <= khi]) if klo < khi else z3.IntVal(klo)
            e = define('s', lambda s: [s == L - M * q, s >= 0, s < M])
        elif d == z3.Z3_OP_BMUL: raise No
        elif d == z3.Z3_OP_ITE: e = z3.If(boolean(ch[0]), term(ch[1]), term(ch[2]))
        elif d == z3.Z3_OP_CONCAT:
            e = None; sh = 0
            for c in reversed(ch):
                x = term(c) * (1 << sh); e = x if e is None else e + x; sh += c.size()
        elif d == z3.Z3_OP_EXTRACT:
            hi, lo = t.params(); x = term(ch[0]); W = ch[0].size()
            e = x
            if lo:
                # x = q * 2^lo + r
                q = define('q', lambda q: []); r_ = define('r', lambda r: [r >= 0, r < (1 << lo)])
                SIDE[q.decl().name()] = [x == q * (1 << lo) + r_, q >= 0, q < (1 << (W - lo))]
                e = q
            if hi < W - 1:
                y = e; n = hi - lo + 1
                q2 = define('h', lambda q: [q >= 0, q < (1 << (W - lo - n))])
                e = define('l', lambda r: [y == q2 * (1 << n) + r, r >= 0, r < (1 << n)])
        elif d == z3.Z3_OP_ZERO_EXT: e = term(ch[0])
        elif d == z3.Z3_OP_SIGN_EXT:
            x = term(ch[0]); n = ch[0].size(); e = z3.If(x < (1 << (n - 1)), x, x + ((1 << w) - (1 << n)))
        elif d == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
            s = ch[1].as_long(); x = term(ch[0]); r_ = define('r', lambda r: [r >= 0, r < (1 << s)])
            e = define('q', lambda q: [x == q * (1 << s) + r_, q >= 0, q < (1 << (w - s))])
        elif d == z3.Z3_OP_BASHR and z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
            s = ch[1].as_long(); x = signed(ch[0]); r_ = define('r', lambda r: [r >= 0, r < (1 << s)])
            q = define('q', lambda q: [x == q * (1 << s) + r_, q >= -(1 << (w - 1 - s)), q < (1 << (w - 1 - s))])
            e = z3.If(q >= 0, q, q + M)
        elif d == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
            x = term(ch[0]); s = ch[1].as_long()
            q = define('k', lambda q: [q >= 0, q < (1 << s)])
            e = define('s', lambda y: [y == x * (1 << s) - M * q, y >= 0, y < M])
        elif d == z3.Z3_OP_UNINTERPRETED and ch:
            if not all(z3.is_bv(c) for c in ch): raise No
            f = FN.get(t.decl().get_id())
            if f is None: f = FN[t.decl().get_id()] = (z3.Function('i' + t.decl().name(), *([z3.IntSort()] * (len(ch) + 1))), t.decl())
            a = [term(c) for c in ch]
            e = define('f', lambda x: [x == f[0](*a), x >= 0, x < M])
        elif d == z3.Z3_OP_BNOT: e = (M - 1) - term(ch[0])
        else:
            # anything else is some value
            e = define('v', lambda x: [x >= 0, x < M])
    TERM[t.get_id()] = (t, e)
    return e
def signed(t):
    w = t.size()
    if z3.is_bv_value(t): return z3.IntVal(sg(t.as_long(), w))
    x = term(t)
    return z3.If(x < (1 << (w - 1)), x, x - (1 << w))
def top_zero(c):
    """c says that x < 2^lo by its upper bits: (x, lo)"""
    if z3.is_eq(c):
        a, b = c.children()
        for a, b in ((a, b), (b, a)):
            if z3.is_bv_value(b) and b.as_long() == 0 and z3.is_bv(a) and a.decl().kind() == z3.Z3_OP_EXTRACT:
                hi, lo = a.params(); x = a.arg(0)
                if hi == x.size() - 1 and lo: return x, lo
    return None
def low_bound(c):
    """c compares the lower bits of x with a number: (x, lo, 'le'|'ge', number)"""
    if not (z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ULEQ): return None
    a, b = c.children()
    for t, k, op in ((a, b, 'le'), (b, a, 'ge')):
        if z3.is_bv_value(k) and t.decl().kind() == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            if lo == 0: return t.arg(0), hi + 1, op, k.as_long()
    return None
def pairs(ch, neg):
    """the simplifier writes x <= k as 'the upper bits are 0 and the lower ones at most k': undo that"""
    H = {}; out = []; used = set()
    for c in ch:
        d = c.arg(0) if neg and z3.is_not(c) else None if neg else c
        t = top_zero(d) if d is not None else None
        if t: H[(t[0].get_id(), t[1])] = c
    for c in ch:
        n = z3.is_not(c); b = low_bound(c.arg(0) if n else c)
        if b and (b[0].get_id(), b[1]) in H:
            x = term(b[0]); op = b[2]
            # the condition on the lower bits holds for the whole number, or (in a disjunction of negations) its opposite
            if not neg: out.append((x <= b[3] if op == 'le' else x >= b[3]) if not n else (x > b[3] if op == 'le' else x < b[3])); used.add(c.get_id())
            elif (op == 'ge') != n:      # x < 2^lo fails or x >= k: x >= k since k < 2^lo
                out.append(x >= b[3] if not n else x > b[3]); used.add(c.get_id()); used.add(H[(b[0].get_id(), b[1])].get_id())
    return out + [boolean(c) for c in ch if c.get_id() not in used]
def boolean(c):
    r = BOOL.get(c.get_id())
    if r is not None:
        if r[1] is None: raise No
        return r[1]
    BOOL[c.get_id()] = (c, None)
    d = c.decl().kind(); ch = c.children()
    if z3.is_true(c) or z3.is_false(c): e = c
    elif d == z3.Z3_OP_AND: e = z3.And(pairs(ch, False))
    elif d == z3.Z3_OP_OR: e = z3.Or(pairs(ch, True))
    elif d == z3.Z3_OP_NOT: e = z3.Not(boolean(ch[0]))
    elif d == z3.Z3_OP_IMPLIES: e = z3.Implies(boolean(ch[0]), boolean(ch[1]))
    elif d == z3.Z3_OP_ITE: e = z3.If(*[boolean(x) for x in ch])
    elif d == z3.Z3_OP_XOR and len(ch) == 2: e = z3.Xor(boolean(ch[0]), boolean(ch[1]))
    elif top_zero(c): x, lo = top_zero(c); e = term(x) < (1 << lo)
    elif d == z3.Z3_OP_EQ: e = term(ch[0]) == term(ch[1]) if z3.is_bv(ch[0]) else boolean(ch[0]) == boolean(ch[1])
    elif d == z3.Z3_OP_ULEQ: e = term(ch[0]) <= term(ch[1])
    elif d == z3.Z3_OP_ULT: e = term(ch[0]) < term(ch[1])
    elif d == z3.Z3_OP_UGEQ: e = term(ch[0]) >= term(ch[1])
    elif d == z3.Z3_OP_UGT: e = term(ch[0]) > term(ch[1])
    elif d == z3.Z3_OP_SLEQ: e = signed(ch[0]) <= signed(ch[1])
    elif d == z3.Z3_OP_SLT: e = signed(ch[0]) < signed(ch[1])
    elif d == z3.Z3_OP_SGEQ: e = signed(ch[0]) >= signed(ch[1])
    elif d == z3.Z3_OP_SGT: e = signed(ch[0]) > signed(ch[1])
    elif d == z3.Z3_OP_UNINTERPRETED and not ch: e = c
    else: raise No
    BOOL[c.get_id()] = (c, e)
    return e
def refute(cs, neg, timeout, syms):
    """True if the constraints cs and neg have no model"""
    try: g = boolean(neg)
    except No: return False
    s = z3.SolverFor('QF_UFLIA'); s.set('timeout', int(timeout * 1000))
    out = [g]
    for c in cs:
        try: out.append(boolean(c))
        except No: pass
    done = set(); work = list(out)
    for c in out: s.add(c)
    while work:
        x = work.pop()
        for nm in syms(x):
            if nm in done: continue
            done.add(nm)
            for y in SIDE.get(nm, ()): s.add(y); work.append(y)
    return s.check() == z3.unsat
class Context:
    """the integer translation of some constraints, kept in one solver"""
    def __init__(self, cs, timeout, syms):
        self.s = z3.SolverFor('QF_UFLIA'); self.s.set('timeout', int(timeout * 1000)); self.done = set(); self.syms = syms
        for c in cs:
            try: e = boolean(c)
            except No: continue
            self.sides(e); self.s.add(e)
    def sides(self, e):
        work = [e]
        while work:
            x = work.pop()
            for nm in self.syms(x):
                if nm in self.done: continue
                self.done.add(nm)
                for y in SIDE.get(nm, ()): self.s.add(y); work.append(y)
    def translate(self, c):
        try: e = boolean(c)
        except No: return None
        self.sides(e); return e
    def check(self, e):
        self.s.push(); self.s.add(e); r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop(); return r, m
