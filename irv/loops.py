"""Loops: exact unrolling while the trip count is decided, otherwise an inferred inductive invariant."""
import z3, re, time, math
import exec as ex
from mem import *
import mem, solver
from solver import Fact, syms, apps, linear, linform
from exec import Engine, PathEnd, Fork, State
from ir import PTR

NMAX = 1 << 60
SLE = lambda x, y: x <= y

def name_no(s):
    k = s.rfind('!')
    return int(s[k + 1:]) if k >= 0 and s[k + 1:].isdigit() else -1

def handle_loop(self, st, fn, header):
    depth = len(st.frames); blocks = fn.loops[header]; watch = (depth, header, blocks)
    key = (fn.name, header)
    U = st.ghost.get('unroll', self.o['unroll'])
    if key in self.cutset and 'unroll' not in st.ghost: U = min(U, 1)
    S0 = st.fork()
    save = ({k: list(v) for k, v in self.obl.items()}, len(self.failures), dict(self.backends), dict(self.known_bad), self.paths)
    cur = [st]; exits = []; symbolic = 0; it = 0; why = None
    while cur:
        res = self.run(cur, watch)
        backs = [s for k, s in res if k == 'back']; ex = [s for k, s in res if k == 'exit']
        exits += ex; it += 1
        if not backs: break
        if ex or len(backs) > len(cur): symbolic += 1
        if symbolic > U: why = 'symbolic trip count'; break
        if len(backs) > (5000 if 'unroll' in st.ghost else 40): why = 'many paths'; break
        if it > 4000: raise Unsupported('loop with more than 4000 iterations at %s' % self.loc(S0))
        cur = backs
    if why is None:
        return exits
    # ---- restart with an invariant
    self.obl = save[0]; del self.failures[save[1]:]; self.backends = save[2]; self.known_bad = save[3]; self.paths = save[4]
    self.cutset.add(key)
    if st.ghost.get('peel'):
        # the first iteration on its own, then an invariant for the rest
        exits = []
        for k, s in self.run([S0], watch):
            exits += [s] if k == 'exit' else cut(self, s, fn, header, watch)
        return exits
    return cut(self, S0, fn, header, watch)

class Var:
    __slots__ = ('key', 'kind', 'init', 'bits', 'step', 'sym', 'obj', 'ptr')

def is_num(v): return isinstance(v, int) or z3.is_bv(v)

def cut(self, S0, fn, header, watch):
    t0 = time.time()
    phis = [I for I in fn.blocks[header] if I.op == 'phi']
    fr0 = S0.frames[-1]
    where = self.loc(S0, fn.blocks[header][-1])
    n0 = int(fresh_name('x').rsplit('!', 1)[1])
    n = z3.BitVec(fresh_name('n'), 64)
    V = {}          # key -> Var
    order = []
    for I in phis:
        for v, b in I.a[0]:
            if b == fr0.prev:
                add_var(self, V, order, ('p', I.res), self.val(S0, I.ty, v), self.m.resolve(I.ty)); break
        else: raise Unsupported('phi without edge')
    arrs = {}       # obj -> None | ('accel', AAccel) | ('havoc', ABase)
    dead = set()    # stack objects that are dead at the back edge
    cleared = {}    # obj -> set of cell keys to drop

    def value(v):
        if v.kind == 'const': return v.init
        if v.kind == 'aff':
            x = n if v.bits == 64 else z3.Extract(v.bits - 1, 0, n)
            c = bv(v.step % (1 << v.bits), v.bits)
            off = v.init.off if v.ptr else v.init
            r = norm(bv(off, v.bits) + c * x)
            return Ptr(v.obj, r) if v.ptr else r
        if v.kind == 'fresh': return Ptr(v.obj, v.sym) if v.ptr else v.sym
        if v.kind == 'opaque': return Fp(None, v.init.ty)
    def build():
        H = S0.fork(); H.model = None
        f = H.frames[-1]; f.prev = None; f.idx = len(phis)
        for o in dead:
            ob = H.wobj(o); ob.alive = False; ob.cells = {}
        for o, ks in cleared.items():
            ob = H.wobj(o)
            for k in ks: ob.cells.pop(k, None)
        for k in order:
            v = V[k]
            if k[0] == 'p': f.env[k[1]] = value(v)
            else:
                ob = H.wobj(k[1])
                c = ob.cells.get(k[2])
                if c is None or c[0] != k[3]: self.clear(ob, k[2], k[3], H)
                ob.cells[k[2]] = (k[3], value(v))
        for o, a in arrs.items():
            if a is not None: H.wobj(o).arr = a[1]
        H.wlog = []
        self.assume(H, z3.ULT(n, bv(NMAX, 64)))
        H.ghost['_hpc'] = len(H.pc)
        return H
    def body(H):
        self.suppress += 1
        try:
            res = self.run([H.fork()], watch)
            res = settle(res)
        finally: self.suppress -= 1
        return [s for k, s in res if k == 'back'], [s for k, s in res if k == 'exit']
    def odd(B):
        """a loop variable points into another object than before (an end marker): such a state has to leave the loop"""
        bf = B.frames[-1]
        for I in phis:
            v = V[('p', I.res)]
            if not isinstance(v.init, Ptr) or v.init.obj == 0: continue
            nv = next((self.val(B, I.ty, x) for x, b in I.a[0] if b == bf.prev), None)
            if (isinstance(nv, Ptr) and nv.obj != v.init.obj) or (isinstance(nv, int) and nv == 0): return True
        for w in B.wlog:
            if w[0] != 'c' or w[1] not in S0.mem: continue
            c0 = S0.mem[w[1]].cells.get(w[2]); c1 = B.mem[w[1]].cells.get(w[2])
            if c0 is None or c1 is None or not isinstance(c0[1], Ptr) or c0[1].obj == 0: continue
            if (isinstance(c1[1], Ptr) and c1[1].obj != c0[1].obj) or (isinstance(c1[1], int) and c1[1] == 0): return True
        return False
    def settle(res):
        out = []
        for k, s in res:
            if k == 'back' and odd(s):
                more = self.run([s], watch)
                if any(x == 'back' for x, _ in more): raise Unsupported('a loop variable points to different objects, and the loop goes on')
                out += more
            else: out.append((k, s))
        return out

    # ---------------------------------------------------------------- 1. abstract values
    for rnd in range(40):
        H = build()
        try: backs, exits = body(H)
        except Unsupported: raise
        lower = {}     # key -> set of 'aff c' or 'fresh'
        changed = False
        for B in backs:
            bf = B.frames[-1]
            for I in phis:
                k = ('p', I.res); nv = None
                for v, b in I.a[0]:
                    if b == bf.prev: nv = self.val(B, I.ty, v); break
                chk(self, B, V[k], nv, n, value, lower, H)
            # memory
            touched = {}; larr = {}; whole = set()
            for w in B.wlog:
                if w[1] not in S0.mem:
                    if w[1] not in self.gnames: continue
                    self.gobj(S0, w[1])         # a global that the loop is the first to touch
                if w[0] == 'c': touched.setdefault(w[1], set()).add((w[2], w[3]))
                elif w[0] in ('a', 'r'): larr.setdefault(w[1], []).append(w)
                elif w[0] == 'L': whole.add(w[1])
                elif w[0] == 'd': 
                    raise Unsupported('a loop releases memory from before the loop (%s)' % where)
            for o in whole:
                bo = B.mem[o]
                if not bo.alive:
                    if o not in dead: dead.add(o); changed = True
                    touched.pop(o, None); larr.pop(o, None); continue
                if o in dead: raise Unsupported('lifetime differs between the paths of a loop')
                so = S0.mem.get(o)
                if so is not None:
                    miss = set(so.cells) - set(bo.cells)
                    if miss - cleared.get(o, set()): cleared.setdefault(o, set()).update(miss); changed = True
                touched.setdefault(o, set()).update((k, c[0]) for k, c in bo.cells.items())
            for o, rs in touched.items():
                if o in dead: continue
                bo = B.mem[o]
                if not bo.alive: raise Unsupported('a loop ends the lifetime of an object from before the loop')
                ho = H.mem.get(o)
                if ho is None: ho = self.gobj(H, o)
                for off, sz in sorted(rs):
                    for q in range(off - 15, off + sz):
                        c = bo.cells.get(q)
                        if c is None or q + c[0] <= off: continue
                        k = ('m', o, q, c[0])
                        if k in V:
                            chk(self, B, V[k], c[1], n, value, lower, H); continue
                        hc = ho.cells.get(q)
                        if hc is not None and hc[0] == c[0]:
                            if same(self, B, hc[1], c[1]): continue
                            add_var(self, V, order, k, hc[1], None, 8 * c[0], c[1]); changed = True
                            chk(self, B, V[k], c[1], n, value, lower, H)
                        elif not any(x in ho.cells and x + ho.cells[x][0] > q for x in range(q - 15, q + c[0])):
                            # uninitialised before: any value
                            add_var(self, V, order, k, UNDEF, None, 8 * c[0], c[1]); changed = True
                            to_fresh(self, V[k], c[1])
                        else:
                            # different layouts: bytewise
                            for j in range(c[0]):
                                kb = ('m', o, q + j, 1)
                                if kb not in V:
                                    iv = self.byte(H, H.mem[o], q + j)
                                    add_var(self, V, order, kb, iv, None, 8, None); changed = True
                                    to_fresh(self, V[kb], 0)
                            for kk in [x for x in order if x[0] == 'm' and x[1] == o and x[3] > 1 and x[2] < q + c[0] and x[2] + x[3] > q]:
                                order.remove(kk); del V[kk]; changed = True
            B.ghost['_larr'] = larr
        # arrays: any content first; accelerated below once the invariant is known
        for B in backs:
            for o in B.ghost['_larr']:
                if o in dead or o in arrs: continue
                arrs[o] = ('havoc', ABase(S0.mem[o].name if o in S0.mem else 'g')); changed = True
        if lower:
            aff = {k: l for k, l in lower.items() if len(l) == 1 and V[k].kind == 'const' and next(iter(l))[0] == 'aff'}
            if aff:
                for k, l in aff.items(): V[k].kind = 'aff'; V[k].step = next(iter(l))[1]
            else:
                for k, l in lower.items():
                    to_fresh(self, V[k], [x for x in l][0][2])
            changed = True
        if not changed: break
    else: raise Unsupported('no stable abstraction of a loop')
    if not backs:
        # the abstraction shows that the loop body never repeats
        pass

    # ---------------------------------------------------------------- 2. facts about all earlier iterations
    allowed = lambda e: all(name_no(s) < n0 or s == n.decl().name() for s in syms(e))
    def mkfacts(H, backs):
        facts = []
        if not backs: return facts
        disj = []
        for B in backs:
            cj = [c for c in B.pc[len(H.pc):] if allowed(c) and c.get_id() not in self.defax]
            disj.append(z3.And(cj) if cj else z3.BoolVal(True))
        C = z3.simplify(z3.Or(disj)) if len(disj) > 1 else z3.simplify(disj[0])
        if not z3.is_true(C) and n.decl().name() in syms(C):
            parts = C.children() if z3.is_and(C) else [C]
            for p in parts:
                if n.decl().name() not in syms(p): continue
                m = z3.BitVec(fresh_name('m'), 64)
                f = Fact(m, n, z3.substitute(p, (n, m)))
                if f.trig: facts.append(f)
        return facts
    facts = mkfacts(H, backs)
    # ---------------------------------------------------------------- 3. Houdini
    hs = {n.decl().name(): (n, bv(0, 64))}
    for k in order:
        v = V[k]
        if v.kind == 'fresh' and v.bits:
            hs[v.sym.decl().name()] = (v.sym, None if v.init is UNDEF else (v.init.off if v.ptr else v.init))
    cands = candidates(self, S0, H, backs, exits, V, order, n, hs, allowed, n0)
    # initially true
    init = [(s, bv(i, s.size())) for s, i in hs.values() if i is not None]
    noinit = {nm for nm, (s, i) in hs.items() if i is None}
    cands = [c for c in cands if not (syms(c) & noinit)]
    keep = []
    for c in cands:
        ci = z3.simplify(z3.substitute(c, *init))
        if z3.is_true(ci) or (not z3.is_false(ci) and self.implied(S0, ci)): keep.append(c)
    cands = keep
    def with_facts(cs):
        X = build()
        for f in facts: self.add_fact(X, f)
        for c in cs: self.assume(X, c)
        X.ghost['_hpc'] = len(X.pc)
        return X
    def nextsub(B):
        bf = B.frames[-1]; out = [(n, n + 1)]
        for k in order:
            v = V[k]
            if v.kind != 'fresh' or not v.bits: continue
            if k[0] == 'p':
                I = next(i for i in phis if i.res == k[1])
                nv = next(self.val(B, I.ty, x) for x, b in I.a[0] if b == bf.prev)
            else:
                nv = self.load_cell(B, B.mem[k[1]], k[2], k[3], ('i', 8 * k[3]))
            if nv is UNDEF: continue
            if v.ptr: nv = self.toptr(B, nv).off
            elif isinstance(nv, Ptr): nv = self.num(B, nv, v.bits)
            out.append((v.sym, bv(nv, v.bits)))
        return out
    for rnd in range(12):
        try: X = with_facts(cands)
        except PathEnd: raise Unsupported('contradictory loop candidates')
        backs, exits = body(X)
        bad = set()
        for B in backs:
            sub = nextsub(B)
            goals = [(i, z3.simplify(z3.substitute(c, *sub))) for i, c in enumerate(cands) if i not in bad]
            goals = [(i, g) for i, g in goals if not z3.is_true(g)]
            while goals:
                g = z3.And([g for _, g in goals])
                self.closed(B, g)
                r, m = self.inc.check(B.pc, (z3.Not(g),))
                if r == z3.unsat: break
                if r == z3.sat:
                    drop = [i for i, gg in goals if not z3.is_true(m.eval(gg, model_completion=True))]
                    if not drop: drop = [goals[0][0]]
                    bad.update(drop); goals = [(i, gg) for i, gg in goals if i not in bad]
                else:
                    # undecided: test one by one
                    rest = []
                    for i, gg in goals:
                        res = solver.prove(B.pc, gg, 4.0)[0]
                        if res != 'unsat': bad.add(i)
                    break
        if not bad: break
        cands = [c for i, c in enumerate(cands) if i not in bad]
    else: raise Unsupported('the loop invariant does not stabilise')
    # ---------------------------------------------------------------- 4. arrays: exact content where possible
    if arrs and backs:
        for o in list(arrs):
            old = arrs[o]; arrs[o] = None
            X = with_facts(cands); b1, _ = body(X)
            for B in b1: collect(self, B, S0)
            new = accel(self, S0, X, b1, o, n, n0)
            if new is None: arrs[o] = old; continue
            arrs[o] = ('accel', new)
            X = with_facts(cands); b2, _ = body(X)
            for B in b2: collect(self, B, S0)
            again = accel(self, S0, X, b2, o, n, n0)
            if again is None or not same_accel(self, X, new, again, n): arrs[o] = old
        X = with_facts(cands); backs, exits = body(X)
        facts = mkfacts(X, backs)
    # ---------------------------------------------------------------- 5. the proof run
    X = with_facts(cands)
    if self.o.get('trace'):
        print('LOOP', where, 'suppress', self.suppress)
        for k in order: print('   ', k, V[k].kind, V[k].step if V[k].kind == 'aff' else '')
        for o, a in arrs.items(): print('    array', o, a[0], getattr(a[1], 'vals', ''))
        for f in facts: print('    fact', f.body, f.trig)
        for c in cands: print('    inv', str(c)[:200])
    if not self.suppress:
        self.loops_cut.append(dict(at=where, invariant=len(cands) + len(facts), seconds=round(time.time() - t0, 1)))
    res = settle(self.run([X], watch))
    out = []
    summary = [('c', k[1], k[2], k[3]) for k in order if k[0] == 'm'] + [('r', o) for o in arrs] + [('L', o) for o in dead]
    for kind, s in res:
        if kind != 'exit': continue
        if S0.wlog is not None: s.wlog = list(S0.wlog) + summary + [w for w in s.wlog]
        else: s.wlog = None
        s.terms = s.terms + [n]
        out.append(s)
    return out

def collect(self, B, S0):
    larr = {}
    for w in B.wlog:
        if w[1] not in S0.mem and w[1] not in self.gnames: continue
        if w[0] in ('a', 'r'): larr.setdefault(w[1], []).append(w)
    B.ghost['_larr'] = larr

def norm(e): return cst(z3.simplify(e))

def add_var(self, V, order, key, init, ty, bits=None, other=None):
    v = Var(); v.key = key; v.kind = 'const'; v.init = init; v.step = None; v.sym = None; v.obj = None; v.ptr = False
    if ty is not None:
        bits = 64 if ty[0] == 'ptr' else ty[1] if ty[0] == 'i' else None
        v.ptr = ty[0] == 'ptr'
    v.bits = bits
    if isinstance(init, Ptr):
        if init.obj != 0 or ty is not None and ty[0] == 'ptr': v.ptr = True; v.obj = init.obj
        elif isinstance(other, Ptr): v.ptr = True; v.obj = init.obj
    if isinstance(init, Fp): v.bits = None
    V[key] = v; order.append(key)
    return v

def same(self, B, a, b):
    if a is b: return True
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and same(self, B, a.off, b.off)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        x, y = (a, b) if isinstance(a, Ptr) else (b, a)
        if x.obj == 0 and is_num(y): return same(self, B, x.off, y)
        return False
    if isinstance(a, Fp) or isinstance(b, Fp):
        return isinstance(a, Fp) and isinstance(b, Fp) and ((a.v is not None and a.v == b.v) or (a.v is None and b.v is None and a.bits is not None and b.bits is not None and a.bits.eq(b.bits)))
    if a is UNDEF or b is UNDEF: return False
    if isinstance(a, tuple) or isinstance(b, tuple): return a == b
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(self, B, x, y) for x, y in zip(a, b))
    w = a.size() if not isinstance(a, int) else b.size()
    x, y = bv(a, w), bv(b, w)
    if x.eq(y): return True
    d = simp(x - y)
    if isinstance(d, int): return d == 0
    return self.implied(B, x == y)

def chk(self, B, v, nv, n, value, lower, H):
    """does the new value agree with the abstraction one iteration later"""
    if v.kind in ('fresh', 'opaque'):
        if v.kind == 'fresh' and v.ptr:
            p = nv if nv is UNDEF else self.toptr(B, nv)
            if p is not UNDEF and p.obj != v.obj: raise Unsupported('a loop variable points to different objects')
        return
    if v.kind == 'const':
        if nv is UNDEF and v.init is UNDEF: return
        if v.init is UNDEF: lower.setdefault(v.key, set()).add(('fresh', 0, Hash(nv))); return
        if same(self, B, v.init, nv): return
        if isinstance(nv, Ptr) and isinstance(v.init, Ptr):
            d = sub64(nv.off, v.init.off) if nv.obj == v.init.obj else None
        elif is_num(nv) and is_num(v.init) and v.bits:
            d = norm(bv(nv, v.bits) - bv(v.init, v.bits))
        else: d = None
        if isinstance(d, int): lower.setdefault(v.key, set()).add(('aff', d, Hash(nv)))
        else: lower.setdefault(v.key, set()).add(('fresh', 0, Hash(nv)))
        return
    # affine
    cur = value(v)
    x = cur.off if v.ptr else cur
    want = norm(bv(x, v.bits) + bv(v.step, v.bits))
    if v.ptr: want = Ptr(v.obj, want)
    if not same(self, B, want, nv): lower.setdefault(v.key, set()).add(('fresh', 0, Hash(nv)))

class Hash:
    """wrapper that compares equal to everything (only carried along)"""
    def __init__(self, v): self.v = v
    def __eq__(self, o): return True
    def __hash__(self): return 0

def to_fresh(self, v, nv):
    if isinstance(nv, Hash): nv = nv.v
    if isinstance(v.init, Fp) or isinstance(nv, Fp):
        v.kind = 'opaque'
        if not isinstance(v.init, Fp): v.init = nv
        return
    if isinstance(v.init, list) or isinstance(nv, list): raise Unsupported('aggregate loop variable')
    if isinstance(v.init, tuple) or isinstance(nv, tuple): raise Unsupported('pointer bytes change in a loop')
    v.kind = 'fresh'
    if isinstance(v.init, Ptr) and v.init.obj != 0 or isinstance(nv, Ptr) and nv.obj != 0 or v.ptr:
        v.ptr = True
        io = v.init.obj if isinstance(v.init, Ptr) else None
        no = nv.obj if isinstance(nv, Ptr) else None
        if io is None and v.init is not UNDEF: raise Unsupported('a loop variable changes between a pointer and a number')
        if io is not None and no is not None and io != no: raise Unsupported('a loop variable points to different objects')
        v.obj = io if io is not None else no
        if v.obj is None: raise Unsupported('undefined pointer in a loop')
    v.sym = z3.BitVec(fresh_name('v'), v.bits)

# ------------------------------------------------------------------ array acceleration
def accel(self, S0, H, backs, o, n, n0):
    base = S0.mem[o].arr
    if base is None: return None
    nn = n.decl().name()
    allowed = lambda e: isinstance(e, int) or all(name_no(s) < n0 or s == nn for s in syms(e))
    a0 = c = None
    per = []
    for B in backs:
        ws = B.ghost['_larr'].get(o, [])
        if any(w[0] != 'a' for w in ws): return None
        d = {}
        for w in ws:
            off, val = w[2], w[3]
            if isinstance(off, int) or not allowed(off) or not allowed(val): return None
            if val is UNDEF or isinstance(val, (Ptr, Fp)): return None
            l = linear(off, n)
            if l is None or l[1] == 0: return None
            if a0 is None: a0, c = l[0], l[1]
            if l[1] != c: return None
            k = sub64(l[0], a0)
            if not isinstance(k, int): return None
            k = k - (1 << 64) if k >> 63 else k
            d[k] = val
        per.append((B, d))
    if a0 is None or c > 64: return None
    ks = set()
    for B, d in per: ks |= set(d)
    lo = min(ks)
    if max(ks) - lo >= c: return None
    a0 = add64(a0, lo & ((1 << 64) - 1))
    vals = {}
    for k in ks:
        v = None
        for B, d in per:
            x = d.get(k)
            if x is None:
                x = base.read(self, add64(add64(a0, (k - lo)), mul64(n, c)))
            if v is None: v = x
            else:
                cj = [q for q in B.pc[len(H.pc):]]
                if isinstance(v, int) and isinstance(x, int) and v == x: continue
                if not isinstance(v, int) and not isinstance(x, int) and v.eq(x): continue
                if any(not allowed(q) for q in cj):
                    cj = [q for q in cj if allowed(q)]
                    # the remaining conditions must still separate the paths; give up to stay exact
                    return None
                v = ite(simp_b(z3.And(cj)) if cj else True, x, v, 8)
        vals[k - lo] = v
    return AAccel(base, cst(z3.simplify(bv(a0, 64))), c, n, n, vals)

def same_accel(self, H, a, b, n):
    if a.c != b.c or set(a.vals) != set(b.vals): return False
    if not same(self, H, a.a0, b.a0): return False
    for k in a.vals:
        x, y = a.vals[k], b.vals[k]
        if not same(self, H, x, y): return False
    return True

# ------------------------------------------------------------------ candidates for the invariant
def atoms(e, out):
    if z3.is_not(e) or z3.is_and(e) or z3.is_or(e) or z3.is_implies(e) or (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and z3.is_bool(e)):
        for c in e.children(): atoms(c, out)
    elif z3.is_app(e) and z3.is_bool(e) and e.num_args() == 2: out.append(e)

CMP = {z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT}
def candidates(self, S0, H, backs, exits, V, order, n, hs, allowed, n0):
    hn = set(hs)
    ok = lambda e: bool(syms(e) & hn) and all(name_no(s) < n0 or s in hn for s in syms(e))
    out = []; seen = set()
    def both(f, x, y):
        add(f(x, y))
        if x.size() in (16, 32):
            lx, ly = ex.lift(x), ex.lift(y)
            if lx is None: lx = z3.SignExt(64 - x.size(), x)
            if ly is None: ly = z3.SignExt(64 - y.size(), y)
            x, y = z3.simplify(lx), z3.simplify(ly)
            add(f(x, y))
        if x.size() == 64:
            # divide the difference by the common factor of its coefficients
            k, ts = solver.linform(z3.simplify(y - x))
            if ts:
                sg = lambda v: v - (1 << 64) if v >> 63 else v
                g = 0
                for co, t in ts: g = math.gcd(g, abs(sg(co)))
                if all(abs(sg(co)) < 1 << 32 for co, t in ts):
                    # x <= y  <=>  0 <= k + sum;  floor(k/g) + sum/g >= 0
                    pos = bv(max(sg(k) // g, 0), 64); neg = bv(max(-(sg(k) // g), 0), 64)
                    for co, t in ts:
                        c = sg(co) // g
                        if c > 0: pos = pos + t * bv(c, 64)
                        else: neg = neg + t * bv(-c, 64)
                    add(f(neg, pos))
    def add(c):
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c) or c.get_id() in seen: return
        if not ok(c): return
        seen.add(c.get_id()); out.append(c)
    ats = []
    for B in backs + exits:
        for c in B.pc[len(H.pc):]:
            if c.get_id() not in self.defax: atoms(c, ats)
    done = set()
    for a in ats:
        if a.get_id() in done or not ok(a): continue
        done.add(a.get_id())
        x, y = a.children()
        k = a.decl().kind()
        if k == z3.Z3_OP_EQ and z3.is_bv(x):
            if x.size() == 1: add(a); add(z3.Not(a)); continue
            add(a)
            for f in (z3.ULE, SLE): both(f, x, y); both(f, y, x)
            # c*n + a == b: bound on n through the difference
        elif k in CMP:
            add(a); add(z3.Not(a))
            if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT): both(z3.ULE, x, y); both(z3.ULE, y, x)
            else: both(SLE, x, y); both(SLE, y, x)
            for z in (x, y):
                if not z3.is_bv_value(z) and k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT): add(z >= 0)
    # pointers stay inside their objects
    f = H.frames[-1]
    for k in order:
        v = V[k]
        if v.kind not in ('aff', 'fresh') or not v.bits: continue
        cur = f.env[k[1]] if k[0] == 'p' else H.mem[k[1]].cells[k[2]][1]
        if v.ptr:
            o = H.mem.get(v.obj)
            if o is not None:
                add(z3.ULE(bv(cur.off, 64), bv(o.size, 64)))
                if v.kind == 'fresh' and isinstance(v.init, Ptr):
                    add(z3.ULE(bv(v.init.off, 64), cur.off)); add(z3.ULE(cur.off, bv(v.init.off, 64)))
        elif v.kind == 'fresh' and is_num(v.init):
            i = bv(v.init, v.bits)
            add(z3.ULE(i, cur)); add(z3.ULE(cur, i)); add(i <= cur); add(cur <= i); add(cur >= 0)
        if v.kind == 'fresh' and v.bits == 64 and v.init is not UNDEF:
            i = v.init.off if v.ptr else v.init
            x = cur.off if v.ptr else cur
            add(z3.ULE(bv(sub64(x, i), 64), n)); add(bv(sub64(x, i), 64) == n)
    # cells that start equal may stay equal (a computation and its specification in lockstep)
    fr = [(V[k], f.env[k[1]] if k[0] == 'p' else H.mem[k[1]].cells[k[2]][1]) for k in order if V[k].kind == 'fresh' and V[k].bits and not V[k].ptr and V[k].init is not UNDEF]
    for i in range(min(len(fr), 16)):
        for j in range(i):
            (v, x), (w, y) = fr[i], fr[j]
            if v.bits == w.bits and v.bits >= 16 and (z3.is_true(z3.simplify(bv(v.init, v.bits) == bv(w.init, w.bits)))): add(x == y)
    # what a specification function says about the rest of the input does not change while it is scanned
    recs = [g for k, g in S0.ghost.items() if isinstance(k, str) and k.startswith('rec ') and g.name() in self.defs]
    for k in order:
        v = V[k]
        if not recs or v.kind not in ('aff', 'fresh') or v.bits != 64 or v.init is UNDEF: continue
        cur = f.env[k[1]] if k[0] == 'p' else H.mem[k[1]].cells[k[2]][1]
        x, i = (cur.off, v.init.off) if v.ptr else (cur, v.init)
        for g in recs: add(g(bv(x, 64)) == g(bv(i, 64)))
    # the same for the positions that the loop reads
    if recs:
        init = [(sy, bv(i, sy.size())) for sy, i in hs.values() if i is not None]; pos = {}
        for B in backs:
            for c in B.pc[len(H.pc):]:
                if c.get_id() in self.defax: continue
                for a in apps(c).values():
                    if a.decl().name() in mem.BASEFNS and syms(a.arg(0)) & hn: pos[a.arg(0).get_id()] = a.arg(0)
        for e in list(pos.values())[:8]:
            for g in recs: add(g(e) == g(z3.simplify(z3.substitute(e, *init))))
    # a position and what is left move together
    vs = []
    for k in order:
        v = V[k]
        if v.kind != 'fresh' or v.bits != 64 or v.init is UNDEF: continue
        cur = f.env[k[1]] if k[0] == 'p' else H.mem[k[1]].cells[k[2]][1]
        vs.append((cur.off, v.init.off) if v.ptr else (cur, v.init))
    for a in range(min(len(vs), 8)):
        for b in range(a):
            (x, i), (y, j) = vs[a], vs[b]
            add(x + y == bv(add64(i, j), 64)); add(x - y == bv(sub64(i, j), 64))
    # affine counters bounded by sizes and earlier counters
    ptrs = [(V[k], f.env[k[1]] if k[0] == 'p' else H.mem[k[1]].cells[k[2]][1]) for k in order if V[k].kind in ('aff', 'fresh') and V[k].ptr]
    for t in S0.terms:
        if isinstance(t, int): 
            add(z3.ULE(n, bv(t, 64)))
        elif z3.is_bv(t) and t.size() == 64:
            add(z3.ULE(n, t))
    return out

Engine.handle_loop = handle_loop
