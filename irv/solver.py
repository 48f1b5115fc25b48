"""Solver front end: incremental feasibility checks and a portfolio for obligations."""
import z3, time, subprocess, tempfile, os, re
from mem import *
import sweep, lia
from mem import Divs, BASEFNS, bv, mul64, sub64, add64, udiv_const, simp_b

STATS = dict(feas=0, feas_time=0.0, obl_time=0.0, z3=0, cvc5=0, folded=0, z3_time=0.0, cvc5_time=0.0)

_appcache = {}
def apps(e):
    """{id: app} of interesting function applications (memory bases, divisions) in e; memoised per sub-term"""
    r = _appcache.get(e.get_id())
    if r is not None: return r[0]
    # iterative post-order
    stack = [(e, False)]
    while stack:
        x, done = stack.pop()
        if x.get_id() in _appcache: continue
        if not done:
            stack.append((x, True))
            for c in x.children():
                if c.get_id() not in _appcache: stack.append((c, False))
        else:
            acc = None
            for c in x.children():
                s = _appcache[c.get_id()][0]
                if s:
                    if acc is None: acc = s
                    elif acc is not s: acc = {**acc, **s}
            if z3.is_app(x) and x.num_args() >= 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc = dict(acc) if acc else {}
                acc[x.get_id()] = x
            _appcache[x.get_id()] = (acc or {}, x)
    return _appcache[e.get_id()][0]

_symcache = {}
def syms(e):
    """frozenset of names of uninterpreted constants and functions in e"""
    r = _symcache.get(e.get_id())
    if r is not None: return r[0]
    stack = [(e, False)]
    while stack:
        x, done = stack.pop()
        if x.get_id() in _symcache: continue
        if not done:
            stack.append((x, True))
            for c in x.children():
                if c.get_id() not in _symcache: stack.append((c, False))
        else:
            acc = frozenset()
            for c in x.children():
                s = _symcache[c.get_id()][0]
                if s: acc = s if not acc else acc | s
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc = acc | {x.decl().name()}
            _symcache[x.get_id()] = (acc, x)
    return _symcache[e.get_id()][0]

class Fact:
    """for all m <u n: body[m]   (a proved universal statement; instantiated at matching reads)"""
    def __init__(self, m, n, body, lo=None):
        self.m = m; self.n = n; self.body = body
        self.trig = []      # (fname, base, c): reads f(base + c*m + d), 0<=d<c
        for a in apps(body).values():
            nm = a.decl().name()
            if nm in BASEFNS:
                t = linear(a.arg(0), m)
                if t and t[1] > 0:
                    base, c = t
                    self.trig.append((nm, base, c))
        # group: for c>1 several bases base+d; keep the smallest representative and the set of residues
        out = []
        for nm, b, c in self.trig:
            for k, (nm2, b2, c2, rs) in enumerate(out):
                if nm2 == nm and c2 == c:
                    d = sub64(b, b2)
                    if isinstance(d, int):
                        sd = d - (1 << 64) if d >> 63 else d
                        if 0 <= sd < c: rs.add(sd); break
                        if -c < sd < 0:
                            out[k] = (nm, b, c, {0} | {r - sd for r in rs if r - sd < c}); break
            else: out.append((nm, b, c, {0}))
        self.trig = out
        self.key = (m.get_id(), body.get_id())
    def inst(self, t):
        """instance at index term t"""
        b = z3.substitute(self.body, (self.m, bv(t, 64)))
        return z3.simplify(z3.Implies(z3.ULT(bv(t, 64), bv(self.n, 64)), b))
    def matches(self, app):
        """index terms whose instance talks about the read app (every instance is valid, so this is only a heuristic)"""
        nm = app.decl().name(); out = []
        for f, base, c, rs in self.trig:
            if f == nm:
                d = sub64(app.arg(0), base)
                if c == 1: out.append(d); continue
                if isinstance(d, int):
                    if d % c in rs or d >> 63: out.append(d // c)
                    continue
                k, ts = linform(d)
                ks = k - (1 << 64) if k >> 63 else k
                sg = lambda v: v - (1 << 64) if v >> 63 else v
                if all(sg(co) % c == 0 for co, t in ts):
                    if ks % c not in rs: continue
                    q = bv((ks // c) % (1 << 64), 64)
                    for co, t in ts: q = q + t * bv((sg(co) // c) % (1 << 64), 64)
                    out.append(simp(q)); continue
                out.append(udiv_const(d, c, 64))
        return out

def linform(e):
    """(constant, [(coefficient, atom)]) of a 64 bit term"""
    w = e.size(); M = (1 << w) - 1
    k = 0; ts = {}
    stack = [(e, 1)]
    while stack:
        x, co = stack.pop()
        if z3.is_bv_value(x): k = (k + co * x.as_long()) & M; continue
        d = x.decl().kind()
        if d == z3.Z3_OP_BADD:
            for c in x.children(): stack.append((c, co))
        elif d == z3.Z3_OP_BSUB:
            ch = x.children(); stack.append((ch[0], co))
            for c in ch[1:]: stack.append((c, -co & M))
        elif d == z3.Z3_OP_BMUL and z3.is_bv_value(x.arg(0)):
            r = x.arg(1)
            for q in range(2, x.num_args()): r = r * x.arg(q)
            stack.append((r, co * x.arg(0).as_long() & M))
        elif d == z3.Z3_OP_BNEG: stack.append((x.arg(0), -co & M))
        else:
            o = ts.get(x.get_id())
            ts[x.get_id()] = (((o[0] if o else 0) + co) & M, x)
    return k, [(c, t) for c, t in ts.values() if c]

def linear(e, m):
    """(base, c) with e == base + c*m and base free of m; None otherwise"""
    if m.decl().name() not in syms(e): return None
    z = z3.simplify(z3.substitute(e, (m, z3.BitVecVal(0, 64))))
    o = z3.simplify(z3.substitute(e, (m, z3.BitVecVal(1, 64))))
    c = z3.simplify(o - z)
    if not z3.is_bv_value(c): return None
    cv = c.as_long()
    d = z3.simplify(e - z - c * m)
    if z3.is_bv_value(d) and d.as_long() == 0:
        if cv >> 63: return None
        return (z, cv)
    return None

def rotate(x, s, n):
    """a rotation of a word is a function whose definition is added to every query (splitting words into slices makes sums hard to compare)"""
    nm = 'rot%d_%d' % (n, s)
    if nm not in TABLES: TABLES[nm] = (z3.Function(nm, z3.BitVecSort(n), z3.BitVecSort(n)), ('rotate', s), n)
    return TABLES[nm][0](x)
TABLES = {}     # name -> (function, values, bits, index shift)
_tdef = {}
def table_def(app):
    """definition of one application of a constant table"""
    r = _tdef.get(app.get_id())
    if r is None:
        f, vals, n = TABLES[app.decl().name()]
        if vals[0] == 'rotate': r = (app == z3.RotateLeft(app.arg(0), vals[1]), app)
        else: r = (z3.simplify(app == bv(mux(vals, app.arg(0), n), n)), app)
        _tdef[app.get_id()] = r
    return r[0]
def table_defs(es):
    out = []; done = set(); work = list(es)
    while work:
        x = work.pop()
        for i, a in apps(x).items():
            if i not in done and a.decl().name() in TABLES:
                done.add(i); d = table_def(a); out.append(d); work.append(d)
    return out

def div_axioms(app):
    nm = app.decl().name()
    if not nm.startswith('udiv'): return []
    w, c = nm[4:].split('_'); w = int(w); c = int(c)
    x = app.arg(0); q = app
    mx = ((1 << w) - 1) // c
    return [z3.ULE(q, z3.BitVecVal(mx, w)), z3.ULT(x - q * z3.BitVecVal(c, w), z3.BitVecVal(c, w)),
            z3.ULE(q * z3.BitVecVal(c, w), x)]

TRACE = False
class Inc:
    """incremental solver following the path condition list of the current state"""
    def __init__(self):
        self.s = z3.Solver(); self.stack = []
        self.s.set('timeout', 1500)
        self.s.set('random_seed', 1)
    def sync(self, pc):
        st = self.stack; k = 0; n = min(len(st), len(pc))
        while k < n and st[k] is pc[k]: k += 1
        if len(st) > k:
            self.s.pop(len(st) - k); del st[k:]
        for c in pc[k:]:
            self.s.push(); self.s.add(c); st.append(c)
    def check(self, pc, extra=()):
        t = time.time()
        self.sync(pc)
        STATS['feas'] += 1
        if extra:
            self.s.push()
            for e in extra: self.s.add(e)
            r = self.s.check()
            m = self.s.model() if r == z3.sat else None
            self.s.pop()
        else:
            r = self.s.check(); m = self.s.model() if r == z3.sat else None
        dt = time.time() - t
        STATS['feas_time'] += dt
        if TRACE and dt > 0.4: print('   slow check', r, round(dt, 2), len(pc), [str(e)[:300].replace(chr(10), ' ') for e in extra], flush=True)
        return r, m

def relevant(pc, goal):
    """cone of influence of the goal"""
    want = set(syms(goal)); left = list(pc); out = []
    ch = True
    while ch:
        ch = False; rest = []
        for c in left:
            s = syms(c)
            if not s or s & want:
                out.append(c)
                if not s <= want: want |= s; ch = True
            else: rest.append(c)
        left = rest
    return out

def smt2(constraints):
    s = z3.Solver()
    for c in constraints: s.add(c)
    return s.to_smt2()

def cvc5_check(text, timeout, opts=()):
    fd, p = tempfile.mkstemp(suffix='.smt2'); os.close(fd)
    try:
        open(p, 'w').write('(set-logic ALL)\n' + text)
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), *opts, p], capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception: return 'unknown'
    finally: os.unlink(p)

def index_proof(cs, neg, timeout):
    t = time.time(); r = lia.refute(cs, neg, timeout, syms); STATS['z3_time'] += time.time() - t
    if r: STATS['z3'] += 1
    return r

def resolve_atoms(cs, goal, light, budget=3.0):
    """decide the comparisons of positions and sizes that occur inside conditions, with the facts about positions and sizes alone,
    and simplify everything with the outcome: (constraints, goal)"""
    end = time.time() + budget
    L = [c for c in cs if light(c)]
    atoms = {}; seen = set(); todo = [c for c in cs if not light(c)] + [goal]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_bool(e) and z3.is_app(e) and e.num_args() == 2 and z3.is_bv(e.arg(0)):
            if e.arg(0).size() >= 16 and light(e): atoms[e.get_id()] = e
            elif not light(e): todo += e.children()
            continue
        todo += e.children()
    if len(atoms) < 4: return cs, goal
    C = lia.Context(L, 0.2, syms)
    tr = [(a, C.translate(a)) for a in atoms.values()]
    r, m = C.check(z3.BoolVal(True))
    if r == z3.unsat: return [z3.BoolVal(False)], goal
    if r != z3.sat: return cs, goal
    subs = []; cand = [(a, e, z3.is_true(m.eval(e, model_completion=True))) for a, e in tr if e is not None]
    work = [cand[i:i + 16] for i in range(0, len(cand), 16)]
    while work and time.time() < end:
        g = work.pop()
        if not g: continue
        r, m = C.check(z3.Or([z3.Not(e) if v else e for _, e, v in g]))
        if r == z3.unsat: subs += [(a, z3.BoolVal(v)) for a, _, v in g]
        elif r == z3.sat:
            keep = lambda l: [x for x in l if z3.is_true(m.eval(x[1], model_completion=True)) == x[2]]
            work = [keep(w) for w in work]; work.append(keep(g))
        elif len(g) > 1: work += [g[:len(g) // 2], g[len(g) // 2:]]
    if not subs: return cs, goal
    f = lambda c: z3.simplify(z3.substitute(c, *subs))
    out = list(L)
    for c in cs:
        if light(c): continue
        c = f(c)
        if z3.is_and(c): out += c.children()
        elif not z3.is_true(c): out.append(c)
    return out, f(goal)
def by_cases(cs, goal, budget):
    """the goal selects from a small table by the bits of one variable: prove it for every entry"""
    bits = {}; seen = set(); todo = [goal]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_EXTRACT and e.arg(0).num_args() == 0 and not z3.is_bv_value(e.arg(0)):
            hi, lo = e.params()
            if hi == lo: bits.setdefault(e.arg(0).get_id(), (e.arg(0), set()))[1].add(hi)
        todo += e.children()
    bits = [(x, max(b) + 1) for x, b in bits.values() if len(b) >= 3 and max(b) < 6]
    if len(bits) != 1 or SPLIT[0]: return False
    x, k = bits[0]; end = time.time() + budget
    SPLIT[0] = True
    try:
        if prove(cs, z3.ULT(x, z3.BitVecVal(1 << k, x.size())), 4, False)[0] != 'unsat': return False
        for v in range(1 << k):
            if time.time() > end: return False
            sub = (x, z3.BitVecVal(v, x.size()))
            cv = [z3.simplify(z3.substitute(c, sub)) for c in cs]
            if any(z3.is_false(c) for c in cv): continue
            g = z3.simplify(z3.substitute(goal, sub))
            if z3.is_true(g): continue
            if prove([c for c in cv if not z3.is_true(c)], g, 3, False)[0] != 'unsat': return False
        return True
    finally: SPLIT[0] = False
SPLIT = [False]
def prove(pc, goal, budget=30.0, need_model=True):
    """('unsat'|'sat'|'unknown', backend, model, seconds): is pc and not goal satisfiable"""
    t0 = time.time()
    neg = z3.Not(goal)
    light = lambda c: not any(x in BASEFNS or x in TABLES for x in syms(c))
    if light(goal):
        # most conditions on indexes and sizes do not depend on memory contents
        s = z3.Solver(); s.set('timeout', int(min(0.3, budget) * 1000))
        rel = relevant([c for c in pc if light(c)], goal)
        for c in rel: s.add(c)
        s.add(neg)
        t = time.time(); r = s.check(); STATS['z3_time'] += time.time() - t
        if r == z3.unsat:
            STATS['z3'] += 1; return 'unsat', 'z3', None, time.time() - t0
        if r == z3.unknown and index_proof(rel, neg, min(3, budget)): return 'unsat', 'z3 (integers)', None, time.time() - t0
    if sweep.size(goal, 400) > 400 and not any(x in BASEFNS or (x in TABLES and TABLES[x][1][0] != 'rotate') for x in syms(goal)):
        t = time.time(); r, vals = sweep.sweep(goal, 2 * budget); STATS['z3_time'] += time.time() - t
        if r == 'valid': STATS['z3'] += 1; return 'unsat', 'z3 (sweeping)', None, time.time() - t0
        if r == 'falsified':
            s = z3.Solver(); s.set('timeout', 5000)
            for c in pc: s.add(c)
            for x, v in vals: s.add(x == (v if z3.is_bv(x) else bool(v)))
            if s.check() == z3.sat: return 'sat', 'z3', s.model(), time.time() - t0
    pc = list(pc)
    if any(x in TABLES for x in syms(goal)) or any(any(x in TABLES for x in syms(c)) for c in pc): pc = pc + table_defs(pc + [neg])
    rel = relevant(pc, goal)
    res = None
    for tmo, mk in ((min(0.4, budget), 'default'), (min(2, budget), 'int'), (0, 'resolve'), (min(3, budget), 'default'), (budget / 2, 'qfbv'), ):
        if mk == 'resolve':
            if SPLIT[0]: continue
            light2 = lambda c: not any(x in BASEFNS or x in TABLES or x.startswith('def_') for x in syms(c))
            c2, g2 = resolve_atoms(rel, goal, light2)
            if c2 is not rel:
                s = z3.Solver(); s.set('timeout', int(min(budget, 2) * 1000)); s.add(c2); s.add(z3.Not(g2))
                t = time.time(); r = s.check(); STATS['z3_time'] += time.time() - t
                if r == z3.unsat: STATS['z3'] += 1; return 'unsat', 'z3 (resolved)', None, time.time() - t0
                if r == z3.unknown and index_proof(c2, z3.Not(g2), min(budget, 2)): return 'unsat', 'z3 (integers)', None, time.time() - t0
            if by_cases(c2, g2, budget): return 'unsat', 'z3 (cases)', None, time.time() - t0
            continue
        if mk == 'int':
            if index_proof(rel, neg, tmo): return 'unsat', 'z3 (integers)', None, time.time() - t0
            continue
        s = z3.Solver() if mk == 'default' else z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'smt').solver()
        s.set('timeout', int(tmo * 1000))
        for c in rel: s.add(c)
        s.add(neg)
        t = time.time()
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        STATS['z3_time'] += time.time() - t
        if r == z3.unsat:
            STATS['z3'] += 1
            return 'unsat', 'z3', None, time.time() - t0
        if r == z3.sat:
            m = s.model()
            if len(rel) != len(pc):
                s2 = z3.Solver(); s2.set('timeout', int(budget * 500))
                for c in pc: s2.add(c)
                s2.add(neg)
                r2 = s2.check()
                if r2 == z3.unsat:
                    STATS['z3'] += 1; return 'unsat', 'z3', None, time.time() - t0
                m = s2.model() if r2 == z3.sat else None
            return 'sat', 'z3', m, time.time() - t0
        text = None
        if mk == 'default' and tmo > 0.4:
            t = time.time()
            text = smt2(rel + [neg])
            r = cvc5_check(text, min(budget / 2, 10))
            STATS['cvc5_time'] += time.time() - t
            if r == 'unsat':
                STATS['cvc5'] += 1; return 'unsat', 'cvc5', None, time.time() - t0
    t = time.time()
    text = smt2(rel + [neg])
    r = cvc5_check(text, budget / 2, ('--solve-bv-as-int=sum',))
    STATS['cvc5_time'] += time.time() - t
    if r == 'unsat':
        STATS['cvc5'] += 1; return 'unsat', 'cvc5-int', None, time.time() - t0
    return 'unknown', '-', None, time.time() - t0
