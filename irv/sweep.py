"""Equivalence of large bit-vector terms: nodes that agree under random simulation are proved equal from the inputs upwards
(each proof sees a small cone whose frontier is cut by fresh variables) and merged.  Every merge is proved by the solver,
so what is concluded is valid; nothing is assumed."""
import z3, time, random
K = z3
def _topo(root):
    order = []; seen = set(); stack = [(root, False)]
    while stack:
        x, done = stack.pop(); i = x.get_id()
        if done: order.append(x); continue
        if i in seen: continue
        seen.add(i); stack.append((x, True))
        for c in x.children():
            if c.get_id() not in seen: stack.append((c, False))
    return order
def _width(x):
    s = x.sort()
    if s.kind() == z3.Z3_BOOL_SORT: return 0
    if s.kind() == z3.Z3_BV_SORT: return s.size()
    return None
def _signed(v, w): return v - (1 << w) if v >> (w - 1) else v
def _evaln(x, w, a):
    """value of the application x from the values a of its arguments, None if the operator is not known"""
    k = x.decl().kind(); ch = x.children()
    if w: m = (1 << w) - 1
    if k == z3.Z3_OP_BADD: return sum(a) & m
    if k == z3.Z3_OP_BMUL:
        r = 1
        for v in a: r = r * v & m
        return r
    if k == z3.Z3_OP_BSUB:
        r = a[0]
        for v in a[1:]: r -= v
        return r & m
    if k == z3.Z3_OP_BNEG: return -a[0] & m
    if k == z3.Z3_OP_BNOT: return ~a[0] & m
    if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
        r = a[0]
        for v in a[1:]: r = r & v if k == z3.Z3_OP_BAND else r | v if k == z3.Z3_OP_BOR else r ^ v
        return r
    if k == z3.Z3_OP_CONCAT:
        r = 0
        for v, c in zip(a, ch): r = r << c.size() | v
        return r
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = x.params(); return a[0] >> lo & ((1 << (hi - lo + 1)) - 1)
    if k == z3.Z3_OP_ZERO_EXT: return a[0]
    if k == z3.Z3_OP_SIGN_EXT: return _signed(a[0], ch[0].size()) & m
    if k == z3.Z3_OP_BSHL: return a[0] << a[1] & m if a[1] < w else 0
    if k == z3.Z3_OP_BLSHR: return a[0] >> a[1] if a[1] < w else 0
    if k == z3.Z3_OP_BASHR: return _signed(a[0], w) >> min(a[1], w) & m
    if k == z3.Z3_OP_ROTATE_LEFT:
        n = x.params()[0] % w; return (a[0] << n | a[0] >> (w - n)) & m
    if k == z3.Z3_OP_ROTATE_RIGHT:
        n = x.params()[0] % w; return (a[0] >> n | a[0] << (w - n)) & m
    if k == z3.Z3_OP_ITE: return a[1] if a[0] else a[2]
    if k == z3.Z3_OP_EQ: return int(a[0] == a[1])
    if k == z3.Z3_OP_DISTINCT: return int(len(set(a)) == len(a))
    if k == z3.Z3_OP_NOT: return 1 - a[0]
    if k == z3.Z3_OP_AND: return int(all(a))
    if k == z3.Z3_OP_OR: return int(any(a))
    if k == z3.Z3_OP_XOR: return a[0] ^ a[1]
    if k == z3.Z3_OP_ULEQ: return int(a[0] <= a[1])
    if k == z3.Z3_OP_UGEQ: return int(a[0] >= a[1])
    if k == z3.Z3_OP_ULT: return int(a[0] < a[1])
    if k == z3.Z3_OP_UGT: return int(a[0] > a[1])
    ww = _width(ch[0]) if ch else 0
    if k == z3.Z3_OP_SLEQ: return int(_signed(a[0], ww) <= _signed(a[1], ww))
    if k == z3.Z3_OP_SGEQ: return int(_signed(a[0], ww) >= _signed(a[1], ww))
    if k == z3.Z3_OP_SLT: return int(_signed(a[0], ww) < _signed(a[1], ww))
    if k == z3.Z3_OP_SGT: return int(_signed(a[0], ww) > _signed(a[1], ww))
    return None
NV = 24
def _below(t):
    return {x.get_id() for x in _topo(t)}
def _pair(a, b, level):
    """a and b with the nodes they share replaced by variables, except shared nodes within `level` steps of the first shared ones"""
    shared = _below(a) & _below(b); dist = {}
    # breadth first from both roots: distance below the first shared node
    import collections
    q = collections.deque([(a, -1), (b, -1)]); best = {}
    while q:
        x, d = q.popleft(); i = x.get_id()
        d2 = d + 1 if i in shared else -1
        if i in best and best[i] <= d2: continue
        best[i] = d2
        if d2 >= level: continue
        for c in x.children(): q.append((c, d2))
    memo = {}
    def go(root):
        st = [(root, False)]
        while st:
            x, done = st.pop(); i = x.get_id()
            if i in memo: continue
            if x.num_args() == 0 or (i in best and best[i] >= level):
                memo[i] = x if z3.is_bv_value(x) or z3.is_true(x) or z3.is_false(x) else z3.FreshConst(x.sort(), 'cut'); continue
            if not done:
                st.append((x, True)); st.extend((c, False) for c in x.children())
            else: memo[i] = x.decl()(*[memo[c.get_id()] for c in x.children()])
        return memo[root.get_id()]
    return go(a), go(b)
def size(t, limit):
    seen = set(); stack = [t]
    while stack:
        x = stack.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if len(seen) > limit: return limit + 1
        stack.extend(x.children())
    return len(seen)
def sweep(goal, budget, seed=1):
    """('valid', None) | ('falsified', {id: (const, value)}) | ('unknown', None)"""
    t_end = time.time() + budget; rnd = random.Random(seed)
    order = _topo(goal); val = {}; leaf_ok = True; leaves = []
    for x in order:
        w = _width(x); i = x.get_id()
        if w is None: val[i] = [0] * NV; leaf_ok = False; continue
        if z3.is_bv_value(x): val[i] = [x.as_long()] * NV; continue
        if z3.is_true(x) or z3.is_false(x): val[i] = [int(z3.is_true(x))] * NV; continue
        k = x.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('rot'):
            n = int(x.decl().name().split('_')[1]); val[i] = [(v << n | v >> (w - n)) & ((1 << w) - 1) for v in val[x.arg(0).get_id()]]; continue
        if k == z3.Z3_OP_UNINTERPRETED:
            if x.num_args(): leaf_ok = False
            val[i] = [rnd.getrandbits(max(1, w)) for _ in range(NV)]; leaves.append(x); continue
        cs = [val[c.get_id()] for c in x.children()]
        out = []
        for n in range(NV):
            v = _evaln(x, w, [c[n] for c in cs])
            if v is None: break
            out.append(v)
        if len(out) < NV: out = [rnd.getrandbits(max(1, w)) for _ in range(NV)]; leaf_ok = False
        val[i] = out
    g = val[goal.get_id()]
    if not all(g):
        n = g.index(0)
        return ('falsified', [(x, val[x.get_id()][n]) for x in leaves]) if leaf_ok else ('unknown', None)
    reb = {}; classes = {}; proofs = 0
    for x in order:
        if time.time() > t_end: return 'unknown', None
        i = x.get_id()
        if x.num_args() == 0: reb[i] = x; r = x
        else: r = x.decl()(*[reb[c.get_id()] for c in x.children()])
        w = _width(x)
        if w is None or w == 0 or w < 8: reb[i] = r; continue
        sig = (w, tuple(val[i])); cl = classes.setdefault(sig, [])
        done = False
        for o in cl:
            if o.eq(r): reb[i] = o; done = True; break
        if done: continue
        if z3.is_bv_value(r): cl.insert(0, r); reb[i] = r; continue
        for o in cl[:3]:
            for d in (0, 1, 2, 4, 8):
                a, b_ = _pair(r, o, d)
                s = z3.SolverFor('QF_BV'); s.set('timeout', 1500 if d < 8 else 4000); s.add(a != b_); proofs += 1
                if s.check() == z3.unsat: reb[i] = o; done = True; break
                if time.time() > t_end: return 'unknown', None
            if done: break
        if not done: cl.append(r); reb[i] = r
    r = z3.simplify(reb[goal.get_id()])
    if z3.is_true(r): return 'valid', None
    s = z3.Solver(); s.set('timeout', 5000); s.add(z3.Not(r))
    return ('valid', None) if s.check() == z3.unsat else ('unknown', None)
