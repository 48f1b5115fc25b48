"""Semantics of the functions that have no body in the module: intrinsics, the C library, the C++ runtime."""
import z3, re
from mem import *

BUILTINS = {}
def _S():
    import solver; return solver
def bv_bool(c): return z3.BoolVal(c) if isinstance(c, bool) else c
def b(*names):
    def d(f):
        for n in names: BUILTINS[n] = f
        return f
    return d

def _X():
    import exec as ex
    return ex

def cstr(e, st, p):
    p = e.toptr(st, p)
    o = st.mem.get(p.obj) or e.gobj(st, p.obj)
    out = bytearray(); k = p.off
    while True:
        c = e.byte(st, o, k)
        if not isinstance(c, int): raise Unsupported('name string')
        if c == 0: break
        out.append(c); k += 1
    return out.decode()

# ------------------------------------------------------------------ contract language
@b('irv_nondet')
def _nondet(e, st, a, I):
    name = cstr(e, st, a[0]); bits = a[1]
    v = z3.BitVec(fresh_name('in_' + name), 64 if bits > 63 else bits)
    st.nondet.append(('int', name, bits, v))
    return v if bits >= 64 else z3.ZeroExt(64 - bits, v)
@b('irv_size')
def _size(e, st, a, I):
    name = cstr(e, st, a[0]); mx = a[1]
    v = z3.BitVec(fresh_name('in_' + name), 64)
    st.nondet.append(('size', name, mx, v))
    if isinstance(mx, int) and mx == 0: return 0
    e.assume(st, z3.ULE(v, bv(mx, 64)))
    return v
@b('irv_assume')
def _assume(e, st, a, I):
    c = e.i2b(a[0])
    e.assume(st, c)
    if not isinstance(c, bool):
        r, m = e.inc.check(st.pc)
        if r == z3.unsat: raise _X().PathEnd()
    return None
@b('irv_assert')
def _assert(e, st, a, I):
    name = cstr(e, st, a[1])
    e.oblige(st, e.i2b(a[0]), name, 'assert')
    return None
@b('irv_cover')
def _cover(e, st, a, I):
    name = cstr(e, st, a[0])
    e.cover_names.add(name)
    if name in e.covers or e.suppress: return None
    r, m = e.inc.check(st.pc)
    if r == z3.sat: e.covers.add(name)
    elif r == z3.unsat: raise _X().PathEnd()
    return None
@b('irv_buffer')
def _buffer(e, st, a, I):
    name = cstr(e, st, a[0])
    o = e.new_obj(st, 'buffer', name, a[1])
    if o.arr is None: o.arr = ABase(name)
    st.nondet.append(('buf', name, a[1], o.arr.f))
    return Ptr(o.id, 0)
@b('irv_bytes')
def _bytes(e, st, a, I):
    """a buffer in cell mode: constant size, may hold pointers"""
    o = e.new_obj(st, 'buffer', cstr(e, st, a[0]), a[1]); return Ptr(o.id, 0)
@b('irv_symbolic')
def _sym(e, st, a, I): return 1
@b('irv_hint')
def _hint(e, st, a, I):
    st.terms.append(a[0]); return None
@b('irv_heap_count')
def _hc(e, st, a, I):
    return sum(1 for o in st.mem.values() if o.kind == 'heap' and o.alive)
@b('irv_unroll')
def _unroll(e, st, a, I):
    st.ghost['unroll'] = a[0]; return None
@b('irv_peel')
def _peel(e, st, a, I):
    """loops run their first iteration on its own before an invariant is inferred for the rest"""
    st.ghost['peel'] = 1; return None
def recfn(st, name):
    k = 'rec ' + name
    if k not in st.ghost: st.ghost[k] = z3.Function(fresh_name('def_' + name), z3.BitVecSort(64), z3.BitVecSort(64))
    return st.ghost[k]
@b('irv_rec')
def _rec(e, st, a, I):
    """value of a specification function that irv_def defines by recursion"""
    return recfn(st, cstr(e, st, a[0]))(bv(a[1], 64))
@b('irv_fact')
def _fact(e, st, a, I):
    """assume for all k < n: condition; k is an irv_index()"""
    c = e.i2b(a[2])
    if c is True: return None
    f = _S().Fact(a[0], a[1], bv_bool(c))
    f.trig = f.trig[:1]
    if not f.trig: raise Unsupported('a universal assumption that no read can instantiate')
    e.add_fact(st, f); return None
@b('irv_index')
def _index(e, st, a, I): return z3.BitVec(fresh_name('i'), 64)
@b('irv_def')
def _def(e, st, a, I):
    """for all i: f(i) == the expression (instantiated for the applications that occur); the recursion has to be well-founded"""
    f = recfn(st, cstr(e, st, a[0])); d = (a[1], bv(a[2], 64)); o = e.defs.get(f.name())
    if o is not None and not (o[0].eq(d[0]) and o[1].eq(d[1])): raise Unsupported('a specification function is defined twice')
    e.defs[f.name()] = d; return None
@b('irv_peek')
def _peek(e, st, a, I):
    """byte of a buffer, for specifications: no obligation to stay inside"""
    p = e.toptr(st, a[0])
    return bv(st.mem[p.obj].arr.read(e, add64(p.off, a[1])), 8)
@b('irv_split_min')
def _splitmin(e, st, a, I):
    """from here on, the minimum or maximum of a constant and a value is case split"""
    st.ghost['splitmin'] = 1; return None
@b('irv_fork')
def _fork(e, st, a, I):
    """case split: continue separately with the argument true and false"""
    c = e.i2b(a[0])
    if isinstance(c, bool): return int(c)
    d = e.decide(st, c)
    if d is None: raise _X().Fork([c, z3.Not(c)])
    return int(d)
@b('irv_ite')
def _irvite(e, st, a, I):
    c = e.i2b(a[0])
    return ite(c, e.num(st, a[1], 64), e.num(st, a[2], 64), 64)
@b('irv_value')
def _value(e, st, a, I):
    """the value itself, case split over all feasible values (at most 300)"""
    v = a[0]
    if isinstance(v, int): return v
    r, m = e.inc.check(st.pc)
    e.closed(st, v)
    r, m = e.inc.check(st.pc)
    if r == z3.sat:
        x = m.eval(v, model_completion=True)
        if e.implied(st, v == x): return x.as_long()
    raise _X().Fork(e.enum(st, v, 300))
@b('irv_uf1')
def _uf1(e, st, a, I):
    f = z3.Function('uf_' + cstr(e, st, a[0]), z3.BitVecSort(64), z3.BitVecSort(64))
    return f(bv(a[1], 64))
@b('irv_uf2')
def _uf2(e, st, a, I):
    f = z3.Function('uf_' + cstr(e, st, a[0]), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    return f(bv(a[1], 64), bv(a[2], 64))
@b('_ZSt11_Hash_bytesPKvmm')
def _hash_bytes(e, st, a, I):
    """the hash of n bytes: some function of the bytes and the seed (n fixed)"""
    n = a[1]
    if not isinstance(n, int) or n > 32: raise Unsupported('hash of many bytes')
    x = e.load_n(st, e.toptr(st, a[0]), n, ('i', 8 * n)) if n else 0
    f = z3.Function('uf_hash_bytes_%d' % n, z3.BitVecSort(8 * max(n, 1)), z3.BitVecSort(64), z3.BitVecSort(64))
    return f(bv(e.num(st, x, 8 * n), 8 * max(n, 1)), bv(a[2], 64))
@b('irv_dead')
def _dead(e, st, a, I):
    p = e.toptr(st, a[0]); o = st.mem.get(p.obj)
    return int(o is None or not o.alive)
@b('irv_same_object')
def _sameobj(e, st, a, I): return int(e.toptr(st, a[0]).obj == e.toptr(st, a[1]).obj)
@b('irv_trace')
def _trace(e, st, a, I):
    if e.o.get('trace'): print('TRACE', cstr(e, st, a[0]), a[1], 'suppress', e.suppress)
    return None

# ------------------------------------------------------------------ heap
def alloc(e, st, n, name='heap'):
    if not isinstance(n, int):
        e.assume(st, z3.ULT(n, bv(1 << 44, 64)))
        d = simp(n)
        # a length that is already fixed by the path becomes a constant
        r, m = e.inc.check(st.pc)
        if r == z3.unsat: raise _X().PathEnd()
        if r == z3.sat:
            x = m.eval(n, model_completion=True)
            if x.as_long() < 65536 and e.implied(st, n == x): n = x.as_long()
    elif n >= 1 << 44: raise _X().PathEnd()
    o = e.new_obj(st, 'heap', name, n)
    e.assumed.add('memory allocation succeeds and no object reaches 2^44 bytes')
    return Ptr(o.id, 0)
@b('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'malloc', '_ZnwmSt11align_val_t')
def _new(e, st, a, I): return alloc(e, st, a[0])
@b('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _delete(e, st, a, I):
    p = e.toptr(st, a[0])
    if p.obj == 0:
        if isinstance(p.off, int) and p.off == 0: return None
        e.oblige(st, False, 'release of an invalid pointer', 'memory')
    o = st.mem.get(p.obj)
    if o is None or o.kind != 'heap': e.oblige(st, False, 'release of memory that was not allocated', 'memory')
    if not o.alive: e.oblige(st, False, 'memory is released only once', 'memory')
    if not (isinstance(p.off, int) and p.off == 0): e.oblige(st, bv(p.off, 64) == bv(0, 64), 'release of the start of a block', 'memory')
    e.oblige(st, True, 'memory is released only once', 'memory')
    o = st.wobj(p.obj); o.alive = False
    if st.wlog is not None: st.wlog.append(('d', o.id))
    return None

# ------------------------------------------------------------------ C library
@b('memcpy', 'memmove')
def _memcpy(e, st, a, I): e.memcpy(st, e.toptr(st, a[0]), e.toptr(st, a[1]), a[2]); return a[0]
@b('memcmp', 'bcmp')
def _memcmp(e, st, a, I):
    """a short comparison in one expression; longer ones are the model irvm_memcmp, a loop"""
    n = a[2]
    if not isinstance(n, int) or n > 64: return _X().FALLBACK
    if n == 0: return 0
    ps = []
    for q in (e.toptr(st, a[0]), e.toptr(st, a[1])):
        bs = [e.load_n(st, Ptr(q.obj, add64(q.off, i)), 1, ('int', 8)) for i in range(n)]
        ps.append(cst(z3.simplify(z3.Concat(*[bv(x, 8) for x in bs]) if n > 1 else bv(bs[0], 8))))
    x, y = ps
    if isinstance(x, int) and isinstance(y, int): return 0 if x == y else (1 if x > y else 0xFFFFFFFF)
    x, y = bv(x, 8 * n), bv(y, 8 * n)
    return cst(z3.simplify(z3.If(x == y, z3.BitVecVal(0, 32), z3.If(z3.ULT(x, y), z3.BitVecVal(0xFFFFFFFF, 32), z3.BitVecVal(1, 32)))))
@b('memset')
def _memset(e, st, a, I):
    v = a[1]
    v = v & 0xFF if isinstance(v, int) else (cst(z3.simplify(z3.Extract(7, 0, v))) if v is not UNDEF else UNDEF)
    e.memset(st, e.toptr(st, a[0]), v, a[2]); return a[0]
@b('abort', 'exit', '_exit', '_ZSt9terminatev', '__assert_fail', '__cxa_pure_virtual', '__cxa_bad_cast', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__clang_call_terminate')
def _abort(e, st, a, I):
    n = I.a[0][1]
    e.oblige(st, False, 'the program does not stop in %s' % n, 'ub')
@b('__cxa_guard_acquire')
def _ga(e, st, a, I):
    v = e.load(st, ('i', 8), e.toptr(st, a[0]))
    return int(v == 0) if isinstance(v, int) else 1
@b('__cxa_guard_release')
def _gr(e, st, a, I): e.store(st, ('i', 8), 1, e.toptr(st, a[0])); return None
@b('__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit')
def _nop(e, st, a, I): return 0

# ------------------------------------------------------------------ exceptions
@b('__cxa_allocate_exception')
def _cae(e, st, a, I): return Ptr(e.new_obj(st, 'exception', 'exception', a[0]).id, 0)
@b('__cxa_free_exception')
def _cfe(e, st, a, I): return None
@b('__cxa_throw')
def _throw(e, st, a, I):
    ti = e.toptr(st, a[1]); name = e.gnames.get(ti.obj)
    st.exc = (e.toptr(st, a[0]), name, None)
    return _X().THROWN
@b('__cxa_rethrow', '__cxa_begin_catch_rethrow')
def _rethrow(e, st, a, I):
    st.exc = st.ghost['caught']; return _X().THROWN
@b('__cxa_begin_catch')
def _cbc(e, st, a, I):
    st.ghost['caught'] = st.exc
    return a[0]
@b('__cxa_end_catch')
def _cec(e, st, a, I): return None
@b('__cxa_get_exception_ptr')
def _cgep(e, st, a, I): return a[0]
@b('_ZSt18uncaught_exceptionv')
def _unc(e, st, a, I): return 0

THROWS = {'_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error', '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
          '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range', '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
          '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call', '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
          '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error', '_ZSt20__throw_system_errori': '_ZTISt12system_error', '_ZSt27__throw_bad_optional_accessv': '_ZTISt19bad_optional_access'}
for _n, _t in THROWS.items():
    def _mk(t):
        def f(e, st, a, I):
            st.exc = (Ptr(e.new_obj(st, 'exception', 'exception', 64).id, 0), t, None)
            return _X().THROWN
        return f
    BUILTINS[_n] = _mk(_t)

# ------------------------------------------------------------------ llvm intrinsics
def llvm_builtin(name):
    p = name.split('.')
    k = p[1]
    f = LL.get(k)
    if f: return f
    k2 = '.'.join(p[1:3])
    f = LL.get(k2)
    if f: return f
    k3 = '.'.join(p[1:4])
    return LL.get(k3)
LL = {}
def l(*names):
    def d(f):
        for n in names: LL[n] = f
        return f
    return d
@l('memcpy', 'memmove', 'memcpy.inline')
def _lm(e, st, a, I): e.memcpy(st, e.toptr(st, a[0]), e.toptr(st, a[1]), a[2])
@l('memset')
def _ls(e, st, a, I): e.memset(st, e.toptr(st, a[0]), a[1], a[2])
@l('expect')
def _le(e, st, a, I): return a[0]
@l('assume', 'donothing', 'dbg', 'prefetch', 'invariant.start', 'invariant.end', 'experimental', 'sideeffect', 'stackrestore', 'va_end')
def _ln(e, st, a, I): return None
@l('is.constant')
def _lic(e, st, a, I): return 0
@l('objectsize')
def _los(e, st, a, I): return MASK(64)
def MASK(n): return (1 << n) - 1
@l('lifetime.start')
def _lts(e, st, a, I):
    p = e.toptr(st, a[1]); o = st.mem.get(p.obj)
    if o is None or o.kind != 'stack': return None
    o = st.wobj(o.id); o.alive = True; o.cells = {}
    if o.arr is not None: o.arr = ABase(o.name)
    if st.wlog is not None: st.wlog.append(('L', o.id))
    return None
@l('lifetime.end')
def _lte(e, st, a, I):
    p = e.toptr(st, a[1]); o = st.mem.get(p.obj)
    if o is None or o.kind != 'stack': return None
    o = st.wobj(o.id); o.alive = False
    if st.wlog is not None: st.wlog.append(('L', o.id))
    return None
UBSAN = {0: 'an addition overflows', 1: 'a call to a builtin is invalid', 3: 'division overflows', 5: 'implicit conversion', 10: 'an end of a function without a value is reached', 13: 'multiplication overflows', 
         16: 'a negation overflows', 18: 'an array index is out of bounds', 19: 'pointer overflow', 20: 'shift out of bounds', 21: 'a subtraction overflows', 23: 'vla bound', 2: 'unreachable code is reached'}
@l('ubsantrap')
def _ub(e, st, a, I):
    e.oblige(st, False, 'no undefined behaviour (%s)' % {0: 'addition overflow', 1: 'unreachable code reached', 3: 'division', 10: 'missing return', 12: 'multiplication overflow', 13: 'negation overflow', 18: 'index out of bounds', 20: 'shift out of bounds', 21: 'subtraction overflow', 22: 'type mismatch'}.get(a[0], 'check %s' % a[0]), 'ub')
@l('trap', 'debugtrap')
def _trap(e, st, a, I): e.oblige(st, False, 'no trap is reached', 'ub')
@l('eh.typeid.for')
def _tid(e, st, a, I):
    p = e.toptr(st, a[0])
    if p.obj == 0: return e.typeid('catch-all')
    return e.typeid(e.gnames[p.obj])
def bits_of(I): return I.ty[1]
def ov(op, signed):
    def f(e, st, a, I):
        n = I.ty[1][0][1]
        x, y = a[0], a[1]
        if isinstance(x, Ptr) or isinstance(y, Ptr): x = e.num(st, x, n); y = e.num(st, y, n)
        if x is UNDEF: x = z3.BitVec(fresh_name('undef'), n)
        if y is UNDEF: y = z3.BitVec(fresh_name('undef'), n)
        r = e.binop(op, ('i', n), x, y, st)
        if isinstance(x, int) and isinstance(y, int):
            s = (lambda v: v - (1 << n) if signed and v >> (n - 1) else v)
            t = {'add': s(x) + s(y), 'sub': s(x) - s(y), 'mul': s(x) * s(y)}[op]
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
            return [r, int(not lo <= t <= hi)]
        x, y = bv(x, n), bv(y, n)
        if op == 'mul' and (z3.is_bv_value(x) or z3.is_bv_value(y)):
            if z3.is_bv_value(x): x, y = y, x
            c = y.as_long()
            if signed:
                cs = c - (1 << n) if c >> (n - 1) else c
                if cs == 0: return [r, 0]
                hi = (1 << (n - 1)) - 1; lo = -(1 << (n - 1))
                # x*cs in range  <=>  ceil(lo/cs) <= x <= floor(hi/cs)
                if cs > 0: a0, b0 = -((-lo) // cs), hi // cs
                else: a0, b0 = -((hi) // (-cs)), (-lo) // (-cs)
                if b0 > hi: return [r, 0] if a0 <= lo else [r, e.b2i(x < bv(a0 % (1 << n), n))]
                c_ = z3.Or(x < bv(a0 % (1 << n), n), x > bv(b0 % (1 << n), n))
            else:
                if c == 0: return [r, 0]
                c_ = z3.UGT(x, bv(((1 << n) - 1) // c, n))
            return [r, e.b2i(c_)]
        if op == 'add': ok = z3.And(z3.BVAddNoOverflow(x, y, signed), z3.BVAddNoUnderflow(x, y)) if signed else z3.BVAddNoOverflow(x, y, False)
        elif op == 'sub': ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, signed)) if signed else z3.UGE(x, y)
        else: ok = z3.And(z3.BVMulNoOverflow(x, y, signed), z3.BVMulNoUnderflow(x, y)) if signed else z3.BVMulNoOverflow(x, y, False)
        return [r, e.b2i(z3.Not(ok))]
    return f
for _s, _g in (('s', True), ('u', False)):
    for _o in ('add', 'sub', 'mul'): LL['%s%s.with' % (_s, _o)] = ov(_o, _g)
def mm(f):
    def g(e, st, a, I):
        n = bits_of(I); x, y = a
        if isinstance(x, Ptr) or isinstance(y, Ptr): x = e.num(st, x, n); y = e.num(st, y, n)
        c = e.i2b(e.cmp(f, x, y, n))
        if not isinstance(c, bool) and st.ghost.get('splitmin') and (isinstance(x, int) or isinstance(y, int)):
            d = e.decide(st, c)
            if d is None: raise _X().Fork([c, z3.Not(c)])
            c = d
        return ite(c, x, y, n)
    return g
LL['umax'] = mm('uge'); LL['umin'] = mm('ule'); LL['smax'] = mm('sge'); LL['smin'] = mm('sle')
@l('abs')
def _abs(e, st, a, I):
    n = bits_of(I); x = a[0]
    if isinstance(x, int): return MASK(n) & -x if x >> (n - 1) else x
    return z3.If(x < 0, -x, x)
@l('bswap')
def _bswap(e, st, a, I):
    n = bits_of(I); x = a[0]
    if isinstance(x, int): return int.from_bytes(x.to_bytes(n // 8, 'little'), 'big')
    return cst(z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n // 8)])))
@l('ctpop')
def _ctpop(e, st, a, I):
    n = bits_of(I); x = a[0]
    if isinstance(x, int): return bin(x).count('1')
    r = bv(0, n)
    for i in range(n): r = r + z3.ZeroExt(n - 1, z3.Extract(i, i, x))
    return z3.simplify(r)
@l('ctlz')
def _ctlz(e, st, a, I):
    n = bits_of(I); x = a[0]
    if isinstance(x, int): return n - x.bit_length()
    r = bv(n, n)
    for i in range(n): r = z3.If(z3.Extract(i, i, x) == 1, bv(n - 1 - i, n), r)
    return z3.simplify(r)
@l('cttz')
def _cttz(e, st, a, I):
    n = bits_of(I); x = a[0]
    if isinstance(x, int): return n if x == 0 else (x & -x).bit_length() - 1
    r = bv(n, n)
    for i in range(n - 1, -1, -1): r = z3.If(z3.Extract(i, i, x) == 1, bv(i, n), r)
    return z3.simplify(r)
@l('fshl', 'fshr')
def _fsh(e, st, a, I):
    n = bits_of(I); x, y, s = a
    left = 'fshl' in I.a[0][1]
    if not isinstance(s, int): raise Unsupported('funnel shift by a variable')
    s %= n
    if s == 0: return x if left else y
    if not left: s = n - s
    if isinstance(x, int) and isinstance(y, int): return MASK(n) & ((x << s) | (y >> (n - s)))
    if not isinstance(x, int) and not isinstance(y, int) and n == 32 and x.eq(y):
        import solver
        return solver.rotate(x, s, n)
    return cst(z3.simplify(z3.Concat(z3.Extract(n - 1 - s, 0, bv(x, n)), z3.Extract(n - 1, n - s, bv(y, n)))))
@l('bitreverse')
def _brev(e, st, a, I):
    n = bits_of(I); x = a[0]
    if isinstance(x, int): return int(bin(x)[2:].zfill(n)[::-1], 2)
    return z3.simplify(z3.Concat(*[z3.Extract(i, i, x) for i in range(n)]))
def sat(op, signed):
    def f(e, st, a, I):
        n = bits_of(I); x, y = bv(a[0], n), bv(a[1], n)
        if signed: raise Unsupported('saturating arithmetic')
        if op == 'sub': return ite(simp_b(z3.UGE(x, y)), simp(x - y), 0, n)
        return ite(simp_b(z3.BVAddNoOverflow(x, y, False)), simp(x + y), MASK(n), n)
    return f
LL['usub.sat'] = sat('sub', False); LL['uadd.sat'] = sat('add', False)
@l('vector')
def _red(e, st, a, I):
    nm = I.a[0][1]
    k = nm.split('.')[3]
    op = {'add': 'add', 'or': 'or', 'and': 'and', 'xor': 'xor', 'mul': 'mul'}.get(k)
    if not op: raise Unsupported(nm)
    r = a[0][0]
    for x in a[0][1:]: r = e.binop(op, I.ty, r, x, st)
    return r
@l('returnaddress', 'frameaddress', 'stacksave')
def _ra(e, st, a, I): return NULL
@l('threadlocal')
def _tl(e, st, a, I): return a[0]
@l('load')
def _lrel(e, st, a, I): raise Unsupported('relative load')
@l('launder', 'strip')
def _launder(e, st, a, I): return a[0]

# ------------------------------------------------------------------ recognised by shape
def pattern_builtin(name):
    if name.endswith('what') : return None
    # destructors/constructors of standard exception classes that live in libstdc++.so
    m = re.match(r'_ZNSt(\d+)(\w+?)[CD][012]E', name)
    if m and any(x in name for x in ('error', 'bad_', 'exception', 'out_of_range', 'invalid_argument')): return lambda e, st, a, I: None
    if re.match(r'_ZNSt9exception[CD]', name): return lambda e, st, a, I: None
    return None
