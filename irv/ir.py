"""Parser for the textual LLVM 18 IR that clang/opt print (the subset that C++ code compiles to)."""
import re

TOK = re.compile(r'''\s+|(?P<cstr>c"[^"]*")|(?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)|(?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 |(?P<str>"[^"]*")|(?P<md>!"[^"]*"|![-a-zA-Z$._0-9]*)|(?P<num>-?\d+\.\d+e[+-]?\d+|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<comdat>\$"[^"]*"|\$[-a-zA-Z$._0-9]+)|(?P<attr>\#\d+)|(?P<word>[a-zA-Z_][\w.]*)|(?P<dots>\.\.\.)|(?P<p>[,()\[\]{}<>=*|:;^])''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m: raise SyntaxError("cannot tokenize: %r" % s[pos:pos+60])
        k = m.lastgroup
        if k: out.append((k, m.group()))
        pos = m.end()
    return out

def unq(name):
    # strip sigil, quotes
    s = name[1:]
    if s.startswith('"'): s = s[1:-1]
    return s

def unesc(body):
    out = bytearray(); i = 0
    while i < len(body):
        c = body[i]
        if c == '\\':
            if body[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(body[i+1:i+3], 16)); i += 3
        else:
            out += c.encode('utf-8'); i += 1
    return bytes(out)

PTR = ('ptr',)
VOID = ('void',)

class Unsupported(Exception): pass

ATTRWORDS = set('''noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg returned immarg nest swiftself
 noreturn nounwind local_unnamed_addr unnamed_addr dso_local internal private linkonce linkonce_odr weak weak_odr external hidden protected
 default constant global thread_local available_externally appending common extern_weak tail musttail notail fastcc ccc coldcc
 nsw nuw exact inbounds nneg disjoint volatile allocptr writable noinline allocalign dead_on_unwind nofree unordered monotonic acquire release acq_rel seq_cst
 fast nnan ninf nsz arcp contract afn reassoc inrange samesign mustprogress'''.split())

class Fn:
    __slots__ = ('name', 'params', 'ret', 'body', 'blocks', 'entry', 'loops', 'mod', 'vararg', 'dbg', 'attrs')

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'dbg', 'blk', 'idx')
    def __repr__(self): return "%s = %s %s %s" % (self.res, self.op, self.ty, self.a)

class Module:
    def __init__(self, path):
        self.types = {}; self.globals = {}; self.fns = {}; self.decls = {}; self.md = {}; self.aliases = {}
        self._szc = {}
        self.parse(open(path).read().split('\n'))

    # ---------------------------------------------------------------- top level
    def parse(self, lines):
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                self.add_fn(l, lines[i+1:j]); i = j + 1; continue
            if l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls[unq('@' + m.group(1))] = l
            elif l.startswith('%') and ' = type ' in l:
                nm, _, rest = l.partition(' = type ')
                self.types[unq(nm.strip())] = rest
            elif l.startswith('@'):
                self.add_global(l)
            elif l.startswith('!') and ' = ' in l:
                nm, _, rest = l.partition(' = ')
                self.md[nm] = rest
            i += 1

    def add_fn(self, head, body):
        f = Fn()
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
        f.name = unq('@' + m.group(1))
        f.body = (head, body); f.blocks = None; f.mod = self; f.loops = None
        m2 = re.search(r'!dbg (![0-9]+)', head)
        f.dbg = m2.group(1) if m2 else None
        f.attrs = head[head.rfind(')'):]
        self.fns[f.name] = f

    def add_global(self, l):
        l = re.sub(r', !dbg ![0-9]+', '', l)
        nm, _, rest = l.partition(' = ')
        name = unq(nm.strip())
        t = tokenize(rest)
        p = P(self, t)
        isconst = False; tls = False
        while True:
            k, v = p.peek()
            if k == 'word' and v in ('alias',):
                p.next(); p.type(); p.expect(','); ty = p.type(); val = p.value(ty); self.aliases[name] = val; return
            if k == 'word' and v == 'global': p.next(); break
            if k == 'word' and v == 'constant': p.next(); isconst = True; break
            if k == 'word' and v == 'thread_local':
                p.next()
                if p.peek()[1] == '(': p.skip_paren()
                continue
            if k == 'word' and v in ('addrspace',):
                p.next(); p.skip_paren(); continue
            p.next()
        ty = p.type()
        init = None
        if not p.done() and p.peek()[1] not in (',',) and not (p.peek()[0] == 'word' and p.peek()[1] in ('align', 'comdat', 'section')):
            if ' external ' in (' ' + rest) and rest.split()[0] in ('external', 'extern_weak'): init = None
            else: init = p.value(ty)
        self.globals[name] = (ty, init, isconst)

    # ---------------------------------------------------------------- types
    def resolve(self, ty):
        if ty[0] == 'named':
            b = self.types.get(ty[1])
            if b is None: raise Unsupported('opaque type ' + ty[1])
            if isinstance(b, str):
                if b.strip() == 'opaque': raise Unsupported('opaque type ' + ty[1])
                b = P(self, tokenize(b)).type(); self.types[ty[1]] = b
            return self.resolve(b)
        return ty

    def size_align(self, ty):
        k = ty
        r = self._szc.get(k)
        if r: return r
        t = self.resolve(ty)
        if t[0] == 'i':
            n = t[1]; b = (n + 7) // 8
            a = 1
            while a < b: a *= 2
            a = min(a, 16); sz = (b + a - 1) // a * a
            r = (sz, a)
        elif t[0] == 'ptr': r = (8, 8)
        elif t[0] == 'fp': r = {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'half': (2, 2), 'fp128': (16, 16)}[t[1]]
        elif t[0] == 'array':
            s, a = self.size_align(t[2]); r = (s * t[1], a)
        elif t[0] == 'vec':
            s, a = self.size_align(t[2]); sz = s * t[1]
            al = 1
            while al < sz: al *= 2
            r = (al, al)
        elif t[0] == 'struct':
            off = 0; al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]: a = 1
                off = (off + a - 1) // a * a + s; al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        else: raise Unsupported('sizeof %s' % (t,))
        self._szc[k] = r
        return r

    def sizeof(self, ty): return self.size_align(ty)[0]

    def field_off(self, t, i):
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]: a = 1
            off = (off + a - 1) // a * a
            if j == i: return off
            off += s
        raise IndexError

    # ---------------------------------------------------------------- functions
    def function(self, name):
        f = self.fns.get(name)
        if f is None: return None
        if f.blocks is None: self.parse_fn(f)
        return f

    def parse_fn(self, f):
        head, body = f.body
        k = head.index('@')
        # return type
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
        t = tokenize(head[6:m.start()])
        p = P(self, t)
        p.skip_attrs()
        f.ret = p.type()
        t = tokenize(head[m.end() - 1:].rsplit('{', 1)[0])
        p = P(self, t)
        p.expect('(')
        f.params = []; f.vararg = False
        cnt = 0
        while p.peek()[1] != ')':
            if p.peek()[0] == 'dots': p.next(); f.vararg = True
            else:
                ty = p.type(); p.skip_attrs()
                k, v = p.peek()
                if k == 'loc': p.next(); nm = unq(v)
                else: nm = str(cnt)
                cnt += 1
                f.params.append((ty, nm))
            if p.peek()[1] == ',': p.next()
        # body
        blocks = {}; order = []
        cur = None
        i = 0
        lab = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):(\s*;.*)?$')
        lines = body
        first = True
        while i < len(lines):
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s.startswith(';'): continue
            if not l.startswith(' '):
                m = lab.match(l)
                if m:
                    nm = m.group(1)
                    if nm.startswith('"'): nm = nm[1:-1]
                    cur = []; blocks[nm] = cur; order.append(nm); continue
                raise SyntaxError(l)
            if cur is None:
                nm = str(cnt); cur = []; blocks[nm] = cur; order.append(nm)
            # join multi-line (switch, invoke, landingpad)
            if s.startswith('switch') and not s.rstrip().endswith(']') and '[' in s and ']' not in s.split('[')[-1]:
                while True:
                    s2 = lines[i].strip(); i += 1
                    s += ' ' + s2
                    if s2.startswith(']'): break
            if ' invoke ' in (' ' + s) and ' unwind ' not in s:
                s += ' ' + lines[i].strip(); i += 1
            if 'landingpad' in s and ('= landingpad' in s):
                while lines[i].strip().split(' ')[0].rstrip(',') in ('cleanup', 'catch', 'filter'):
                    s += ' ' + lines[i].strip(); i += 1
            inst = self.parse_inst(s)
            if inst is not None: cur.append(inst)
        for b, ins in blocks.items():
            for j, x in enumerate(ins): x.blk = b; x.idx = j
        f.blocks = blocks; f.entry = order[0]
        f.body = None
        analyse_loops(f)

    def parse_inst(self, s):
        dbg = None
        m = re.search(r', !dbg (![0-9]+)', s)
        if m: dbg = m.group(1)
        t = tokenize(s)
        # strip trailing metadata attachments: ", !name !N"
        for idx, (k, v) in enumerate(t):
            if k == 'md' and idx > 0 and t[idx-1][1] == ',' and len(v) > 1 and not v[1].isdigit() and v[1] != '"' \
               and idx + 1 < len(t) and t[idx+1][0] == 'md':
                t = t[:idx-1]; break
        p = P(self, t)
        I = Inst(); I.res = None; I.flags = (); I.dbg = dbg; I.ty = None
        if len(t) > 1 and t[0][0] == 'loc' and t[1][1] == '=':
            I.res = unq(t[0][1]); p.i = 2
        k, op = p.next()
        while op in ('tail', 'musttail', 'notail'): k, op = p.next()
        I.op = op
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            I.flags = p.flags()
            I.ty = p.type(); a = p.value(I.ty); p.expect(','); b = p.value(I.ty); I.a = (a, b)
        elif op in ('icmp', 'fcmp'):
            p.flags()
            pred = p.next()[1]; ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            I.ty = ty; I.a = (pred, a, b)
        elif op == 'alloca':
            p.flags(); p.opt('inalloca')
            ty = p.type(); n = None
            if p.opt(','):
                if p.peek()[1] != 'align':
                    nt = p.type(); n = (nt, p.value(nt))
            I.ty = ty; I.a = (n,)
        elif op == 'load':
            p.flags(); p.opt('atomic'); p.flags(); ty = p.type(); p.expect(','); pt = p.type(); I.ty = ty; I.a = (p.value(pt),)
        elif op == 'store':
            p.flags(); p.opt('atomic'); p.flags(); ty = p.type(); v = p.value(ty); p.expect(','); pt = p.type(); I.ty = ty; I.a = (v, p.value(pt))
        elif op == 'getelementptr':
            I.flags = p.flags(); ty = p.type(); p.expect(','); pt = p.type(); base = p.value(pt); idx = []
            while p.opt(','):
                p.opt('inrange')
                it = p.type(); idx.append((it, p.value(it)))
            I.ty = ty; I.a = (base, idx)
        elif op == 'br':
            if p.peek()[1] == 'label': p.next(); I.a = (unq(p.next()[1]),)
            else:
                ty = p.type(); c = p.value(ty); p.expect(','); p.expect('label'); x = unq(p.next()[1]); p.expect(','); p.expect('label'); y = unq(p.next()[1])
                I.a = (c, x, y)
        elif op == 'switch':
            ty = p.type(); v = p.value(ty); p.expect(','); p.expect('label'); d = unq(p.next()[1]); p.expect('[')
            cs = []
            while p.peek()[1] != ']':
                t2 = p.type(); cv = p.value(t2); p.expect(','); p.expect('label'); cs.append((cv, unq(p.next()[1])))
            I.ty = ty; I.a = (v, d, cs)
        elif op == 'ret':
            ty = p.type(); I.ty = ty
            I.a = (None,) if ty == VOID else (p.value(ty),)
        elif op == 'phi':
            p.flags(); ty = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(ty); p.expect(','); b = unq(p.next()[1]); p.expect(']'); inc.append((v, b))
                if not p.opt(','): break
            I.ty = ty; I.a = (inc,)
        elif op == 'select':
            p.flags(); ct = p.type(); c = p.value(ct); p.expect(','); ty = p.type(); a = p.value(ty); p.expect(','); p.type(); b = p.value(ty)
            I.ty = ty; I.a = (c, a, b)
        elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'addrspacecast'):
            p.flags(); ft = p.type(); v = p.value(ft); p.expect('to'); ty = p.type(); I.ty = ty; I.a = (ft, v)
        elif op in ('call', 'invoke'):
            p.flags(); p.skip_attrs()
            rt = p.type()
            # function type form "ret (args...)" is consumed by type(); handle
            if rt[0] == 'func': rt = rt[1]
            k, v = p.peek()
            callee = p.value(PTR)
            args = p.args()
            I.ty = rt
            if op == 'invoke':
                while p.peek()[1] != 'to': p.next()
                p.expect('to'); p.expect('label'); nrm = unq(p.next()[1]); p.expect('unwind'); p.expect('label'); unw = unq(p.next()[1])
                I.a = (callee, args, nrm, unw)
            else: I.a = (callee, args)
            if callee[0] == 'global' and callee[1].startswith(('llvm.dbg', 'llvm.experimental.noalias', 'llvm.donothing')): return None
            if callee[0] == 'asm': pass
        elif op == 'extractvalue':
            ty = p.type(); v = p.value(ty); ix = []
            while p.opt(','): ix.append(int(p.next()[1]))
            I.ty = ty; I.a = (v, ix)
        elif op == 'insertvalue':
            ty = p.type(); v = p.value(ty); p.expect(','); t2 = p.type(); w = p.value(t2); ix = []
            while p.opt(','): ix.append(int(p.next()[1]))
            I.ty = ty; I.a = (v, w, ix)
        elif op == 'extractelement':
            ty = p.type(); v = p.value(ty); p.expect(','); t2 = p.type(); I.ty = ty; I.a = (v, p.value(t2))
        elif op == 'insertelement':
            ty = p.type(); v = p.value(ty); p.expect(','); t2 = p.type(); w = p.value(t2); p.expect(','); t3 = p.type(); I.ty = ty; I.a = (v, w, p.value(t3))
        elif op == 'shufflevector':
            ty = p.type(); v = p.value(ty); p.expect(','); t2 = p.type(); w = p.value(t2); p.expect(','); t3 = p.type(); I.ty = ty; I.a = (v, w, t3, p.value(t3))
        elif op == 'unreachable': I.a = ()
        elif op == 'freeze':
            ty = p.type(); I.ty = ty; I.a = (p.value(ty),)
        elif op == 'fneg':
            p.flags(); ty = p.type(); I.ty = ty; I.a = (p.value(ty),)
        elif op == 'landingpad':
            ty = p.type(); cl = []
            cleanup = False
            while not p.done():
                k, v = p.next()
                if v == 'cleanup': cleanup = True
                elif v in ('catch', 'filter'):
                    t2 = p.type(); cl.append((v, p.value(t2)))
                else: break
            I.ty = ty; I.a = (cleanup, cl)
        elif op == 'resume':
            ty = p.type(); I.ty = ty; I.a = (p.value(ty),)
        elif op == 'atomicrmw':
            p.flags(); o = p.next()[1]; pt = p.type(); ptr = p.value(pt); p.expect(','); ty = p.type(); v = p.value(ty); I.ty = ty; I.a = (o, ptr, v)
        elif op == 'cmpxchg':
            p.opt('weak'); p.flags(); pt = p.type(); ptr = p.value(pt); p.expect(','); ty = p.type(); c = p.value(ty); p.expect(','); t2 = p.type(); nv = p.value(t2)
            I.ty = ty; I.a = (ptr, c, nv)
        elif op == 'fence': return None
        elif op == 'va_arg': I.a = ()
        else: raise Unsupported('instruction ' + s)
        return I

class P:
    """token cursor"""
    def __init__(self, mod, toks): self.m = mod; self.t = toks; self.i = 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ('eof', '')
    def next(self):
        r = self.peek(); self.i += 1; return r
    def done(self): return self.i >= len(self.t)
    def expect(self, v):
        r = self.next()
        if r[1] != v: raise SyntaxError('expected %r got %r in %s' % (v, r, ' '.join(x[1] for x in self.t)))
    def opt(self, v):
        if self.peek()[1] == v: self.i += 1; return True
        return False
    def flags(self):
        out = []
        while self.peek()[0] == 'word' and self.peek()[1] in ATTRWORDS: out.append(self.next()[1])
        return tuple(out)
    def skip_paren(self):
        self.expect('('); d = 1
        while d:
            v = self.next()[1]
            if v == '(': d += 1
            elif v == ')': d -= 1
            elif v == '': raise SyntaxError('paren')
    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'initializes'):
                self.next()
                if self.peek()[1] == '(': self.skip_paren()
                else: self.next()
            elif k == 'word' and v in ('sret', 'byval', 'byref', 'preallocated', 'elementtype', 'memory', 'captures', 'allockind', 'allocsize', 'nofpclass', 'inalloca'):
                self.next()
                if self.peek()[1] == '(': self.skip_paren()
            elif k == 'word' and v in ATTRWORDS: self.next()
            elif k == 'attr': self.next()
            elif k == 'str':
                self.next()
                if self.opt('='): self.next()
            else: return
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
                if self.peek()[1] == 'addrspace': self.next(); self.skip_paren()
            elif v == 'void': t = VOID
            elif v[0] == 'i' and v[1:].isdigit(): t = ('i', int(v[1:]))
            elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'): t = ('fp', v)
            elif v in ('label', 'metadata', 'token', 'opaque'): t = (v,)
            else: raise SyntaxError('type %r in %s' % (v, ' '.join(x[1] for x in self.t)))
        elif k == 'loc': t = ('named', unq(v))
        elif v == '{':
            es = []
            while self.peek()[1] != '}':
                es.append(self.type())
                self.opt(',')
            self.next(); t = ('struct', tuple(es), False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next(); es = []
                while self.peek()[1] != '}':
                    es.append(self.type()); self.opt(',')
                self.next(); self.expect('>'); t = ('struct', tuple(es), True)
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>'); t = ('vec', n, e)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']'); t = ('array', n, e)
        else: raise SyntaxError('type %r in %s' % (v, ' '.join(x[1] for x in self.t)))
        if self.peek()[1] == '(':
            # function type
            j = self.i
            # only treat as function type if what follows parses as types
            try:
                self.next(); ps = []
                while self.peek()[1] != ')':
                    if self.peek()[0] == 'dots': self.next()
                    else: ps.append(self.type()); self.skip_attrs()
                    self.opt(',')
                self.next(); t = ('func', t, tuple(ps))
            except SyntaxError:
                self.i = j
        return t
    def args(self):
        self.expect('('); out = []
        while self.peek()[1] != ')':
            if self.peek()[1] == 'metadata':
                # metadata operand: skip
                d = 0
                while not (d == 0 and self.peek()[1] in (',', ')')):
                    v = self.next()[1]
                    if v in '([{' and v: d += 1
                    if v in ')]}' and v: d -= 1
                out.append((('metadata',), None))
            else:
                ty = self.type()
                j = self.i; byval = None
                self.skip_attrs_byval = None
                a = self.i
                self.skip_attrs()
                for q in range(a, self.i):
                    if self.t[q][1] == 'byval': byval = P(self.m, self.t[q+2:]).type()
                out.append((ty if byval is None else ('byval', byval), self.value(ty)))
            self.opt(',')
        self.next()
        return out
    def value(self, ty):
        k, v = self.next()
        if k == 'loc': return ('local', unq(v))
        if k == 'glob': return ('global', unq(v))
        if k == 'num':
            if ty[0] == 'fp': return ('fpc', v)
            return ('const', int(v, 0))
        if k == 'cstr': return ('bytes', unesc(v[2:-1]))
        if k == 'word':
            if v == 'true': return ('const', 1)
            if v == 'false': return ('const', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('zero',)
            if v == 'asm':
                while self.peek()[0] != 'str': self.next()
                s = self.next()[1]; self.expect(','); c = self.next()[1]
                return ('asm', s, c)
            if v == 'blockaddress': self.skip_paren(); return ('undef',)
            if v == 'dso_local_equivalent' or v == 'no_cfi': return self.value(ty)
            if v == 'getelementptr':
                fl = self.flags()
                if self.peek()[1] == 'inrange': self.next(); self.skip_paren()
                self.expect('('); bt = self.type(); self.expect(','); pt = self.type(); b = self.value(pt); idx = []
                while self.opt(','):
                    self.opt('inrange')
                    it = self.type(); idx.append((it, self.value(it)))
                self.expect(')')
                return ('gep', bt, b, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('('); ft = self.type(); x = self.value(ft); self.expect('to'); tt = self.type(); self.expect(')')
                return ('cast', v, ft, x, tt)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
                self.flags(); self.expect('('); t1 = self.type(); a = self.value(t1); self.expect(','); self.type(); b = self.value(t1); self.expect(')')
                return ('bin', v, t1, a, b)
            if v == 'icmp':
                pred = self.next()[1]; self.expect('('); t1 = self.type(); a = self.value(t1); self.expect(','); self.type(); b = self.value(t1); self.expect(')')
                return ('cicmp', pred, t1, a, b)
            if v == 'select':
                self.expect('('); t1 = self.type(); c = self.value(t1); self.expect(','); t2 = self.type(); a = self.value(t2); self.expect(','); self.type(); b = self.value(t2); self.expect(')')
                return ('csel', c, a, b)
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            packed = False
            if v == '<' and self.peek()[1] == '{': self.next(); close = '}'; packed = True
            es = []
            while self.peek()[1] != close:
                t2 = self.type(); es.append((t2, self.value(t2))); self.opt(',')
            self.next()
            if packed: self.expect('>')
            return ('agg', es)
        raise SyntaxError('value %r %r in %s' % (k, v, ' '.join(x[1] for x in self.t)))

# ---------------------------------------------------------------- CFG / loops
def succs(ins):
    t = ins[-1]
    if t.op == 'br': return list(t.a[-2:]) if len(t.a) == 3 else [t.a[0]]
    if t.op == 'switch': return [t.a[1]] + [b for _, b in t.a[2]]
    if t.op == 'invoke': return [t.a[2], t.a[3]]
    return []

def analyse_loops(f):
    """Natural loops by dominators; f.loops: header -> set(blocks)."""
    bl = f.blocks
    succ = {b: succs(ins) for b, ins in bl.items()}
    # reverse postorder
    order = []; seen = set()
    stack = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(succ[s]))); break
        else:
            order.append(b); stack.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in order}
    for b in order:
        for s in succ[b]: pred[s].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for q in pred[b]:
                if q in idom:
                    if new is None: new = q
                    else:
                        x, y = q, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x not in body:
                        body.add(x); wl += pred[x]
    f.loops = loops
