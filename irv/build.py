"""Compiles a contract unit together with the real headers of /repo to optimised-but-unsplit LLVM IR."""
import subprocess, os, re, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('IRV_REPO', '/repo')
COMMON = ['-std=c++26', '-DBOOST_HANA_CONFIG_ENABLE_STRING_UDL', '-DBOOST_ASIO_NO_TYPEID', '-include', 'cstdint', '-include', 'string', '-include', 'algorithm', '-w']
SAN = '-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,array-bounds,return,unreachable'

class BuildError(Exception): pass
class Missing(Exception): pass
def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode: raise BuildError(' '.join(cmd)[:300] + '\n' + r.stderr[-6000:])
    return r.stdout
def simple_find(outdir):
    """the system's bits/stl_algobase.h with the four times unrolled search loop of std::find written as the plain loop it stands for"""
    h = sh(['clang++-18', '-std=c++26', '-x', 'c++', '-M', '-'], input='#include <bits/stl_algobase.h>\n')
    path = re.search(r'(\S*stl_algobase\.h)', h).group(1)
    t = open(path).read()
    t, k = re.subn(r'(_RandomAccessIterator\s+__find_if\(_RandomAccessIterator __first, _RandomAccessIterator __last,\s+_Predicate __pred, random_access_iterator_tag\)\s+\{).*?\n    \}\n', r'\1\n      while (__first != __last && !__pred(__first)) ++__first;\n      return __first;\n    }\n', t, flags=re.S)
    if k > 1: raise BuildError('bits/stl_algobase.h is not the expected one')
    d = os.path.join(outdir, 'stdfind', 'bits'); os.makedirs(d, exist_ok=True); open(os.path.join(d, 'stl_algobase.h'), 'w').write(t)
    return os.path.dirname(d)
def includes(models=(), outdir=None):
    out = []
    for m in models: out += ['-I', simple_find(outdir) if m == 'stdfind' else os.path.join(VERIF, 'models', m)]
    return out + ['-I', os.path.join(VERIF, 'contracts'), '-I', REPO + '/include', '-I', REPO + '/example', '-I', '/usr/include/jsoncpp']
def build_ir(src, outdir, models=(), flags=(), exceptions=False, noinline=(), keep=(), replace=None, std=None):
    base = os.path.splitext(os.path.basename(src))[0]
    ll = os.path.join(outdir, base + '.ll'); o1 = os.path.join(outdir, base + '.1.ll'); o2 = os.path.join(outdir, base + '.2.ll')
    ex = ['-fexceptions'] if exceptions else ['-fno-exceptions']
    sh(['clang++-18', *COMMON, *includes(models, outdir), *flags, '-O1', '-Xclang', '-disable-llvm-passes', *ex, '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-builtin-memcmp', '-gline-tables-only',
        SAN, '-fsanitize-trap=all', '-S', '-emit-llvm', src, '-o', ll])
    text = open(ll).read()
    replace = dict(replace or {}); optional = dict(std or {})
    if replace or optional:
        # calls of these functions are verified against the contract in the unit (irvr_...), not against their bodies
        found = set()
        def sub(line):
            for rx, to in {**replace, **optional}.items():
                m = re.search(r'@(%s)\(' % rx, line)
                if m: found.add(rx); line = line.replace('@' + m.group(1) + '(', '@' + to + '(')
            return line
        text = '\n'.join(sub(l) if re.search(r'\b(call|invoke)\b', l) else l for l in text.split('\n'))
        if set(replace) - found: raise Missing('no call of ' + ', '.join(sorted(set(replace) - found)))
        open(ll, 'w').write(text)
    pub = sorted(set(re.findall(r'@((?:contract_|irvm_|irvr_)\w+)\(', text)) | set(keep))
    if noinline:
        # functions that a contract stands for must stay calls
        def fix(m):
            return m.group(0)
        for nm in noinline:
            text = re.sub(r'^(define [^\n]*@%s\([^\n]*?)( #\d+| comdat| personality| align| \{|!dbg)' % re.escape(nm), r'\1 noinline\2', text, count=1, flags=re.M)
        open(ll, 'w').write(text)
    sh(['opt-18', '-S', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(pub), ll, '-o', o1])
    sh(['opt-18', '-S', '-passes=cgscc(inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)),globaldce', '-inline-threshold=100000', o1, '-o', o2])
    return o2
