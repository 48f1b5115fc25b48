"""Which contracts decide which property."""
import os, json
HERE = os.path.dirname(os.path.abspath(__file__))
TRUSTED = ['clang 18 front end and the LLVM passes inline, sroa, early-cse, instcombine, simplifycfg, internalize, globaldce (source to verified IR)',
           'the semantics of LLVM IR, of the C library and of the C++ runtime as written in irv/', 'z3 and cvc5']
PROPS = {}
def prop(pid, *units, **kw): PROPS[pid] = dict(units=list(units), **kw)
def unit(src, **kw): return dict(src=src, **kw)
def known(pid):
    out = []
    for l in open(os.path.join(os.path.dirname(HERE), 'known_findings.jsonl')):
        l = l.strip()
        if not l or l.startswith('#') or l.startswith('fixed:'): continue
        x = json.loads(l)
        if x['property'] == pid: out.append(x)
    return out

prop('C01', unit('base64.cpp'))
prop('C22', unit('tiles.cpp', exceptions=True))
prop('C14', unit('message.cpp', exceptions=True))
prop('C11', unit('delta.cpp', exceptions=True))
prop('C12', unit('variant.cpp', exceptions=True))
prop('C18', unit('hash.cpp', exceptions=True), assumptions=['std::hash of a part is a function of the part (uninterpreted)'])
prop('C19', unit('lookup.cpp', exceptions=True))
prop('C21', unit('echo.cpp', exceptions=True), assumptions=['the context records the message it is given (contract of apply_message)', 'at most 2^31-1 requests, the range of an int key'])
prop('C09', unit('mapstore.cpp', exceptions=True, models=('stdmap',)), assumptions=['std::unordered_map is a partial function from keys to values (models/stdmap); hashes of equal keys are equal (C18)'])
prop('C13', unit('context.cpp', exceptions=True, models=('stdmap',)), assumptions=['std::unordered_map as for C09', 'stores, producers and consumers are the ones of the contract, which record what they are given'])
prop('C10', unit('localversion.cpp', exceptions=True, models=('stdmap',)), assumptions=['std::unordered_set is a set (models/stdmap); hashes of equal identifiers are equal (C18)', 'identifiers are unique; the confirmation of a change carries at least the fields the change touched'])
prop('C15', unit('pipe.cpp', exceptions=True), assumptions=['the steps are the ones of the contract, which do whatever was chosen for them'])
prop('C16', unit('hold.cpp', exceptions=True), assumptions=['the steps and held values are the ones of the contract; a lazily created value does not resolve its pipeline before it has been created'])
prop('C17', unit('concat.cpp', exceptions=True, native_flags=[]), assumptions=['operands are at most 2^40 characters long'])
_BS = r'_ZN4nbdl6detail10beast_sha1'
prop('C05', unit('sha1.cpp', exceptions=True),
     unit('sha1.cpp', exceptions=True, flags=['-DMODULAR'], replace={_BS + r'4sha19transform\w*': 'irvr_transform'}),
     unit('token.cpp', exceptions=True, replace={_BS + r'4initIvEE\w*': 'irvr_init', _BS + r'6updateIvEE\w*': 'irvr_update', _BS + r'6finishIvEE\w*': 'irvr_finish'}),
     first=['C05_compress', 'C05_token'], limit=600, assumptions=['messages are shorter than 2^61 bytes (FIPS 180-4); one update is at most 2^40 bytes long', 'keys are at most 2^40 bytes long'])
prop('C07', unit('cookies.cpp', exceptions=True, models=('stdfind',), std={r'_ZNKSt17basic_string_viewIcSt11char_traitsIcEE4findEPKcmm': 'irvr_sv_find'}, opts=dict(unroll=0)), limit=620,
     assumptions=['std::string_view::find(text) is the one of the standard (contract irvr_sv_find); the four times unrolled loop of std::find is the plain loop (irv/build.py simple_find)', 'the text of the cookies is at most 2^40 characters long and on the heap', 'the "C" locale'])
prop('C06', unit('headers.cpp', exceptions=True, models=('stdfind',), opts=dict(unroll=0)), limit=500,
     assumptions=['the four times unrolled loop of std::find is the plain loop (irv/build.py simple_find)', 'a line is at most 2^40 characters long and on the heap', 'the "C" locale', 'the lines are the ones that asio::async_read_until delivers (read_headers is not under contract)'])
