#!/usr/bin/env python3
"""writes MANIFEST.json from the registry of contracts and the reasons below"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts import registry
PENDING = 'its contracts are still being written; nothing is claimed for it yet'
NA = {
 'C23': 'the guarantees live in SQL text interpreted by a database engine; no contract on the C++ functions expresses what the engine does with it, and proving a model of the engine is a different family',
 'C24': 'the web UI renders through emscripten::val, i.e. a JavaScript engine that is not installed here; the code cannot even be compiled for the verifier',
}
TECH = 'contract-based deductive verification of the compiled code (weakest-precondition style symbolic execution of the LLVM IR of /repo with inferred and checked loop invariants; z3/cvc5 discharge every obligation)'
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    P = registry.PROPS.get(pid)
    if P is None:
        na.append({'property': pid, 'reason': NA.get(pid, PENDING)}); continue
    note = P.get('note', 'Every obligation of every contract is discharged for all inputs and all iterations; '
                 'a failed obligation is replayed natively against the compiled code. Trusted: clang\'s translation to IR, the IR semantics in irv/, the solvers.')
    checks.append({'property': pid, 'quick_cmd': f'VERIF_TIER=quick python3-vt irv/check.py {pid}',
                   'thorough_cmd': f'VERIF_TIER=thorough python3-vt irv/check.py {pid}',
                   'technique': TECH, 'level': P.get('level', 'proof'), 'level_note': note})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the functions are verified as they are compiled from /repo/include. irv/ is the verifier, contracts/ the contracts.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
