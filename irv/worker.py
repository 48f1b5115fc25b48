"""Verifies one contract; prints one JSON object."""
import sys, os, json, time, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import z3
import ir, solver
from exec import Engine, Stopped
from mem import Unsupported

def encode(f):
    """the bytes from which the native runtime reproduces the counterexample (None if there is no model)"""
    if f.status != 'sat': return None
    base = list(f.pc) + [z3.Not(f.cond)]
    base = base + solver.table_defs(base)
    sizes = [x[3] for x in f.nondet if x[0] == 'size' and not isinstance(x[3], int)]
    m = None
    for lim in (8, 40, 300, 5000):
        s = z3.Solver(); s.set('timeout', 4000)
        for c in base: s.add(c)
        for x in sizes: s.add(z3.ULE(x, lim))
        if s.check() == z3.sat: m = s.model(); break
        if not sizes: break
    if m is None: m = f.model
    if m is None: return None
    def val(t):
        return t if isinstance(t, int) else m.eval(t, model_completion=True).as_long()
    out = bytearray(); desc = []
    for kind, name, x, t in f.nondet:
        if kind == 'int':
            if name == 'forall': continue
            v = val(t) & ((1 << x) - 1); out += v.to_bytes((x + 7) // 8, 'little'); desc.append('%s=%d' % (name, v))
        elif kind == 'size':
            v = val(t) if not isinstance(x, int) or x != 0 else 0; desc.append('%s=%d' % (name, v))
            if v < 200: out.append(v)
            elif v < 65536: out.append(200); out += v.to_bytes(2, 'little')
            elif v < 1 << 32: out.append(254); out += v.to_bytes(4, 'little')
            else: out.append(255); out += v.to_bytes(8, 'little')
        elif kind == 'buf':
            n = val(x)
            if n > 1 << 20: return None
            bs = bytes(val(t(z3.BitVecVal(i, 64))) for i in range(n)); out += bs
            desc.append('%s[%d]=%s' % (name, n, bs[:64].hex()))
    return dict(hex=out.hex(), desc=desc)

def main():
    ll, name, opts = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    mem = opts.pop('mem', 8 << 30); resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    z3.set_param('memory_max_size', 5000)
    t0 = time.time(); r = dict(contract=name, status='ok', failures=[])
    e = None
    try:
        M = ir.Module(ll)
        e = Engine(M, 'contract_' + name, opts)
        e.verify()
    except Stopped: r['status'] = 'refuted'; r['why'] = 'stopped after an obligation was refuted'
    except (Unsupported, ir.Unsupported) as x: r['status'] = 'unsupported'; r['why'] = str(x)[:400]
    except MemoryError: r['status'] = 'unsupported'; r['why'] = 'out of memory'
    except z3.Z3Exception as x: r['status'] = 'unsupported'; r['why'] = 'solver: ' + str(x)[:300]
    except RecursionError: r['status'] = 'unsupported'; r['why'] = 'recursion limit'
    except Exception as x:
        import traceback
        r['status'] = 'error'; r['why'] = traceback.format_exc()[-1500:]
    if e is not None:
        r.update(paths=e.paths, executions=e.nexec, instructions=e.instrs, obligations=sum(v[0] for v in e.obl.values()), discharged=sum(v[1] for v in e.obl.values()),
                 named={k: v[:2] for k, v in e.obl.items() if v[3] == 'assert'}, safety=sum(v[0] for v in e.obl.values() if v[3] != 'assert'),
                 backends=e.backends, covers=sorted(e.covers), missing_covers=sorted(e.cover_names - e.covers), loops=sorted(map(str, e.loops_cut)),
                 functions=sorted(e.fns_seen), assumed=sorted(e.assumed), max_solve=round(e.maxsolve, 2), slow=e.slow[:20])
        seen = set()
        for f in e.failures:
            try: enc = encode(f) if len(seen) < 40 else None
            except Exception as x: enc = None
            k = (f.name, f.status)
            r['failures'].append(dict(name=f.name, kind=f.kind, loc=f.loc, status=f.status, input=enc, cond=str(f.cond)[:500] if k not in seen else ''))
            seen.add(k)
    r['stats'] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in solver.STATS.items()}
    r['time'] = round(time.time() - t0, 2)
    print(json.dumps(r)); sys.stdout.flush()
    os._exit(0)
main()
