"""Purity, histories and threads: builds libzcm and one thunk per public call as a shared object, per configuration."""
import os, re, json
import common as C, gen_calls as G

def defined_symbols(objs):
    rc, out = C.sh('nm --defined-only ' + ' '.join(objs))
    return {l.split()[-1] for l in out.splitlines() if len(l.split()) == 3 and l.split()[1] in 'TWVBDR'}

def build(B, cfg, work, fns, fnlist=None):
    c = C.CFG[cfg]
    lib = B.lib_objects(cfg, pic=True)
    for fu, o, s in lib:
        rc, out = fu.result()
        if rc: raise C.CheckError(f'{cfg}: {s} does not compile:\n{out[:2000]}')
    defs = defined_symbols([o for _, o, _ in lib])
    d = os.path.join(work, 'calls_' + cfg); os.makedirs(d, exist_ok=True)
    drop = set()
    for attempt in range(4):
        use = [f for f in fns if f['key'] not in drop]
        files, n, missing = G.write(d, use, defs)
        jobs = [(B.pool.submit(C.sh, f"{c['cxx']} -std=c++17 -w -fPIC -fno-strict-aliasing {c['har']} -ftls-model=global-dynamic -I{C.VERIF}/harness -I{C.REPO}/include -c {f} -o {f}.o"), f) for f in files]
        errs = ''
        for fu, f in jobs:
            rc, out = fu.result()
            if rc: errs += out
        if not errs: break
        # a declaration that cannot be called is P32's business; the rest is still explored
        bad = set()
        lines = {}
        for f in files: lines[os.path.basename(f)] = open(f).read().splitlines()
        for m in re.finditer(r'(calls\d+\.cpp):(\d+):\d+: error', errs):
            l = lines[m.group(1)][int(m.group(2)) - 1]; t = re.match(r'static void (t\d+)\(', l)
            if t:
                for ll in lines[m.group(1)]:
                    q = re.match(r'  \{%s, "([^"]*)"' % t.group(1), ll)
                    if q: bad.add(q.group(1))
        if not bad: raise C.CheckError(f'{cfg}: thunks do not compile:\n{errs[:2000]}')
        drop |= bad
    so = os.path.join(work, f'zso_{cfg}.so')
    rc, out = C.sh(f"{c['cxx']} -shared -o {so} {' '.join(f + '.o' for f in files)} {' '.join(o for _, o, _ in lib)} -Wl,-z,now -Wl,-z,relro -Wl,-Bsymbolic")
    if rc: raise C.CheckError(f'{cfg}: shared object does not link:\n{out[-2000:]}')
    return so, n, [f['key'] for f in missing], sorted(drop)

def harness(B, work):
    exe = os.path.join(work, 'p31')
    rc, out = C.sh(f"g++ -std=c++17 -w -O2 -I{C.VERIF}/harness {C.VERIF}/harness/p31.cpp -o {exe} -lpthread -ldl")
    if rc: raise C.CheckError('p31.cpp does not compile:\n' + out[:2000])
    return exe

def run(pid, spec, tier, work):
    B = C.Builder(work); res = C.Result(pid, tier)
    hx = B.pool.submit(harness, B, work)
    fns, skipped = G.functions(G.parse(work))
    exe = hx.result()
    for cfg in spec['configs']:
        so, n, missing, drop = build(B, cfg, work, fns)
        os.environ['P31_SO'] = so
        C.run_harness(res, pid, cfg, exe, work, B.dict, tier, spec)
        res.extra.setdefault('public_calls', {})[cfg] = n
        if missing: res.extra['not_defined'] = missing
        if skipped or drop or G.dropped: res.extra['not_callable'] = (skipped + drop + G.dropped)[:50]
        if res.violations: break
    return res

def replay(pid, spec, tier, work, only):
    B = C.Builder(work); exe = harness(B, work)
    fns, _ = G.functions(G.parse(work))
    os.environ['P31_SO'] = build(B, only['config'], work, fns)[0]
    env = C.harness_env(B.dict, only['tier'])
    a = ['--only', only['family']] + (['--index', str(only['index'])] if only['mode'] == 'alone' else [])
    rc, txt, j, cr = C.run_once(exe, work, env, only['tier'], a, 900, 'replay')
    if j is None or j['nfails']: print('reproduced:', json.dumps(j['fails'], indent=1) if j else txt[-2000:]); return 1
    print('does not reproduce on this tree'); return 0
