"""One thunk per public call (gen_calls), instrumented like the library."""
import os
import common as C, gen_calls as G
def generate(work):
    fns, skipped = G.functions(G.parse(work))
    d = os.path.join(work, 'p38'); os.makedirs(d, exist_ok=True)
    # calls that are declared but not defined are P32's business
    defs = set(); objs = []
    with C.cf.ThreadPoolExecutor(C.JOBS) as pool:
        fut = []
        for s in C.lib_sources():
            o = os.path.join(d, os.path.basename(s) + '.o'); objs.append(o)
            fut.append(pool.submit(C.sh, f'clang++ -std=c++14 -w -O0 -I{C.REPO}/include -I{C.REPO}/src -c {s} -o {o}'))
        for f in fut: f.result()
    rc, out = C.sh('nm --defined-only ' + ' '.join(o for o in objs if os.path.exists(o)))
    defs = {l.split()[-1] for l in out.splitlines() if len(l.split()) == 3 and l.split()[1] in 'TWVBDR'}
    files, n, missing = G.write(d, fns, defs, parts=12)
    main = os.path.join(d, 'calls_main.cpp'); t = open(main).read().replace('#include "calls_main.inc"\n', ''); open(main, 'w').write(t)
    return files + [os.path.join(C.VERIF, 'harness', 'p38.cpp')]
