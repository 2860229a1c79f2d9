"""Benchmark generator: the real program, with its random choices decided by the explorer, over every prepared
state of the output directory; every emitted project is parsed, and every distinct emitted body is compiled."""
import os, re, json, itertools, glob, shutil, struct, multiprocessing as mp
import common as C

INTERPOSE = r'''
#include <cstdio>
#include <cstdlib>
#include <ctime>
// the environment of the generator: rand() plays the list in $BG_CHOICES over and over
static int* list; static int n, at;
static void load() { const char* f = getenv("BG_CHOICES"); FILE* p = f ? fopen(f, "rb") : 0; list = (int*)malloc(1 << 22); n = p ? fread(list, 4, 1 << 20, p) : 0; if (p) fclose(p); if (!n) { list[0] = 0; n = 1; } }
extern "C" int rand() throw() { if (!list) load(); return list[at++ % n]; }
extern "C" int rand_r(unsigned*) throw() { return rand(); }
extern "C" long random() throw() { return rand(); }
extern "C" void srand(unsigned) throw() {}
extern "C" void srandom(unsigned) throw() {}
extern "C" time_t time(time_t* t) throw() { if (t) *t = 1; return 1; }
'''
BR = re.compile('[{}]')
IDENT = r'[A-Za-z_]\w*'

def build(work):
    src = os.path.join(C.REPO, 'tools', 'benchgen'); d = os.path.join(work, 'gen'); os.makedirs(d)
    open(os.path.join(d, 'interpose.cpp'), 'w').write(INTERPOSE)
    exe = os.path.join(d, 'benchgen')
    rc, out = C.sh(f"g++ -std=c++17 -w -O1 -I{src} {' '.join(glob.glob(src + '/*.cpp'))} {d}/interpose.cpp -o {exe} -lstdc++fs -lfmt")
    if rc: raise C.CheckError('benchgen does not build:\n' + out[:2000])
    return exe

def counts():
    """the requested sizes, written in the generator's source"""
    t = open(os.path.join(C.REPO, 'tools', 'benchgen', 'main.cpp')).read()
    g = lambda n: int((re.search(n + r'\s*=\s*(\d+)', t) or [0, '100'])[1])
    return g('filecount'), g('funccount')

def generate(exe, choices, outdir, arg=None, cwd=None):
    ch = outdir.rstrip('/') + '.choices'
    with open(ch, 'wb') as f: f.write(b''.join(struct.pack('<i', c) for c in choices))
    rc, txt = C.sh([exe, arg or outdir], cwd=cwd, timeout=60, hang=True, env=dict(os.environ, BG_CHOICES=ch))
    os.remove(ch)
    return rc, txt

def blocks(body):
    """top-level {...} groups of a function body; None if anything else is found"""
    out, depth, start, last = [], 0, 0, 0
    s = re.sub(r'//[^\n]*', '', body)
    for m in re.finditer(r'[{}]', s):
        if m.group() == '{':
            if depth == 0:
                if s[last:m.start()].strip(): return None
                start = m.start()
            depth += 1
        else:
            depth -= 1
            if depth < 0: return None
            if depth == 0: out.append(s[start:m.end()]); last = m.end()
    return out if depth == 0 and not s[last:].strip() else None

def functions(src):
    """[(name, body)] of a generated source, preamble"""
    fs, pos, pre = [], 0, None
    for m in re.finditer(r'^\s*void\s+(' + IDENT + r')\s*\(\s*(?:void)?\s*\)\s*\{', src, re.M):
        if m.start() < pos: continue
        if pre is None: pre = src[:m.start()]
        d, i = 1, m.end()
        while d:
            q = BR.search(src, i)
            if not q: break
            d += 1 if q.group() == '{' else -1; i = q.end()
        if d: return None, pre, 'unbalanced braces in ' + m.group(1)
        fs.append((m.group(1), src[m.end():i - 1])); pos = i
    rest = src if pre is None else src[pos:]
    if pre is not None and rest.strip(): return None, pre, 'unexpected text after the last function: ' + rest.strip()[:80]
    return fs, pre, None

def check_project(d, nfile, nfunc):
    """-> (message or None, set of bodies, preamble of each file, evals)"""
    R = lambda p: open(os.path.join(d, p)).read()
    have = set(os.listdir(d)); ev = 0
    hs = sorted(f for f in have if f.endswith('.h')); cs = sorted(f for f in have if f.endswith('.cpp') and f != 'main.cpp')
    if 'main.cpp' not in have: return 'main.cpp is missing', None, None, ev
    if len(hs) != nfile: return f'{len(hs)} headers instead of {nfile}', None, None, ev
    if len(cs) != nfile: return f'{len(cs)} sources instead of {nfile}', None, None, ev
    decl, defd, bodies, pres = {}, {}, set(), set()
    for h in hs:
        t = R(h); names = re.findall(r'^\s*void\s+(' + IDENT + r')\s*\(\s*(?:void)?\s*\)\s*;', t, re.M); ev += 1
        rest = re.sub(r'^\s*void\s+' + IDENT + r'\s*\(\s*(?:void)?\s*\)\s*;', '', t, flags=re.M); rest = re.sub(r'^\s*#.*$|//.*$', '', rest, flags=re.M)
        if rest.strip(): return f'{h}: unexpected text {rest.strip()[:80]!r}', None, None, ev
        if not re.search(r'#\s*pragma\s+once|#\s*ifndef', t): return f'{h} has no include guard', None, None, ev
        for n in names:
            if n in decl: return f'{n} is declared in {decl[n]} and again in {h}', None, None, ev
            decl[n] = h
        if len(names) != nfunc: return f'{h} declares {len(names)} functions instead of {nfunc}', None, None, ev
    for c in cs:
        t = R(c); fs, pre, err = functions(t); ev += 1
        if err: return f'{c}: {err}', None, None, ev
        if len(fs) != nfunc: return f'{c} defines {len(fs)} functions instead of {nfunc}', None, None, ev
        incs = re.findall(r'#include\s+"([^"]+)"', pre)
        for n, b in fs:
            if n in defd: return f'{n} is defined in {defd[n]} and again in {c}', None, None, ev
            defd[n] = c
            if n not in decl: return f'{n}, defined in {c}, is declared in no header', None, None, ev
            if decl[n] not in incs: return f'{c} does not include {decl[n]}, which declares its function {n}', None, None, ev
            ev += 1
            if b in bodies: continue
            bl = blocks(b)
            if bl is None or not bl: return f'{c}: the body of {n} is {"empty" if bl == [] else "not a sequence of blocks"}', None, None, ev
            bodies.add(b)
        pres.add(re.sub(r'#include\s+"[^"]+"', '', pre))
    for n in decl:
        if n not in defd: return f'{n} is declared in {decl[n]} but defined nowhere', None, None, ev
    m = R('main.cpp'); incs = re.findall(r'^\s*#include\s+"([^"]+)"', m, re.M); ev += 1
    for h in hs:
        if incs.count(h) != 1: return f'main.cpp includes {h} {incs.count(h)} times', None, None, ev
    for i in incs:
        if i not in hs: return f'main.cpp includes {i}, which is not written', None, None, ev
    mm = re.search(r'\bmain\s*\([^)]*\)\s*\{(.*)\}\s*$', m, re.S)
    if not mm: return 'main.cpp has no complete main', None, None, ev
    calls = re.findall(r'(' + IDENT + r')\s*\(\s*\)\s*;', mm.group(1)); seen = {}
    for n in calls: seen[n] = seen.get(n, 0) + 1
    for n in decl:
        ev += 1
        if seen.get(n, 0) != 1: return f'main calls {n} {seen.get(n, 0)} times', None, None, ev
    for n in seen:
        if n not in decl: return f'main calls {n}, which is not declared', None, None, ev
    if re.sub(r'(' + IDENT + r')\s*\(\s*\)\s*;|return\s+0\s*;|//.*', '', mm.group(1)).strip(): return 'main.cpp: unexpected text in main', None, None, ev
    sh = sorted(f for f in have if f.endswith('.sh'))
    for want, tag in (('glm', True), ('zcm', False)):
        s = [f for f in sh if want in f]
        if len(s) != 1: return f'{len(s)} build scripts for {want}', None, None, ev
        t = R(s[0]); w = t.replace('\\\n', ' ').split(); ev += 1
        for c in ['main.cpp'] + cs:
            if w.count(c) + w.count('./' + c) != 1: return f'{s[0]} names {c} {w.count(c)} times', None, None, ev
        for x in w:
            if x.endswith('.cpp') and os.path.basename(x) not in cs + ['main.cpp']: return f'{s[0]} names {x}, which is not written', None, None, ev
        if ('-DGLM_VARIANT' in t) != tag: return f'{s[0]} builds the wrong variant', None, None, ev
    return None, bodies, pres, ev

def snapshot(d): return {f: open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))}

def one(job):
    """one execution of the generator: (tag, exe, choices, scratch, prepare, argument form) -> dict"""
    tag, exe, choices, d, prep, form, nfile, nfunc, refd = job
    os.makedirs(d); arg, cwd, real = d, None, d
    try:
        if form == 'relative': arg, cwd = os.path.basename(d), os.path.dirname(d)
        elif form == 'slash': arg = d + '/'
        elif form == 'dot': arg, cwd = '.', d
        elif form == 'space': real = d + '/a b'; os.makedirs(real); arg = real
        elif form == 'link': real = d + '/real'; os.makedirs(real); os.symlink(real, d + '/lnk'); arg = d + '/lnk'
        msg = None; steps = 1; extra = set()
        for p in prep:
            if p[0] == 'run':
                rc, _ = generate(exe, p[1], real, arg, cwd); steps += 1
                if rc: return dict(tag=tag, msg=f'the generator ended with {rc} in the earlier run', ev=1, steps=steps)
            else:
                names, kind = p[1], p[2]
                for f in names:
                    q = os.path.join(real, f); 
                    if os.path.lexists(q): os.remove(q)
                    if kind == 'longer': open(q, 'w').write('#error stale\n' * 60000)
                    elif kind == 'shorter': open(q, 'w').write('#error stale\n')
                    elif kind == 'empty': open(q, 'w').close()
                    elif kind == 'readonly': open(q, 'w').write('#error stale\n' * 3000); os.chmod(q, 0o444)
                    elif kind == 'symlink': open(os.path.join(d, 'target_' + f), 'w').write('#error stale\n' * 9000); os.symlink(os.path.join(d, 'target_' + f), q); extra.add('target_' + f)
                    elif kind == 'dangling': os.symlink(os.path.join(d, 'gone_' + f), q); extra.add('gone_' + f)
                    elif kind in ('samesize', 'samesize-future', 'sameends'):   # as long as the file to come, other text
                        want = json.load(open(p[3]))[f]; n = len(want)
                        t = ('#error stale ' + 'x' * n)[:n] if kind != 'sameends' else want[:n // 2] + 'x' * (n - n // 2 - 40) + want[n - 40:] if n > 100 else 'x' * n
                        open(q, 'w', encoding='latin1').write(t)
                        if kind == 'samesize-future': os.utime(q, (4e9, 4e9))
                    elif kind == 'absent': pass
        rc, txt = generate(exe, choices, real, arg, cwd)
        if rc: return dict(tag=tag, msg=f'the generator ended with {rc}: {txt[-200:]}', ev=1, steps=steps)
        for e in extra:
            q = os.path.join(d, e)
            if os.path.lexists(q) and real == d:
                for f in os.listdir(real):
                    p = os.path.join(real, f)
                    if os.path.islink(p) and os.readlink(p) == q: os.remove(p); shutil.move(q, p)
                if os.path.exists(q): os.remove(q)
        msg, bodies, pres, ev = check_project(real, nfile, nfunc)
        if not msg and refd:
            a, b = json.load(open(refd)), {k: v.decode('latin1') for k, v in snapshot(real).items()}
            ev += len(a)
            for f in sorted(set(a) | set(b)):
                if a.get(f) != b.get(f): msg = f'{f} differs from what the same choices write into an empty directory' + (' (stale text)' if 'stale' in (b.get(f) or '') else ''); break
        return dict(tag=tag, msg=msg, ev=ev, steps=steps, bodies=bodies, pres=pres)
    finally: shutil.rmtree(d, ignore_errors=True)

def run(pid, spec, tier, work):
    B = C.Builder(work); res = C.Result(pid, tier); res.configs = ['g++']
    libf = B.lib_objects('dbg')
    exe = build(work); nfile, nfunc = counts(); nall = nfile * nfunc
    def viol(family, tag, msg):
        if len(res.violations) < 3 and not any(v['family'] == family for v in res.violations):
            res.violations.append(dict(property=pid, config='g++', tier=tier, family=family, index=0, mode='rerun', message=f'{tag}: {msg}'))
    # --- how many alternatives each choice has, from a run that plays 0,1,2,... (only used to aim the enumeration)
    n1 = 64
    t = open(os.path.join(C.REPO, 'tools', 'benchgen', 'snippets.h')).read(); t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    snip = max(1, len(re.findall(r'^\s*"\{\\n"', t, re.M)))
    jobs, k = [], 0
    def job(tag, choices, prep=(), form='plain', refd=None):
        nonlocal k; k += 1; jobs.append((tag, exe, choices, os.path.join(work, f'run{k}'), list(prep), form, nfile, nfunc, refd))
    fam = {}
    def family(name, f):
        nonlocal jobs
        jobs = []; f(); 
        with mp.Pool(8) as p: out = p.map(one, jobs, chunksize=1)
        ev = sum(o['ev'] for o in out); res.tot['evals'] += ev; res.tot['states'] += len(out); res.tot['transitions'] += sum(o['steps'] for o in out); res.tot['nontrivial'] += sum(o['ev'] for o in out if not o['msg'])
        res.families.append(dict(config='g++', name=name, inputs=len(out), evals=ev, nontrivial=ev, states=len(out), transitions=sum(o['steps'] for o in out)))
        for o in out:
            if o['msg']: viol(name, o['tag'], o['msg'])
            if len(res.samples) < 12 and o is out[len(out) // 2]: res.samples.append(f"{name}: {o['tag']}: {o['msg'] or 'complete'}")
        return out
    bodies, pres = set(), set()
    # all choices the same value
    MAXR = 2147483647
    consts = list(range(max(snip, 5) + 5)) + [MAXR, MAXR - 1, MAXR // 2, MAXR // 2 + 1, 32767, 32768, 65535, 1 << 30] + ([r for r in range(70, 5 * snip)] if tier == 'thorough' else [])
    out = family('constant choices', lambda: [job(f'rand() always {r}', [r]) for r in consts])
    # every ordered tuple of snippets: choice list "how many", then the snippets
    def tuples(n):
        seqs = []; cur = []; cnt = 0
        tot = snip ** n
        for q in range(tot):
            x = q; cur.append(n - 1)
            for _ in range(n): cur.append(x % snip); x //= snip
            cnt += 1
            if cnt == nall: seqs.append(cur); cur = []; cnt = 0
        if cur: seqs.append(cur)
        return seqs
    lens = (1, 2) if tier == 'quick' else (1, 2, 3)
    out2 = family('every sequence of snippets up to length %d' % lens[-1], lambda: [job(f'{n} snippets per function, list {i}', s) for n in lens for i, s in enumerate(tuples(n))])
    # longest functions, every snippet in every position
    out2 += family('five snippets, every snippet at every place', lambda: [job(f'rotation {p}', sum(([4] + [(q if z == p else 0) for z in range(5)] for q in range(snip)), [])) for p in range(5)])
    for o in out + out2:
        bodies |= o.get('bodies') or set(); pres |= o.get('pres') or set()
    # --- output directory states: the result must be what the same choices give in an empty directory
    A = [4, 3, 1, 2, 0, 7]; Bc = [0, 5]; D = [1, 9, 30, 2, 11]; E = [4, 40, 41, 42, 43, 44]
    refs = {}
    determ = True
    for nm, ch in (('A', A), ('B', Bc), ('D', D), ('E', E)):
        snaps = []
        for r in range(2):
            d = os.path.join(work, f'ref{nm}{r}'); os.makedirs(d); rc, txt = generate(exe, ch, d)
            if rc: viol('output directory', nm, f'the generator ended with {rc}')
            snaps.append({k_: v.decode('latin1') for k_, v in snapshot(d).items()}); shutil.rmtree(d)
        if snaps[0] != snaps[1]: determ = False
        refs[nm] = os.path.join(work, f'ref{nm}.json'); json.dump(snaps[0], open(refs[nm], 'w'))
    if not determ: res.notes.append('choices are not drawn from rand(); outputs over used directories are checked for structure only'); refs = {k_: None for k_ in refs}
    seqs = dict(A=A, B=Bc, D=D, E=E)
    names = ['main.cpp', 'glm-build.sh', 'zcm-build.sh']; hs = [f'file{i}.h' for i in range(nfile)]; cs = [f'file{i}.cpp' for i in range(nfile)]
    groups = dict(headers=hs, sources=cs, main=['main.cpp'], glm=['glm-build.sh'], zcm=['zcm-build.sh'], everything=hs + cs + names, first=['file0.h', 'file0.cpp'], last=[f'file{nfile - 1}.h', f'file{nfile - 1}.cpp'])
    def dirs():
        for a in seqs:
            for b in seqs: job(f'{a} over {b}', seqs[a], [('run', seqs[b])], refd=refs[a])
        for g, fs in groups.items():
            for kind in ('longer', 'shorter', 'empty', 'readonly', 'symlink', 'dangling'): job(f'{g} {kind} before', A, [('put', fs, kind)], refd=refs['A'])
            if refs['A']:
                for kind in ('samesize', 'samesize-future', 'sameends'):
                    job(f'{g} {kind} before', A, [('put', fs, kind, refs['A'])], refd=refs['A'])
                    job(f'{g} {kind} over a complete project', A, [('run', E), ('put', fs, kind, refs['A'])], refd=refs['A'])
            job(f'{g} deleted between two runs', A, [('run', E), ('put', fs, 'absent')], refd=refs['A'])
        for f in ('relative', 'slash', 'dot', 'space', 'link'): job(f'path {f}', A, [('run', E)], f, refs['A'])
        if tier == 'thorough':
            for a in seqs:
                for b in seqs:
                    for c in seqs: job(f'{a} over {b} over {c}', seqs[a], [('run', seqs[c]), ('run', seqs[b])], refd=refs[a])
            for g, fs in groups.items():
                for g2, fs2 in groups.items():
                    for kind in ('longer', 'symlink', 'absent'): job(f'{g} longer, {g2} {kind}', A, [('run', E), ('put', fs, 'longer'), ('put', fs2, kind)], refd=refs['A'])
    family('output directory', dirs)
    # --- every distinct body compiles, in both variants
    if not res.violations:
        bl = {}
        for b in sorted(bodies):
            for x in blocks(b): bl.setdefault(x, b)
        keep = sorted(bodies, key=lambda b: (len(b), b)); step = 1
        for variant, flags in (('zcm', f'-I{C.REPO}/include'), ('glm', '-DGLM_VARIANT=1')):
            if variant == 'glm' and not os.path.exists('/usr/include/glm'): res.notes.append('GLM is not installed; the GLM variant was not compiled'); continue
            jobs2 = []
            parts = 8
            for pi, pre in enumerate(sorted(pres)):
                sel = keep if tier == 'thorough' else [b for i, b in enumerate(keep) if len(blocks(b)) == 1] + [b for i, b in enumerate(keep) if len(blocks(b)) == 5]
                for p in range(parts):
                    f = os.path.join(work, f'body_{variant}_{pi}_{p}.cpp'); open(f, 'w').write(pre + ''.join(f'void f{i}()\n{{{b}}}\n' for i, b in enumerate(sel) if i % parts == p))
                    jobs2.append((B.pool.submit(C.sh, f'g++ -std=c++11 -w {flags} -fsyntax-only {f}'), f, len([1 for i in range(len(sel)) if i % parts == p])))
            nb = 0
            for fu, f, n in jobs2:
                rc, out_ = fu.result(); nb += n
                if rc:
                    m = re.search(r'%s:(\d+):' % re.escape(f), out_); line = open(f).read().splitlines()[int(m.group(1)) - 1] if m else ''
                    viol('compilation', variant, f'an emitted function does not compile with {variant}: {" ".join([l for l in out_.splitlines() if "error" in l][:2])[:300]} in {line!r}')
            res.tot['evals'] += nb; res.tot['nontrivial'] += nb; res.families.append(dict(config='g++', name=f'every distinct body compiles with {variant}', inputs=nb, evals=nb, nontrivial=nb, states=0, transitions=0))
        res.extra['distinct_blocks'] = len(bl); res.extra['distinct_bodies'] = len(bodies)
    # --- one whole project is built with its own script, linked and run
    if not res.violations:
        d = os.path.join(work, 'project'); os.makedirs(d); generate(exe, sum(([0, q] for q in range(snip)), []), d)
        inc = f'-I{C.REPO}/include'
        objs = []
        srcs = sorted(f for f in os.listdir(d) if f.endswith('.cpp'))
        few = srcs if tier == 'thorough' else [s for s in srcs if s == 'main.cpp' or s in ('file0.cpp', 'file1.cpp', f'file{nfile - 1}.cpp', f'file{nfile // 2}.cpp')]
        objs = [(B.pool.submit(C.sh, f'g++ -std=c++11 -w {inc} -c {d}/{s} -o {d}/{s}.o'), s) for s in few]
        for fu, s in objs:
            rc, out_ = fu.result(); res.tot['evals'] += 1
            if rc: viol('project', s, 'an emitted file does not compile: ' + ' '.join([l for l in out_.splitlines() if 'error' in l][:2])[:300])
        if not res.violations:
            for fu, o, s in libf: fu.result()
            C.sh(f"ar rcs {work}/libzcm_dbg.a " + ' '.join(o for _, o, _ in libf))
            und = '' if tier == 'thorough' else '-Wl,--unresolved-symbols=ignore-all'
            if tier == 'thorough':
                rc, out_ = C.sh(f'g++ {d}/*.o {work}/libzcm_dbg.a -o {d}/prog && {d}/prog'); res.tot['evals'] += 1
                if rc: viol('project', 'link and run', out_[-400:])
            else:
                rc, out_ = C.sh(f'nm -u -C {d}/file*.o | grep " zcm::" | sort -u'); need = set(x.strip()[2:] for x in out_.splitlines()); rc, out_ = C.sh(f'nm --defined-only -C {work}/libzcm_dbg.a'); have = set(x.split(' ', 2)[2] for x in out_.splitlines() if len(x.split(' ', 2)) == 3)
                res.tot['evals'] += len(need)
                for q in sorted(need - have): viol('project', 'link', f'emitted code calls {q}, which the library does not define')
    # --- misuse writes nothing: every list of up to three arguments except a single existing directory
    m = os.path.join(work, 'misuse'); os.makedirs(m); n = 0
    atoms = ['one', 'two', 'missing', 'plain', '', 'one/missing', 'plain/x']
    def tree(): return sorted((os.path.relpath(os.path.join(r, f), m), os.path.getsize(os.path.join(r, f))) for r, ds, fs in os.walk(m) for f in ds + fs)
    for d in ('one', 'two'): os.makedirs(os.path.join(m, d))
    open(os.path.join(m, 'plain'), 'w').write('x'); before = tree(); bad = None
    for args in [()] + [a for k in (1, 2, 3) for a in itertools.product(atoms, repeat=k)]:
        if bad or len(args) == 1 and args[0] in ('one', 'two'): continue
        rc, txt = C.sh([exe] + list(args), cwd=m, timeout=60, hang=True); n += 1; after = tree()
        if rc == 0 or after != before: bad = 1; viol('misuse', ' '.join(map(repr, args)) or '(no argument)', f'ended with {rc} and left {[x for x in after if x not in before][:5]}')
    res.tot['evals'] += n; res.tot['nontrivial'] += n; res.families.append(dict(config='g++', name='argument lists', inputs=n, evals=n, nontrivial=n, states=0, transitions=0))
    return res

def replay(pid, spec, tier, work, only):
    r = run(pid, spec, tier, work)
    for v in r.violations: print('reproduced:', v['message'])
    if not r.violations: print('does not reproduce on this tree')
    return 1 if r.violations else 0
