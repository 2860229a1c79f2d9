"""Every public header, alone and in every ordered pair, under both compilers, every standard, debug and release,
swizzles on and off; every declaration linked and called; all configurations compared call by call."""
import os, re, json, glob
import common as C, gen_calls as G
STD = ('11', '14', '17', '20')
CC = ('g++', 'clang++')
MODE = {'debug': '', 'default': '-DZCM_RELEASE_BUILD', 'release': '-DNDEBUG -DZCM_RELEASE_BUILD -O2'}
SWZ = {'swizzle': '', 'noswizzle': '-DZCM_DISABLE_SWIZZLE'}

def swizzle_program(path):
    """reads every swizzle and uses every component operation once, each through an accessor of its own type"""
    import itertools
    o = []; k = 0
    for T, n, S in (('vec2', 2, 'float'), ('vec3', 3, 'float'), ('vec4', 4, 'float'), ('ivec2', 2, 'int32_t'), ('ivec3', 3, 'int32_t'), ('ivec4', 4, 'int32_t')):
        o.append(f'static int f{k}() {{ using namespace zcm; int bad = 0; {T} v({", ".join(str(11 * (i + 1)) for i in range(n))});'); k += 1
        for L in range(2, n + 1):
            R = ('i' if S != 'float' else '') + f'vec{L}'
            for cb in itertools.product(range(n), repeat=L):
                o.append(f' {{ {R} r = v.{"".join("xyzw"[i] for i in cb)}; bad += !(r == {R}({", ".join(str(11 * (i + 1)) for i in cb)})); }}')
        for i in range(n):
            c = 'xyzw'[i]; o.append(f' {{ {T} u(v); u.{c} = {S}(7); u.{c} += {S}(3); u.{c} -= {S}(2); u.{c} *= {S}(6); u.{c} /= {S}(3); ++u.{c}; u.{c}++; --u.{c}; u.{c}--; {S} s = u.{c}; bad += s != {S}(16);')
            if S != 'float': o.append(f'  u.{c} %= 9; u.{c} |= 8; u.{c} ^= 3; u.{c} &= 13; u.{c} <<= 3; u.{c} >>= 1; s = u.{c}; bad += s != {((((16 % 9) | 8) ^ 3) & 13) << 2};')
            o.append(f'  for (unsigned q = 0; q < {n}; q++) if (q != {i}) bad += u[q] != v[q]; }}')
        o.append(' return bad; }')
    t = open(C.VERIF + '/harness/p32_swizzle.cpp').read().replace('int main() {', 'int main2() {')
    open(path, 'w').write(t + '\n'.join(o) + '\nint main() { int bad = main2()%s; if (bad) std::printf("%%d wrong\\n", bad); return bad != 0; }\n' % ''.join(f' + f{i}()' for i in range(k)))
    return path

def first_error(out):
    e = [l for l in out.splitlines() if 'error' in l or 'undefined' in l or 'multiple definition' in l]
    return ' '.join((e or out.splitlines() or ['?'])[:2])[:500]

def run(pid, spec, tier, work):
    B = C.Builder(work); res = C.Result(pid, tier)
    sub = lambda cmd: B.pool.submit(C.sh, cmd)
    sub2 = B.pool.submit
    def viol(family, config, msg):
        if len(res.violations) < 3 and not any(v['family'] == family for v in res.violations):
            res.violations.append(dict(property=pid, config=config, tier=tier, family=family, index=0, mode='rerun', message=msg))
    hs = G.headers(); known = dict(C.known_findings(pid))
    # --- compilation
    texts = {}
    for h in hs: texts[h] = f'#include <{h}>\n'
    texts['all'] = ''.join(f'#include <{h}>\n' for h in hs); texts['all reversed'] = ''.join(f'#include <{h}>\n' for h in reversed(hs))
    jobs = []
    def tu(name, text, cc, std, m, s):
        f = os.path.join(work, 'tu_%d.cpp' % len(jobs)); open(f, 'w').write(text + 'int zcm_user() { return 0; }\n')
        jobs.append((sub(f'{cc} -std=c++{std} -w {MODE[m]} {SWZ[s]} -I{C.REPO}/include -fsyntax-only {f}'), name, f'{cc} C++{std} {m} {s}'))
    for n, t in texts.items():
        for cc in CC:
            for std in STD:
                for m in MODE:
                    for s in SWZ:
                        if tier == 'quick' and (m == 'release' and std in ('14', '17') or m == 'default' and std != '14'): continue
                        tu(n, t, cc, std, m, s)
    nsingle = len(jobs)
    for a in hs:
        for b in hs:
            for cc, std in ((('clang++', '11'),) if tier == 'quick' else [(c, s) for c in CC for s in STD]):
                tu(f'{a} then {b}', texts[a] + texts[b], cc, std, 'debug', 'noswizzle' if tier == 'quick' else 'swizzle')
    ok = 0
    swz = []
    for cc in CC:
        for std in STD:
            for m in MODE: swz.append((cc, std, m))
    # --- libraries
    libs = {}
    lstd = 0
    for cc in CC:
        for m in MODE:
            for s in SWZ:
              for st in (STD if tier == 'thorough' else (STD[lstd % 4],)):     # each library is built with the standard of its user
                lstd += 1; k = f'{cc}-{m}-{s}-C++{st}'; d = os.path.join(work, 'lib_' + k); os.makedirs(d)
                libs[k] = [(sub(f"{cc} -std=c++{st} -w {MODE[m]} {SWZ[s]} -I{C.REPO}/include -I{C.REPO}/src -c {f} -o {d}/{os.path.basename(f)}.o"), f'{d}/{os.path.basename(f)}.o', f) for f in C.lib_sources()]
    fns = skipped = None
    for fu, n, c in jobs:
        rc, out = fu.result(); res.tot['evals'] += 1
        if rc: viol('headers', c, f'{n} does not compile with {c}: {first_error(out)}')
        else: ok += 1
    res.tot['nontrivial'] += ok
    res.families += [dict(config='all', name='each header, all headers', inputs=nsingle, evals=nsingle, nontrivial=nsingle, states=0, transitions=0), dict(config='all', name='ordered pairs of headers', inputs=len(jobs) - nsingle, evals=len(jobs) - nsingle, nontrivial=len(jobs) - nsingle, states=0, transitions=0)]
    if res.violations: return res
    fns, skipped = G.functions(G.parse(work))
    # --- the same functions are declared in every configuration (a missing overload lets a call go elsewhere)
    pj = [(sub2(G.parse, work, f'{MODE[m]} {SWZ[s_]}', st), f'C++{st} {m} {s_}') for st in STD for m in MODE for s_ in SWZ]
    decls = {c: {f['key'] for f in G.functions(fu.result())[0]} for fu, c in pj}
    union = set().union(*decls.values())
    for c, ds in decls.items():
        res.tot['evals'] += len(union); res.tot['nontrivial'] += len(ds)
        lost = sorted(union - ds)
        if lost: viol('same declarations', c, f'{lost[0]} is declared in other configurations but not in {c} ({len(lost)} such)')
    res.families.append(dict(config='all', name='the same declarations everywhere', inputs=len(union) * len(decls), evals=len(union) * len(decls), nontrivial=len(union) * len(decls), states=0, transitions=0))
    if res.violations: return res
    # --- every declaration has a definition, in every configuration
    defs = {}
    for k, l in libs.items():
        bad = [(f, out) for fu, o, f in l for rc, out in [fu.result()] if rc]
        res.tot['evals'] += 1
        if bad: viol('library', k, f'{os.path.relpath(bad[0][0], C.REPO)} does not compile in {k}: {first_error(bad[0][1])}'); continue
        rc, out = C.sh('nm --defined-only ' + ' '.join(o for _, o, _ in l)); defs[k] = {x.split()[-1] for x in out.splitlines() if len(x.split()) == 3 and x.split()[1] in 'TWVBDR'}
        C.sh(f"ar rcs {work}/lib_{k}.a " + ' '.join(o for _, o, _ in l))
    if res.violations: return res
    undefd = {}
    for k, d in defs.items():
        for f in fns:
            res.tot['evals'] += 1; res.tot['nontrivial'] += 1
            if not f['inline'] and f['mangled'] not in d: undefd.setdefault(f['key'], []).append(k)
    for f, ks in undefd.items():
        n = 'zcm::' + f.split('(')[0]
        if n in known:
            line = f'{n} {known[n]}'
            if line not in res.known: res.known.append(line)
        else: viol('declarations', ks[0], f'{f} is declared but not defined ({", ".join(ks)})')
    if res.violations: return res
    use = [f for f in fns if f['key'] not in undefd]
    # --- every declaration is called, in every configuration
    d = os.path.join(work, 'calls'); os.makedirs(d)
    files, n, _ = G.write(d, use, None); res.extra['public_calls'] = n; res.extra['not_callable'] = (skipped + G.dropped)[:50]
    objs = {}
    for k in libs:
            cc, m, s, st = k.split('-'); st = st[3:]; kk = k; o = []
            for f in files:
                of = f'{f}.{kk}.o'; o.append((sub(f"{cc} -std=c++{st} -w -fno-strict-aliasing {MODE[m]} {SWZ[s]} {'' if m == 'release' else '-O1'} -I{C.VERIF}/harness -I{C.REPO}/include -c {f} -o {of}"), of))
            of = f'{d}/p32.{kk}.o'; o.append((sub(f"{cc} -std=c++17 -w {MODE[m]} -O1 -I{C.VERIF}/harness -c {C.VERIF}/harness/p32.cpp -o {of}"), of))
            objs[kk] = (k, o)
    swp = swizzle_program(os.path.join(work, 'all_swizzles.cpp'))
    sw = [(sub(f"{cc} -std=c++{st} -w {MODE[m]} -I{C.REPO}/include {swp} {work}/lib_{next(k for k in libs if k.startswith(f'{cc}-{m}-swizzle-'))}.a -o {work}/swz_{cc}{st}{m} && {work}/swz_{cc}{st}{m}"), f'{cc} C++{st} {m}') for cc, st, m in swz]
    runs = {}
    for kk, (k, o) in objs.items():
        bad = [out for fu, _ in o for rc, out in [fu.result()] if rc]
        if bad: viol('calls', kk, f'a program calling every public function does not compile in {kk}: {first_error(bad[0])}'); continue
        cc = k.split('-')[0]
        runs[kk] = sub(f"{cc} -o {d}/exe.{kk} {' '.join(x for _, x in o)} {work}/lib_{k}.a && VERIF_TIER={tier} timeout {120 if tier == 'quick' else 300} {d}/exe.{kk} --run {d}/{kk}.bin")
    ref = None; cmp = []
    for kk, fu in runs.items():
        rc, out = fu.result(); res.configs.append(kk)
        if rc: viol('calls', kk, f'a program calling every public function does not {"end" if rc == 124 else "link or run"} in {kk}: {first_error(out)}'); continue
        if ref is None: ref = kk; continue
        cmp.append((kk, sub(f'VERIF_TIER={tier} {d}/exe.{ref} --compare {d}/{ref}.bin {d}/{kk}.bin')))
    tot = 0
    for kk, fu in cmp:
        rc, out = fu.result(); m = re.search(r'COMPARED (\d+) (\d+)', out)
        if m: res.tot['evals'] += int(m.group(1)); res.tot['nontrivial'] += int(m.group(2)); tot += int(m.group(1))
        if rc: viol('results', kk, f'{ref} and {kk} disagree: ' + ' | '.join(x[4:] for x in out.splitlines() if x.startswith('BAD'))[:800])
    res.families.append(dict(config='all', name='every call in every configuration', inputs=tot, evals=tot, nontrivial=tot, states=0, transitions=0))
    for fu, c in sw:
        rc, out = fu.result(); res.tot['evals'] += 1
        if rc: viol('swizzles', c, f'a program using the swizzles fails with {c}: {first_error(out)}')
    res.samples = [f'{hs[0]} alone, g++ C++11 debug, swizzles on: compiles', f'{hs[1]} then {hs[2]}, clang++ C++11: compiles', f'{len(use)} declarations defined in {len(defs)} library builds', f'{n} functions called in {", ".join(list(runs)[:3])}: same results']
    return res

def replay(pid, spec, tier, work, only):
    r = run(pid, spec, tier, work)
    for v in r.violations: print('reproduced:', v['config'], v['message'])
    if not r.violations: print('does not reproduce on this tree')
    return 1 if r.violations else 0
