"""Swizzle declaration generator: every argument pair is one run of the real tool; the printed declarations are compared
with the complete set of ordered selections, and every printed name is evaluated on the library's vectors."""
import os, re, sys, itertools, subprocess
import common as C
NAMES = ('xyzw', 'rgba', 'stpq')
LINE = re.compile(r'^\s*detail::shuffle_accessor_(\d+)\s*<\s*vec(\d+)\s*,([\d\s,]*)>\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*;\s*$')

def tool(args, work):
    p = subprocess.Popen([sys.executable, '-B', os.path.join(C.REPO, 'tools', 'combinations.py')] + args, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try: out, _ = p.communicate(timeout=60)
    except subprocess.TimeoutExpired: p.kill(); p.communicate(); raise C.HangError(f'combinations.py {" ".join(args)} did not end within 60 s')
    return p.returncode, out.decode(errors='replace')

def check(n, k, rc, out):
    """-> (message or None, declarations)"""
    if rc: return f'ended with {rc}', []
    d = []
    for l in out.splitlines():
        if not l.strip(): continue
        m = LINE.match(l)
        if not m: return f'printed something that is no declaration: {l[:120]!r}', []
        idx = tuple(int(x) for x in m.group(3).replace(' ', '').split(','))
        if (int(m.group(1)), int(m.group(2))) != (n, k) or len(idx) != k: return f'declaration of the wrong size: {l}', []
        if any(i >= n for i in idx): return f'index out of range: {l}', []
        for s, al in zip(m.groups()[3:], NAMES):
            if s != ''.join(al[i] for i in idx): return f'name {s} does not select {idx}: {l}', []
        d.append((idx, m.groups()[3:]))
    want = set(itertools.product(range(n), repeat=k)); got = [x[0] for x in d]
    if len(got) != len(set(got)): return 'selection printed twice: %s' % [g for g in got if got.count(g) > 1][:2], []
    if set(got) != want: return f'selections missing: {sorted(want - set(got))[:4]}', []
    return None, d

def run(pid, spec, tier, work):
    B = C.Builder(work); res = C.Result(pid, tier); cfgs = ['dbg', 'crel'] if tier == 'quick' else ['dbg', 'rel', 'cdbg', 'crel']
    res.configs = ['python3'] + cfgs
    def viol(family, index, msg, cfg='python3'):
        if len(res.violations) < 3 and not any(v['family'] == family for v in res.violations):
            res.violations.append(dict(property=pid, config=cfg, tier=tier, family=family, index=index, mode='rerun', message=msg))
    ev = 0; decl = []
    for n in range(1, 5):
        for k in range(1, n + 1):
            rc, out = tool([str(n), str(k)], work); msg, d = check(n, k, rc, out); ev += max(1, len(d))
            if msg:
                if check(n, k, *tool([str(n), str(k)], work))[0]: viol('declarations', n * 10 + k, f'combinations.py {n} {k}: {msg}')
            decl += [(n, k, i, s) for i, s in d]
            if n == 4 and len(res.samples) < 6: res.samples.append(f'combinations.py {n} {k}: {len(d)} declarations, first {d[0] if d else msg}')
    res.families.append(dict(config='python3', name='declarations', inputs=10, evals=ev, nontrivial=len(decl), states=0, transitions=0))
    bad = [[], ['1'], ['2'], ['3'], ['4']] + [[str(n), str(k)] for n in range(1, 7) for k in range(n + 1, 8)] + [[a, b] for a in ('2', '4', 'x', '', 'vec3', '2.5', '1e0') for b in ('x', '', '--', '2,', '1.5')] + [[a, b] for a in ('x', '', 'vec4', '3.0', '0x4') for b in ('1', '2', '3')]
    for i, a in enumerate(bad):
        rc, out = tool(a, work); ev += 1
        if rc == 0 or 'shuffle_accessor' in out: viol('bad arguments', i, f"combinations.py {' '.join(map(repr, a))} " + ('succeeded' if rc == 0 else 'printed declarations'))
    res.families.append(dict(config='python3', name='bad arguments', inputs=len(bad), evals=len(bad), nontrivial=len(bad), states=0, transitions=0))
    # --- the printed names on the library
    val = lambda i: 10 * (i + 1) + 0.5
    body = []
    for n, k, idx, names in decl:
        if n < 2: continue
        for s in names:
            e = f'v{n}.{s}' if k == 1 else f'zcm::vec{k}(v{n}.{s})'
            body.append(f'  {{ {'float' if k == 1 else f'zcm::vec{k}'} r = {e}; const float w[] = {{{", ".join(repr(val(i)) + "f" for i in idx)}}}; evals++; if (memcmp(&r, w, sizeof w)) {{ bad++; puts("vec{n}.{s}"); }} }}')
    parts = [body[i::8] for i in range(8)]; srcs = []
    for i, p in enumerate(parts):
        f = os.path.join(work, f'part{i}.cpp'); srcs.append(f)
        open(f, 'w').write('#include <cstdio>\n#include <cstring>\n#include <zcm/vec2.hpp>\n#include <zcm/vec3.hpp>\n#include <zcm/vec4.hpp>\nextern int evals, bad;\n' + f'void part{i}() {{ zcm::vec2 v2(10.5f, 20.5f); zcm::vec3 v3(10.5f, 20.5f, 30.5f); zcm::vec4 v4(10.5f, 20.5f, 30.5f, 40.5f); (void)v2; (void)v3; (void)v4;\n' + '\n'.join(p) + '\n}\n')
    f = os.path.join(work, 'main.cpp'); srcs.append(f)
    open(f, 'w').write('#include <cstdio>\nint evals, bad;\n' + ''.join(f'void part{i}();\n' for i in range(8)) + 'int main() {' + ''.join(f' part{i}();' for i in range(8)) + ' printf("evals %d\\n", evals); return bad ? 1 : 0; }\n')
    if not res.violations:
        try: exes = B.harness(srcs, cfgs)
        except C.InterfaceError as e:
            viol('library', 0, 'a printed name is not one the library has: ' + str(e)[:400], e.cfg); exes = {}
        for cfg, exe in exes.items():
            rc, out = C.sh([exe], timeout=60, hang=True); m = re.search(r'evals (\d+)', out); k = int(m.group(1)) if m else 0; ev += k
            if rc: viol('library', 0, 'printed names that do not select what they say: ' + ' '.join(out.split()[:6]), cfg)
            elif k != len(body): raise C.CheckError(f'{cfg}: {k} of {len(body)} names evaluated')
            res.families.append(dict(config=cfg, name='library', inputs=len(body), evals=k, nontrivial=k, states=0, transitions=0)); res.tot['nontrivial'] += k
    res.tot['evals'] += ev; res.tot['nontrivial'] += len(decl) + len(bad)
    return res

def replay(pid, spec, tier, work, r):
    res = run(pid, spec, tier, work)
    for v in res.violations: print('reproduced:', v['message'])
    if not res.violations: print('does not reproduce on this tree')
    return 1 if res.violations else 0
