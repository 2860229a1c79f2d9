"""Which types mix: every (type, operator, type), conversion and construction of the public types, and every call of a
public function with every combination of argument types, decided by the compiler on the real headers and compared with
a rule (operators, conversions) and with the declared interface (functions: lib/signatures.txt)."""
import os, re, itertools, json
import common as C, gen_calls as G
S = ('float', 'int', 'bool')
V = tuple(f'vec{n}' for n in (2, 3, 4)); IV = tuple('i' + v for v in V); BV = tuple('b' + v for v in V); M = tuple(f'mat{n}' for n in (2, 3, 4))
CLS = V + IV + BV + ('quat',) + M
T = S + CLS
CODE = {t: i + 1 for i, t in enumerate(T)}; CODE['void'] = 90; CODE['other'] = 99
NAME = {v: k for k, v in CODE.items()}; NAME[0] = 'not valid'
size = lambda t: int(t[-1])
ARITH = ('+', '-', '*', '/'); BITS = ('%', '&', '|', '^', '<<', '>>'); LOGIC = ('&&', '||'); EQ = ('==', '!='); REL = ('<', '<=', '>', '>=')
BIN = ARITH + BITS + LOGIC + EQ + REL
COMP = ('+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '=')
UN = ('+', '-', '!', '~')
ANY = 'unspecified'

def bin_rule(a, op, b):
    """result type, None (must not be valid) or ANY; at least one operand is a class"""
    if a in S and b in S: return ANY
    c, o = (a, b) if a in CLS and (b in S or a == b) else (b, a) if b in CLS and a in S else (None, None)
    if c:                                              # a type with itself or with a scalar
        both = o not in S
        if c in V: return c if op in ARITH else 'bool' if op in EQ else None
        if c in IV:
            if o in ('float', 'bool'): return ANY
            return c if op in ARITH + BITS else 'b' + c[1:] if op in LOGIC else 'bool'
        if c in BV:
            if o in ('float', 'int'): return ANY
            return c if op in LOGIC + ('^',) else ('bool' if both else None) if op in EQ else None
        if c == 'quat':
            if both: return c if op in ('+', '-', '*') else 'bool' if op in EQ else None
            return c if op in ('*', '/') else None
        if c in M:
            if both: return c if op in ARITH else 'bool' if op in EQ else None
            return c if op in ('*', '/') else None
    if {a, b} == {'quat', 'vec3'}: return 'vec3' if op == '*' else None
    for m, v in ((a, b), (b, a)):
        if m in M and v in V and size(m) == size(v): return v if op in ('*', '/') else None
        if m in IV and v in BV and size(m) == size(v): return v if op in LOGIC + ('^',) else 'bool' if op in EQ else None
    return None
def comp_rule(a, op, b):
    """True, False or ANY; a is a class"""
    if op == '=': return a == b or conv_rule(b, a)
    if a in V: return op in ('+=', '-=', '*=', '/=') and (b == a or b in S)
    if a in IV: return ANY if b in ('float', 'bool') else b == a or b == 'int'
    if a in BV: return ANY if b in ('float', 'int') else op in ('&=', '|=', '^=') and (b == a or b == 'bool' or (b in IV and size(a) == size(b)))
    if a == 'quat': return (b == a and op in ('+=', '-=', '*=')) or (b in S and op in ('*=', '/='))
    return b == a and op in ('+=', '-=', '*=', '/=')
def un_rule(op, a):
    if op in '+-': return a if a in V + IV + ('quat',) + M else None
    if op == '!': return 'b' + a[-4:] if a in IV + BV else None
    return None
def conv_rule(a, b):
    if a == b: return True
    if a == 'float': return b in V
    if a in ('int', 'bool'): return b in V + IV
    return a in IV and b in BV and size(a) == size(b)
def one_rule(c, a):
    """class c from a single value of type a"""
    if a == c or conv_rule(a, c): return True
    if a in S: return not (c in IV and a == 'float')
    if c == 'quat': return a == 'vec3'
    return (c, a) in (('mat3', 'mat2'), ('mat2', 'mat3'), ('mat4', 'mat3'), ('mat3', 'mat4'))
def lanes(t): return 1 if t in S else 4 if t == 'quat' else size(t) ** (2 if t in M else 1)
# component lists: the ones that fill the type, in the order and grouping the library offers
LISTS = {'vec2': ['s s'], 'vec3': ['s s s', 'v2 s', 's v2'], 'vec4': ['s s s s', 'v2 s s', 's v2 s', 's s v2', 'v2 v2', 'v3 s', 's v3'],
         'quat': ['float float float float', 'float vec3', 'vec3 float', 'vec3 vec3'], 'mat2': ['float float float float', 'vec2 vec2'], 'mat3': [' '.join(['float'] * 9), 'vec3 vec3 vec3'], 'mat4': [' '.join(['float'] * 16), 'vec4 vec4 vec4 vec4']}
def lists(c):
    if c in LISTS and c not in V: return [tuple(l.split()) for l in LISTS[c]]
    p = '' if c in V else c[0]; s = {'': 'float', 'i': 'int', 'b': 'bool'}[p]
    return [tuple(s if w == 's' else f'{p}vec{w[1]}' for w in l.split()) for l in LISTS['vec' + c[-1]]]
def list_rule(c, t):
    """construction from several values: True, False, ANY"""
    if t in lists(c): return True
    if any(x in CLS and not (x in V or x in IV or x in BV or x == 'vec3') for x in t): return False   # quaternions and matrices are never components
    if sum(lanes(x) for x in t) > lanes(c): return False
    fam = V if c in V or c == 'quat' or c in M else IV if c in IV else BV
    if any(x in CLS and x not in fam and not (fam == BV and x in IV) for x in t): return False         # components of another kind
    return ANY

CXX = lambda t: ('zcm::' + t) if t in CLS else t
def prologue():
    s = '#include <cstdio>\n#include <cstdint>\n#include <type_traits>\n#include <utility>\n' + ''.join(f'#include <{h}>\n' for h in G.headers())
    s += 'struct No {}; template<class X> struct K { enum { v = 99 }; }; template<> struct K<No> { enum { v = 0 }; }; template<> struct K<void> { enum { v = 90 }; };\n'
    for t in T: s += f'template<> struct K<{CXX(t)}> {{ enum {{ v = {CODE[t]} }}; }};\n'
    s += 'template<class X> using D = typename std::decay<X>::type; template<class X> const X& L(); template<class X> X& W();\n'
    s += 'template<class A, class B> struct Conv { enum { v = std::is_convertible<A, B>::value }; }; template<class A, class... B> struct Ctor { enum { v = std::is_constructible<A, B...>::value }; };\n'
    for i, o in enumerate(BIN): s += f'template<class A, class B> auto b{i}(int) -> D<decltype(L<A>() {o} L<B>())>; template<class A, class B> No b{i}(long);\n'
    for i, o in enumerate(COMP): s += f'template<class A, class B> auto c{i}(int) -> decltype(W<A>() {o} L<B>(), 0); template<class A, class B> No c{i}(long);\n'
    for i, o in enumerate(UN): s += f'template<class A> auto u{i}(int) -> D<decltype({o} L<A>())>; template<class A> No u{i}(long);\n'
    return s

def signatures(work):
    """public free functions of the tree: [(name, ret, (params))], by-value parameters only"""
    fs, _ = G.functions(G.parse(work)); out = []
    for f in fs:
        if f['kind'] != 'FunctionDecl' or f['ns'] != 'zcm' or f['name'].startswith('operator') or f['name'].startswith('make_'): continue
        ps = f['params']; 
        if not ps or f['ret'] is None or any(p[3] or (p[2] and not p[1]) for p in ps) or f['ret'][3] or f['ret'][2]: continue
        t = tuple('int' if p[0] in ('int32_t', 'std::int32_t') else p[0] for p in ps); r = 'int' if f['ret'][0] in ('int32_t', 'std::int32_t') else f['ret'][0]
        if any(x not in T for x in t + (r,)): continue
        out.append((f['name'], r, t))
    return sorted(set(out))
def snapshot():
    return [(w[0], w[1], tuple(w[2:])) for w in (l.split() for l in open(os.path.join(C.VERIF, 'lib', 'signatures.txt'))) if w]
def call_ok(sigs, t):
    """some declared overload takes these arguments (scalars convert among each other)"""
    return any(len(p) == len(t) and all(a == b or (a in S and b in S) or conv_rule(a, b) for a, b in zip(t, p)) for _, _, p in sigs)

def probes(tier):
    """-> list of (family, text, C++ expression of the code, expected set or None)"""
    P = []
    val = lambda r: None if r is ANY else {0} if r in (None, False) else {1} if r is True else {CODE[r]}
    for a in T:
        for b in T:
            if a in S and b in S: continue
            for i, o in enumerate(BIN): P.append(('binary operators', f'{a} {o} {b}', f'K<decltype(b{i}<{CXX(a)}, {CXX(b)}>(0))>::v', val(bin_rule(a, o, b))))
            if a in CLS:
                for i, o in enumerate(COMP):
                    r = comp_rule(a, o, b); P.append(('compound assignment', f'{a} {o} {b}', f'(K<decltype(c{i}<{CXX(a)}, {CXX(b)}>(0))>::v != 0)', val(r)))
            P.append(('implicit conversions', f'{b} from {a}', f'Conv<{CXX(a)}, {CXX(b)}>::v', val(conv_rule(a, b))))
            if b in CLS: P.append(('construction from one value', f'{b}({a})', f'Ctor<{CXX(b)}, {CXX(a)}>::v', val(one_rule(b, a))))
    for c in CLS:
        for w in ('double', 'int64_t'):
            P.append(('doubles and 64-bit integers', f'{c} from {w}', f'Conv<{w}, {CXX(c)}>::v', {0})); P.append(('doubles and 64-bit integers', f'{c} = {w}', f'std::is_assignable<{CXX(c)}&, {w}>::value', {0}))
            if c in V + IV: P.append(('doubles and 64-bit integers', f'{c}({w})', f'Ctor<{CXX(c)}, {w}>::v', {0}))
    for a in CLS:
        for i, o in enumerate(UN): P.append(('unary operators', f'{o}{a}', f'K<decltype(u{i}<{CXX(a)}>(0))>::v', val(un_rule(o, a))))
    for c in CLS:
        for n in (2, 3, 4):
            al = T if n == 2 else [t for t in T if t not in ('int', 'bool') or c in IV + BV] if n == 3 else ('float', 'int', 'bool', 'vec2', 'vec3', 'vec4', 'ivec2', 'bvec2', 'quat', 'mat2')
            for t in itertools.product(al, repeat=n): P.append(('component lists', f"{c}({', '.join(t)})", f"Ctor<{', '.join(CXX(x) for x in (c,) + t)}>::v", val(list_rule(c, t))))
        for t in lists(c):
            if len(t) > 4:
                P.append(('component lists', f"{c}({', '.join(t)})", f"Ctor<{', '.join(CXX(x) for x in (c,) + t)}>::v", {1}))
                for k in range(len(t) - 1): 
                    if k > 4: P.append(('component lists', f'{c}({k} floats)', f"Ctor<{', '.join([CXX(c)] + ['float'] * k)}>::v", {0}))
        for k in (5, 6, 7, 8, 10, 12, 15, 17):
            if k > lanes(c): P.append(('component lists', f'{c}({k} floats)', f"Ctor<{', '.join([CXX(c)] + ['float'] * k)}>::v", {0}))
    # functions
    snap = snapshot(); by = {}
    for s in snap: by.setdefault(s[0], []).append(s)
    pre = ''
    KT = ('float',) + CLS
    for name, sigs in sorted(by.items()):
        pre += f'template<class... A> auto f_{name}(int) -> D<decltype(zcm::{name}(L<A>()...))>; template<class... A> No f_{name}(long);\n'
        done = set()
        def call(t, want):
            if t in done: return
            done.add(t); P.append(('function calls', f"{name}({', '.join(t)})", f"K<decltype(f_{name}<{', '.join(CXX(x) for x in t)}>(0))>::v", want))
        for _, r, p in sigs: call(p, {CODE[r]})
        for n in sorted(set(len(p) for _, _, p in sigs) | {1, 2}):
            if n <= 2 or (n == 3 and tier == 'thorough'): cand = itertools.product(KT, repeat=n)
            else:
                cand = set()
                for _, _, p in sigs:
                    if len(p) != n: continue
                    for i in range(n):
                        for x in KT: cand.add(p[:i] + (x,) + p[i + 1:])
                        if tier == 'thorough' or n == 3:
                            for j in range(i):
                                for x in KT:
                                    for y in KT: q = list(p); q[i] = x; q[j] = y; cand.add(tuple(q))
                cand = sorted(cand)
            for t in cand:
                if not call_ok(sigs, t): call(t, {0})
    return pre, P

def run(pid, spec, tier, work):
    B = C.Builder(work); res = C.Result(pid, tier)
    CF = [('g++', '14', ''), ('clang++', '14', '-DZCM_DISABLE_SWIZZLE')] if tier == 'quick' else [(c, s, w) for c in ('g++', 'clang++') for s in ('11', '14', '17', '20') for w in ('', '-DZCM_DISABLE_SWIZZLE')]
    def viol(family, cfg, msg):
        if len(res.violations) < 3 and not any(v['family'] == family for v in res.violations):
            res.violations.append(dict(property=pid, config=cfg, tier=tier, family=family, index=0, mode='rerun', message=msg))
    fpre, P = probes(tier); P = [p for p in P if p[3] is not None]
    pre = os.path.join(work, 'types.hpp'); open(pre, 'w').write(prologue() + fpre)
    n = 1 + len(P) // 4000; parts = [P[i::n] for i in range(n)]; jobs = []
    for i, part in enumerate(parts):
        f = os.path.join(work, f'part{i}.cpp')
        open(f, 'w').write('#include "types.hpp"\nstatic const unsigned char r[] = {\n' + ',\n'.join('(unsigned char)(%s)' % p[2] for p in part) + '};\nint main() { for (unsigned char x : r) printf("%d\\n", x); return 0; }\n')
        for k, (cc, std, w) in enumerate(CF):
            exe = os.path.join(work, f'p{i}_{k}')
            jobs.append((B.pool.submit(C.sh, f'{cc} -std=c++{std} -w {w} -ftemplate-depth=100 -I{C.REPO}/include {f} -o {exe} && {exe}'), part, f'{cc} C++{std} {w}'.strip()))
    fam = {}
    for fu, part, cfg in jobs:
        rc, out = fu.result()
        if rc:
            e = ' '.join([l for l in out.splitlines() if 'error' in l or 'undefined' in l][:3])[:500]
            viol('build', cfg, 'a program that only names the public interface does not build: ' + e); continue
        got = [int(x) for x in out.split()]
        if len(got) != len(part): raise C.CheckError(f'{cfg}: {len(got)} answers for {len(part)} questions')
        if cfg not in res.configs: res.configs.append(cfg)
        for g, (f, text, _, want) in zip(got, part):
            d = fam.setdefault((cfg, f), [0, 0]); d[0] += 1; d[1] += g != 0
            if g not in want:
                isbool = f in ('compound assignment', 'implicit conversions', 'construction from one value', 'component lists', 'doubles and 64-bit integers')
                nm = lambda x: ('valid' if x else 'not valid') if isbool else NAME.get(x, 'another type')
                viol(f, cfg, f'{text}: {nm(g)}, should be {nm(min(want))}')
    for (cfg, f), (a, b) in sorted(fam.items()):
        res.families.append(dict(config=cfg, name=f, inputs=a, evals=a, nontrivial=b, states=0, transitions=0)); res.tot['evals'] += a; res.tot['nontrivial'] += b
    for x in P[::max(1, len(P) // 11)]:
        if len(res.samples) < 12: res.samples.append(f'{x[1]}: {NAME.get(min(x[3])) if x[0] in ("binary operators", "unary operators", "function calls") else "valid" if min(x[3]) else "not valid"}')
    return res

def replay(pid, spec, tier, work, r):
    res = run(pid, spec, tier, work)
    for v in res.violations: print('reproduced:', v['config'], v['message'])
    if not res.violations: print('does not reproduce on this tree')
    return 1 if res.violations else 0

if __name__ == '__main__':          # writes the snapshot of the declared interface (by hand)
    import tempfile, shutil
    w = tempfile.mkdtemp(); s = signatures(w); shutil.rmtree(w)
    open(os.path.join(C.VERIF, 'lib', 'signatures.txt'), 'w').write(''.join(' '.join((a, b) + c) + '\n' for a, b, c in s)); print(len(s))
