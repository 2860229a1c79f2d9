"""Writes the harness of P06: one reader per component name and swizzle of every vector type."""
import itertools, os
def generate(work):
    sets = ['xyzw', 'rgba', 'stpq']
    files = []
    parts = []     # (type, length) per translation unit
    for T, n, S in (('vec2', 2, 'float'), ('vec3', 3, 'float'), ('vec4', 4, 'float'), ('ivec2', 2, 'int32_t'), ('ivec3', 3, 'int32_t'), ('ivec4', 4, 'int32_t')):
        for L in range(1, n + 1):
            R = S if L == 1 else 'zcm::' + ('i' if S == 'int32_t' else '') + f'vec{L}'
            combos = list(itertools.product(range(n), repeat=L))
            o = ['#include "p06.hpp"']
            if L > 1: o.append('#ifndef ZCM_DISABLE_SWIZZLE')
            o.append('namespace {')
            names = []
            for st in sets:
                for cb in combos:
                    nm = ''.join(st[i] for i in cb); names.append((nm, cb)); o.append(f'P06_READ(zcm::{T}, {nm}, {R})')
            o.append('}')
            o.append(f'void reg_{T}_{L}() {{ static const Name<zcm::{T}, {R}> t[] = {{')
            for nm, cb in names:
                uniq = len(set(cb)) == len(cb)
                ix = list(cb) + [0] * (4 - len(cb))
                o.append(f' {{"{nm}", {{{",".join(map(str, ix))}}}, &rd_{nm}<zcm::{T}>, {"&as_" + nm + "<zcm::" + T + ">" if uniq else "nullptr"}}},')
            o.append(f' }}; readers<zcm::{T}, {R}, {L}>("{T}", t, sizeof t / sizeof *t); }}')
            if L > 1: o += ['#else', f'void reg_{T}_{L}() {{}}', '#endif']
            p = os.path.join(work, f'p06_{T}_{L}.cpp'); open(p, 'w').write('\n'.join(o) + '\n'); files.append(p); parts.append((T, L))
        # writers
        o = ['#include "p06.hpp"', 'namespace {']
        names = [(st[i], i) for st in sets for i in range(n)]
        for nm, i in names: o.append(f'P06_WRITE(zcm::{T}, {nm}, {S})')
        o.append('}')
        o.append(f'void reg_{T}_w() {{ static const Writer<zcm::{T}> t[] = {{')
        for nm, i in names: o.append(f' {{"{nm}", {i}, &wr_{nm}<zcm::{T}>}},')
        o.append(f' }}; writers<zcm::{T}>("{T}", t, sizeof t / sizeof *t);')
        o.append(f' static const Cross<zcm::{T}> x[] = {{')
        for a, i in names:
            for b, j in names: o.append(f' {{"{a}", "{b}", {i}, {j}, [](zcm::{T}& v, const zcm::{T}& u) {{ cross_(v.{a}, u.{b}, 0); }}}},')
        o.append(f' }}; crosses<zcm::{T}>("{T}", x, sizeof x / sizeof *x); }}')
        p = os.path.join(work, f'p06_{T}_w.cpp'); open(p, 'w').write('\n'.join(o) + '\n'); files.append(p); parts.append((T, 'w'))
    m = ['#include "p06.hpp"'] + [f'void reg_{T}_{L}();' for T, L in parts] + ['void registerFamilies() {'] + [f' reg_{T}_{L}();' for T, L in parts] + [' indexing<zcm::vec2>(); indexing<zcm::vec3>(); indexing<zcm::vec4>(); indexing<zcm::ivec2>(); indexing<zcm::ivec3>(); indexing<zcm::ivec4>(); }']
    p = os.path.join(work, 'p06_main.cpp'); open(p, 'w').write('#define MC_MAIN\n' + '\n'.join(m) + '\n'); files.append(p)
    return files
