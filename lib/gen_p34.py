"""Expressions that mean the same in zcm and in GLM (lib/glm_shared.txt: one call shape per line, written
against zcm's interface when it was shared with GLM 0.9.9.8).  Each becomes two thunks: the expression on
zcm types, and on GLM's double-precision types."""
import os, re
import common as C
K = {'float': ('f', 1), 'bool': ('b', 1), 'int': ('i', 1), 'int32_t': ('i', 1), 'uint': ('u', 1), 'quat': ('q', 4)}
for n in (2, 3, 4): K[f'vec{n}'] = ('v', n); K[f'ivec{n}'] = ('i', n); K[f'bvec{n}'] = ('b', n); K[f'mat{n}'] = ('m', n * n)
def zt(t): return {'int32_t': 'int', 'uint': 'unsigned'}.get(t, t if t in ('float', 'bool', 'int') else 'zcm::' + t)
def gt(t):
    if t in ('bool', 'int', 'int32_t', 'uint'): return zt(t)
    if t == 'float': return 'double'
    return 'glm::' + ('d' if t[0] in 'vmq' else '') + t
def shapes():
    for l in open(os.path.join(C.VERIF, 'lib', 'glm_shared.txt')):
        w = [x.strip() for x in l.split(';')]
        if len(w) >= 3: yield w[0], w[1].split(), w[2], len(w) > 3
def generate(work, parts=8):
    S = list(shapes()); files = []
    per = (len(S) + parts - 1) // parts
    for p in range(parts):
        z, g, t = [], [], []
        for k, (e, args, ret, obj) in list(enumerate(S))[p * per:(p + 1) * per]:
            dz = ''.join(f'{"" if obj and j == 0 else "const "}{zt(a)} a{j} = in<{zt(a)}>(l); ' for j, a in enumerate(args))
            dg = ''.join(f'{"" if obj and j == 0 else "const "}{gt(a)} a{j} = gin<{gt(a)}>(l); ' for j, a in enumerate(args))
            ex = re.sub(r'\$(\d+)', r'a\1', e)
            ez = re.sub(r'@(\w+)', lambda m: zt(m.group(1)), ex).replace('#', 'zcm::'); eg = re.sub(r'@(\w+)', lambda m: gt(m.group(1)), ex).replace('#', 'glm::')
            if obj: ez += '; out(a0, o)'; eg += '; gout(a0, o)'
            else: ez = f'const {zt(ret)} r = {ez}; out(r, o)'; eg = f'const {gt(ret)} r = {eg}; gout(r, o)'
            z.append(f'static void z{k}(const float* l, double* o) {{ {dz}{ez}; }}'); g.append(f'static void g{k}(const double* l, double* o) {{ {dg}{eg}; }}')
            nm = re.sub(r'\$(\d+)', lambda m: args[int(m.group(1))], e).replace('@', '').replace('#', '')
            kinds = ','.join("{'%s',%d}" % K[a] for a in args)
            fz = f'z{k}'
            t.append((k, f'{{z{k}, g{k}, "{nm}", {len(args)}, {{{kinds}}}, {{\'{K[ret][0]}\',{K[ret][1]}}}}}'))
        hz = ''.join(f'#include <{h}>\n' for h in __import__('gen_calls').headers())
        fz = os.path.join(work, f'p34z{p}.cpp'); fg = os.path.join(work, f'p34g{p}.cpp')
        ext = lambda c, T: ''.join(f'void {c}{k}_(const {T}* l, double* o) {{ {c}{k}(l, o); }}\n' for k, _ in t)
        open(fz, 'w').write(hz + '#include "p34_io.hpp"\n' + '\n'.join(z) + '\n' + ext('z', 'float'))
        open(fg, 'w').write('#undef NDEBUG\n#define NDEBUG\n#define GLM_ENABLE_EXPERIMENTAL\n#include <glm/glm.hpp>\n#include <glm/ext.hpp>\n#include <glm/gtc/constants.hpp>\n#include <glm/gtc/color_space.hpp>\n#include <glm/gtx/norm.hpp>\n#include <glm/gtx/component_wise.hpp>\n#include <glm/gtx/quaternion.hpp>\n#define P34_GLM\n#include "p34_io.hpp"\n' + '\n'.join(g) + '\n' + ext('g', 'double'))
        ft = os.path.join(work, f'p34t{p}.cpp')
        open(ft, 'w').write('#include "p34.hpp"\n' + ''.join(f'void z{k}_(const float*, double*); void g{k}_(const double*, double*);\n' for k, _ in t) + f'extern const Shape tab{p}[] = {{\n' + ',\n'.join(re.sub(r'^\{z(\d+), g(\d+)', r'{z\1_, g\2_', x) for _, x in t) + f'}};\nextern const unsigned n{p} = {len(t)};\n')
        files += [fz, fg, ft]
    fm = os.path.join(work, 'p34tabs.cpp')
    open(fm, 'w').write('#include "p34.hpp"\n' + ''.join(f'extern const Shape tab{p}[]; extern const unsigned n{p};\n' for p in range(parts)) + 'std::vector<Shape> shapes() { std::vector<Shape> r; ' + ' '.join(f'r.insert(r.end(), tab{p}, tab{p} + n{p});' for p in range(parts)) + ' return r; }\n')
    return files + [fm, os.path.join(C.VERIF, 'harness', 'p34.cpp')]
