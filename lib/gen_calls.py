"""Derives, from clang's AST of the public headers, one call thunk per declared
function, method and constructor of namespace zcm (and std::hash of its types)."""
import json, os, re, subprocess, glob
import common as C

VEC = {'bool': ('b', 1), 'int': ('i', 1), 'unsigned int': ('u', 1), 'float': ('f', 1), 'size_t': ('z', 1), 'unsigned long': ('z', 1), 'std::size_t': ('z', 1),
       'int32_t': ('i', 1), 'std::int32_t': ('i', 1)}
for n in (2, 3, 4):
    VEC[f'vec{n}'] = ('f', n); VEC[f'ivec{n}'] = ('i', n); VEC[f'bvec{n}'] = ('b', n); VEC[f'mat{n}'] = ('f', n * n)
VEC['quat'] = ('f', 4)
CLASSES = {k for k in VEC if re.match(r'(i?b?vec|mat)\d|quat', k)}
CXX = lambda t: ('zcm::' + t) if t in CLASSES else t

def headers(): return sorted(os.path.relpath(f, os.path.join(C.REPO, 'include')) for f in glob.glob(os.path.join(C.REPO, 'include', 'zcm', '*.hpp')))

def parse(work, defs='-DZCM_DISABLE_SWIZZLE', std='14'):
    src = os.path.join(work, f'all_headers{abs(hash((defs, std)))}.cpp')
    open(src, 'w').write(''.join(f'#include <{h}>\n' for h in headers()))
    p = subprocess.run(f'clang++ -std=c++{std} -w {defs} -I{C.REPO}/include -Xclang -ast-dump=json -Xclang -ast-dump-filter=zcm -fsyntax-only {src}', shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode: raise C.InterfaceError('all', 'the public headers do not compile together: ' + ' '.join([l for l in p.stderr.decode().splitlines() if 'error' in l][:2]))
    t = p.stdout.decode(); d = json.JSONDecoder(); i = 0; docs = []
    while True:
        i = t.find('{', i)
        if i < 0: break
        o, i = d.raw_decode(t, i); docs.append(o)
    return docs

def norm(t):
    """qualType -> (base, const, ref, ptr) or None"""
    m = re.match(r'^(const )?((?:std::)?[\w: ]+?)( const)?\s*(&|\*)?$', t.strip())
    if not m: return None
    b = m.group(2).strip()
    if b.startswith('zcm::'): b = b[5:]
    if b not in VEC: return None
    return b, bool(m.group(1) or m.group(3)), m.group(4) == '&', m.group(4) == '*'

def functions(docs):
    """-> list of dict(key, kind, cls, name, ret, params, const, mangled, inline), and the names passed over"""
    out, skipped, seen = [], [], set()
    def visit(n, cls, ns=()):
        k = n.get('kind')
        if k == 'LinkageSpecDecl':
            for c in n.get('inner', []): visit(c, cls, ns)
        elif k == 'NamespaceDecl':
            if ns and re.match(r'detail|impl|internal|priv', n.get('name') or ''): return     # not public
            for c in n.get('inner', []): visit(c, cls, ns + (() if n.get('isInline') else (n.get('name'),)))
        elif k == 'CXXRecordDecl' and n.get('name') in CLASSES and cls is None and ns == ('zcm',):
            public = n.get('tagUsed') != 'class'
            for c in n.get('inner', []):
                if c.get('kind') == 'AccessSpecDecl': public = c.get('access', 'public') == 'public'
                elif public: visit(c, n['name'], ns)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'):
            conv = k == 'CXXConversionDecl'
            if conv: k = 'CXXMethodDecl'
            if None in ns or n.get('isImplicit') or n.get('explicitlyDeleted') or n.get('explicitlyDefaulted'): return
            if k != 'FunctionDecl' and cls is None: return     # out-of-class definition
            ps = [p for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']
            q = n['type'].get('desugaredQualType') or n['type']['qualType']
            q0 = n['type']['qualType']
            ret = q0.split('(')[0].strip() if k != 'CXXConstructorDecl' else cls
            types = [norm(p['type'].get('desugaredQualType') or p['type']['qualType']) or norm(p['type']['qualType']) for p in ps]
            name = n['name']
            if conv and norm(ret): name = 'operator ' + CXX(norm(ret)[0])
            key = f"{cls + '::' if cls else ''}{name}({', '.join(p['type']['qualType'] for p in ps)})" + (' const' if k == 'CXXMethodDecl' and re.search(r'\)\s*const', q0) else '')
            key = key.replace('zcm::', '')
            if ns[1:]: key = '::'.join(ns[1:]) + '::' + key
            if key in seen: return
            seen.add(key)
            if PUBLIC and f"{cls + '::' if cls else ''}{n['name']}" not in PUBLIC: skipped.append(key); return     # a helper added later: exercised through its callers
            if 'no_init_t' in q0: return
            isvoid = ret == 'void'
            rt = None if isvoid else (norm(ret) if k != 'CXXConstructorDecl' else (cls, False, False, False))
            if k == 'CXXMethodDecl' and name == 'operator=' : pass
            if any(t is None for t in types) or (rt is None and not isvoid): skipped.append(key); return
            out.append(dict(key=key, ns='::'.join(ns), kind=k, cls=cls, name=name, ret=rt, params=types, const=key.endswith(' const'), static=n.get('storageClass') == 'static', mangled=n.get('mangledName', ''),
                            inline=bool(n.get('inline') or n.get('constexpr') or any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])))))
    for dcl in docs:
        if dcl.get('kind') == 'NamespaceDecl' and dcl.get('name') == 'zcm': visit(dcl, None)
    return out, skipped

# type codes shared with harness/p31.cpp: kind, lanes
def code(t): k, n = VEC[t]; return "{'%s',%d}" % (k, n)

def arrlen(f):
    """lanes behind a const pointer parameter: what the function makes of them"""
    r = f['ret'][0] if f['ret'] else f['cls']
    return VEC[r][1] if r in VEC else 16

_p = os.path.join(C.VERIF, 'lib', 'public_names.txt')
PUBLIC = set(open(_p).read().splitlines()) if os.path.exists(_p) else set()     # names of the interface (python3 lib/gen_calls.py rewrites it)
dropped = []     # functions no thunk can be written for
def emit(fns, defined=None):
    """-> (body lines, table lines).  Only functions that are inline or defined in the library."""
    body, table, missing = [], [], []; dropped.clear()
    for f in fns:
        if defined is not None and not f['inline'] and f['mangled'] not in defined: missing.append(f); continue
        args, tys, refs, pre, al, n = [], [], [], [], [], 0
        idxmod = 0
        method = f['kind'] == 'CXXMethodDecl' and not f['static']
        obj = None
        if method:
            T = CXX(f['cls'])
            if f['const']: obj = f'(*(const {T}*)a[{n}])'
            else: pre.append(f'{T}& self = *new (o + 64) {T}(*(const {T}*)a[{n}]);'); obj = 'self'
            tys.append(code(f['cls'])); al.append(f'alignof({T})'); n += 1
            if not f['const']: refs.append(code(f['cls']))
        nref = 0
        for b, const, ref, ptr in f['params']:
            T = CXX(b); al.append(f'alignof({T})' + (' | 128' if ref and not const else ''))
            if ptr and const: args.append(f'(const {T}*)a[{n}]'); tys.append("{'%s',%d}" % (VEC[b][0].upper(), arrlen(f)))
            elif ptr: args = None; break
            elif ref and not const:
                off = 64 + 64 * nref + (64 if method and not f['const'] else 0); nref += 1
                pre.append(f'{T}& r{n} = *new (o + {off}) {T}(*(const {T}*)a[{n}]);'); args.append(f'r{n}'); tys.append(code(b)); refs.append(code(b))
            else: args.append(f'*(const {T}*)a[{n}]'); tys.append(code(b))
            n += 1
        if args is None or n > 18 or len(refs) > 3: dropped.append(f['key']); continue
        if f['name'] == 'operator[]': idxmod = {'mat2': 2, 'mat3': 3, 'mat4': 4}.get(f['cls']) or VEC[f['cls']][1]
        A = ', '.join(args)
        if f['kind'] == 'CXXConstructorDecl': call = f'{CXX(f["cls"])}({A})' if args else f'{CXX(f["cls"])}()'
        elif f['kind'] == 'CXXMethodDecl' and f['static']: call = f'{CXX(f["cls"])}::{f["name"]}({A})'
        elif method: call = f'{obj}.{f["name"]}({A})'
        else: call = f'{f["ns"]}::{f["name"]}({A})'
        i = len(table)
        if f['ret'] is None: stmt = call + ';'
        elif f['ret'][3]:
            # pointer into the argument: its position
            base = 'r0' if nref else '*(const char*)a[0]'
            stmt = f'*(long*)o = (const char*)({call}) - (const char*)&{base};'
        elif f['kind'] == 'CXXConstructorDecl': stmt = f'new (o) {call};' if A else f'new (o) {CXX(f["cls"])}();'
        else: stmt = f'new (o) {CXX(f["ret"][0])}({call});'
        rl = 'z' if f['ret'] and f['ret'][3] else None
        outk = "{'z',1}" if rl else (code(f['ret'][0]) if f['ret'] else "{'v',0}")
        body.append(f'static void t{i}(const void* const* a, char* o) {{ {" ".join(pre)} {stmt} }}')
        table.append(f'  {{t{i}, "{f["key"]}", {n}, {{{", ".join(tys) or "{0,0}"}}}, {outk}, {idxmod}, {len(refs)}, {{{", ".join(refs) or "{0,0}"}}}, {{{", ".join(al) or "0"}}}}},')
    return body, table, missing

def std_hash():
    b, t = [], []
    for c in sorted(CLASSES):
        b.append(f'static void h{len(t)}(const void* const* a, char* o) {{ *(size_t*)o = std::hash<zcm::{c}>()(*(const zcm::{c}*)a[0]); }}')
        t.append(f'  {{h{len(t)}, "std::hash<{c}>", 1, {{{code(c)}}}, {{\'z\',1}}, 0, 0, {{{{0,0}}}}, {{alignof(zcm::{c})}}}},')
    return b, t

def write(work, fns, defined, parts=6):
    """-> (list of source files, number of thunks, functions without a definition)"""
    body, table, missing = emit(fns, defined)
    inc = ''.join(f'#include <{h}>\n' for h in headers()) + '#include <new>\n#include <cstddef>\n#include "calls.hpp"\n'
    hb, ht = std_hash()
    files = []; step = (len(body) + parts - 1) // parts
    for p in range(parts):
        fn = os.path.join(work, f'calls{p}.cpp'); sl = slice(p * step, (p + 1) * step)
        b, t = body[sl], table[sl]
        if p == parts - 1: b, t = b + hb, t + ht
        open(fn, 'w').write(inc + '\n'.join(b) + f'\nextern const Call tab{p}[] = {{\n' + '\n'.join(t) + f'\n}};\nextern const unsigned n{p} = {len(t)};\n'); files.append(fn)
    fn = os.path.join(work, 'calls_main.cpp')
    open(fn, 'w').write('#include "calls.hpp"\n#include "calls_main.inc"\n' + ''.join(f'extern const Call tab{p}[]; extern const unsigned n{p};\n' for p in range(parts)) +
        'extern "C" unsigned zcm_calls(const Call** tabs, unsigned* ns) {\n' + ''.join(f'  tabs[{p}] = tab{p}; ns[{p}] = n{p};\n' for p in range(parts)) + f'  return {parts};\n}}\n')
    files.append(fn)
    return files, len(table) + len(ht), missing

if __name__ == '__main__':
    import tempfile
    PUBLIC = set(); names = set()
    with tempfile.TemporaryDirectory() as w:
        for d in ('-DZCM_DISABLE_SWIZZLE', ''):
            fs, sk = functions(parse(w, d))
            names |= {f"{f['cls'] + '::' if f['cls'] else ''}{f['name']}" for f in fs} | {k.split('(')[0] if not k.startswith('operator()') else 'operator()' for k in sk}
    open(_p, 'w').write('\n'.join(sorted(names)) + '\n'); print(len(names))
