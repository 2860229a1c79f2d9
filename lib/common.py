import os, re, sys, json, subprocess, glob, struct, math, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ZCM_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
JOBS = os.cpu_count() or 8

class CheckError(Exception): pass
class InterfaceError(CheckError):
    """The library builds, but a program using its public interface no longer compiles or links."""
    def __init__(self, cfg, what): super().__init__(what); self.cfg = cfg

# library flags, harness flags, compiler
CFG = {
 'dbg':  dict(cxx='g++',     lib='-O0',                                  har='-O1'),
 'rel':  dict(cxx='g++',     lib='-O2 -DNDEBUG -DZCM_RELEASE_BUILD',     har='-O2 -DNDEBUG -DZCM_RELEASE_BUILD'),
 # what CMake makes of an empty build type: assertions, but the accessors of a release build
 'def':  dict(cxx='g++',     lib='-O0 -DZCM_RELEASE_BUILD',              har='-O1 -DZCM_RELEASE_BUILD'),
 'cdbg': dict(cxx='clang++', lib='-O0',                                  har='-O1'),
 'crel': dict(cxx='clang++', lib='-O2 -DNDEBUG -DZCM_RELEASE_BUILD',     har='-O2 -DNDEBUG -DZCM_RELEASE_BUILD'),
# swizzles disabled
 'dbgns':  dict(cxx='g++', lib='-O0 -DZCM_DISABLE_SWIZZLE', har='-O1 -DZCM_DISABLE_SWIZZLE'),
 'relns':  dict(cxx='g++', lib='-O2 -DNDEBUG -DZCM_RELEASE_BUILD -DZCM_DISABLE_SWIZZLE', har='-O2 -DNDEBUG -DZCM_RELEASE_BUILD -DZCM_DISABLE_SWIZZLE'),
 # monitors of undefined behaviour
 'asan': dict(cxx='clang++', lib='-O1 -DNDEBUG -DZCM_RELEASE_BUILD -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=shift-base,vptr -fno-sanitize-recover=all',
              har='-O1 -DNDEBUG -DZCM_RELEASE_BUILD -fno-strict-aliasing -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=shift-base,vptr -fno-sanitize-recover=all -fsanitize-ignorelist=' + os.path.join(VERIF, 'lib', 'nosan.txt'), link='-fsanitize=address,undefined'),
 'asan0': dict(cxx='clang++', lib='-O0 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=shift-base,vptr -fno-sanitize-recover=all',
              har='-O1 -fno-strict-aliasing -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=shift-base,vptr -fno-sanitize-recover=all -fsanitize-ignorelist=' + os.path.join(VERIF, 'lib', 'nosan.txt'), link='-fsanitize=address,undefined'),
 'msan': dict(cxx='clang++', lib='-O1 -DNDEBUG -DZCM_RELEASE_BUILD -fsanitize=memory -fno-sanitize-recover=all',
              har='-O1 -DNDEBUG -DZCM_RELEASE_BUILD -fno-strict-aliasing -fsanitize=memory -fno-sanitize-recover=all -fsanitize-ignorelist=' + os.path.join(VERIF, 'lib', 'nosan.txt'), link='-fsanitize=memory'),
 'san':  dict(cxx='g++',     lib='-O1 -fsanitize=address,undefined -fno-sanitize-recover=all', har='-O1 -fsanitize=address,undefined -fno-sanitize-recover=all'),
}

def lib_sources():
    try:
        t = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        m = re.search(r'add_library\(\s*zcm\s+STATIC(.*?)\)', t, re.S)
        s = [os.path.join(REPO, x) for x in re.sub(r'#.*', '', m.group(1)).split()]
        s = [x for x in s if x.endswith('.cpp')]
        if s and all(os.path.exists(x) for x in s): return s
    except Exception: pass
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))

# ------------------------------------------------------------- literal dictionary
NUM = re.compile(r'(?<![\w.])(0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)[fFuUlL]*')
def f2w(x):
    try: return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError: return None
def literals():
    vals = set()
    for f in glob.glob(os.path.join(REPO, 'src', '**', '*'), recursive=True) + glob.glob(os.path.join(REPO, 'include', '**', '*'), recursive=True):
        if not f.endswith(('.cpp', '.hpp', '.h')) or os.path.basename(f) == 'constants.cpp': continue
        t = open(f, errors='replace').read()
        t = re.sub(r'//[^\n]*', '', t); t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
        for m in NUM.finditer(t):
            s = m.group(1)
            vals.add(s.lower().rstrip('ful') if not s.lower().startswith('0x') else s.lower())
    return vals
def lit_value(s):
    if s.startswith('0x'): return float(int(s, 16)), int(s, 16)
    v = float(s); return v, (int(v) if v == int(v) and abs(v) < 2**32 else None)
def write_dict(path):
    """Values written in the sources join the input alphabets; literals that the
    tree this framework was written for does not have come with neighbours,
    squares, square roots, doubles and halves."""
    base = set(open(os.path.join(VERIF, 'lib', 'baseline_literals.txt')).read().split())
    words = []
    def add(x):
        if x is None or math.isnan(x) or math.isinf(x): return
        w = f2w(x)
        if w is None: return
        for y in (w, w ^ 0x80000000):
            if y not in words: words.append(y)
    new = sorted(literals() - base)[:40]
    for s in sorted(literals() & base):
        try: add(lit_value(s)[0])
        except Exception: pass
    for s in new:
        try: v, i = lit_value(s)
        except Exception: continue
        add(v)
        w = f2w(v)
        if w is not None and 0 < w < 0x7f7fffff:
            for y in (w + 1, w - 1):
                add(struct.unpack('<f', struct.pack('<I', y))[0])
        for x in (v * v, math.sqrt(abs(v)), 2 * v, v / 2): add(x)
        if i is not None and i < 2**32 and i > 0xffff: words.append(i)
    with open(path, 'w') as f: f.write('\n'.join('%08x' % w for w in words) + '\n')
    return dict(words=len(words), new_literals=new)

# ------------------------------------------------------------- building
class HangError(CheckError): pass     # code under test did not end

def sh(cmd, cwd=None, timeout=600, env=None, hang=False):
    """-> (status, output).  hang: the command runs code under test, which has to end"""
    p = subprocess.Popen(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.communicate()
        what = cmd if isinstance(cmd, str) else ' '.join(map(os.path.basename, map(str, cmd)))
        raise (HangError if hang else CheckError)(f'{what[:200]} did not end within {timeout} s')
    return p.returncode, out.decode(errors='replace')

class Builder:
    def __init__(self, work):
        self.work = work; self.dict = os.path.join(work, 'dict.txt'); self.dictinfo = write_dict(self.dict)
        self.skipped = {}
        self.pool = cf.ThreadPoolExecutor(JOBS)
    def lib_objects(self, cfg, extra='', pic=False):
        """-> list of futures (rc, out, obj)"""
        c = CFG[cfg]; d = os.path.join(self.work, 'lib_' + cfg); os.makedirs(d, exist_ok=True)
        fut = []
        # one translation unit per job; files are grouped so that process start-up does not dominate
        for s in lib_sources():
            o = os.path.join(d, os.path.basename(s) + '.o')
            cmd = f"{c['cxx']} -std=c++14 -w {c['lib']} {'-fPIC' if pic else ''} {extra} -I{REPO}/include -I{REPO}/src -c {s} -o {o}"
            fut.append((self.pool.submit(sh, cmd), o, s))
        return fut
    def harness(self, srcs, configs, extra='', libextra=''):
        if isinstance(srcs, str): srcs = [srcs]
        jobs = {}
        for cfg in configs:
            c = CFG[cfg]; d = os.path.join(self.work, 'h_' + cfg); os.makedirs(d, exist_ok=True)
            h = []
            for s in srcs:
                p = s if os.path.isabs(s) else os.path.join(VERIF, 'harness', s)
                o = os.path.join(d, os.path.basename(s) + '.o')
                cmd = f"{c['cxx']} -std=c++17 -w {c['har']} {extra} -I{VERIF}/harness -I{REPO}/include -c {p} -o {o}"
                h.append((self.pool.submit(sh, cmd), o, p))
            jobs[cfg] = [h]
        for cfg in configs: jobs[cfg].append(self.lib_objects(cfg, libextra))
        exes = {}
        for i, cfg in enumerate(configs):
            h, l = jobs[cfg]; bad = None
            for fu, o, s in l + h:
                rc, out = fu.result()
                if rc: bad = bad or (s, out)
            if bad:
                if not any(fu.result()[0] for fu, _, _ in l): raise InterfaceError(cfg, 'a program using the public interface does not compile: ' + ' '.join([x for x in bad[1].splitlines() if 'error' in x][:3]))
                if i == 0 or bad[0].startswith(VERIF): raise CheckError(f'{cfg}: {bad[0]} does not compile:\n{bad[1][:3000]}')
                self.skipped[cfg] = bad[0]; print(f'note: configuration {cfg} does not build ({bad[0]}); not explored'); continue
            a = os.path.join(self.work, f'libzcm_{cfg}.a')
            sh(f"ar rcs {a} " + ' '.join(o for _, o, _ in l))
            exe = os.path.join(self.work, f'harness_{cfg}')
            c = CFG[cfg]
            san = '-fsanitize=address,undefined' if cfg == 'san' else c.get('link', '')
            rc, out = sh(f"{c['cxx']} {san} -o {exe} {' '.join(o for _, o, _ in h)} {a} -lpthread -ldl")
            if rc:
                und = re.findall(r"undefined reference to `(zcm::[^']*)'", out)
                if und: raise InterfaceError(cfg, 'declared but not defined: ' + ', '.join(sorted(set(und))[:6]))
                if i == 0: raise CheckError(f'{cfg}: link failed:\n{out[-3000:]}')
                print(f'note: configuration {cfg} does not link; not explored'); self.skipped[cfg] = 'link'; continue
            exes[cfg] = exe
        return exes

def sources(spec, work):
    if spec.get('gen'): return __import__(spec['gen']).generate(work)
    return spec['src']

# ------------------------------------------------------------- results
class Result:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.tot = dict(evals=0, nontrivial=0, states=0, transitions=0, traces=0)
        self.samples, self.configs, self.violations, self.families, self.known = [], [], [], [], []
        self.notes = []; self.extra = {}

def harness_env(dictp, tier):
    e = dict(os.environ); e['ZCM_DICT'] = dictp; e['VERIF_TIER'] = tier
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:handle_abort=0'; e['MSAN_OPTIONS'] = 'abort_on_error=1:handle_abort=0:poison_in_malloc=0:poison_in_free=0'; e['UBSAN_OPTIONS'] = 'abort_on_error=1:print_stacktrace=0'
    return e

def _exec(exe, args, env, timeout):
    import signal
    p = subprocess.Popen([exe] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        out, _ = p.communicate(timeout=timeout); return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        p.send_signal(signal.SIGTERM)
        try: out, _ = p.communicate(timeout=10)
        except subprocess.TimeoutExpired: p.kill(); out, _ = p.communicate()
        return 'timeout', out.decode(errors='replace')

def run_once(exe, work, env, tier, args, timeout, tag):
    out = os.path.join(work, tag + '.json'); crash = os.path.join(work, tag + '.crash')
    for f in (out, crash):
        if os.path.exists(f): os.remove(f)
    a = ['--out', out, '--crash', crash] + (['--thorough'] if tier == 'thorough' else []) + args
    rc, txt = _exec(exe, a, env, timeout)
    j = None
    if rc in (0, 1):
        try: j = json.load(open(out))
        except Exception: j = None
    cr = []
    if os.path.exists(crash):
        for l in open(crash):
            w = l.split()
            if len(w) == 3: cr.append((w[0], int(w[1]), int(w[2])))
    return rc, txt, j, cr

def family_names(exe, tier, env):
    rc, txt = _exec(exe, ['--list'] + (['--thorough'] if tier == 'thorough' else []), env, 120)
    return [l.rsplit(' ', 1)[0] for l in txt.splitlines() if ' ' in l]

def run_harness(res, pid, cfg, exe, work, dictp, tier, spec, args=()):
    env = harness_env(dictp, tier)
    limit = spec.get('timeout', 300) if tier == 'quick' else spec.get('thorough_timeout', 6000)
    rc, txt, j, cr = run_once(exe, work, env, tier, list(args), limit, 'run_' + cfg)
    res.configs.append(cfg)
    if j is not None:
        for k, kk in (('evals',)*2, ('nontrivial',)*2, ('states',)*2, ('transitions',)*2, ('traces',)*2): res.tot[k] += j[kk]
        res.families += [dict(config=cfg, **f) for f in j['families']]
        for s in j['samples']:
            if len(res.samples) < 12: res.samples.append(f'{cfg}: {s}')
        done = set()
        for f in j['fails']:
            if f['family'] in done: continue
            done.add(f['family'])
            confirm(res, pid, cfg, exe, work, env, tier, f['family'], f['index'], f['msg'], limit)
            if len(res.violations) >= 3: break
        return
    names = family_names(exe, tier, env)
    if not cr and rc != 'timeout':
        if rc in (0, 1): raise CheckError(f'{cfg}: no result written')
        # died outside any execution under test
        raise CheckError(f'{cfg}: harness ended with {rc} outside the explored code:\n{txt[-2000:]}')
    cand = [(k, f, i) for k, f, i in cr if 0 <= f < len(names)]
    if not cand: raise CheckError(f'{cfg}: harness stopped ({rc}) outside the explored code:\n{txt[-2000:]}')
    for kind, fam, idx in cand[:16]:
        msg = ('the call did not return' if kind == 'hang' else f'the call crashed ({kind})') + ': ' + ' '.join(txt.split()[-60:])
        if confirm(res, pid, cfg, exe, work, env, tier, names[fam], idx, msg, limit, crash=True): return
    if rc == 'timeout': raise CheckError(f'{cfg}: exploration did not finish within {limit} s')
    raise CheckError(f'{cfg}: crash did not reproduce:\n{txt[-2000:]}')

def confirm(res, pid, cfg, exe, work, env, tier, fam, idx, msg, limit, crash=False):
    """Replay before report: alone, then the family in order in one thread, then as explored."""
    for mode, args, tl in (('alone', ['--only', fam, '--index', str(idx)], 60),
                           ('sequential', ['--only', fam, '--jobs', '1'], limit),
                           ('parallel', ['--only', fam], limit)):
        rc, txt, j, cr = run_once(exe, work, env, tier, args, tl, 'replay')
        bad = None
        if j is not None and j['nfails']: bad = j['fails'][0]['msg']; idx = j['fails'][0]['index']
        elif j is None and (cr or rc == 'timeout'): bad = msg
        if bad:
            r = dict(property=pid, config=cfg, tier=tier, family=fam, index=idx, mode=mode, message=bad)
            res.violations.append(r); return True
        if crash and mode == 'alone': return False
    res.notes.append(f'{cfg} {fam}[{idx}]: {msg} -- did not reproduce')
    return False

def replay_file(pid, spec, work, r):
    B = Builder(work)
    try: exes = B.harness(sources(spec, work), [r['config']], extra=spec.get('extra', ''))
    except InterfaceError as e: print('reproduced:', e); return 1
    if r['mode'] == 'build': print('does not reproduce on this tree'); return 0
    env = harness_env(B.dict, r['tier']); exe = exes[r['config']]
    a = ['--only', r['family']] + (['--index', str(r['index'])] if r['mode'] == 'alone' else ['--jobs', '1'] if r['mode'] == 'sequential' else [])
    rc, txt, j, cr = run_once(exe, work, env, r['tier'], a, 600, 'replay')
    if j is None or j['nfails']:
        print('reproduced:', json.dumps(j['fails'], indent=1) if j else txt[-2000:]); return 1
    print('does not reproduce on this tree'); return 0

def known_findings(pid):
    out = []
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == pid: out.append((m.group(2), m.group(3).strip()))
    return out

def finish(res, pid, spec, tier, wall):
    os.makedirs(EVID, exist_ok=True)
    lines = []
    for i, v in enumerate(res.violations):
        d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f'{pid}-{i}.json')
        v.setdefault('replay_cmd', f'python3 /verif/run.py --replay {p}')
        json.dump(v, open(p, 'w'), indent=1)
        lines.append((p, v))
    level = spec['level']
    t = res.tot
    cov = dict(configurations=res.configs, families=len(res.families), samples=res.samples[:12] or ['(none)'], exhaustive=not res.violations)
    if level == 'model_checking':
        cov.update(states=t['states'], transitions=t['transitions'], traces_validated_against_impl=t['traces'], comparisons=t['evals'])
    else:
        cov.update(evaluations=t['evals'], distinct_nontrivial=t['nontrivial'], rule=spec['rule'])
        if t['states']: cov.update(states=t['states'], transitions=t['transitions'])
    cov['bounds'] = spec.get('bounds', '')
    cov['per_family'] = [dict(config=f['config'], family=f['name'], inputs=f['inputs'], evals=f['evals'], nontrivial=f['nontrivial'], states=f['states'], transitions=f['transitions']) for f in res.families][:400]
    cov.update(res.extra)
    if res.notes: cov['notes'] = res.notes
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=len(res.violations))
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for k in res.known: print(f'KNOWN-FINDING: property={pid} {k}')
    for n in res.notes: print('note:', n)
    for p, v in lines:
        print(f"VIOLATION property={pid} replay={p}")
        print(f"  {v.get('config','')} {v.get('family','')}[{v.get('index','')}]: {v['message'][:600]}")
    if not lines: print(f"{pid} held: {t['evals']} comparisons, {t['states']} states, {t['transitions']} transitions, configurations {','.join(res.configs)}, {wall:.1f}s")
    return 1 if lines else 0
