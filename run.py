#!/usr/bin/env python3
"""Entry point of every check:  run.py <property> [--tier quick|thorough]
                                 run.py --replay <file>
Builds zcm from /repo's current working tree, in a scratch directory, in several
configurations; links the exhaustive-exploration harness of the property against
each build; runs it; confirms every mismatch by replaying it alone; writes
evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1: a line
VIOLATION property=<id> replay=<path>.  Any other exit: the check itself failed."""
import sys, os, json, time, subprocess, tempfile, shutil, argparse, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import common as C
from props import PROPS

def generic(pid, spec, tier, work):
    """Exploration harness(es) in harness/<src>, one executable per configuration."""
    configs = spec['configs'] if tier == 'quick' else spec.get('thorough_configs', spec['configs'])
    B = C.Builder(work)
    res = C.Result(pid, tier)
    try: exes = B.harness(C.sources(spec, work), configs, extra=spec.get('extra', ''))
    except C.InterfaceError as e:
        res.violations.append(dict(property=pid, config=e.cfg, tier=tier, family='build', index=0, mode='build', message=str(e))); return res
    err = None; t0 = time.time()
    for cfg, exe in exes.items():
        try: C.run_harness(res, pid, cfg, exe, work, B.dict, tier, spec)
        except C.CheckError as e: err = err or e
        if time.time() - t0 > 300 and (err or res.violations): break      # calls that hang in every configuration
    if err and not res.violations: raise err
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--tier'); ap.add_argument('--replay')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    only = None
    if a.replay:
        only = json.load(open(a.replay)); a.prop = only['property']; tier = only.get('tier', tier)
    pid = a.prop; spec = PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='zcmv_', dir='/tmp')
    try:
        if spec.get('module'):
            mod = __import__(spec['module'])
            if only:
                try: return mod.replay(pid, spec, tier, work, only)
                except C.HangError as e: print('reproduced:', e); return 1
            try: res = mod.run(pid, spec, tier, work)
            except C.HangError as e:
                res = C.Result(pid, tier); res.violations.append(dict(property=pid, config='', tier=tier, family='hang', index=0, mode='rerun', message=str(e)))
        else:
            if only: return C.replay_file(pid, spec, work, only)
            res = generic(pid, spec, tier, work)
        return C.finish(res, pid, spec, tier, time.time() - t0)
    except C.CheckError as e:
        print('CHECK-ERROR', e, file=sys.stderr); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
