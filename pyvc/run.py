"""Runner: python -m pyvc.run <property id> [--only GOAL] [--verbose] [--no-concrete|--no-symbolic]
Generates and discharges the obligations of one property from /repo's current source, runs the bounded conformance
trials, replays counter-models, writes the evidence file and reports."""
from __future__ import annotations
import sys
import os
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import argparse
import importlib
import json
import multiprocessing as mp
import random
import re
import resource
import tempfile
import time
import traceback

LEVEL = 'proof'


def collect(mod):
    return [f.pyvc_goal for f in vars(mod).values() if hasattr(f, 'pyvc_goal')]


def case_str(c):
    import enum
    def one(x):
        if isinstance(x, enum.Enum):
            return x.name
        if isinstance(x, type) or callable(x):
            return getattr(x, '__name__', repr(x))
        if isinstance(x, (tuple, list)):
            return '(' + ', '.join(one(y) for y in x) + ')'
        return str(x)
    return '' if c is None else one(c)[:90]


def seed_of(*parts):
    return random.Random('/'.join(str(p) for p in parts)).randrange(2 ** 60)


# -- jobs (each in its own process) ------------------------------------------------------------------

def job_symbolic(modname, gi, ci, budget, prover_ms):
    import gc
    from pyvc import harness as H
    # terms are looked up by their number, so no term's number may be given to another term while this process lives
    import z3
    for cls in (z3.AstRef, z3.FuncDeclRef, z3.SortRef, z3.ExprRef):
        if '__del__' in vars(cls):
            cls.__del__ = lambda self: None
    gc.freeze()
    mod = importlib.import_module(modname)
    g = collect(mod)[gi]
    common = importlib.import_module('contracts.common')
    contracts = common.table(g.uses)
    if g.setup:
        g.setup()
    rep = H.run_symbolic(g, g.cases[ci], contracts, budget, prover_ms)
    out = dict(rep)
    out['obls'] = [dict(name=o.name, ok=o.ok, backend=o.backend, time=round(o.time, 3), detail=str(o.detail)[:300],
                        model=o.model, sat=o.sat, abstract=o.abstract[:4]) for o in rep['obls']]
    return out


def job_concrete(modname, gi, ci, seed, n, budget, models):
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    from pyvc import harness as H
    mod = importlib.import_module(modname)
    g = collect(mod)[gi]
    t0 = time.time()
    done = tried = vac = 0
    absent = ''
    fails = []
    for mi, m in enumerate(models):
        for j in range(12):
            s = seed_of(seed, g.name, ci, 'model', mi, j)
            np.random.seed(s % 2 ** 32)
            out, msg, log = H.run_concrete(g, g.cases[ci], s, m)
            if out == 'fail':
                fails.append(dict(seed=s, model=m, message=msg, log=[[a, str(b)[:400]] for a, b in log]))
                break
        if fails:
            break
    while not fails and done < n and tried < 40 * n and (time.time() - t0 < budget or tried < 3):
        s = seed_of(seed, g.name, ci, tried)
        np.random.seed(s % 2 ** 32)
        tried += 1
        out, msg, log = H.run_concrete(g, g.cases[ci], s, None)
        if out == 'ok':
            done += 1
        elif out == 'vacuous':
            vac += 1
        elif out == 'absent':
            absent = msg
            break
        elif out == 'fail':
            fails.append(dict(seed=s, model=None, message=msg, log=[[a, str(b)[:400]] for a, b in log]))
    return dict(done=done, tried=tried, vacuous=vac, absent=absent, fails=fails, time=time.time() - t0)


def _child(conn, fn, args):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        conn.send(('ok', fn(*args)))
    except MemoryError:
        conn.send(('err', 'memory'))
    except BaseException as e:
        conn.send(('err', f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}'))
    finally:
        conn.close()
        os._exit(0)


def run_jobs(jobs, workers=8, progress=None, until=None):
    """jobs: list of (key, fn, args, timeout); yields results as dict key -> ('ok', r) | ('err', msg) | ('timeout', None)"""
    ctx = mp.get_context('fork')
    pending = list(jobs)[::-1]
    live = []
    res = {}
    while pending or live:
        while pending and len(live) < workers:
            if until and time.time() > until:
                res[pending.pop()[0]] = ('timeout', None)
                continue
            key, fn, args, tmo = pending.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, fn, args), daemon=True)
            p.start()
            b.close()
            live.append((key, p, a, time.time() + tmo))
        nxt = []
        for key, p, a, dl in live:
            got = None
            try:
                if a.poll(0):
                    got = a.recv()
            except (EOFError, OSError):
                got = ('err', 'worker ended without a result')
            if got is None and (time.time() > dl or until and time.time() > until):
                got = ('timeout', None)
            if got is None:
                nxt.append((key, p, a, dl))
                continue
            res[key] = got
            if progress:
                progress(key, got)
            p.kill() if got[0] == 'timeout' else p.join(2)
            if p.is_alive():
                p.kill()
            p.join()
            a.close()
        live = nxt
        time.sleep(0.01)
    return res


# -- known findings ----------------------------------------------------------------------------------

def known_findings(pid):
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) goal=(\S+) case=(\S*) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--only')
    ap.add_argument('--case', type=int)
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--no-concrete', action='store_true')
    ap.add_argument('--no-symbolic', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop.upper()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tmp = tempfile.mkdtemp(prefix='pyvc_')
    os.environ['MPLCONFIGDIR'] = tmp
    try:
        return check(a, pid, tier, seed, t0)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def check(a, pid, tier, seed, t0):
    modname = 'contracts.' + pid.lower()
    try:
        mod = importlib.import_module(modname)
    except Exception as e:
        # the code cannot even be imported the way its users import it
        print(f'check error: cannot load {modname}: {type(e).__name__}: {e}')
        traceback.print_exc()
        return 2
    goals = collect(mod)
    thorough = tier == 'thorough'
    prover_ms = 20000 if thorough else 8000
    sel = [(gi, ci) for gi, g in enumerate(goals) for ci in range(len(g.cases))
           if (not a.only or a.only == g.name) and (a.case is None or a.case == ci)]
    jobs = []
    for gi, ci in sel:
        g = goals[gi]
        if g.symbolic and not a.no_symbolic:
            b = g.timeout_s * (3 if thorough else 1)
            jobs.append((('S', gi, ci), job_symbolic, (modname, gi, ci, b, prover_ms), b * 1.5 + 30))
    for gi, ci in sel:
        g = goals[gi]
        if g.concrete and not a.no_concrete:
            n = g.n * (15 if thorough else 1)
            b = 200 if thorough else 25
            jobs.append((('C', gi, ci), job_concrete, (modname, gi, ci, seed, n, b, []), b * 2 + 30))
    jobs.sort(key=lambda j: -(goals[j[0][1]].weight * (2 if j[0][0] == 'S' else 1)))

    def progress(key, got):
        if a.verbose:
            g = goals[key[1]]
            nm = f'{key[0]} {g.name}[{case_str(g.cases[key[2]])}]'
            if got[0] != 'ok':
                print(nm, got[0].upper(), str(got[1])[:1500], flush=True)
            elif key[0] == 'S':
                r = got[1]
                print(f'{nm} {r["status"]} paths={r["paths"]} dead={r["dead"]} obls={len(r["obls"])} '
                      f'ok={sum(o["ok"] for o in r["obls"])} t={r["time"]:.1f}', flush=True)
                for n in r['notes'][:4]:
                    print('    note', n)
                for o in r['obls']:
                    if not o['ok']:
                        print('    FAILED', o['name'], o['detail'], 'sat' if o['sat'] else '', o['model'], o['abstract'])
            else:
                r = got[1]
                print(f'{nm} done={r["done"]} tried={r["tried"]} vac={r["vacuous"]} t={r["time"]:.1f}', flush=True)
                for f in r['fails']:
                    print('    FAIL', f['message'], f['log'], f['seed'])
    until = None if thorough else t0 + 560
    res = run_jobs(jobs, 8, progress, until)
    # obligations the solvers left open get a second, longer attempt
    again = []
    for key, got in res.items():
        if key[0] == 'S' and got[0] == 'ok':
            bad = [o for o in got[1]['obls'] if not o['ok']]
            cres = res.get(('C',) + key[1:])
            if bad and not any(o['sat'] and not o['abstract'] for o in bad) and not (cres and cres[0] == 'ok' and cres[1]['fails']):
                b = goals[key[1]].timeout_s * 2
                again.append((key, job_symbolic, (modname, key[1], key[2], b, prover_ms * 3), b * 1.5 + 30))
    if again and time.time() - t0 < 300:
        for k, got in run_jobs(again, 8, progress, until).items():
            if got[0] == 'ok':
                res[k] = got
    # replay of the counter-models and a search for a failing input behind refused obligations
    replay_jobs, refused = [], {}
    for key, got in res.items():
        if key[0] == 'S' and got[0] == 'ok':
            bad = [o for o in got[1]['obls'] if not o['ok']]
            if bad:
                refused[key[1:]] = bad
                cres = res.get(('C',) + key[1:])
                if not (cres and cres[0] == 'ok' and cres[1]['fails']) and not a.no_concrete:
                    models = [o['model'] for o in bad if o['model']][:8]
                    replay_jobs.append((('R',) + key[1:], job_concrete,
                                        (modname, key[1], key[2], f'{seed}r', goals[key[1]].n * 4, 40, models), 120))
    if replay_jobs:
        res.update(run_jobs(replay_jobs, 8, progress))
    return report(a, pid, tier, seed, t0, mod, goals, sel, res, refused)


def report(a, pid, tier, seed, t0, mod, goals, sel, res, refused):
    known = known_findings(pid)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    violations, kf, errors = [], [], []
    obligations = discharged = trials = 0
    bounded_obls = [0, 0]
    backends, functions, contracts = {}, {}, {}
    solver_s = queries = 0
    per_goal = []
    bounded = []
    for gi, ci in sel:
        g = goals[gi]
        case = case_str(g.cases[ci])
        gid = g.name + (f'[{case}]' if case else '')
        s, c, r = res.get(('S', gi, ci)), res.get(('C', gi, ci)), res.get(('R', gi, ci))
        fails = []
        for x in (c, r):
            if x and x[0] == 'ok':
                trials += x[1]['done']
                fails += x[1]['fails']
                if x is c and not x[1]['fails'] and x[1]['done'] == 0 and not x[1]['absent']:
                    errors.append(f'{gid}: no concrete trial satisfied the preconditions (vacuous)')
            elif x and x[0] == 'err':
                errors.append(f'{gid}: concrete run: {x[1][:500]}')
        ok = True
        row = {'goal': gid}
        if s is not None:
            if s[0] == 'ok':
                rep = s[1]
                good = [o for o in rep['obls'] if o['ok']]
                if g.bounded:       # holds for structures up to the stated size only: never counted as proved
                    bounded_obls[0] += len(rep['obls'])
                    bounded_obls[1] += len(good)
                    row['bound'] = g.bounded
                else:
                    obligations += len(rep['obls'])
                    discharged += len(good)
                for o in good:
                    backends[o['backend']] = backends.get(o['backend'], 0) + 1
                solver_s += rep['solver_s']
                queries += rep['queries']
                for k, v in rep['functions'].items():
                    functions[k] = functions.get(k, 0) + (v if isinstance(v, int) else 1)
                for k, v in rep['contracts'].items():
                    contracts[k] = contracts.get(k, 0) + (v if isinstance(v, int) else 1)
                row.update(paths=rep['paths'], obligations=len(rep['obls']), discharged=len(good),
                           seconds=round(rep['time'], 2), status=rep['status'])
                if rep['notes']:
                    row['notes'] = rep['notes'][:3]
                if rep['status'] != 'ok' or not rep['obls'] or g.bounded:
                    if rep['status'] == 'ok' and not rep['obls']:
                        errors.append(f'{gid}: no obligation was generated')
                    bounded.append(gid)
                    row['bounded'] = True
            else:
                row['status'] = s[0]
                if s[1]:
                    row['notes'] = [str(s[1])[:300]]
                bounded.append(gid)
                row['bounded'] = True
        else:
            row['bounded'] = True
            bounded.append(gid)
        if c and c[0] == 'ok':
            row['trials'] = c[1]['done']
        bad = refused.get((gi, ci))
        if fails or bad:
            f = fails[0] if fails else None
            path = os.path.join(rdir, re.sub(r'[^A-Za-z0-9_]+', '_', f'{pid}-{gid}')[:90] + '.json')
            doc = {'property': pid, 'module': f'contracts.{pid.lower()}', 'goal': g.name, 'case_index': ci, 'case': case,
                   'failing_input': f, 'failed_obligations': bad,
                   'replay_with': f'cd /verif && ./replay.sh {path}'}
            with open(path, 'w') as fh:
                json.dump(doc, fh, indent=1, default=str)
            k = [x for x in known if x[0] == g.name and (x[1] in ('', '*') or x[1] == case)]
            if k:
                kf.append(k[0][2])
                row['known_finding'] = k[0][2]
            else:
                what = f['message'] if f else f'obligation {bad[0]["name"]!r} not discharged ({bad[0]["detail"]})'
                violations.append((path, bool(f), f'{gid}: {what}'))
        per_goal.append(row)
    seen_k = set()
    for what in kf:
        if what not in seen_k:
            seen_k.add(what)
            print(f'KNOWN-FINDING: property={pid} {what}')
    for path, found, what in violations:
        print(f'  {what}')
    code = 0
    if violations:
        violations.sort(key=lambda v: not v[1])
        seen = set()
        for path, found, what in violations[:5]:
            print(f'VIOLATION property={pid} replay={path}' + ('' if found else ' no-failing-input-found'))
        code = 1
    elif errors:
        for e in errors:
            print('check error:', e)
        code = 2
    wall = time.time() - t0
    assumed = list(getattr(mod, 'ASSUMED', []))
    common = importlib.import_module('contracts.common')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': LEVEL,
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': f'/verif/check.sh {pid}',
            'trusted_base': common.TRUSTED_BASE + sorted(contracts),
            'back_ends': backends, 'solver_seconds': round(solver_s, 2), 'solver_queries': queries,
            'functions_under_contract': sorted(functions),
            'goals': per_goal,
            'bounded_stand_ins': bounded,
            'bounded_obligations': {'generated': bounded_obls[0], 'discharged': bounded_obls[1]},
            'bounded_trials': trials,
        },
        'assumptions': common.ASSUMPTIONS + assumed,
        'wall_s': round(wall, 2),
        'violations': [w for _, _, w in violations][:20],
    }
    if not a.no_evidence and not a.only:
        with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    print(f'{pid}: {discharged}/{obligations} obligations discharged, {bounded_obls[1]}/{bounded_obls[0]} with a bound, {trials} bounded trials, '
          f'{len(bounded)} goal cases bounded only, {wall:.0f} s, {len(violations)} violations')
    return code


if __name__ == '__main__':
    mp.set_start_method('fork', force=True)
    sys.exit(main())
