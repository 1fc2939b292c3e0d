"""check.py PROPERTY: decides one property of /repo's current tree.

1. gossa dumps the SSA of /repo (built from the working tree).
2. Every entry function of the property and every function whose contract a
   proof uses is verified (symbolic execution + SMT), in parallel.
3. All obligations discharged: exit 0.  Otherwise the failed obligations are
   reported; the replay harness looks for a failing input on the real code."""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':          # reproducible proof search
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
import glob
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('GOVER_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import plan
import tables
import gf
from ir import Prog
from spec import Lib

T0 = time.time()
BUDGET = 600.0          # seconds for the proof part
GOENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off',
             GOMODCACHE='/root/go/pkg/mod', GOCACHE=os.environ.get('GOCACHE', '/root/.cache/go-build'))


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


class BuildError(Exception):
    pass


def build_gossa(tmp):
    out = os.path.join(tmp, 'gossa')
    src = os.path.join(tmp, 'gossasrc')
    shutil.copytree(os.path.join(VERIF, 'gossa'), src)
    r = subprocess.run(['go', 'build', '-o', out, '.'], cwd=src, env=GOENV, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('gossa: ' + r.stderr)
    return out


def dump(tmp, gossa, name, args=()):
    out = os.path.join(tmp, name + '.json')
    r = subprocess.run([gossa, *args, '-o', out, REPO, './...'], cwd=REPO, env=GOENV, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('the SSA of /repo (%s) cannot be built: %s' % (name, r.stderr[-2000:]))
    return out


# ---------------------------------------------------------------- one function
def verify_one(prog, lib, prop, name, q, limit):
    """child process"""
    t = time.time()
    res = dict(name=name, obs=[], used=[], inlined=[], trusted=[], error=None, time=0.0, checks=0, inv=0, dropped=0, solver=0.0)
    try:
        from exec import Exec
        from prove import Prover
        full = [n for n in prog.funcs if prog.short(n) == name]
        spec = lib.specs.get(name)
        if not full or not prog.funcs[full[0]].blocks:
            raise Exception('no body')
        if spec is None:
            raise Exception('no contract')
        f = prog.funcs[full[0]]
        if len(f.params) != len(spec.params) or len(f.results) != len(spec.results):
            raise Exception('the signature no longer matches the contract')
        if spec.method == 'finite':
            import finite
            names, fails, n = finite.check(prog, spec, full[0], lib.tables, prop)
            for x in names:
                o = dict(fn=name, kind='post', what=x, pos='', status='fail' if x in fails else 'ok', backend='enumeration(%d inputs)' % n, time=0.0)
                if x in fails:
                    o['solver_output'] = 'counterexample: arguments %s, result %s' % fails[x]
                    o['counterexample'] = list(fails[x][0])
                res['obs'].append(o)
        else:
            ex = Exec(prog, lib, prop)
            root = ex.verify(full[0], spec)
            p = Prover(root, deadline=time.time() + limit * 0.8)
            r = p.run()
            res['obs'] = r.obs
            res['used'] = sorted(ex.usedcontracts)
            res['inlined'] = sorted(ex.inlined)
            res['trusted'] = sorted(ex.trusted)
            res['checks'], res['inv'], res['dropped'], res['solver'] = r.checks, len(r.inv), r.dropped, r.time
            # a loop or return whose path condition is contradictory would prove anything
            for k, v in r.covers.items():
                if v and all(x == 'unsat' for x in v):
                    res['obs'].append(dict(fn=name, kind='vacuity', what='%s is reachable' % k, pos='', status='fail', backend='z3', time=0.0,
                                           solver_output='path condition unsatisfiable'))
            if not r.covers.get('return'):
                res['obs'].append(dict(fn=name, kind='vacuity', what='the function returns', pos='', status='fail', backend='z3', time=0.0, solver_output='no return reached'))
            res['assumes'] = [c.text for c in spec.of('assumes', prop)]
    except BaseException as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('GOVER_TB'):
            traceback.print_exc()
    res['time'] = time.time() - t
    for o in res['obs']:
        o['labels'] = sorted(o['labels']) if isinstance(o.get('labels'), set) else o.get('labels')
        o['time'] = round(o['time'], 3)
    q.send(res)
    q.close()


def run_jobs(prog, lib, prop, names, limit, deadline, jobs=8):
    """verify a set of functions in parallel, following used contracts"""
    results = {}
    pend = list(names)
    seen = set(pend)
    running = {}
    while pend or running:
        while pend and len(running) < jobs:
            n = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=verify_one, args=(prog, lib, prop, n, b, limit))
            p.start()
            b.close()
            running[n] = (p, a, time.time())
        time.sleep(0.02)
        for n in list(running):
            p, a, t = running[n]
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(name=n, obs=[], used=[], inlined=[], trusted=[], error='the prover process died', time=time.time() - t, checks=0, inv=0, dropped=0, solver=0.0)
            elif time.time() - t > limit or time.time() > deadline:
                p.kill()
                r = dict(name=n, obs=[], used=[], inlined=[], trusted=[], error='time limit', time=time.time() - t, checks=0, inv=0, dropped=0, solver=0.0)
            elif not p.is_alive() and not a.poll():
                r = dict(name=n, obs=[], used=[], inlined=[], trusted=[], error='the prover process died', time=time.time() - t, checks=0, inv=0, dropped=0, solver=0.0)
            if r is None:
                continue
            p.join(5)
            if p.is_alive():
                p.kill()
            a.close()
            del running[n]
            results[n] = r
            bad = [o for o in r['obs'] if o['status'] != 'ok']
            log('%-50s %4d obligations %3d failed  %6.1fs %s' % (n, len(r['obs']), len(bad), r['time'], r['error'] or ''))
            for u in r['used']:
                if u not in seen:
                    seen.add(u)
                    pend.append(u)
    return results


def okres(r):
    return not r['error'] and all(o['status'] == 'ok' for o in r['obs'])


def prove(prog, lib, prop, entries, deadline, limit=280):
    """entries must be proved; a helper contract that cannot be proved is dropped
    and the helper's body is used in its place"""
    present = [n for n in entries if any(prog.short(f) == n for f in prog.funcs)]
    results = run_jobs(prog, lib, prop, present, limit, deadline)
    rounds = 0
    while rounds < 3 and time.time() < deadline - 30:
        rounds += 1
        used = set(u for r in results.values() for u in r['used'])
        badh = [n for n in used if n in results and n not in entries and not okres(results[n])]
        # helpers whose precondition a caller does not meet
        for r in results.values():
            for o in r['obs']:
                if o['status'] != 'ok' and o['kind'] == 'pre':
                    h = o['what'].split(' requires ')[0].split(' panics ')[0]
                    if h in lib.specs and h not in entries and h not in badh and not lib.specs[h].disabled:
                        badh.append(h)
        badh = [h for h in badh if not lib.specs[h].disabled]
        if not badh:
            break
        for h in badh:
            lib.specs[h].disabled = True
            log('contract of helper %s is not used (its body is)' % h)
        redo = set(n for n, r in results.items() if set(r['used']) & set(badh))
        for h in badh:
            results.pop(h, None)
        redo -= set(badh)
        # keep what else is still needed
        new = run_jobs(prog, lib, prop, sorted(redo), limit, deadline)
        results.update(new)
    # helpers that nothing uses any more do not matter
    need, work = set(), [n for n in present]
    while work:
        n = work.pop()
        if n in need or n not in results:
            continue
        need.add(n)
        work.extend(results[n]['used'])
    return {n: results[n] for n in need}, [n for n in entries if n not in present]


def lean(names, tmp, deadline):
    """the algebra the contracts use as axioms, proved in Lean over any field"""
    t = time.time()
    src = os.path.join(VERIF, 'lean', 'Interp.lean')
    try:
        r = subprocess.run(['lean', src], cwd=tmp, capture_output=True, text=True, timeout=max(60, deadline - t), env=dict(os.environ, HOME='/root'))
        out, rc = r.stdout + r.stderr, r.returncode
    except (OSError, subprocess.TimeoutExpired) as e:
        out, rc = str(e), -1
    obs = []
    for n in names:
        m = re.search(r"'Shamir\.%s' depends on axioms: \[([^\]]*)\]" % n, out)
        ok = rc == 0 and m is not None and set(m.group(1).replace(',', ' ').split()) <= {'propext', 'Classical.choice', 'Quot.sound'}
        obs.append(dict(fn='lean/Interp.lean', kind='lemma', what='theorem Shamir.' + n, pos='', status='ok' if ok else 'fail', backend='lean',
                        time=round(time.time() - t, 1), solver_output='' if ok else out[-1500:]))
    return obs


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pl = plan.PLAN[prop]
    tmp = tempfile.mkdtemp(prefix='gover.')
    try:
        rc = run(prop, tier, seed, pl, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, pl, tmp):
    failures = []          # (what, detail)
    prog = None
    results = {}
    missing = []
    extra = []
    tabs = {}
    nself = 0
    if tier == 'thorough':
        limit, budget = 600, 660
    else:
        limit, budget = 420, BUDGET
    deadline = T0 + budget
    try:
        gossa = build_gossa(tmp)
        js = dump(tmp, gossa, 'amd64', ['-client', os.path.join(VERIF, 'clients')] if pl.get('client') else [])
        prog = Prog(js)
        lib = Lib(prog, sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.spec'))), prop)
        lib.tables = tabs = tables.analyse(prog)
        nself = gf.selfcheck()
        if pl.get('lean'):
            extra += lean(pl['lean'], tmp, deadline)
            failures += [o for o in extra if o['status'] != 'ok']
        results, missing = prove(prog, lib, prop, pl['entries'], deadline, limit)
        for n in missing:
            failures.append(dict(fn=n, kind='missing', what='entry point %s exists' % n, solver_output='not found in the SSA of /repo'))
        for n, r in sorted(results.items()):
            if r['error']:
                failures.append(dict(fn=n, kind='error', what='verification of ' + n, solver_output=r['error']))
            for o in r['obs']:
                if o['status'] != 'ok':
                    failures.append(o)
        for m in pl.get('extra', []):
            mod = __import__(m)
            obs = mod.check(prop=prop, prog=prog, lib=lib, tmp=tmp, gossa=gossa, dump=dump, deadline=deadline, log=log, goenv=GOENV, repo=REPO, verif=VERIF)
            extra += obs
            failures += [o for o in obs if o['status'] != 'ok']
    except BuildError as e:
        failures.append(dict(fn='', kind='build', what='/repo can be loaded', solver_output=str(e)))
    evidence(prop, tier, seed, pl, results, extra, failures, tabs, nself)
    if not failures:
        log('%s holds: %d obligations discharged' % (prop, sum(len(r['obs']) for r in results.values()) + len(extra)))
        return 0
    for o in failures:
        log('FAILED [%s] %s: %s  (%s)' % (o['kind'], o.get('fn', ''), o['what'], str(o.get('solver_output', ''))[:200]))
    import replay
    path, found = replay.search(prop, pl, failures, seed, tmp, GOENV, REPO, VERIF, log, T0 + 840, prog)
    print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'), flush=True)
    return 1


TRUST = [
    'go/packages and go/ssa (x/tools) translate the Go source to SSA faithfully; gossa dumps that SSA',
    'gover (symbolic execution, contract evaluation, invariant inference) generates sound obligations',
    'Lean 4 and Mathlib for the lemmas in lean/Interp.lean; their transcription to the axioms of gover/logic.py',
    'z3 5.3 (python3-vt) and, as a fallback, cvc5 1.1.2: an "unsat" answer is trusted',
    'contracts of external functions in gover/ext.py (listed under external)',
    'int is 64 bits; a slice has at most 2^47 elements; allocation succeeds; receivers and generators passed in are not nil',
    'math/rand.Read returns a nil error and fills its buffer; math/rand.Perm returns a permutation',
]


def others(extra):
    n = {}
    for o in extra:
        k = (o['fn'], o['kind'], o['backend'], o['status'])
        n[k] = n.get(k, 0) + 1
    return [dict(function=f, kind=k, backend=b, status=s, obligations=c) for (f, k, b, s), c in sorted(n.items(), key=str)]


def evidence(prop, tier, seed, pl, results, extra, failures, tabs, nself):
    obs = [o for r in results.values() for o in r['obs']] + extra
    be = {}
    for o in obs:
        if o['status'] == 'ok':
            be[o['backend']] = be.get(o['backend'], 0) + 1
    ev = dict(
        property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - T0, 1),
        coverage=dict(
            obligations=len(obs), discharged=sum(1 for o in obs if o['status'] == 'ok'),
            checker_cmd='python3-vt /verif/gover/check.py ' + prop,
            trusted_base=TRUST + sorted(set('external: ' + t for r in results.values() for t in r['trusted'] if not t.startswith('table '))),
            assumed=sorted(set('%s assumes %s' % (r['name'], a) for r in results.values() for a in r.get('assumes', []))),
            backends=be,
            solver_s=round(sum(r['solver'] for r in results.values()), 1),
            solver_calls=sum(r['checks'] for r in results.values()),
            invariants_inferred=sum(r['inv'] for r in results.values()),
            functions=[dict(name=n, entry=n in pl['entries'], obligations=len(r['obs']), discharged=sum(1 for o in r['obs'] if o['status'] == 'ok'),
                            contracts_used=r['used'], bodies_inlined=r['inlined'], seconds=round(r['time'], 1)) for n, r in sorted(results.items())],
            tables={k: dict(entries=v['n'], equals=v['roles'], constant=v['const']) for k, v in tabs.items()},
            field_facts_checked=nself,
            other=others(extra),
            failed=[dict(fn=o.get('fn'), kind=o['kind'], what=o['what']) for o in failures],
        ))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
