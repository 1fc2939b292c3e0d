"""Looks for a failing input on the real code once an obligation has failed:
in-package harnesses (replay/*_verif_test.go) run against /repo's working tree
through go test -overlay.  Their oracles restate the property; they decide
nothing - an obligation has already failed - they only supply the input."""
import json
import os
import re
import subprocess
import sys
import time

# property -> packages whose harness has TestV_<property>
PK = {
    'C01': ['shamir'], 'C02': ['shamir'], 'C03': ['shamir'], 'C04': ['shamir'], 'C05': ['shamir'], 'C06': ['galois', 'shamir'], 'C07': ['galois'],
    'C08': ['krawczyk'], 'C09': ['krawczyk'], 'C10': ['krawczyk'], 'C11': ['csprng', 'randomizer'], 'C12': ['csprng', 'randomizer'],
    'C13': ['shamir', 'krawczyk', 'utils'], 'C14': ['shamir'], 'C15': ['worker'],
}
RACE = {('C14', 'shamir'), ('C13', 'shamir'), ('C13', 'utils')}


def literals(prog, pk):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'const' and x.get('c') == 'int':
                try:
                    v = int(x['v'])
                    if 5 < v < 1 << 22:
                        out.add(v)
                except Exception:
                    pass
            for k, y in x.items():
                if k != 't':
                    walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    if prog is not None:
        for f in prog.funcs.values():
            sh = prog.short(f.name)
            if pk in sh or 'galois.' in sh:
                for b in f.blocks:
                    walk(b.ins)
    return sorted(out)[:80]


def run(prop, pk, seed, tmp, env, repo, verif, budget, prog=None, race=False, tags=''):
    src = os.path.join(verif, 'replay')
    common = open(os.path.join(src, 'common.go.txt')).read()
    rep = {}
    for f in sorted(os.listdir(src)):
        if f.endswith('_test.go') and f.startswith(pk + '_'):
            body = open(os.path.join(src, f)).read()
            dst = os.path.join(tmp, 'rp_%s_%s%s_%s' % (prop, race, tags, f))
            with open(dst, 'w') as h:
                h.write(body.replace('//COMMON', common))
            rep[os.path.join(repo, pk, f)] = dst
    ov = os.path.join(tmp, 'ov_%s_%s_%s%s.json' % (prop, pk, race, tags))
    with open(ov, 'w') as h:
        json.dump({'Replace': rep}, h)
    e = dict(env, VERIF_SEED=str(seed), VERIF_BUDGET=str(int(budget)), VERIF_LITS=','.join(map(str, literals(prog, pk))))
    e['GOFLAGS'] = '-mod=mod'
    args = ['go', 'test', '-vet=off', '-count=1', '-timeout', '%ds' % int(budget * 3 + 240), '-overlay', ov, '-run', '^TestV_%s$' % prop]
    if race:
        args.append('-race')
        e['CGO_ENABLED'] = '1'
    if tags:
        args += ['-tags', tags]
    args.append('./' + pk)
    p = subprocess.Popen(args, cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    return p, args


def collect(p, timeout):
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out + '\n(stopped)'
    m = re.search(r'REPLAY-FAIL (.*)', out)
    if m:
        try:
            return json.loads(m.group(1)), out
        except Exception:
            return dict(what=m.group(1)), out
    if 'WARNING: DATA RACE' in out:
        return dict(what='data race', report=out[out.index('WARNING: DATA RACE'):][:4000]), out
    if 'fatal error: ' in out or '\npanic: ' in out:
        i = out.find('fatal error: ')
        i = i if i >= 0 else out.find('\npanic: ')
        if 'test timed out' not in out and 'out of memory' not in out:
            return dict(what='the process died', report=out[i:i + 3000]), out
    return None, out


def go(prop, seed, tmp, env, repo, verif, log, deadline, prog=None):
    """(failing input or None, transcript)"""
    jobs = []
    left = deadline - time.time()
    budget = max(20, min(100, (left - 120) / 2))
    for pk in PK.get(prop, []):
        variants = [(False, '')]
        if (prop, pk) in RACE:
            variants.append((True, ''))
        if prop == 'C07':
            variants.append((False, 'noasm'))
        for race, tags in variants:
            p, args = run(prop, pk, seed, tmp, env, repo, verif, budget, prog, race, tags)
            jobs.append((pk, race, tags, p, args))
    found, text = None, []
    for pk, race, tags, p, args in jobs:
        f, out = collect(p, max(10, deadline - time.time()))
        text.append(' '.join(args) + '\n' + out[-3000:])
        if f and not found:
            found = dict(f, package=pk, command='go test -run TestV_%s ./%s%s%s' % (prop, pk, ' -race' if race else '', ' -tags ' + tags if tags else ''))
    return found, '\n'.join(text)


def search(prop, pl, failures, seed, tmp, env, repo, verif, log, deadline, prog=None):
    d = os.path.join(verif, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + '.json')
    found, text = None, ''
    for o in failures:
        # an enumeration of the real SSA names the arguments itself
        if o.get('counterexample') is not None:
            found = dict(function=o.get('fn'), arguments=o['counterexample'], what=o.get('solver_output'))
            break
    try:
        f2, text = go(prop, seed, tmp, env, repo, verif, log, deadline, prog)
        if f2:
            found = f2
        elif found is not None:
            log('the enumeration found %s; the harness did not reproduce it' % found)
            found = None if PK.get(prop) else found
    except Exception as e:
        text += '\nreplay: %s' % e
    log('replay: ' + (json.dumps(found)[:600] if found else 'no failing input found'))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, failing_input=found, transcript=text[-6000:], failed_obligations=[
            {k: o.get(k) for k in ('fn', 'kind', 'what', 'pos', 'solver_output', 'formula', 'counterexample') if o.get(k)} for o in failures]), f, indent=1)
    return path, found is not None


if __name__ == '__main__':
    # debugging: run a property's harness alone
    import tempfile
    import shutil
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import check
    t = tempfile.mkdtemp()
    from ir import Prog
    prog = Prog('/tmp/amd64.json') if os.path.exists('/tmp/amd64.json') else None
    r = go(sys.argv[1], int(os.environ.get('VERIF_SEED', '1')), t, check.GOENV, check.REPO, check.VERIF, print, time.time() + float(os.environ.get('B', 160)), prog)
    print(json.dumps(r[0])[:1500] if r[0] else r[1])
    shutil.rmtree(t)
